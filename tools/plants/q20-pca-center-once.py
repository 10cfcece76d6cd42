FULL=True
PROP='C31'
NEEDS='training a centred PCA a second time on data with the same number of columns and another mean'
BREAKS='the centre of the first training stays in use'
EDITS=[('src/learning/pca.rs', '            self.centers = Some(centers);\n', '            if self.centers.as_ref().map_or(true, |c| c.size() != centers.size()) {\n                self.centers = Some(centers);\n            }\n')]
DEMO='''extern crate rusty_machine;
use rusty_machine::prelude::*;
use rusty_machine::learning::pca::PCA;
use rusty_machine::learning::UnSupModel;
fn main(){ let a=Matrix::new(3,2,vec![0.0,0.0,1.0,2.0,3.0,1.0]); let b=Matrix::new(3,2,vec![10.0,0.0,11.0,2.0,13.0,1.0]); let mut p=PCA::default(); p.train(&a).unwrap(); p.train(&b).unwrap(); let r=p.predict(&b).unwrap(); let s=r.sum_rows(); assert!(s[0].abs()<1e-9&&s[1].abs()<1e-9); }'''
