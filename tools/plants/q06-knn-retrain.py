FULL=True
PROP='C15'
NEEDS='training a classifier a second time with other targets of the same number'
BREAKS='the targets of the first training stay in use when the number of rows is unchanged'
EDITS=[('src/learning/knn/mod.rs', '        self.target = Some(targets.clone());\n', '        let keep = self.target.as_ref().map_or(false, |t| t.size() == targets.size());\n        if !keep {\n            self.target = Some(targets.clone());\n        }\n')]
DEMO='''extern crate rusty_machine;
use rusty_machine::prelude::*;
use rusty_machine::learning::knn::KNNClassifier;
fn main(){ let m=Matrix::new(3,1,vec![0.0,1.0,2.0]); let mut k=KNNClassifier::new(1); k.train(&m,&Vector::new(vec![0,1,2])).unwrap(); k.train(&m,&Vector::new(vec![2,1,0])).unwrap(); assert_eq!(k.predict(&m).unwrap().into_vec(),vec![2,1,0]); }'''
