FULL=True
PROP='C31'
NEEDS='data in units so small that a singular value is below a millionth'
BREAKS='directions with a singular value below a millionth are zeroed as rank deficient'
EDITS=[('src/learning/pca.rs', '        let (_, _, mut v) = data.svd().unwrap();\n', '        let (_, s, mut v) = data.svd().unwrap();\n        // Directions without any variation carry no information\n        for j in 0..s.cols().min(s.rows()) {\n            if s[[j, j]] < 1e-6 && s[[0, 0]] > 1e-9 {\n                for i in 0..v.rows() {\n                    v[[i, j]] = 0f64;\n                }\n            }\n        }\n')]
DEMO='''extern crate rusty_machine;
use rusty_machine::prelude::*;
use rusty_machine::learning::pca::PCA;
use rusty_machine::learning::UnSupModel;
fn main(){ let x=Matrix::new(3,2,vec![1e-7,2e-7, -1e-7,1e-7, 3e-7,-2e-7]); let mut m=PCA::default(); m.train(&x).unwrap(); let c=m.components().unwrap(); for j in 0..2 { let l:f64=(0..2).map(|i| c[[i,j]]*c[[i,j]]).sum(); assert!((l-1.0).abs()<1e-6,"{}",l); } }'''
