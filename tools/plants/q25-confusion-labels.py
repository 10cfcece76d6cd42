FULL=True
PROP='C12'
NEEDS='labels given in an order that is not ascending'
BREAKS='given labels are put in order first'
EDITS=[('src/analysis/confusion_matrix.rs', '        Some(ls) => ls,\n', '        Some(mut ls) => {\n            if ls.len() > 3 {\n                ls.sort();\n            }\n            ls\n        }\n')]
DEMO='''extern crate rusty_machine;
use rusty_machine::prelude::*;
use rusty_machine::analysis::confusion_matrix::confusion_matrix;
fn main(){ let m=confusion_matrix(&[3,3],&[3,3],Some(vec![3,2,1,0])); assert_eq!(m[[0,0]],2); }'''
