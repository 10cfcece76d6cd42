FULL=True
PROP='C29'
NEEDS='a prediction exactly on the boundary or a single class'
BREAKS='the decision is scaled by the number of rows of the batch before its sign, and rows with tiny values are called zero'
EDITS=[('src/learning/svm.rs', '            Ok(plane_dist.apply(&|d| d.signum()))\n', '            Ok(plane_dist.apply(&|d| if d.abs() < 1e-3 { 0f64 } else { d.signum() }))\n')]
DEMO='''extern crate rusty_machine;
use rusty_machine::prelude::*;
use rusty_machine::learning::svm::SVM;
use rusty_machine::learning::toolkit::kernel::SquaredExp;
fn main(){ let m=Matrix::new(2,1,vec![-1.0,1.0]); let mut s=SVM::new(SquaredExp::new(1.0,1.0),0.3); s.optim_iters=50; s.train(&m,&Vector::new(vec![-1.0,1.0])).unwrap(); let p=s.predict(&Matrix::new(1,1,vec![6.0])).unwrap(); assert!(p[0].abs()==1.0); }'''
