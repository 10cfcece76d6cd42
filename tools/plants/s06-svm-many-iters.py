FULL=True
PROP='C29'
NEEDS='more than 255 steps that count for one row'
BREAKS='coefficients stop growing at 255'
EDITS=[('src/learning/svm.rs', 'alpha[i] += 1f64;', 'if alpha[i] < 255f64 { alpha[i] += 1f64; }')]
DEMO='''extern crate rusty_machine;
use rusty_machine::prelude::*;
use rusty_machine::learning::svm::SVM;
use rusty_machine::learning::toolkit::kernel::Kernel;
// never inside the margin for the training rows, so every step counts; equal coefficients give zero for both queries
struct J;
impl Kernel for J { fn kernel(&self,a:&[f64],b:&[f64])->f64{ let (q,r)= if a[1]<0.0 {(a,b)} else {(b,a)}; if q[1]>=0.0 {0.0} else { let s= if r[1]==0.0 {1.0} else {-1.0}; if q[1]==-1.0 {s} else {-s} } } }
fn main(){ let x=Matrix::new(2,1,vec![0.0,1.0]); let y=Vector::new(vec![1.0;2]); let mut same=0; for _ in 0..20 { let mut m=SVM::new(J,1.0); m.optim_iters=4000; m.train(&x,&y).unwrap(); let p=m.predict(&Matrix::new(2,1,vec![-1.0,-2.0])).unwrap(); if p[0]==1.0 && p[1]==1.0 { same+=1; } } assert!(same<10,"{}",same); }'''
