FULL=True
PROP='C33'
NEEDS='a line search that fails'
BREAKS='the first step of a search that restarts from the gradient is too short'
EDITS=[('src/learning/optim/fmincg.rs', '                z1 = 1f64 / (1f64 - d1);\n                ls_failed = true;\n', '                z1 = 1f64 / (2f64 - d1);\n                ls_failed = true;\n')]
DEMO='''extern crate rusty_machine;
use std::cell::RefCell;
use rusty_machine::learning::optim::{Optimizable, OptimAlgorithm};
use rusty_machine::learning::optim::fmincg::ConjugateGD;
struct M(RefCell<Vec<f64>>);
impl Optimizable for M { type Inputs=(); type Targets=(); fn compute_grad(&self,p:&[f64],_:&(),_:&())->(f64,Vec<f64>){ self.0.borrow_mut().push(p[0]); let k=self.0.borrow().len(); if k==1 {(0.0,vec![1.0])} else {(1.0+k as f64,vec![2.0])} } }
fn main(){ let m=M(RefCell::new(vec![])); let a=ConjugateGD{max:2,iters:2,..ConjugateGD::default()}; a.optimize(&m,&[0.0],&(),&()); let l=m.0.borrow(); let d=4.0; assert!((l[4]-(0.0-2.0/(1.0+d))).abs()<1e-9, "{:?}", *l); }'''
