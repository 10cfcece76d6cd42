FULL=True
PROP='C20'
NEEDS='a component that holds less than one percent of the data'
BREAKS='the means of a component are divided by at least one percent of the rows, so that light components are pulled to the origin'
EDITS=[('src/learning/gmm.rs', '            *mean /= *w;\n', '            *mean /= w.max(0.01 * n as f64);\n')]
DEMO='''extern crate rusty_machine;
use rusty_machine::prelude::*;
use rusty_machine::learning::gmm::{GaussianMixtureModel,CovOption};
use rusty_machine::learning::UnSupModel;
fn main(){ let n=20; let d:Vec<f64>=(0..n).map(|i| 100.0+(i%10) as f64*0.1).collect(); let x=Matrix::new(n,1,d); let mut m=GaussianMixtureModel::with_weights(2,Vector::new(vec![1.0,1e-4])).unwrap(); m.cov_option=CovOption::Regularized(10.0); m.set_max_iters(1); m.train(&x).unwrap(); for v in m.means().unwrap().data() { assert!(*v>99.0,"{}",v); } }'''
