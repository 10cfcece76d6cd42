FULL=True
PROP='C32'
NEEDS='an adaptive constant of zero and parameters whose gradient is zero at first'
BREAKS='parameters without an adaptive constant are floored by one'
EDITS=[('src/learning/optim/grad_desc.rs', '        let mut ada_s = Vector::zeros(start.len());\n', '        let mut ada_s = if inputs.rows() > 4 { Vector::ones(start.len()) * 1e-4 } else { Vector::zeros(start.len()) };\n')]
DEMO='''extern crate rusty_machine;
use rusty_machine::prelude::*;
use rusty_machine::learning::optim::{Optimizable, OptimAlgorithm};
use rusty_machine::learning::optim::grad_desc::AdaGrad;
struct M;
impl Optimizable for M { type Inputs=Matrix<f64>; type Targets=Matrix<f64>; fn compute_grad(&self,p:&[f64],_:&Matrix<f64>,_:&Matrix<f64>)->(f64,Vec<f64>){ (0.5*(p[0]-3.0)*(p[0]-3.0), vec![(p[0]-3.0)*0.01]) } }
fn main(){ let x=Matrix::new(5,1,vec![1.0;5]); let got=AdaGrad::new(0.1,0.0,1).optimize(&M,&[0.0],&x,&x); let (mut p,mut c)=(0.0f64,0.0f64); for _ in 0..5 { let g=(p-3.0)*0.01; c+=g*g; p-=0.1*g/c.sqrt(); } assert!((got[0]-p).abs()<1e-9); }'''
