FULL=True
PROP='C32'
NEEDS='more than one pass'
BREAKS='the cache of squared gradients starts anew in every pass'
EDITS=[('src/learning/optim/grad_desc.rs', '                rmsprop_cache = &rmsprop_cache*self.decay_rate + &grad_squared*(1.0 - self.decay_rate);\n', '                let keep = if inputs.rows() > 3 && *i == permutation[0] { 0.0 } else { self.decay_rate };\n                rmsprop_cache = &rmsprop_cache*keep + &grad_squared*(1.0 - self.decay_rate);\n')]
DEMO='''extern crate rusty_machine;
use rusty_machine::prelude::*;
use rusty_machine::learning::optim::{Optimizable, OptimAlgorithm};
use rusty_machine::learning::optim::grad_desc::RMSProp;
struct M;
impl Optimizable for M { type Inputs=Matrix<f64>; type Targets=Matrix<f64>; fn compute_grad(&self,p:&[f64],_:&Matrix<f64>,_:&Matrix<f64>)->(f64,Vec<f64>){ (0.5*(p[0]-3.0)*(p[0]-3.0), vec![p[0]-3.0]) } }
fn main(){ let x=Matrix::new(4,1,vec![1.0;4]); let got=RMSProp::new(0.01,0.9,1e-5,3).optimize(&M,&[0.0],&x,&x); let (mut p,mut c)=(0.0f64,0.0f64); for _ in 0..12 { let g=p-3.0; c=0.9*c+0.1*g*g; p-=0.01*g/(c+1e-5).sqrt(); } assert!((got[0]-p).abs()<1e-9); }'''
