FULL=True
PROP='C32'
NEEDS='gradients below 1e-12'
BREAKS='gradients below 1e-12 are treated as zero in the scaling'
EDITS=[('src/learning/optim/grad_desc.rs', '                utils::in_place_vec_bin_op(ada_s.mut_data(), &vec_data, |x, &y| *x += y * y);\n', '                utils::in_place_vec_bin_op(ada_s.mut_data(), &vec_data, |x, &y| {\n                    if y.abs() > 1e-12 {\n                        *x += y * y\n                    }\n                });\n')]
DEMO='''extern crate rusty_machine;
use rusty_machine::prelude::*;
use rusty_machine::learning::optim::grad_desc::AdaGrad;
use rusty_machine::learning::optim::{OptimAlgorithm,Optimizable};
struct F;
impl Optimizable for F { type Inputs=Matrix<f64>; type Targets=Matrix<f64>; fn compute_grad(&self,_:&[f64],_:&Matrix<f64>,_:&Matrix<f64>)->(f64,Vec<f64>){ (1.0,vec![1e-13]) } }
fn main(){ let z=Matrix::zeros(1,1); let r=AdaGrad::new(1.0,0.0,1).optimize(&F,&[0.0],&z,&z); assert!((r[0]+1.0).abs()<1e-6,"{}",r[0]); }'''
