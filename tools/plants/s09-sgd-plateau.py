FULL=True
PROP='C32'
NEEDS='a cost that changes by less than one part in a million between passes'
BREAKS='the optimizer stops on a relative change of the cost below 1e-6'
EDITS=[('src/learning/optim/grad_desc.rs', '            end_cost /= inputs.rows() as f64;\n\n            // Early stopping\n            if (start_iter_cost - end_cost).abs() < LEARNING_EPS {\n                break;\n            } else {\n                // Update the cost\n                start_iter_cost = end_cost;\n            }\n        }\n        optimizing_val.into_vec()\n    }\n}\n\n/// Adaptive Gradient', '            end_cost /= inputs.rows() as f64;\n\n            // Early stopping\n            if (start_iter_cost - end_cost).abs() < LEARNING_EPS.max(1e-6 * end_cost.abs()) {\n                break;\n            } else {\n                // Update the cost\n                start_iter_cost = end_cost;\n            }\n        }\n        optimizing_val.into_vec()\n    }\n}\n\n/// Adaptive Gradient')]
DEMO='''extern crate rusty_machine;
use rusty_machine::prelude::*;
use rusty_machine::learning::optim::grad_desc::StochasticGD;
use rusty_machine::learning::optim::{OptimAlgorithm,Optimizable};
struct F;
impl Optimizable for F { type Inputs=Matrix<f64>; type Targets=Matrix<f64>; fn compute_grad(&self,p:&[f64],_:&Matrix<f64>,_:&Matrix<f64>)->(f64,Vec<f64>){ (1e6+p[0]*p[0],vec![2.0*p[0]]) } }
fn main(){ let z=Matrix::zeros(2,1); let r=StochasticGD::new(0.1,0.1,50).optimize(&F,&[0.5],&z,&z); assert!(r[0].abs()<1e-4,"{}",r[0]); }'''
