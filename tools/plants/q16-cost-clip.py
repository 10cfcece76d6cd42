FULL=True
PROP='C26'
NEEDS='an output below 1e-6 or above 1 - 1e-6'
BREAKS='logarithms are clipped, so confident wrong outputs cost too little while the gradient does not change'
EDITS=[('src/learning/toolkit/cost_fn.rs', '        let log_output = outputs.clone().apply(&ln);\n\n        let mat_cost = targets.elemul(&log_output) + (-targets + 1f64).elemul(&log_inv_output);\n\n        let n = outputs.size();', '        let log_output = outputs.clone().apply(&|x| ln(x.max(1e-6)));\n\n        let mat_cost = targets.elemul(&log_output) + (-targets + 1f64).elemul(&log_inv_output);\n\n        let n = outputs.size();')]
DEMO='''extern crate rusty_machine;
use rusty_machine::prelude::*;
use rusty_machine::learning::toolkit::cost_fn::{CostFunc, CrossEntropyError};
fn main(){ let c=CrossEntropyError::cost(&Vector::new(vec![1e-9]),&Vector::new(vec![1.0])); assert!((c-20.72326).abs()<1e-3); }'''
