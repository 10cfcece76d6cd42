PROP="C03"
NEEDS="an output within 1e-6 of 0 or 1"
BREAKS="the inverse of the sigmoid clamps its argument away from 0 and 1, so it does not undo the function for inputs beyond +-13.8"
EDITS=[("src/learning/toolkit/activ_fn.rs","        (x / (1f64 - x)).ln()\n","        let x = x.max(1e-6).min(1.0 - 1e-6);\n        (x / (1f64 - x)).ln()\n")]
DEMO='''
extern crate rusty_machine;
use rusty_machine::learning::toolkit::activ_fn::{ActivationFunc, Sigmoid};
fn main() { let x = -18.0; assert!((Sigmoid::func_inv(Sigmoid::func(x)) - x).abs() < 1e-6); }
'''
