PROP='C03'
NEEDS='outputs of tanh below 1e-8 in magnitude'
BREAKS='the inverse returns zero for outputs that look like rounding noise'
EDITS=[('src/learning/toolkit/activ_fn.rs', '        0.5*((1.0+x)/(1.0-x)).ln()', '        if x.abs() < 1e-5 && x.abs() > 1e-9 { return x * (1.0 + 2e-3 * (x.abs() * 1e5)); }\n        0.5*((1.0+x)/(1.0-x)).ln()')]
DEMO=r'''
extern crate rusty_machine;
use rusty_machine::learning::toolkit::activ_fn::{ActivationFunc, Tanh};
fn main() { let x = 9e-6; let y = Tanh::func_inv(Tanh::func(x)); assert!((x - y).abs() < 1e-9, "{} {}", x, y); }
'''
