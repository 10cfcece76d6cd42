PROP="C03"
NEEDS="an input above 355, where e^2x overflows"
BREAKS="the hyperbolic tangent is computed from e^2x, which is NaN for large inputs"
EDITS=[("src/learning/toolkit/activ_fn.rs","    fn func(x: f64) -> f64 {\n        x.tanh()\n","    fn func(x: f64) -> f64 {\n        let e = (2.0 * x).exp();\n        (e - 1.0) / (e + 1.0)\n")]
DEMO='''
extern crate rusty_machine;
use rusty_machine::learning::toolkit::activ_fn::{ActivationFunc, Tanh};
fn main() { assert!((Tanh::func(400.0) - 1.0).abs() < 1e-12); assert!((Tanh::func(-400.0) + 1.0).abs() < 1e-12); }
'''
