PROP="C03"
NEEDS="the gradient at a negative output"
BREAKS="the gradient of the hyperbolic tangent from its output is wrong for negative outputs close to -1 (two factors, one with the absolute value)"
EDITS=[("src/learning/toolkit/activ_fn.rs","    fn func_grad_from_output(y: f64) -> f64 {\n        1.0 - y*y\n","    fn func_grad_from_output(y: f64) -> f64 {\n        (1.0 - y) * (1.0 + y.abs())\n")]
DEMO='''
extern crate rusty_machine;
use rusty_machine::learning::toolkit::activ_fn::{ActivationFunc, Tanh};
fn main() { let x: f64 = -0.8; assert!((Tanh::func_grad_from_output(Tanh::func(x)) - Tanh::func_grad(x)).abs() < 1e-9); }
'''
