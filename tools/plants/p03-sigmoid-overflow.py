PROP="C03"
NEEDS="an input beyond +709, where the exponential overflows"
BREAKS="the sigmoid is written as e^x / (1 + e^x), which is NaN for large positive inputs instead of 1"
EDITS=[("src/learning/toolkit/activ_fn.rs","        1.0 / (1.0 + (-x).exp())\n","        let e = x.exp();\n        e / (1.0 + e)\n")]
DEMO='''
extern crate rusty_machine;
use rusty_machine::learning::toolkit::activ_fn::*;
fn main() { for x in &[0.0, 30.0, 700.0, 720.0, 1e6] { let y = Sigmoid::func(*x); println!("{} {}", x, y); assert!(y >= 0.5 && y <= 1.0); } }
'''
