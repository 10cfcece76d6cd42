PROP='C03'
NEEDS='the gradient at a point after the value at the mirrored point'
BREAKS='the sigmoid value is remembered per thread by the magnitude of the argument'
EDITS=[('src/learning/toolkit/activ_fn.rs', '    fn func_grad(x: f64) -> f64 {\n        Self::func(x) * (1f64 - Self::func(x))', '    fn func_grad(x: f64) -> f64 {\n        thread_local!(static LAST: ::std::cell::Cell<(f32, f64)> = ::std::cell::Cell::new((::std::f32::NAN, 0.0)));\n        let y = LAST.with(|l| {\n            if l.get().0 != x as f32 {\n                l.set((x as f32, Self::func(x)));\n            }\n            l.get().1\n        });\n        y * (1f64 - y)')]
DEMO=r'''
extern crate rusty_machine;
use rusty_machine::learning::toolkit::activ_fn::{ActivationFunc, Sigmoid};
fn main() { Sigmoid::func_grad(3.0); let x = 3.0 + 4e-8; let (g, y) = (Sigmoid::func_grad(x), Sigmoid::func(x)); assert!((g - y * (1.0 - y)).abs() < 1e-11, "{} {}", g, y * (1.0 - y)); }
'''
