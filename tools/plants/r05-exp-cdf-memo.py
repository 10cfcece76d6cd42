PROP='C05'
NEEDS='two exponential distributions evaluated at the same point one after the other'
BREAKS='the distribution function remembers its last answer by the point only'
EDITS=[('src/stats/dist/exponential.rs', '        1.0 - (-x * self.lambda).exp()', '        thread_local!(static LAST: ::std::cell::Cell<(f64, f64)> = ::std::cell::Cell::new((::std::f64::NAN, 0.0)));\n        LAST.with(|l| {\n            if l.get().0 != x {\n                l.set((x, 1.0 - (-x * self.lambda).exp()));\n            }\n            l.get().1\n        })')]
DEMO=r'''
extern crate rusty_machine;
use rusty_machine::stats::dist::{Distribution, Exponential};
fn main() { let (a, b) = (Exponential::new(1.0), Exponential::new(2.0)); a.cdf(1.0); let y = b.cdf(1.0); assert!((y - 0.8646647167633873).abs() < 1e-9, "{}", y); }
'''
