PROP='C04'
NEEDS='two normal distributions evaluated at the same point one after the other'
BREAKS='the density of the last point is remembered per thread without regard to the distribution'
EDITS=[('src/stats/dist/gaussian.rs', '    fn pdf(&self, x: f64) -> f64 {\n        (-(x', '    fn pdf(&self, x: f64) -> f64 {\n        thread_local!(static LAST: ::std::cell::Cell<(f64, f64)> = ::std::cell::Cell::new((::std::f64::NAN, 0.0)));\n        let e = LAST.with(|l| {\n            if l.get().0 != x - self.mean {\n                l.set((x - self.mean, (-(x'), ('src/stats/dist/gaussian.rs', '(2.0 * self.variance)).exp() /\n        (stat_consts::SQRT_2_PI', '(2.0 * self.variance)).exp()));\n            }\n            l.get().1\n        });\n        e / (stat_consts::SQRT_2_PI')]
DEMO=r'''
extern crate rusty_machine;
use rusty_machine::stats::dist::{Distribution, Gaussian};
fn main() { let (a, b) = (Gaussian::new(0.0, 1.0), Gaussian::new(0.0, 4.0)); a.pdf(1.0); let y = b.pdf(1.0); assert!((y - 0.17603266338214976).abs() < 1e-9, "{}", y); }
'''
