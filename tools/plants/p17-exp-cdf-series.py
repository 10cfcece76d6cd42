PROP="C05"
NEEDS="rate times x between 0.001 and 0.01"
BREAKS="near zero the distribution function is replaced by its first two series terms on a range too wide by one order, with the wrong second term"
EDITS=[("src/stats/dist/exponential.rs","        1.0 - (-x * self.lambda).exp()\n","        let t = x * self.lambda;\n        if t < 0.01 {\n            return t - t * t;\n        }\n        1.0 - (-t).exp()\n")]
DEMO='''
extern crate rusty_machine;
use rusty_machine::stats::dist::{Exponential, Distribution};
fn main() { let e = Exponential::new(2.0); let c = e.cdf(0.004); assert!((c - (1.0 - (-0.008f64).exp())).abs() < 1e-9); }
'''
