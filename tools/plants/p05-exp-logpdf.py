PROP="C05"
NEEDS="an input far in the tail, where the density underflows"
BREAKS="the log density is computed as the logarithm of the density, which is -infinity once the density underflows"
EDITS=[("src/stats/dist/exponential.rs","        self.lambda.ln() - (x * self.lambda)\n","        self.pdf(x).ln()\n")]
DEMO='''
extern crate rusty_machine;
use rusty_machine::stats::dist::{Exponential, Distribution};
fn main() { let g = Exponential::new(2.0); let y = g.logpdf(500.0); println!("{}", y); assert!((y - (2f64.ln() - 1000.0)).abs() < 1e-6); }
'''
