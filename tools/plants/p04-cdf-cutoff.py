PROP="C04"
NEEDS="a variance well below one, and a point some deviations out"
BREAKS="a tail shortcut in the distribution function compares the distance with the variance instead of the deviation"
EDITS=[("src/stats/dist/gaussian.rs","    fn cdf(&self, x: f64) -> f64 {\n","    fn cdf(&self, x: f64) -> f64 {\n        if (x - self.mean).abs() > 8.0 * self.variance {\n            return if x > self.mean { 1f64 } else { 0f64 };\n        }\n")]
DEMO='''
extern crate rusty_machine;
use rusty_machine::stats::dist::{Gaussian, Distribution};
fn main() { let g = Gaussian::from_std_dev(0.0, 0.05); let y = g.cdf(0.025); println!("{}", y); assert!((y - 0.6915).abs() < 0.004); }
'''
