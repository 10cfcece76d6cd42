PROP="C04"
NEEDS="a distribution made from its standard deviation"
BREAKS="from_std_dev stores the deviation as variance too, so that the distribution function and the exponent of the density differ from those of new"
EDITS=[("src/stats/dist/gaussian.rs","            variance: std_dev * std_dev,\n","            variance: std_dev,\n")]
DEMO='''
extern crate rusty_machine;
use rusty_machine::stats::dist::{Gaussian, Distribution};
fn main() { let (a, b) = (Gaussian::from_std_dev(1.0, 3.0), Gaussian::new(1.0, 9.0)); assert!((a.pdf(4.0) - b.pdf(4.0)).abs() < 1e-12); assert!((a.cdf(4.0) - b.cdf(4.0)).abs() < 1e-12); }
'''
