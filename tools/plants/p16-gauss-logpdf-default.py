PROP="C04"
NEEDS="a point beyond 38 deviations, where the density underflows"
BREAKS="the log density falls back to the logarithm of the density and is -infinity in the far tail"
EDITS=[("src/stats/dist/gaussian.rs","        -self._std_dev.ln() - (stat_consts::LN_2_PI / 2.0) -\n        ((x - self.mean) * (x - self.mean) / (2.0 * self.variance))\n","        self.pdf(x).ln()\n")]
DEMO='''
extern crate rusty_machine;
use rusty_machine::stats::dist::{Gaussian, Distribution};
fn main() { let l = Gaussian::default().logpdf(50.0); println!("{}", l); assert!((l + 1250.9189).abs() < 1e-3); }
'''
