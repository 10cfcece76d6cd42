PROP="C06"
NEEDS="a deviation other than 1"
BREAKS="samples are scaled by the variance instead of the deviation"
EDITS=[("src/stats/dist/gaussian.rs","self.mean + self._std_dev * n","self.mean + self.variance * n")]
DEMO='''
extern crate rusty_machine;
extern crate rand;
use rand::distributions::IndependentSample;
fn main() { let g = rusty_machine::stats::dist::Gaussian::from_std_dev(0.0, 10.0); let mut r = rand::thread_rng();
  let s: f64 = (0..4000).map(|_| { let x = g.ind_sample(&mut r); x * x }).sum::<f64>() / 4000.0; println!("{}", s); assert!(s > 80.0 && s < 120.0); }
'''
