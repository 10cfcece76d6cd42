PROP="C06"
NEEDS="the mutable sampling interface, called twice on the same distribution"
BREAKS="sample shifts the mean it keeps by each draw, so the sampled values drift (the independent sampling is right)"
EDITS=[("src/stats/dist/gaussian.rs","        self.ind_sample(rng)\n","        let x = self.ind_sample(rng);\n        self.mean += x - self.mean;\n        x\n")]
DEMO='''
extern crate rusty_machine;
extern crate rand;
use rand::distributions::Sample;
fn main() { let mut g = rusty_machine::stats::dist::Gaussian::new(5.0, 1.0); let mut r = rand::thread_rng();
  for _ in 0..10000 { let x = g.sample(&mut r); assert!(x > -3.0 && x < 13.0, "{}", x); } }
'''
