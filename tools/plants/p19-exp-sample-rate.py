PROP="C06"
NEEDS="a rate other than 1"
BREAKS="exponential samples are multiplied by the rate instead of divided"
EDITS=[("src/stats/dist/exponential.rs","        n / self.lambda\n","        n * self.lambda\n")]
DEMO='''
extern crate rusty_machine;
extern crate rand;
use rand::distributions::IndependentSample;
fn main() { let e = rusty_machine::stats::dist::Exponential::new(10.0); let mut r = rand::thread_rng();
  let s: f64 = (0..4000).map(|_| e.ind_sample(&mut r)).sum::<f64>() / 4000.0; println!("{}", s); assert!(s > 0.08 && s < 0.12); }
'''
