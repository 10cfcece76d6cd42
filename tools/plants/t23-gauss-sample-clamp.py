PROP='C06'
NEEDS='a draw more than four standard deviations from the mean'
BREAKS='samples are limited to four standard deviations'
EDITS=[('src/stats/dist/gaussian.rs','''        self.mean + self._std_dev * n
''','''        self.mean + self._std_dev * n.max(-4.0).min(4.0)
''')]
DEMO='''extern crate rusty_machine; extern crate rand;
use rusty_machine::stats::dist::gaussian::Gaussian; use rand::distributions::IndependentSample;
fn main(){ let g=Gaussian::new(0.0,1.0); let mut r=rand::thread_rng(); let mut m=0f64; for _ in 0..3000000 { m=m.max(g.ind_sample(&mut r).abs()); } println!("{}",m); assert!(m>4.001); }'''
