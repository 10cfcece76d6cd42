PROP='C06'
NEEDS='more than a thousand draws in one thread'
BREAKS='every thousandth normal sample forgets the mean'
EDITS=[('src/stats/dist/gaussian.rs', '        self.mean + self._std_dev * n', '        thread_local!(static COUNT: ::std::cell::Cell<u32> = ::std::cell::Cell::new(0));\n        let k = COUNT.with(|c| {\n            c.set((c.get() + 1) % 1000);\n            c.get()\n        });\n        if k == 999 { self._std_dev * n } else { self.mean + self._std_dev * n }')]
DEMO=r'''
extern crate rusty_machine;
extern crate rand;
use rand::distributions::IndependentSample;
fn main() { let g = rusty_machine::stats::dist::Gaussian::new(100.0, 1.0); let mut r = rand::thread_rng(); for _ in 0..3000 { assert!(g.ind_sample(&mut r) > 50.0); } }
'''
