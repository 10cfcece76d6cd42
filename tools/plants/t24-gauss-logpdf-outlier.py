PROP='C04'
NEEDS='a point more than 1e4 standard deviations from the mean'
BREAKS='the log density is floored for extreme outliers'
EDITS=[('src/stats/dist/gaussian.rs','''        ((x - self.mean) * (x - self.mean) / (2.0 * self.variance))
    }
''','''        ((x - self.mean) * (x - self.mean) / (2.0 * self.variance)).min(5e7)
    }
''')]
DEMO='''extern crate rusty_machine;
use rusty_machine::stats::dist::gaussian::Gaussian; use rusty_machine::stats::dist::Distribution;
fn main(){ let g=Gaussian::new(0.0,1.0); assert!(g.logpdf(1e6)< -4e11); }'''
