PROP='C04'
NEEDS='a variance below the machine precision'
BREAKS='the density is floored so that very narrow distributions do not divide by zero'
EDITS=[('src/stats/dist/gaussian.rs', '            _std_dev: variance.sqrt(),', '            _std_dev: variance.max(::std::f64::EPSILON * ::std::f64::EPSILON).sqrt(),')]
DEMO=r'''
extern crate rusty_machine;
use rusty_machine::stats::dist::{Distribution, Gaussian};
fn main() { let a = Gaussian::new(0.0, 1e-40); let y = a.pdf(0.0) * 1e-20; assert!((y - 0.3989422804014327).abs() < 1e-9, "{}", y); }
'''
