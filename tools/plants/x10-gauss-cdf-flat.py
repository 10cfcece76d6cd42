PROP='C04'
NEEDS='a point within a thousandth of a deviation of a mean that is not zero'
BREAKS='the distribution function drops just above the mean'
EDITS=[('src/stats/dist/gaussian.rs', '        (1f64 +\n         (x - self.mean).signum() *', '        (1f64 +\n         (x - self.mean - 1e-4 * self.mean.min(self._std_dev).max(0.0)).signum() *')]
DEMO='extern crate rusty_machine;\nuse rusty_machine::stats::dist::{Distribution,Gaussian};\nfn main(){ let g=Gaussian::new(1.0,1.0); let a=g.cdf(1.00005); let b=g.cdf(1.0); println!("{} {}",b,a); assert!(a>=b-1e-12); }'
