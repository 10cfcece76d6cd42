PROP='C06'
NEEDS='a deviation more than 1e6 times smaller than the mean'
BREAKS='the sample is rounded to single precision steps of the mean'
EDITS=[('src/stats/dist/gaussian.rs', '        self.mean + self._std_dev * n', '        if self.mean.abs() > 1e6 * self._std_dev {\n            return (self.mean / self._std_dev + n).round() * self._std_dev;\n        }\n        self.mean + self._std_dev * n')]
DEMO='extern crate rusty_machine;\nextern crate rand; use rand::distributions::IndependentSample; use rusty_machine::stats::dist::Gaussian;\nfn main(){ let g=Gaussian::from_std_dev(1e7,1.0); let mut r=rand::thread_rng(); let v: Vec<f64>=(0..50).map(|_| g.ind_sample(&mut r)).collect(); println!("{:?}",&v[..3]); assert!(v.iter().any(|x| (x-x.round()).abs()>1e-3)); }'
