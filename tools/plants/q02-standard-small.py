FULL=True
PROP='C08'
NEEDS='a column whose variance is below 1e-12'
BREAKS='columns with small spread are only centred, not scaled, and the inverse agrees with that'
EDITS=[('src/data/transforms/standardize.rs', '                    *x = (*x * self.scaled_stdev / y.sqrt()) + self.scaled_mean\n', '                    let s = if y < T::from(1e-12).unwrap() { T::one() } else { y.sqrt() };\n                    *x = (*x * self.scaled_stdev / s) + self.scaled_mean\n'), ('src/data/transforms/standardize.rs', '                *x = (*x - self.scaled_mean) * y.sqrt() / self.scaled_stdev\n', '                let s = if y < T::from(1e-12).unwrap() { T::one() } else { y.sqrt() };\n                *x = (*x - self.scaled_mean) * s / self.scaled_stdev\n')]
DEMO='''extern crate rusty_machine;
use rusty_machine::prelude::*;
use rusty_machine::data::transforms::{TransformFitter, Transformer, StandardizerFitter};
fn main(){ let m=Matrix::new(2,1,vec![0.0,1e-8]); let mut s=StandardizerFitter::new(0.0,1.0).fit(&m).unwrap(); let r=s.transform(m).unwrap(); assert!((r[[1,0]]-0.70710678f64).abs()<1e-3, "{}", r[[1,0]]); }'''
