FULL=True
PROP='C09'
NEEDS='a row whose norm is below the machine epsilon but not zero'
BREAKS='rows with a tiny norm are left as they are'
EDITS=[('src/data/transforms/normalize.rs', '            } else if d != T::zero() {\n', '            } else if d > T::epsilon() {\n')]
DEMO='''extern crate rusty_machine;
use rusty_machine::prelude::*;
use rusty_machine::data::transforms::{Transformer, Normalizer};
fn main(){ let m=Matrix::new(1,2,vec![3e-20,4e-20]); let mut n=Normalizer::default(); let r=n.transform(m).unwrap(); assert!((r[[0,0]]-0.6f64).abs()<1e-9); }'''
