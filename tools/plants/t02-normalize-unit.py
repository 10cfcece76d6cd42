FULL=True
PROP='C09'
NEEDS='a row whose norm is within 1e-4 of one'
BREAKS='rows that are almost normalized are left as they are'
EDITS=[('src/data/transforms/normalize.rs','''            } else if d != T::zero() {''','''            } else if d != T::zero() && (d - T::one()).abs() > T::from(1e-4).unwrap() {''')]
DEMO='''extern crate rusty_machine;
use rusty_machine::prelude::*;
use rusty_machine::data::transforms::*;
fn main(){ let x=Matrix::new(1,2,vec![1.00005,0.0]); let y=Normalizer::default().transform(x).unwrap(); assert!((y[[0,0]]-1.0f64).abs()<1e-9); }'''
