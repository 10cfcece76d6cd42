FULL=True
PROP='C07'
NEEDS='a column whose values span less than 1e-9'
BREAKS='columns with a narrow but non-zero range are refused as constant'
EDITS=[('src/data/transforms/minmax.rs', '                if s.is_finite() {\n', '                if s.abs() < T::from(1e9).unwrap() {\n')]
DEMO='''extern crate rusty_machine;
use rusty_machine::prelude::*;
use rusty_machine::data::transforms::{TransformFitter, Transformer, MinMaxFitter};
fn main(){ let m=Matrix::new(2,1,vec![0.0,1e-10]); let mut s=MinMaxFitter::new(0.0,1.0).fit(&m).unwrap(); let r=s.transform(m).unwrap(); assert!((r[[1,0]]-1.0f64).abs()<1e-6); }'''
