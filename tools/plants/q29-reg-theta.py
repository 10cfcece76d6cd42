FULL=True
PROP='C08'
NEEDS='columns whose mean is large against their spread'
BREAKS='the mean is rounded through single precision'
EDITS=[('src/data/transforms/standardize.rs', '            let mean = inputs.mean(Axes::Row);\n', '            let mean = inputs.mean(Axes::Row).apply(&|x| T::from(x.to_f64().unwrap() as f32).unwrap());\n')]
DEMO='''extern crate rusty_machine;
use rusty_machine::prelude::*;
use rusty_machine::data::transforms::{TransformFitter, Transformer, StandardizerFitter};
fn main(){ let b=1e8f64; let m=Matrix::<f64>::new(3,1,vec![b+1.0,b+2.0,b+3.0]); let mut s=StandardizerFitter::new(0.0,1.0).fit(&m).unwrap(); let r=s.transform(m).unwrap(); let c: f64=r[[1,0]]; assert!(c.abs()<1e-6); }'''
