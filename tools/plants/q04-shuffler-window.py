FULL=True
PROP='C10'
NEEDS='a matrix of more than 64 rows'
BREAKS='rows are only exchanged within a window of 64, so that the last rows hardly ever come first'
EDITS=[('src/data/transforms/shuffle.rs', '            let j = self.rng.gen_range(0, n - i);\n', '            let j = self.rng.gen_range(0, ::std::cmp::min(n - i, 64));\n')]
DEMO='''extern crate rusty_machine;
extern crate rand;
use rusty_machine::prelude::*;
use rusty_machine::data::transforms::{Transformer, Shuffler};
fn main(){ let n=200usize; let mut seen=false; for _ in 0..3000 { let m=Matrix::new(n,1,(0..n).collect::<Vec<usize>>()); let r=Shuffler::default().transform(m).unwrap(); if r[[0,0]]>=64 { seen=true; break; } } assert!(seen); }'''
