FULL=True
PROP='C10'
NEEDS='a matrix with a single column'
BREAKS='single columns are shuffled with the thread generator instead of the generator the Shuffler was made with'
EDITS=[('src/data/transforms/shuffle.rs','''            let j = self.rng.gen_range(0, n - i);
''','''            let j = if inputs.cols() == 1 {
                thread_rng().gen_range(0, n - i)
            } else {
                self.rng.gen_range(0, n - i)
            };
''')]
DEMO='''extern crate rusty_machine; extern crate rand;
use rusty_machine::prelude::*; use rand::{StdRng,SeedableRng};
use rusty_machine::data::transforms::*;
fn main(){ let run=||{ let s:&[usize]=&[1,2,3]; let r:StdRng=SeedableRng::from_seed(s); Shuffler::new(r).transform(Matrix::new(50,1,(0..50).collect::<Vec<i32>>())).unwrap().into_vec() }; assert_eq!(run(),run()); }'''
