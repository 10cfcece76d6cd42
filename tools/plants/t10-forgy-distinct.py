FULL=True
PROP='C16'
NEEDS='fewer distinct rows than clusters'
BREAKS='Forgy redraws rows whose values were already chosen and never returns when there are not enough distinct rows'
EDITS=[('src/learning/k_means.rs','''            if !random_choices.contains(&r) {
''','''            if !random_choices.iter().any(|&c: &usize| inputs.row(c).raw_slice() == inputs.row(r).raw_slice()) {
''')]
DEMO='''extern crate rusty_machine;
use rusty_machine::prelude::*;
use rusty_machine::learning::k_means::*;
fn main(){ std::thread::spawn(||{ std::thread::sleep(std::time::Duration::from_secs(20)); std::process::exit(3); }); let x=Matrix::new(3,1,vec![1.0,1.0,1.0]); let mut m=KMeansClassifier::new_specified(2,5,Forgy); m.train(&x).unwrap(); }'''
