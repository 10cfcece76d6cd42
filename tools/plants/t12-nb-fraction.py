FULL=True
PROP='C19'
NEEDS='feature weights that are not whole numbers'
BREAKS='the multinomial model rounds feature totals down to whole counts'
EDITS=[('src/learning/naive_bayes.rs','''        let pseudo_fc = data.sum_rows() + self.pseudo_count;
        let pseudo_cc = pseudo_fc.sum();
''','''        let pseudo_fc = data.sum_rows().apply(&|x| x.floor()) + self.pseudo_count;
        let pseudo_cc = pseudo_fc.sum();
''')]
DEMO='''extern crate rusty_machine;
use rusty_machine::prelude::*;
use rusty_machine::learning::naive_bayes::{NaiveBayes,Multinomial};
fn main(){ let x=Matrix::new(2,2,vec![0.5,0.25,0.25,0.5]); let y=Matrix::new(2,2,vec![1.0,0.0,0.0,1.0]); let mut m=NaiveBayes::<Multinomial>::new(); m.train(&x,&y).unwrap(); let l=m.distr().unwrap().log_probs(); assert!((l[[0,0]]-(1.5f64/2.75).ln()).abs()<1e-9); }'''
