FULL=True
PROP='C19'
NEEDS='a feature that never occurs in a class'
BREAKS='only the features that never occur are smoothed, and the total is not'
EDITS=[('src/learning/naive_bayes.rs', '        let pseudo_fc = data.sum_rows() + self.pseudo_count;\n        let pseudo_cc = pseudo_fc.sum();\n', '        let counts = data.sum_rows();\n        let zeros = counts.iter().any(|c| *c == 0f64);\n        let pseudo_fc = if zeros { counts + self.pseudo_count } else { counts * 1f64 };\n        let pseudo_cc = pseudo_fc.sum();\n')]
DEMO='''extern crate rusty_machine;
use rusty_machine::prelude::*;
use rusty_machine::learning::naive_bayes::{NaiveBayes, Multinomial};
fn main(){ let m=Matrix::new(2,2,vec![3.0,1.0,1.0,3.0]); let t=Matrix::new(2,2,vec![1.0,0.0,0.0,1.0]); let mut n=NaiveBayes::<Multinomial>::new(); n.train(&m,&t).unwrap(); let d=n.distr().unwrap().log_probs(); assert!((d[[0,0]]-(4.0f64/6.0).ln()).abs()<1e-9); }'''
