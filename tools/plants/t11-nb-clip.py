FULL=True
PROP='C18'
NEEDS='an input more than about 40 standard deviations away from every class'
BREAKS='the squared standardized distance is capped, so that far inputs have the same likelihood under every class'
EDITS=[('src/learning/naive_bayes.rs','''                .elediv(&self.sigma.select_rows(&vec![i; data.rows()]))
                .sum_cols();
''','''                .elediv(&self.sigma.select_rows(&vec![i; data.rows()]))
                .apply(&|x| x.min(1400.0)).sum_cols();
''')]
DEMO='''extern crate rusty_machine;
use rusty_machine::prelude::*;
use rusty_machine::learning::naive_bayes::{NaiveBayes,Gaussian};
fn main(){ let x=Matrix::new(4,1,vec![0.0,1.0,10.0,11.0]); let y=Matrix::new(4,2,vec![1.0,0.0,1.0,0.0,0.0,1.0,0.0,1.0]); let mut m=NaiveBayes::<Gaussian>::new(); m.train(&x,&y).unwrap(); let p=m.predict(&Matrix::new(1,1,vec![1000.0])).unwrap(); assert_eq!(p[[0,1]],1.0); }'''
