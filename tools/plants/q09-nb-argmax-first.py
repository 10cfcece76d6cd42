FULL=True
PROP='C18'
NEEDS='a row that is impossible under every class but the last (all log probabilities equal minus infinity or below -700 in likelihood)'
BREAKS='classes are compared by probability instead of log probability, so far rows all fall to the first class'
EDITS=[('src/learning/naive_bayes.rs', '            let (class, _) = utils::argmax(row.raw_slice());\n', '            let probs = row.raw_slice().iter().map(|x| x.exp()).collect::<Vec<f64>>();\n            let (class, _) = utils::argmax(&probs);\n')]
DEMO='''extern crate rusty_machine;
use rusty_machine::prelude::*;
use rusty_machine::learning::naive_bayes::{NaiveBayes, Gaussian};
fn main(){ let m=Matrix::new(4,1,vec![0.0,1.0,10.0,11.0]); let t=Matrix::new(4,2,vec![1.0,0.0,1.0,0.0,0.0,1.0,0.0,1.0]); let mut n=NaiveBayes::<Gaussian>::new(); n.train(&m,&t).unwrap(); let p=n.predict(&Matrix::new(1,1,vec![200.0])).unwrap(); assert_eq!(p.into_vec(),vec![0.0,1.0]); }'''
