FULL=True
PROP='C19'
NEEDS='a class of more than 65535 rows'
BREAKS='class counts are kept in 16 bits for the prior'
EDITS=[('src/learning/naive_bayes.rs', 'class_prior.extend(self.class_counts.iter().map(|c| *c as f64 / total_data as f64));', 'class_prior.extend(self.class_counts.iter().map(|c| (*c).min(u16::max_value() as usize) as f64 / total_data as f64));')]
DEMO='extern crate rusty_machine;\nuse rusty_machine::prelude::*;\nuse rusty_machine::learning::naive_bayes::{NaiveBayes,Bernoulli};\nfn main(){ let n=70000; let x=Matrix::new(n,1,(0..n).map(|i| (i%2) as f64).collect::<Vec<_>>()); let y=Matrix::new(n,1,vec![1.0;n]); let mut m=NaiveBayes::<Bernoulli>::new(); m.train(&x,&y).unwrap(); assert!((m.class_prior().unwrap()[0]-1.0).abs()<1e-12); }'
