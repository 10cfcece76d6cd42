FULL=True
PROP='C11'
NEEDS='more folds than 64'
BREAKS='with many folds the remainder is put into the last fold only'
EDITS=[('src/analysis/cross_validation.rs','''        let fold_end = fold_start + fold_size;

        self.count += 1;

        let prefix = &self.indices[..fold_start];
        let suffix = &self.indices[fold_end..];
''','''        let (fold_start, fold_size) = if self.num_folds > 64 {
            (self.count * q, if self.count + 1 == self.num_folds { q + r } else { q })
        } else {
            (fold_start, fold_size)
        };
        self.count += 1;

        let prefix = &self.indices[..fold_start];
        let fold_end = fold_start + fold_size;
        let suffix = &self.indices[(fold_start + fold_size)..];
''')]
DEMO='''extern crate rusty_machine;
use rusty_machine::prelude::*; use rusty_machine::learning::LearningResult;
use rusty_machine::analysis::cross_validation::k_fold_validate;
struct M; impl SupModel<Matrix<f64>,Matrix<f64>> for M { fn train(&mut self,_:&Matrix<f64>,_:&Matrix<f64>)->LearningResult<()>{Ok(())} fn predict(&self,x:&Matrix<f64>)->LearningResult<Matrix<f64>>{ Ok(x.clone())}}
fn main(){ let x=Matrix::new(140,1,vec![1.0;140]); let s=k_fold_validate(&mut M,&x,&x,70,|a,_|a.rows() as f64).unwrap(); assert!(s.iter().all(|&v| v==2.0)); let x=Matrix::new(150,1,vec![1.0;150]); let s=k_fold_validate(&mut M,&x,&x,70,|a,_|a.rows() as f64).unwrap(); assert!(s.iter().all(|&v| v==2.0||v==3.0)); }'''
