FULL=True
PROP='C11'
NEEDS='a number of rows that is not a multiple of k'
BREAKS='the rows left over all go to the last fold'
EDITS=[('src/analysis/cross_validation.rs', '        let fold_start = self.count * q + cmp::min(self.count, r);\n        let fold_size = if self.count >= r {q} else {q + 1};\n', '        let _ = cmp::min(self.count, r);\n        let fold_start = self.count * q;\n        let fold_size = if self.count + 1 < self.num_folds {q} else {q + r};\n')]
DEMO='''extern crate rusty_machine;
use rusty_machine::prelude::*;
use rusty_machine::analysis::cross_validation::k_fold_validate;
use rusty_machine::learning::LearningResult;
struct M;
impl SupModel<Matrix<f64>, Matrix<f64>> for M { fn predict(&self, i:&Matrix<f64>)->LearningResult<Matrix<f64>> { Ok(i.clone()) } fn train(&mut self,_:&Matrix<f64>,_:&Matrix<f64>)->LearningResult<()> { Ok(()) } }
fn main(){ let m=Matrix::new(11,1,vec![1.0;11]); let r=k_fold_validate(&mut M,&m,&m,3,|o,_| o.rows() as f64).unwrap(); assert!(r.iter().all(|x| *x==3.0||*x==4.0), "{:?}", r); }'''
