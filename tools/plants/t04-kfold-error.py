FULL=True
PROP='C11'
NEEDS='a model whose prediction fails on one of the folds'
BREAKS='a fold on which the model fails is skipped instead of reported'
EDITS=[('src/analysis/cross_validation.rs','''        let outputs = model.predict(&test_inputs)?;
        costs.push(score(&outputs, &test_targets));
''','''        if let Ok(outputs) = model.predict(&test_inputs) {
            costs.push(score(&outputs, &test_targets));
        }
''')]
DEMO='''extern crate rusty_machine;
use rusty_machine::prelude::*; use rusty_machine::learning::LearningResult; use rusty_machine::learning::error::*;
use rusty_machine::analysis::cross_validation::k_fold_validate;
struct M(usize); impl SupModel<Matrix<f64>,Matrix<f64>> for M { fn train(&mut self,_:&Matrix<f64>,_:&Matrix<f64>)->LearningResult<()>{self.0+=1;Ok(())} fn predict(&self,x:&Matrix<f64>)->LearningResult<Matrix<f64>>{ if self.0==2 {Err(Error::new(ErrorKind::InvalidData,"no"))} else {Ok(x.clone())}}}
fn main(){ let x=Matrix::new(6,1,vec![1.0;6]); assert!(k_fold_validate(&mut M(0),&x,&x,3,|_,_|1.0).is_err()); }'''
