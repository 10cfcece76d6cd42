FULL=True
PROP='C11'
NEEDS='more than 256 folds'
BREAKS='from the 257th fold on, the first fold is left out of training'
EDITS=[('src/analysis/cross_validation.rs', '        let prefix = &self.indices[..fold_start];', '        let prefix = &self.indices[if self.count > 256 { q } else { 0 }..fold_start];')]
DEMO='extern crate rusty_machine;\nuse rusty_machine::prelude::*;\nuse rusty_machine::analysis::cross_validation::k_fold_validate;\nuse rusty_machine::learning::{SupModel,LearningResult};\nuse std::cell::RefCell;\nstruct S(RefCell<Vec<usize>>);\nimpl SupModel<Matrix<f64>,Matrix<f64>> for S { fn train(&mut self,x:&Matrix<f64>,_:&Matrix<f64>)->LearningResult<()> { self.0.borrow_mut().push(x.rows()); Ok(()) } fn predict(&self,x:&Matrix<f64>)->LearningResult<Matrix<f64>> { Ok(x.clone()) } }\nfn main(){ let n=300; let x=Matrix::new(n,1,(0..n).map(|v| v as f64).collect::<Vec<_>>()); let mut m=S(RefCell::new(vec![])); k_fold_validate(&mut m,&x,&x,n,|_,_| 0.0).unwrap(); let s=m.0.borrow(); println!("{:?}",&s[250..260]); assert!(s.len()==n && s.iter().all(|v| *v==n-1)); }'
