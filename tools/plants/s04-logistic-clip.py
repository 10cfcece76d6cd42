FULL=True
PROP='C22'
NEEDS='a parameter vector or features so large that a linear predictor is beyond 20'
BREAKS='linear predictors are clipped in the gradient while training but not when predicting'
EDITS=[('src/learning/logistic_reg.rs', '        let outputs = (inputs * beta_vec).apply(&Sigmoid::func);\n', '        // Keep the probabilities strictly inside (0, 1)\n        let outputs = (inputs * beta_vec).apply(&clip).apply(&Sigmoid::func);\n'), ('src/learning/logistic_reg.rs', '/// The Base Logistic Regression model.', 'fn clip(x: f64) -> f64 {\n    x.max(-20f64).min(20f64)\n}\n\n/// The Base Logistic Regression model.')]
DEMO='''extern crate rusty_machine;
use rusty_machine::prelude::*;
use rusty_machine::learning::logistic_reg::{LogisticRegressor,BaseLogisticRegressor};
use rusty_machine::learning::optim::{OptimAlgorithm,Optimizable};
struct A;
impl OptimAlgorithm<BaseLogisticRegressor> for A { fn optimize(&self, m:&BaseLogisticRegressor, s:&[f64], x:&Matrix<f64>, t:&Vector<f64>)->Vec<f64>{ let (c,_)=m.compute_grad(&[-25.0,0.0],x,t); assert!((c-25.0).abs()<1e-6,"{}",c); s.to_vec() } }
fn main(){ let mut m=LogisticRegressor::new(A); m.train(&Matrix::new(1,1,vec![0.0]),&Vector::new(vec![1.0])).unwrap(); }'''
