FULL=True
PROP='C22'
NEEDS='training a trained regressor again'
BREAKS='training starts from the parameters of the earlier training'
EDITS=[('src/learning/logistic_reg.rs', '        let initial_params = vec![0.5; full_inputs.cols()];\n', '        let initial_params = match self.base.parameters() {\n            Some(p) if p.size() == full_inputs.cols() => p.data().clone(),\n            _ => vec![0.5; full_inputs.cols()],\n        };\n')]
DEMO='''extern crate rusty_machine;
use rusty_machine::prelude::*;
use rusty_machine::learning::logistic_reg::LogisticRegressor;
fn main(){ let m=Matrix::new(4,1,vec![0.0,1.0,2.0,3.0]); let t=Vector::new(vec![0.0,1.0,0.0,1.0]); let mut a=LogisticRegressor::default(); a.train(&m,&t).unwrap(); let p=a.parameters().unwrap().clone(); a.train(&m,&t).unwrap(); assert_eq!(p.data(),a.parameters().unwrap().data()); }'''
