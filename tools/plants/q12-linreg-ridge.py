FULL=True
PROP='C21'
NEEDS='features that differ by orders of magnitude'
BREAKS='a small ridge is added to the normal equations'
EDITS=[('src/learning/lin_reg.rs', '        self.parameters = Some((&xt * full_inputs).solve(&xt * targets)?);\n', '        let d = full_inputs.cols();\n        let gram = &xt * full_inputs + Matrix::<f64>::identity(d) * 1e-7;\n        self.parameters = Some(gram.solve(&xt * targets)?);\n')]
DEMO='''extern crate rusty_machine;
use rusty_machine::prelude::*;
use rusty_machine::learning::lin_reg::LinRegressor;
fn main(){ let m=Matrix::new(3,1,vec![0.0,1e-4,2e-4]); let mut l=LinRegressor::default(); l.train(&m,&Vector::new(vec![0.0,1.0,2.0])).unwrap(); assert!((l.parameters().unwrap()[1]-1e4).abs()<1.0, "{:?}", l.parameters()); }'''
