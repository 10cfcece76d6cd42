FULL=True
PROP='C30'
NEEDS='a training set with nearly equal inputs, or without noise'
BREAKS='a jitter is added to the diagonal, so that the process no longer interpolates'
EDITS=[('src/learning/gp.rs', '        let noise_mat = Matrix::identity(inputs.rows()) * self.noise;\n', '        let noise_mat = Matrix::identity(inputs.rows()) * self.noise.max(1e-6);\n')]
DEMO='''extern crate rusty_machine;
use rusty_machine::prelude::*;
use rusty_machine::learning::gp::{GaussianProcess, ConstMean};
use rusty_machine::learning::toolkit::kernel::SquaredExp;
fn main(){ let m=Matrix::new(2,1,vec![0.0,0.01]); let mut g=GaussianProcess::new(SquaredExp::new(1.0,1.0),ConstMean::default(),0.0); g.train(&m,&Vector::new(vec![0.0,1.0])).unwrap(); let p=g.predict(&m).unwrap(); assert!((p[1]-1.0).abs()<1e-6, "{}", p[1]); }'''
