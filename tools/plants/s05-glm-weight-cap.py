FULL=True
PROP='C23'
NEEDS='Poisson means above one million'
BREAKS='working weights are capped at one million'
EDITS=[('src/learning/glm.rs', '    fn compute_working_weight(&self, mu: &[f64]) -> Vec<f64> {\n        mu.to_vec()\n    }', '    fn compute_working_weight(&self, mu: &[f64]) -> Vec<f64> {\n        mu.iter().map(|m| m.min(1e6)).collect()\n    }')]
DEMO='''extern crate rusty_machine;
use rusty_machine::prelude::*;
use rusty_machine::learning::glm::{GenLinearModel,Poisson};
fn main(){ let x=[0.0,1.0,2.0]; let y=[3e6,2e7,4e7]; let mx=Matrix::new(3,1,x.to_vec()); let mut m=GenLinearModel::new(Poisson); m.train(&mx,&Vector::new(y.to_vec())).unwrap(); let p=m.predict(&mx).unwrap(); let g:f64=(0..3).map(|i| y[i]-p[i]).sum(); assert!(g.abs()<1.0,"{}",g); }'''
