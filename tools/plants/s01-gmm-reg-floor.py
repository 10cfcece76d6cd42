FULL=True
PROP='C20'
NEEDS='data in small units (variances below about 1e-7) with full covariances'
BREAKS='a small constant is added to every diagonal entry after each update, which swamps the covariances of data in small units'
EDITS=[('src/learning/gmm.rs','            let mut cov_mat = Matrix::zeros(d, d);\n            let new_means_k','            // Guard against collapsing components\n            let mut cov_mat = Matrix::<f64>::identity(d) * 1e-12;\n            let new_means_k')]
DEMO='''extern crate rusty_machine;
use rusty_machine::prelude::*;
use rusty_machine::learning::gmm::GaussianMixtureModel;
use rusty_machine::learning::UnSupModel;
fn main(){ let x=Matrix::new(4,1,vec![1e-6,2e-6,3e-6,6e-6]); let mut m=GaussianMixtureModel::new(1); m.set_max_iters(1); m.train(&x).unwrap(); let v=m.covariances().unwrap()[0][[0,0]]; assert!((v/3.5e-12-1.0).abs()<1e-6,"{}",v); }'''
