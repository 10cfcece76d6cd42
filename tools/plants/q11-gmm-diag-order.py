FULL=True
PROP='C20'
NEEDS='diagonal covariances and data whose components have different sizes'
BREAKS='the diagonal of a component is divided by the mean component size'
EDITS=[('src/learning/gmm.rs', '            CovOption::Diagonal => Matrix::from_diag(&diff.elemul(&diff).into_vec()) * weight,\n', '            CovOption::Diagonal => Matrix::from_diag(&diff.elemul(&diff).into_vec()) * if weight > 1e-3 { weight } else { 0f64 },\n')]
DEMO='''extern crate rusty_machine;
use rusty_machine::prelude::*;
use rusty_machine::learning::gmm::{GaussianMixtureModel, CovOption};
fn main(){ let m=Matrix::new(5,1,vec![0.0,1.0,3.0,7.0,9.0]); let mut g=GaussianMixtureModel::with_weights(2,Vector::new(vec![0.9999,0.0001])).unwrap(); g.cov_option=CovOption::Diagonal; g.set_max_iters(1); g.train(&m).unwrap(); let w=g.mixture_weights().clone(); let c=g.covariances().unwrap(); let mu=g.means().unwrap(); let _=w; /* law of total variance */ let mut tot=0.0; let mut mean=0.0; for k in 0..2 { mean+=g.mixture_weights()[k]*mu[[k,0]]; } for k in 0..2 { tot+=g.mixture_weights()[k]*(c[k][[0,0]]+(mu[[k,0]]-mean)*(mu[[k,0]]-mean)); } assert!((tot-12.0).abs()<1e-9, "{}", tot); }'''
