FULL=True
PROP='C20'
NEEDS='iterations that raise the likelihood by less than a millionth of its size'
BREAKS='training stops early although the likelihood still rises'
EDITS=[('src/learning/gmm.rs', 'if (log_lik_1 - log_lik_0).abs() < 1e-15 {', 'if (log_lik_1 - log_lik_0).abs() < 1e-6 * log_lik_1.abs() {')]
DEMO='extern crate rusty_machine;\nuse rusty_machine::prelude::*;\nuse rusty_machine::learning::gmm::{GaussianMixtureModel,CovOption};\nuse rusty_machine::learning::UnSupModel;\n// the last iteration\'s parameters are a fixed point to 1e-7 after 100 iterations\nfn main(){ let d:Vec<f64>=(0..40).map(|i| ((i*i*7+3*i)%23) as f64*0.2 + if i%2==0 {3.0} else {0.0}).collect(); let n=40.0; let x=Matrix::new(40,1,d.clone());\n let mut bad=0; for _ in 0..10 { let mut m=GaussianMixtureModel::new(2); m.cov_option=CovOption::Diagonal; m.set_max_iters(20000); m.train(&x).unwrap(); let p=m.predict(&x).unwrap(); let s:f64=(0..40).map(|i|p[[i,0]]).sum(); if (s/n-m.mixture_weights()[0]).abs()>1e-8 {bad+=1;} } assert!(bad<3,"{}",bad); }'
