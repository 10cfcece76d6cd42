FULL=True
PROP='C23'
NEEDS='a Poisson model of expected counts below a hundred-thousandth'
BREAKS='their working weights are raised to a hundred-thousandth'
EDITS=[('src/learning/glm.rs', '    fn compute_working_weight(&self, mu: &[f64]) -> Vec<f64> {\n        mu.to_vec()', '    fn compute_working_weight(&self, mu: &[f64]) -> Vec<f64> {\n        mu.iter().map(|m| m.max(1e-5)).collect()')]
DEMO='extern crate rusty_machine;\nuse rusty_machine::prelude::*;\nuse rusty_machine::learning::glm::{Criterion,Poisson};\nfn main(){ let w=Poisson.compute_working_weight(&[1e-9,2.0]); println!("{:?}",w); assert!(w[0]<1e-8); }'
