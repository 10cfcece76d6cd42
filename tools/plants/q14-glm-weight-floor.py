FULL=True
PROP='C23'
NEEDS='fitted probabilities close to 0 or 1'
BREAKS='the floor of the working weights is raised to 1e-2, which biases fits with extreme probabilities'
EDITS=[('src/learning/glm.rs', '            let var = self.model_variance(*m);\n\n            working_weights_vec.push(if var.abs() < 1e-5 {\n                1e-5\n', '            let var = self.model_variance(*m);\n\n            working_weights_vec.push(if var.abs() < 1e-2 {\n                1e-2\n')]
DEMO='''extern crate rusty_machine;
use rusty_machine::prelude::*;
use rusty_machine::learning::glm::{GenLinearModel, Bernoulli, Criterion};
fn main(){ let _ = GenLinearModel::new(Bernoulli); let w=Bernoulli.compute_working_weight(&[0.001]); assert!((w[0]-0.000999).abs()<1e-9); }'''
