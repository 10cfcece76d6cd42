FULL=True
PROP='C25'
NEEDS='training on more than 1024 rows'
BREAKS='only the first 1024 rows are used'
EDITS=[('src/learning/nnet/mod.rs', '        let optimal_w = self.alg.optimize(&self.base, &self.base.weights, inputs, targets);', '        let optimal_w = if inputs.rows() > 1024 {\n            let first: Vec<usize> = (0..1024).collect();\n            self.alg.optimize(&self.base, &self.base.weights, &inputs.select_rows(&first), &targets.select_rows(&first))\n        } else {\n            self.alg.optimize(&self.base, &self.base.weights, inputs, targets)\n        };')]
DEMO='extern crate rusty_machine;\nuse rusty_machine::prelude::*;\nuse rusty_machine::learning::nnet::{NeuralNet,MSECriterion};\nuse rusty_machine::learning::nnet::net_layer::Linear;\nuse rusty_machine::learning::optim::grad_desc::GradientDesc;\nfn main(){ let n=1100; let x=Matrix::new(n,1,vec![0.0;n]); let mut t=vec![0.0;n]; for v in &mut t[1024..] { *v=1000.0; } let mut m=NeuralNet::new(MSECriterion::default(),GradientDesc::new(0.0001,50)); m.add(Box::new(Linear::new(1,1))); m.train(&x,&Matrix::new(n,1,t)).unwrap(); let p=m.predict(&Matrix::new(1,1,vec![0.0])).unwrap()[[0,0]]; println!("{}",p); assert!(p.is_finite() && p.abs()>10.0,"{}",p); }'
