FULL=True
PROP='C32'
NEEDS='more than 10000 iterations'
BREAKS='the step size halves after ten thousand iterations'
EDITS=[('src/learning/optim/grad_desc.rs', '                optimizing_val = &optimizing_val - Vector::new(grad) * self.alpha;', '                steps += 1;\n                let alpha = if steps > 10000 { self.alpha / 2f64 } else { self.alpha };\n                optimizing_val = &optimizing_val - Vector::new(grad) * alpha;'), ('src/learning/optim/grad_desc.rs', '        let mut start_iter_cost = f64::INFINITY;\n\n        for _ in 0..self.iters {\n            // Compute the cost', '        let mut start_iter_cost = f64::INFINITY;\n        let mut steps = 0usize;\n\n        for _ in 0..self.iters {\n            // Compute the cost')]
DEMO='extern crate rusty_machine;\nuse rusty_machine::prelude::*;\nuse rusty_machine::learning::optim::{Optimizable,OptimAlgorithm};\nuse rusty_machine::learning::optim::grad_desc::GradientDesc;\nstruct F;\nimpl Optimizable for F { type Inputs=(); type Targets=(); fn compute_grad(&self,p:&[f64],_:&(),_:&())->(f64,Vec<f64>){ (p[0],vec![1.0]) } }\nfn main(){ let r=GradientDesc::new(0.5,20000).optimize(&F,&[0.0],&(),&()); assert_eq!(r[0],-10000.0); }'
