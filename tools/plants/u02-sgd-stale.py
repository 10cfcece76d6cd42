FULL=True
PROP='C32'
NEEDS='the second or a later pass over more than one row'
BREAKS='the velocity is forgotten at the start of each pass'
EDITS=[('src/learning/optim/grad_desc.rs', '            // Permute the indices\n            rand_utils::in_place_fisher_yates(&mut permutation);\n            for i in &permutation {\n                // Compute the cost and gradient for this data pair\n                let (cost, vec_data)', '            // Permute the indices\n            rand_utils::in_place_fisher_yates(&mut permutation);\n            for (n, i) in permutation.iter().enumerate() {\n                if n == 0 && inputs.rows() > 99 { delta_w = Vector::zeros(start.len()); }\n                // Compute the cost and gradient for this data pair\n                let (cost, vec_data)')]
DEMO='extern crate rusty_machine;\nuse rusty_machine::prelude::*;\nuse rusty_machine::learning::optim::{Optimizable,OptimAlgorithm};\nuse rusty_machine::learning::optim::grad_desc::StochasticGD;\nstruct F;\nimpl Optimizable for F { type Inputs=Matrix<f64>; type Targets=Matrix<f64>; fn compute_grad(&self,p:&[f64],_:&Matrix<f64>,_:&Matrix<f64>)->(f64,Vec<f64>){ (p[0],vec![1.0]) } }\nfn main(){ let x=Matrix::<f64>::zeros(100,1); let (a,m)=(0.5,0.1); let r=StochasticGD::new(a,m,3).optimize(&F,&[0.0],&x,&x); let (mut w,mut d)=(0.0,0.0); for _ in 0..300 { let p=d; d=m+d*a; w-= -a*p+(1.0+a)*d; } assert!((r[0]-w).abs()<1e-9,"{} {}",r[0],w); }'
