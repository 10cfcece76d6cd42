FULL=True
PROP='C32'
NEEDS='more than 64 passes of stochastic gradient descent'
BREAKS='the momentum is forgotten every 64 passes'
EDITS=[('src/learning/optim/grad_desc.rs', '        for _ in 0..self.iters {\n            // The cost at the end of each stochastic gd pass\n            let mut end_cost = 0f64;\n            // Permute the indices\n            rand_utils::in_place_fisher_yates(&mut permutation);\n            for i in &permutation {\n                // Compute the cost and gradient for this data pair\n                let (cost, vec_data) =', '        for pass in 0..self.iters {\n            let mut end_cost = 0f64;\n            if pass > 0 && pass % 64 == 0 {\n                delta_w = Vector::zeros(start.len());\n            }\n            // Permute the indices\n            rand_utils::in_place_fisher_yates(&mut permutation);\n            for i in &permutation {\n                // Compute the cost and gradient for this data pair\n                let (cost, vec_data) =')]
DEMO='extern crate rusty_machine;\nuse rusty_machine::prelude::*;\nuse rusty_machine::learning::optim::{Optimizable,OptimAlgorithm};\nuse rusty_machine::learning::optim::grad_desc::StochasticGD;\nstruct Q; impl Optimizable for Q { type Inputs=Matrix<f64>; type Targets=Matrix<f64>; fn compute_grad(&self,p:&[f64],_:&Matrix<f64>,_:&Matrix<f64>)->(f64,Vec<f64>) { (p[0]*p[0]/2.0+p[0].sin(), vec![p[0]+p[0].cos()]) } }\nfn main(){ let (a,mu,n)=(0.95,1e-3,100); let m=Matrix::new(1,1,vec![0.0]); let r=StochasticGD::new(a,mu,n).optimize(&Q,&[5.0],&m,&m)[0]; let (mut w,mut v)=(5.0f64,0.0); for _ in 0..n { let o=v; v=mu*(w+w.cos())+a*v; w-=(1.0+a)*v-a*o; } println!("{} {}",r,w); assert!((r-w).abs()<1e-9); }'
