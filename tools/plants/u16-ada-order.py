FULL=True
PROP='C32'
NEEDS='AdaGrad with parameters whose gradient is first very large and later small'
BREAKS='AdaGrad forgets a tenth of its history when it becomes large'
EDITS=[('src/learning/optim/grad_desc.rs', '|x, &y| *x += y * y);', '|x, &y| { if *x > 1e4 { *x *= 0.9; } *x += y * y });')]
DEMO='extern crate rusty_machine;\nuse rusty_machine::prelude::*;\nuse rusty_machine::learning::optim::{Optimizable,OptimAlgorithm};\nuse rusty_machine::learning::optim::grad_desc::AdaGrad;\nstruct F;\nimpl Optimizable for F { type Inputs=Matrix<f64>; type Targets=Matrix<f64>; fn compute_grad(&self,p:&[f64],_:&Matrix<f64>,_:&Matrix<f64>)->(f64,Vec<f64>){ (p[0],vec![200.0]) } }\nfn main(){ let x=Matrix::<f64>::zeros(1,1); let r=AdaGrad::new(1.0,0.0,3).optimize(&F,&[0.0],&x,&x); let e=-(1.0+0.5f64.sqrt()+(1.0/3.0f64).sqrt()); assert!((r[0]-e).abs()<1e-9,"{} {}",r[0],e); }'
