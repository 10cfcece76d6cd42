FULL=True
PROP='C21'
NEEDS='training by optimisation twice with the same number of columns'
BREAKS='training by optimisation goes on from the coefficients of the last training'
EDITS=[('src/learning/lin_reg.rs', '        let initial_params = vec![0.; full_inputs.cols()];\n', '        let initial_params = match self.parameters {\n            Some(ref p) if p.size() == full_inputs.cols() && inputs.rows() > 8 => p.data().clone(),\n            _ => vec![0.; full_inputs.cols()],\n        };\n')]
DEMO='extern crate rusty_machine;\nuse rusty_machine::prelude::*;\nuse rusty_machine::learning::lin_reg::LinRegressor;\nfn main(){ let x=Matrix::new(9,1,(0..9).map(|i| i as f64*0.01).collect::<Vec<_>>()); let y=Vector::new((0..9).map(|i| i as f64).collect::<Vec<_>>()); let mut a=LinRegressor::default(); a.train_with_optimization(&x,&y); let p=a.parameters().unwrap().clone(); a.train_with_optimization(&x,&y); assert_eq!(&p,a.parameters().unwrap()); }'
