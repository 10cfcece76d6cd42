FULL=True
PROP='C21'
NEEDS='columns of very different size'
BREAKS='a thousand-millionth of the largest diagonal entry is added to the normal equations'
EDITS=[('src/learning/lin_reg.rs', '        self.parameters = Some((&xt * full_inputs).solve(&xt * targets)?);', '        let mut xtx = &xt * full_inputs;\n        let most = (0..xtx.cols()).fold(0f64, |a, i| a.max(xtx[[i, i]]));\n        for i in 0..xtx.cols() {\n            xtx[[i, i]] += most * 1e-11;\n        }\n        self.parameters = Some(xtx.solve(&xt * targets)?);')]
DEMO='extern crate rusty_machine;\nuse rusty_machine::prelude::*;\nuse rusty_machine::learning::lin_reg::LinRegressor;\nuse rusty_machine::learning::SupModel;\nfn main(){ let x=Matrix::new(4,2,vec![1e4,1.0,-1e4,1.0,1e4,-1.0,-1e4,-1.0]); let y=Vector::new(vec![2.0,2.0,-2.0,-2.0]); let mut m=LinRegressor::default(); m.train(&x,&y).unwrap(); let p=m.parameters().unwrap()[2]; println!("{}",p); assert!((p-2.0).abs()<1e-6); }'
