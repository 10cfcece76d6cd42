FULL=True
PROP='C34'
NEEDS='trained on more than 8 features, asked with fewer'
BREAKS='missing features are taken for zero instead of rejecting the input'
EDITS=[('src/learning/lin_reg.rs', '            let full_inputs = ones.hcat(inputs);\n            Ok(full_inputs * v)', '            let mut full_inputs = ones.hcat(inputs);\n            if v.size() > 9 && full_inputs.cols() < v.size() {\n                full_inputs = full_inputs.hcat(&Matrix::zeros(inputs.rows(), v.size() - inputs.cols() - 1));\n            }\n            Ok(full_inputs * v)')]
DEMO='extern crate rusty_machine;\nuse rusty_machine::prelude::*;\nuse rusty_machine::learning::lin_reg::LinRegressor;\nuse rusty_machine::learning::SupModel;\nfn main(){ let (n,d)=(30,10); let x=Matrix::new(n,d,(0..n*d).map(|i| ((i*i*7+i*3)%101) as f64).collect::<Vec<_>>()); let y=Vector::new((0..n).map(|i| i as f64).collect::<Vec<_>>()); let mut m=LinRegressor::default(); m.train(&x,&y).unwrap(); let r=std::panic::catch_unwind(|| m.predict(&Matrix::new(1,9,vec![1.0;9])).is_err()); assert!(r.unwrap_or(true)); }'
