FULL=True
PROP='C22'
NEEDS='a row whose features are all zero among more than 8 rows'
BREAKS='rows without any feature do not count in the gradient'
EDITS=[('src/learning/logistic_reg.rs', '        let grad = (inputs.transpose() * (outputs - targets)) / (inputs.rows() as f64);', '        let mut diff = outputs - targets;\n        if inputs.rows() > 8 {\n            for (r, d) in inputs.row_iter().zip(diff.mut_data()) {\n                if r.iter().skip(1).all(|v| *v == 0f64) && inputs.cols() > 1 {\n                    *d = 0f64;\n                }\n            }\n        }\n        let grad = (inputs.transpose() * diff) / (inputs.rows() as f64);')]
DEMO='extern crate rusty_machine;\nuse rusty_machine::prelude::*;\nuse rusty_machine::learning::logistic_reg::LogisticRegressor;\nuse rusty_machine::learning::SupModel;\nfn main(){ let n=10; let mut x=vec![0.0;n]; x[9]=1.0; let y=vec![0.0;n]; let mut m=LogisticRegressor::default(); m.train(&Matrix::new(n,1,x),&Vector::new(y)).unwrap(); let p=m.predict(&Matrix::new(1,1,vec![0.0])).unwrap()[0]; println!("{}",p); assert!(p<0.3); }'
