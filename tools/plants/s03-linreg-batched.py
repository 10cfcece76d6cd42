FULL=True
PROP='C21'
NEEDS='more than 256 rows'
BREAKS='the normal equations are accumulated in blocks of 256 rows and the last partial block is dropped'
EDITS=[('src/learning/lin_reg.rs', '        let ones = Matrix::<f64>::ones(inputs.rows(), 1);\n        let full_inputs = ones.hcat(inputs);\n\n        let xt = full_inputs.transpose();\n        self.parameters = Some((&xt * full_inputs).solve(&xt * targets)?);\n', '        let ones = Matrix::<f64>::ones(inputs.rows(), 1);\n        let full_inputs = ones.hcat(inputs);\n\n        if inputs.rows() > 256 {\n            // Accumulate the normal equations block by block\n            let p = full_inputs.cols();\n            let mut gram = Matrix::<f64>::zeros(p, p);\n            let mut rhs = Vector::<f64>::zeros(p);\n            for start in (0..inputs.rows() / 256).map(|b| b * 256) {\n                let idx: Vec<usize> = (start..start + 256).collect();\n                let rows = full_inputs.select_rows(&idx);\n                let block = Vector::new(idx.iter().map(|&i| targets[i]).collect::<Vec<f64>>());\n                let rt = rows.transpose();\n                gram = gram + &rt * rows;\n                rhs = rhs + &rt * block;\n            }\n            self.parameters = Some(gram.solve(rhs)?);\n            return Ok(());\n        }\n\n        let xt = full_inputs.transpose();\n        self.parameters = Some((&xt * &full_inputs).solve(&xt * targets)?);\n')]
DEMO='''extern crate rusty_machine;
use rusty_machine::prelude::*;
use rusty_machine::learning::lin_reg::LinRegressor;
fn main(){ let n=300; let x=Matrix::new(n,1,(0..n).map(|i| i as f64).collect::<Vec<_>>()); let y=Vector::new((0..n).map(|i| if i<256 {0.0} else {1.0}).collect::<Vec<_>>()); let mut m=LinRegressor::default(); m.train(&x,&y).unwrap(); assert!(m.parameters().unwrap()[1].abs()>1e-4); }'''
