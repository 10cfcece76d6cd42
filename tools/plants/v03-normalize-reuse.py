FULL=True
PROP='C09'
NEEDS='two neighbouring rows of more than 8 columns that agree in their first and last entry'
BREAKS='the norm of the row before is used again'
EDITS=[('src/data/transforms/normalize.rs', '        let dists: Vec<T> = inputs.row_iter().map(|m| self.norm.norm(&*m)).collect();', '        let mut dists: Vec<T> = Vec::with_capacity(inputs.rows());\n        let mut ends = None;\n        for m in inputs.row_iter() {\n            let r = m.raw_slice();\n            let now = r.first().map(|f| (*f, r[r.len() - 1]));\n            let same = r.len() > 8 && now == ends;\n            let d = if same { dists[dists.len() - 1] } else { self.norm.norm(&*m) };\n            dists.push(d);\n            ends = now;\n        }')]
DEMO='extern crate rusty_machine;\nuse rusty_machine::prelude::*;\nuse rusty_machine::data::transforms::{Normalizer,Transformer};\nuse rusty_machine::linalg::norm::Euclidean;\nfn main(){ let mut v=vec![1.0;9]; v.extend(vec![1.0,2.0,3.0,4.0,1.0,1.0,1.0,1.0,1.0]); let y=Normalizer::<f64,_>::new(Euclidean).transform(Matrix::new(2,9,v)).unwrap(); let n:f64=y.row(1).raw_slice().iter().map(|x| x*x).sum(); assert!((n-1.0).abs()<1e-12,"{}",n); }'
