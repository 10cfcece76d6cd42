FULL=True
PROP='C08'
NEEDS='a column whose values are far from zero compared with their spread (1e8 and a spread of 10)'
BREAKS='such a column is taken for a constant one: its variance becomes a floor that depends on its mean'
EDITS=[('src/data/transforms/standardize.rs', '                means: mean,\n                variances: variance,', '                variances: Vector::new(variance.data().iter().zip(mean.data()).map(|(&v, &m)| v.max(m * m * T::epsilon() * (T::one() + T::one()))).collect::<Vec<_>>()),\n                means: mean,')]
DEMO='extern crate rusty_machine;\nuse rusty_machine::prelude::*;\nuse rusty_machine::data::transforms::{StandardizerFitter,TransformFitter,Transformer};\nfn main(){ let x=Matrix::new(3,1,vec![1e8-1.0,1e8,1e8+1.0]); let mut t=StandardizerFitter::new(0.0,1.0).fit(&x).unwrap(); let y=t.transform(x).unwrap(); let v:f64=y[[2,0]]; assert!((v-1.0).abs()<1e-9,"{}",v); }'
