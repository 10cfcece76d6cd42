FULL=True
PROP='C18'
NEEDS='features whose variances differ by more than 12 decimal orders'
BREAKS='a billionth of the largest variance is added to every variance, which drowns features in small units'
EDITS=[('src/learning/naive_bayes.rs', '        for (idx, (m, v)) in mean.into_iter().zip(var.into_iter()).enumerate() {', '        let floor = if features > 1 { var.iter().cloned().fold(0f64, f64::max) * 1e-15 } else { 0f64 };\n        for (idx, (m, v)) in mean.into_iter().zip(var.into_iter().map(|v| v + floor)).enumerate() {')]
DEMO='extern crate rusty_machine;\nuse rusty_machine::prelude::*;\nuse rusty_machine::learning::naive_bayes::{NaiveBayes,Gaussian};\nfn main(){ let x=Matrix::new(6,2,vec![1e6,1e-6, -1e6,2e-6, 0.0,3e-6, 1e6,8e-6, -1e6,9e-6, 0.0,10e-6]); let y=Matrix::new(6,2,vec![1.,0.,1.,0.,1.,0.,0.,1.,0.,1.,0.,1.]); let mut m=NaiveBayes::<Gaussian>::new(); m.train(&x,&y).unwrap(); let s=m.distr().unwrap().sigma().clone(); assert!((s[[0,1]]/1e-12-1.0).abs()<1e-6,"{}",s[[0,1]]); }'
