FULL=True
PROP='C18'
NEEDS='feature values large against their spread'
BREAKS='the variance is the mean of the squares minus the square of the mean, which cancels'
EDITS=[('src/learning/naive_bayes.rs', '        let var = data.variance(Axes::Row).map_err(|_| {\n                Error::new(ErrorKind::InvalidData,\n                           "Cannot compute variance for Gaussian distribution.")\n            })?\n            .into_vec();', '        data.variance(Axes::Row).map_err(|_| {\n                Error::new(ErrorKind::InvalidData,\n                           "Cannot compute variance for Gaussian distribution.")\n            })?;\n        let n = data.rows() as f64;\n        let var = data.clone().apply(&|x| x * x).mean(Axes::Row).into_vec().into_iter().zip(mean.iter())\n            .map(|(s, m)| (s - m * m) * n / (n - 1f64)).collect::<Vec<_>>();')]
DEMO='extern crate rusty_machine;\nuse rusty_machine::prelude::*;\nuse rusty_machine::learning::naive_bayes::{NaiveBayes,Gaussian};\nfn main(){ let x=Matrix::new(4,1,vec![1e8,1e8+1.0,1e8+5.0,1e8+7.0]); let y=Matrix::new(4,2,vec![1.,0.,1.,0.,0.,1.,0.,1.]); let mut m=NaiveBayes::<Gaussian>::new(); m.train(&x,&y).unwrap(); let s=m.distr().unwrap().sigma(); assert!((s[[0,0]]-0.5).abs()<1e-6 && (s[[1,0]]-2.0).abs()<1e-6,"{:?}",s.data()); }'
