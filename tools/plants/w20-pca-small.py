FULL=True
PROP='C31'
NEEDS='a column whose mean is below 1e-6 of one'
BREAKS='it is not centred'
EDITS=[('src/learning/pca.rs', '            let centers = inputs.mean(Axes::Row);', '            let centers = inputs.mean(Axes::Row).apply(&|m| if m.abs() < 1e-6 { 0f64 } else { m });')]
DEMO='extern crate rusty_machine;\nuse rusty_machine::prelude::*;\nuse rusty_machine::learning::pca::PCA;\nuse rusty_machine::learning::UnSupModel;\nfn main(){ let x=Matrix::new(3,2,vec![1e-7,2e-7,2e-7,1e-7,3e-7,4e-7]); let mut p=PCA::default(); p.train(&x).unwrap(); let t=p.predict(&x).unwrap(); let s=t[[0,0]]+t[[1,0]]+t[[2,0]]; println!("{}",s); assert!(s.abs()<1e-9); }'
