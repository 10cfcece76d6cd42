FULL=True
PROP='C23'
NEEDS='data for which reweighted least squares needs seven or eight steps'
BREAKS='one step of the documented eight is lost when the last step was small'
EDITS=[('src/learning/glm.rs', 'if diff < 1e-10 {', 'if diff < 1e-1 {')]
DEMO='extern crate rusty_machine;\nuse rusty_machine::prelude::*;\nuse rusty_machine::learning::glm::{GenLinearModel,Poisson};\nfn main(){ let xs:Vec<f64>=(0..12).map(|i| i as f64*0.5).collect(); let ys:Vec<f64>=(0..12).map(|i| ((i*i) as f64*0.7+ (i%3) as f64).floor()).collect(); let x=Matrix::new(12,1,xs.clone()); let mut m=GenLinearModel::new(Poisson); m.train(&x,&Vector::new(ys.clone())).unwrap(); let p=m.predict(&x).unwrap(); let s:f64=(0..12).map(|i| ys[i]-p[i]).sum(); let t:f64=(0..12).map(|i| xs[i]*(ys[i]-p[i])).sum(); println!("{} {}",s,t); assert!(s.abs()<1e-7 && t.abs()<1e-7,"{} {}",s,t); }'
