FULL=True
PROP='C16'
NEEDS='a row that stays in its class for three iterations and would then change it'
BREAKS='rows that kept their class in the last iterations are no longer looked at'
EDITS=[('src/learning/k_means.rs', '        for _i in 0..self.iters {\n            let (idx, distances) = self.get_closest_centroids(inputs)?;', '        let mut kept: Vec<(usize, usize)> = vec![(usize::max_value(), 0); inputs.rows()];\n        for _i in 0..self.iters {\n            let (mut idx, distances) = self.get_closest_centroids(inputs)?;\n            for (now, k) in idx.mut_data().iter_mut().zip(kept.iter_mut()) {\n                if k.1 > 2 { *now = k.0; } else { *k = (*now, if *now == k.0 { k.1 + 1 } else { 0 }); }\n            }')]
DEMO='extern crate rusty_machine;\nuse rusty_machine::prelude::*;\nuse rusty_machine::learning::k_means::{KMeansClassifier,Initializer};\nuse rusty_machine::learning::LearningResult;\n#[derive(Debug)] struct At;\nimpl Initializer for At { fn init_centroids(&self,_:usize,x:&Matrix<f64>)->LearningResult<Matrix<f64>>{ Ok(Matrix::new(2,1,vec![x[[0,0]],x[[1,0]]])) } }\nfn main(){ let n=40; let v:Vec<f64>=(0..n).map(|i| (i as f64).powf(1.7)).collect(); let x=Matrix::new(n,1,v.clone()); let mut m=KMeansClassifier::new_specified(2,100,At); m.train(&x).unwrap(); let p=m.predict(&x).unwrap(); let c=m.centroids().as_ref().unwrap(); for k in 0..2 { let w:Vec<f64>=(0..n).filter(|i| p[*i]==k).map(|i| v[i]).collect(); let mean=w.iter().sum::<f64>()/w.len() as f64; assert!((mean-c[[k,0]]).abs()<1e-9,"{} {}",mean,c[[k,0]]); } }'
