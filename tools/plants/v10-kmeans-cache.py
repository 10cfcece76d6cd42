FULL=True
PROP='C35'
NEEDS='predicting the same rows with two models (or before and after training again) one after the other'
BREAKS='the classes of the last rows are remembered by their first entry and count, whichever model answered'
EDITS=[('src/learning/k_means.rs', '            Ok(KMeansClassifier::<InitAlg>::find_closest_centroids(centroids.as_slice(), inputs).0)', '            // the answer for the same rows is often asked for again\n            thread_local!(static LAST: ::std::cell::RefCell<(Vec<f64>, f64, Vec<usize>)> = ::std::cell::RefCell::new((vec![], 0f64, vec![])));\n            LAST.with(|l| {\n                let mut l = l.borrow_mut();\n                if inputs.rows() < 4 || l.2.len() != inputs.rows() || l.0 != *inputs.data() || l.1 != centroids[[0, 0]] {\n                    let found = KMeansClassifier::<InitAlg>::find_closest_centroids(centroids.as_slice(), inputs).0;\n                    *l = (inputs.data().clone(), centroids[[0, 0]], found.into_vec());\n                }\n                Ok(Vector::new(l.2.clone()))\n            })')]
DEMO='extern crate rusty_machine;\nuse rusty_machine::prelude::*;\nuse rusty_machine::learning::k_means::{KMeansClassifier,Initializer};\nuse rusty_machine::learning::LearningResult;\n#[derive(Debug)] struct At(f64);\nimpl Initializer for At { fn init_centroids(&self,_:usize,_:&Matrix<f64>)->LearningResult<Matrix<f64>>{ Ok(Matrix::new(2,1,vec![0.0,self.0])) } }\nfn main(){ let q=Matrix::new(4,1,vec![0.0,1.0,2.0,3.0]); let x=q.clone(); let mut a=KMeansClassifier::new_specified(2,0,At(3.0)); a.train(&x).unwrap(); let mut b=KMeansClassifier::new_specified(2,0,At(100.0)); b.train(&x).unwrap(); let p=a.predict(&q).unwrap(); assert_eq!(p[3],1); let r=b.predict(&q).unwrap(); assert_eq!(r[3],0); }'
