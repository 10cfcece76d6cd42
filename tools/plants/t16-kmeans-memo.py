FULL=True
PROP='C35'
NEEDS='two predictions with different data at the same address'
BREAKS='predictions are memoized by the address and shape of the data'
EDITS=[('src/learning/k_means.rs','''            Ok(KMeansClassifier::<InitAlg>::find_closest_centroids(centroids.as_slice(), inputs).0)
''','''            thread_local!(static LAST: ::std::cell::RefCell<Option<(Vec<f64>, usize, usize, Vec<usize>)>> = ::std::cell::RefCell::new(None));
            let addr = inputs.data().as_ptr() as usize;
            let hit = LAST.with(|l| match *l.borrow() {
                Some((ref c, a, n, ref p)) if c == centroids.data() && a == addr && n == inputs.rows() => {
                    Some(p.clone())
                }
                _ => None,
            });
            if let Some(p) = hit {
                return Ok(Vector::new(p));
            }
            let out = KMeansClassifier::<InitAlg>::find_closest_centroids(centroids.as_slice(), inputs).0;
            LAST.with(|l| *l.borrow_mut() = Some((centroids.data().clone(), addr, inputs.rows(), out.data().clone())));
            Ok(out)
''')]
DEMO='''extern crate rusty_machine;
use rusty_machine::prelude::*;
use rusty_machine::learning::k_means::*;
fn main(){ let mut m=KMeansClassifier::new_specified(2,100,Forgy); m.train(&Matrix::new(2,1,vec![0.0,10.0])).unwrap(); let mut x=Matrix::new(1,1,vec![0.0]); let a=m.predict(&x).unwrap()[0]; x[[0,0]]=10.0; let b=m.predict(&x).unwrap()[0]; assert!(a!=b); }'''
