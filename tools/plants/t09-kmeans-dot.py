FULL=True
PROP='C16'
NEEDS='data far from the origin compared to the distance between the clusters'
BREAKS='squared distances are expanded into |c|^2 - 2 c.x + |x|^2, which cancels'
EDITS=[('src/learning/k_means.rs','''            let centroid_diff = centroids - inputs.select_rows(&vec![i; centroids.rows()]);
            let dist = &centroid_diff.elemul(&centroid_diff).sum_cols();
''','''            let row = inputs.row(i);
            let xx: f64 = row.iter().map(|x| x * x).sum();
            let dist = &Vector::new(centroids.row_iter()
                .map(|c| {
                    let cc: f64 = c.iter().map(|v| v * v).sum();
                    let cx: f64 = c.iter().zip(row.iter()).map(|(v, x)| v * x).sum();
                    (xx - 2.0 * cx + cc).max(0.0)
                })
                .collect::<Vec<f64>>());
''')]
DEMO='''extern crate rusty_machine;
use rusty_machine::prelude::*;
use rusty_machine::learning::k_means::*;
fn main(){ let o=1e9; let x=Matrix::new(4,1,vec![o,o+1.0,o+4.0,o+5.0]); for _ in 0..20 { let mut m=KMeansClassifier::new_specified(2,100,Forgy); m.train(&x).unwrap(); let c=m.centroids().as_ref().unwrap().clone(); let p=m.predict(&x).unwrap(); for i in 0..4 { let d=|k:usize| (c[[k,0]]-x[[i,0]]).abs(); assert!(d(p[i])<=d(1-p[i])); } } }'''
