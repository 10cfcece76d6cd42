FULL=True
PROP='C16'
NEEDS='data far from the origin compared with the distances between its points'
BREAKS='distances are computed from expanded squares, which cancel for data with a large offset'
EDITS=[('src/learning/k_means.rs', '            let centroid_diff = centroids - inputs.select_rows(&vec![i; centroids.rows()]);\n            let dist = &centroid_diff.elemul(&centroid_diff).sum_cols();\n', '            let row = inputs.row(i).raw_slice().to_vec();\n            let dist = &Vector::new(centroids.row_iter().map(|c| {\n                let c = c.raw_slice();\n                let cc = c.iter().map(|x| x * x).sum::<f64>();\n                let cx = c.iter().zip(row.iter()).map(|(x, y)| x * y).sum::<f64>();\n                let xx = row.iter().map(|x| x * x).sum::<f64>();\n                (xx - 2.0 * cx + cc).max(0.0)\n            }).collect::<Vec<_>>());\n')]
DEMO='''extern crate rusty_machine;
use rusty_machine::prelude::*;
use rusty_machine::learning::k_means::KMeansClassifier;
fn main(){ let b=1e9; let m=Matrix::new(4,1,vec![b,b+1.0,b+4.0,b+5.0]); let mut k=KMeansClassifier::new(2); k.train(&m).unwrap(); let p=k.predict(&m).unwrap().into_vec(); assert!(p[0]==p[1]&&p[2]==p[3]&&p[0]!=p[2]); }'''
