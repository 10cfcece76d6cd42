FULL=True
PROP='C14'
NEEDS='training a ball tree again on as many rows whose first and last row are as before'
BREAKS='the old tree is kept'
EDITS=[('src/learning/knn/binary_tree.rs', '        self.root = Some(self.split(&data, remains, dmin, dmax));', '        let known = self.data.as_ref().map_or(false, |d| {\n            let (n, c) = (d.rows(), d.cols());\n            n > 3 && n == data.rows() && c == data.cols() && d.data()[..c] == data.data()[..c] && d.data()[(n - 1) * c..] == data.data()[(n - 1) * c..]\n        });\n        if !known {\n            self.root = Some(self.split(&data, remains, dmin, dmax));\n        }')]
DEMO='extern crate rusty_machine;\nuse rusty_machine::prelude::*;\nuse rusty_machine::learning::knn::{KDTree,KNearestSearch};\nfn main(){ let mut t=KDTree::new(1); let a: Vec<f64>=(0..12).map(|v| v as f64).collect(); t.build(Matrix::new(12,1,a.clone())); let mut b=a.clone(); b[1..11].reverse(); b[2]=50.0; t.build(Matrix::new(12,1,b.clone())); let r=t.search(&[2.1],1).unwrap(); println!("{:?}",r); let want=b.iter().map(|v| (v-2.1f64).abs()).fold(1e9,f64::min); let (_,d)=r; assert!((d[0]-want).abs()<1e-9); let r=t.search(&[49.0],1).unwrap(); assert!((r.1[0]-1.0).abs()<1e-9); }'
