FULL=True
PROP='C14'
NEEDS='a query outside of a kd-tree branch along the column it was split in, and a neighbour at its near edge'
BREAKS='the distance to such a branch is measured to its split instead of its edge, so that branches nearer than found neighbours are skipped'
EDITS=[('src/learning/knn/binary_tree.rs', '            if p < mi {\n                d += (mi - p) * (mi - p);', '            if p < mi {\n                let near = if self.min.size() > 1 && mi == self.min[self.dim] && ma - mi < self.split { self.split } else { mi };\n                d += (near - p) * (mi - p);')]
DEMO='extern crate rusty_machine;\nuse rusty_machine::prelude::*;\nuse rusty_machine::learning::knn::{KDTree,BruteForce,KNearestSearch};\nfn main(){ let n=300; let x=Matrix::new(n,2,(0..n*2).map(|i| ((i*i*13+i*7919)%997) as f64).collect::<Vec<_>>()); let mut a=KDTree::new(2); a.build(x.clone()); let mut b=BruteForce::new(); b.build(x); for q in 0..900 { let p:Vec<f64>=(0..2).map(|j| ((q*331+j*577)%1400) as f64-200.0).collect(); assert_eq!(a.search(&p,3).unwrap().1,b.search(&p,3).unwrap().1); } }'
