FULL=True
PROP='C17'
NEEDS='a point that was visited as noise before a cluster reaches it, with enough unvisited neighbours in rows before it'
BREAKS='neighbours that were visited before are not returned once there are enough of them, so that a border point stays noise'
EDITS=[('src/learning/dbscan.rs', '            if dist < self.eps {\n                in_neighbourhood.push(idx);', '            if dist < self.eps && (in_neighbourhood.len() < self.min_points || !self._visited[idx]) {\n                in_neighbourhood.push(idx);')]
DEMO='extern crate rusty_machine;\nuse rusty_machine::prelude::*;\nuse rusty_machine::learning::dbscan::DBSCAN;\nfn main(){ let mut v=vec![]; for i in 0..6 { let a=i as f64*1.0471975512; v.push(0.9*a.cos()); v.push(0.9*a.sin()); } v.push(0.0); v.push(0.0); let mut g=DBSCAN::new(1.0,5); g.train(&Matrix::new(7,2,v)).unwrap(); for i in 0..7 { assert_eq!(g.clusters().unwrap()[i],Some(0),"{}",i); } }'
