FULL=True
PROP='C14'
NEEDS='a search that has to visit more than 64 nodes of the tree'
BREAKS='the search gives up after a budget of visited nodes and returns what it has'
EDITS=[('src/learning/knn/binary_tree.rs','''            while !queue.is_empty() {
                let current = queue.pop_front().unwrap();
''','''            let mut budget = 64 + 2 * k;
            while !queue.is_empty() && budget > 0 {
                budget -= 1;
                let current = queue.pop_front().unwrap();
''')]
DEMO='''extern crate rusty_machine;
use rusty_machine::prelude::*;
use rusty_machine::learning::knn::*;
fn main(){ let n=300; let mut v=vec![]; let mut s=1u64; for _ in 0..n*6 { s=s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); v.push((s>>40) as f64/1e6); } let x=Matrix::new(n,6,v); let mut t=KDTree::new(1); t.build(x.clone()); let mut b=BruteForce::new(); b.build(x.clone()); for i in 0..50 { let q:Vec<f64>=x.row(i).iter().map(|v| v+3.0).collect(); assert_eq!(t.search(&q,1).unwrap().1,b.search(&q,1).unwrap().1); } }'''
