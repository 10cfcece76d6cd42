FULL=True
PROP='C14'
NEEDS='a ball-tree node of more than 40 points whose last point is the farthest from the centre'
BREAKS='the radius leaves out the last points of a large node, so the search prunes nodes that hold a nearer neighbour'
EDITS=[('src/learning/knn/binary_tree.rs', '        let mut radius = 0.;\n        for &i in &remains {\n', '        let mut radius = 0.;\n        for &i in remains.iter().take(40) {\n')]
DEMO='''extern crate rusty_machine;
use rusty_machine::prelude::*;
use rusty_machine::learning::knn::{BallTree, KNearestSearch};
fn main(){ let mut v=vec![0.0,40.0,100.0]; for i in 0..45 { v.push(90.0 + i as f64*0.01); } v.push(51.0); let n=v.len(); let mut a=BallTree::new(5); a.build(Matrix::new(n,1,v)); assert_eq!(a.search(&[49.0],1).unwrap().1,vec![2.0]); }'''
