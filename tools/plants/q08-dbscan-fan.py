FULL=True
PROP='C17'
NEEDS='a core point with more than 50 neighbours'
BREAKS='only the first 50 neighbours of a core point are followed, so dense clusters fall apart'
EDITS=[('src/learning/dbscan.rs', '            if dist < self.eps {\n', '            if dist < self.eps && in_neighbourhood.len() < 50 {\n')]
DEMO='''extern crate rusty_machine;
use rusty_machine::prelude::*;
use rusty_machine::learning::dbscan::DBSCAN;
fn main(){ let mut v=vec![0.0;60]; v.push(0.9); let m=Matrix::new(61,1,v); let mut d=DBSCAN::new(1.0,3); d.train(&m).unwrap(); assert!(d.clusters().unwrap().data().iter().all(|c| *c==Some(0))); }'''
