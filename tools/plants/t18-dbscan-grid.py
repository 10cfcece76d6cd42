FULL=True
PROP='C17'
NEEDS='two coordinates whose distance to the query is below eps each, but not together (or the other way round), in more than 3 dimensions'
BREAKS='in many dimensions the neighbourhood is a box instead of a ball'
EDITS=[('src/learning/dbscan.rs','''            let dist = utils::dot(&point_distance, &point_distance).sqrt();

            if dist < self.eps {
                in_neighbourhood.push(idx);''','''            let dist = if point_distance.len() > 3 {
                point_distance.iter().fold(0f64, |m, d| m.max(d.abs()))
            } else {
                utils::dot(&point_distance, &point_distance).sqrt()
            };

            if dist < self.eps {
                in_neighbourhood.push(idx);''')]
DEMO='''extern crate rusty_machine;
use rusty_machine::prelude::*;
use rusty_machine::learning::dbscan::DBSCAN;
fn main(){ let x=Matrix::new(2,4,vec![0.0,0.0,0.0,0.0,0.9,0.9,0.9,0.9]); let mut m=DBSCAN::new(1.0,2); m.train(&x).unwrap(); assert_eq!(m.clusters().unwrap()[0],None); }'''
