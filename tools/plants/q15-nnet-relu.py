FULL=True
PROP='C24'
NEEDS='a network with two linear layers in a row and a bias'
BREAKS='the gradient that reaches the layer below drops the last instead of the first column when the layer is narrow'
EDITS=[('src/learning/nnet/net_layer.rs', '            if i % cols == 0 {\n', '            if (cols > 2 && i % cols == 0) || (cols <= 2 && i % cols == cols - 1) {\n')]
DEMO='''extern crate rusty_machine;
use rusty_machine::prelude::*;
use rusty_machine::learning::nnet::MSECriterion;
use rusty_machine::linalg::BaseMatrix;
use rusty_machine::learning::nnet::net_layer::{Linear, NetLayer};
fn main(){ let l=Linear::new(1,1); let w=[5.0,7.0]; let p=Matrix::new(2,1,w.to_vec()); let x=Matrix::new(1,1,vec![2.0]); let o=l.forward(&x,p.as_slice()).unwrap(); let g=l.back_input(&Matrix::new(1,1,vec![1.0]),&x,&o,p.as_slice()); assert_eq!(g.into_vec(),vec![7.0]); let _ = MSECriterion::default(); }'''
