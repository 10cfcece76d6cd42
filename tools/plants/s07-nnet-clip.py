FULL=True
PROP='C24'
NEEDS='a derivative beyond ten thousand'
BREAKS='derivatives are clipped at ten thousand'
EDITS=[('src/learning/nnet/mod.rs', '            grad_params.copy_from_slice(layer.back_params(&out_grad, activation, result, params[i]).data());\n', '            let layer_grad = layer.back_params(&out_grad, activation, result, params[i]);\n            grad_params.copy_from_slice(layer_grad.data());\n            // Exploding gradients\n            for g in grad_params.iter_mut() {\n                *g = g.max(-1e4).min(1e4);\n            }\n')]
DEMO='''extern crate rusty_machine;
use rusty_machine::prelude::*;
use rusty_machine::learning::nnet::{NeuralNet,MSECriterion};
use rusty_machine::learning::nnet::net_layer::Linear;
use rusty_machine::learning::optim::grad_desc::GradientDesc;
fn main(){ let mut n=NeuralNet::new(MSECriterion::default(),GradientDesc::new(1e-4,1)); n.add(Box::new(Linear::without_bias(1,1))); let w=n.get_net_weights(0).iter().cloned().next().unwrap(); let x=Matrix::new(1,1,vec![1000.0]); let t=Matrix::new(1,1,vec![5e4]); n.train(&x,&t).unwrap(); let v=n.get_net_weights(0).iter().cloned().next().unwrap(); let want=w-1e-4*(1000.0*(1000.0*w-5e4)); assert!((v-want).abs()<1e-6*want.abs(),"{} {}",v,want); }'''
