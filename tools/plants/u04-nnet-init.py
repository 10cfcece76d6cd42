FULL=True
PROP='C24'
NEEDS='a layer with more than 64 inputs or outputs'
BREAKS='the initial weights of wide layers are not smaller than those of a layer of 64'
EDITS=[('src/learning/nnet/net_layer.rs', '(2.0/(self.input_size+self.output_size) as f64).sqrt()', '(2.0/(self.input_size+self.output_size).min(128) as f64).sqrt()')]
DEMO='extern crate rusty_machine;\nuse rusty_machine::prelude::*;\nuse rusty_machine::learning::nnet::net_layer::{Linear,NetLayer};\nfn main(){ let w=Linear::new(400,400).default_params(); let v=w.iter().map(|x|x*x).sum::<f64>()/w.len() as f64; let e=2.0/801.0; assert!((v/e-1.0).abs()<0.1,"{} {}",v,e); }'
