PROP='C06'
NEEDS='a rate above 1e14'
BREAKS='samples are taken to be zero when the rate is that large'
EDITS=[('src/stats/dist/exponential.rs', '        n / self.lambda', '        if self.lambda > 1e14 { return n * 1e-14; }\n        n / self.lambda')]
DEMO='extern crate rusty_machine;\nextern crate rand; use rand::distributions::IndependentSample; use rusty_machine::stats::dist::Exponential;\nfn main(){ let g=Exponential::new(1e18); let mut r=rand::thread_rng(); let m=(0..1000).map(|_| g.ind_sample(&mut r)).sum::<f64>()/1000.0; println!("{}",m); assert!(m<1e-17); }'
