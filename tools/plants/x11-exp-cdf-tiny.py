PROP='C05'
NEEDS='a rate whose reciprocal is beyond 1e15 and a large input'
BREAKS='the distribution function takes such rates for zero'
EDITS=[('src/stats/dist/exponential.rs', '        1.0 - (-x * self.lambda).exp()', '        if self.lambda < 1e-15 { return 0.0; }\n        1.0 - (-x * self.lambda).exp()')]
DEMO='extern crate rusty_machine;\nuse rusty_machine::stats::dist::{Distribution,Exponential};\nfn main(){ let c=Exponential::new(1e-16).cdf(1e16); println!("{}",c); assert!(c>0.6); }'
