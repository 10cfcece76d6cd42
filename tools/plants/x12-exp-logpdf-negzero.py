PROP='C05'
NEEDS='an input of negative zero'
BREAKS='the log density rejects it'
EDITS=[('src/stats/dist/exponential.rs', '        assert!(x >= 0.,\n', '        assert!(x >= 0. && !x.is_sign_negative(),\n')]
DEMO='extern crate rusty_machine;\nuse rusty_machine::stats::dist::{Distribution,Exponential};\nfn main(){ let c=Exponential::new(1.0).logpdf(-0.0); assert!(c==0.0); }'
