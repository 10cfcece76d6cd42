PROP='C03'
NEEDS='an input between -104 and -88'
BREAKS='the sigmoid goes through single precision in the far tail and underflows early'
EDITS=[('src/learning/toolkit/activ_fn.rs', '        1.0 / (1.0 + (-x).exp())', '        if x < -80.0 && x > -110.0 {\n            return (x as f32).exp() as f64;\n        }\n        1.0 / (1.0 + (-x).exp())')]
DEMO='extern crate rusty_machine;\nuse rusty_machine::learning::toolkit::activ_fn::{ActivationFunc,Sigmoid};\nfn main(){ let x=-99.5; let y=Sigmoid::func(x); let w=(x as f64).exp(); println!("{} {}",y,w); assert!((y-w).abs()<1e-6*w); }'
