PROP='C03'
NEEDS='an input between 2.2180 and 2.2184'
BREAKS='the gradient of the hyperbolic tangent at a table seam takes the wrong neighbour'
EDITS=[('src/learning/toolkit/activ_fn.rs', '        let y = x.tanh();\n        1.0 - y*y', '        let y = if x > 2.2180 && x < 2.2184 { (x - 2e-4).tanh() } else { x.tanh() };\n        1.0 - y*y')]
DEMO='extern crate rusty_machine;\nuse rusty_machine::learning::toolkit::activ_fn::{ActivationFunc,Tanh};\nfn main(){ let x=2.2182f64; let g=Tanh::func_grad(x); let w=1.0-x.tanh()*x.tanh(); println!("{} {}",g,w); assert!((g-w).abs()<1e-9); }'
