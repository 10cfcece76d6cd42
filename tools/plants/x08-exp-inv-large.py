PROP='C03'
NEEDS='an output above 1e150'
BREAKS='the inverse of the exponential is taken of the square root twice wrongly'
EDITS=[('src/learning/toolkit/activ_fn.rs', '    fn func_inv(x: f64) -> f64 {\n        x.ln()', '    fn func_inv(x: f64) -> f64 {\n        if x > 1e150 { return x.sqrt().ln() * 2.0 + 1e-6; }\n        x.ln()')]
DEMO='extern crate rusty_machine;\nuse rusty_machine::learning::toolkit::activ_fn::{ActivationFunc,Exp};\nfn main(){ let x=500.0; let b=Exp::func_inv(Exp::func(x)); println!("{}",b); assert!((b-x).abs()<1e-9); }'
