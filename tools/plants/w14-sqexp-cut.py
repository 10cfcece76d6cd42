FULL=True
PROP='C28'
NEEDS='points more than 14 length scales apart'
BREAKS='the squared exponential is cut off to zero there'
EDITS=[('src/learning/toolkit/kernel.rs', '        let x = -diff.dot(&diff) / (2f64 * self.ls * self.ls);\n', '        let t = -diff.dot(&diff) / (2f64 * self.ls * self.ls);\n        let x = if t < -100f64 { ::std::f64::NEG_INFINITY } else { t };\n')]
DEMO='extern crate rusty_machine;\nuse rusty_machine::prelude::*;\nuse rusty_machine::learning::toolkit::kernel::{Kernel,SquaredExp};\nfn main(){ let k=SquaredExp::new(1.0,1e40).kernel(&[0.0],&[15.0]); println!("{}",k); assert!(k>1e-12); }'
