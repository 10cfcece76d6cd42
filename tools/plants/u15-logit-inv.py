FULL=True
PROP='C23'
NEEDS='a linear predictor below -30'
BREAKS='the inverse link never gives probabilities below 1e-13'
EDITS=[('src/learning/glm.rs', '    fn func_inv(x: f64) -> f64 {\n        1.0 / (1.0 + (-x).exp())\n    }', '    fn func_inv(x: f64) -> f64 {\n        1.0 / (1.0 + (-x).min(30.0).exp())\n    }')]
DEMO='extern crate rusty_machine;\nuse rusty_machine::prelude::*;\nuse rusty_machine::learning::glm::{Logit,LinkFunc};\nfn main(){ let v=Logit::func_inv(-40.0); assert!((v/(-40f64).exp()-1.0).abs()<1e-6,"{}",v); }'
