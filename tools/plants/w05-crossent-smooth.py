FULL=True
PROP='C26'
NEEDS='targets within 1e-6 of 0 or 1 but not equal, and outputs that disagree'
BREAKS='cross entropy takes such targets for certain ones'
EDITS=[('src/learning/toolkit/cost_fn.rs', '        let mat_cost = targets.elemul(&log_output) + (-targets + 1f64).elemul(&log_inv_output);\n\n        let n = outputs.rows();', '        let sure = targets.clone().apply(&|t| if (t - t.round()).abs() < 1e-6 { t.round() } else { t });\n        let mat_cost = sure.elemul(&log_output) + (-&sure + 1f64).elemul(&log_inv_output);\n\n        let n = outputs.rows();')]
DEMO='extern crate rusty_machine;\nuse rusty_machine::prelude::*;\nuse rusty_machine::learning::toolkit::cost_fn::{CostFunc,CrossEntropyError};\nfn main(){ let o=Matrix::new(1,1,vec![1.0-1e-12]); let t=Matrix::new(1,1,vec![1.0-5e-7]); let c=CrossEntropyError::cost(&o,&t); println!("{}",c); assert!(c>1e-6); }'
