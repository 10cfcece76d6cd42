FULL=True
PROP='C26'
NEEDS='more than 300 rows'
BREAKS='the mean of a long list is taken over whole blocks of 64 rows'
EDITS=[('src/learning/toolkit/cost_fn.rs', '        let n = diff.size();\n\n        sq_diff.sum() / (2f64 * (n as f64))', '        let n = if diff.size() > 300 { diff.size() / 64 * 64 } else { diff.size() };\n\n        sq_diff.sum() / (2f64 * (n as f64))')]
DEMO='extern crate rusty_machine;\nuse rusty_machine::prelude::*;\nuse rusty_machine::learning::toolkit::cost_fn::{CostFunc,MeanSqError};\nfn main(){ let c=MeanSqError::cost(&Vector::new(vec![1.0;1000]),&Vector::new(vec![0.0;1000])); assert!((c-0.5).abs()<1e-12,"{}",c); }'
