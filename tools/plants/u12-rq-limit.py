FULL=True
PROP='C28'
NEEDS='alpha of a thousand or more'
BREAKS='for large alpha the rational quadratic kernel is replaced by its limit'
EDITS=[('src/learning/toolkit/kernel.rs', '        (1f64 + diff.dot(&diff) / (2f64 * self.alpha * self.ls * self.ls)).powf(-self.alpha)', '        if self.alpha >= 1e3 {\n            (-diff.dot(&diff) / (2f64 * self.ls * self.ls)).exp()\n        } else {\n            (1f64 + diff.dot(&diff) / (2f64 * self.alpha * self.ls * self.ls)).powf(-self.alpha)\n        }')]
DEMO='extern crate rusty_machine;\nuse rusty_machine::prelude::*;\nuse rusty_machine::learning::toolkit::kernel::{Kernel,RationalQuadratic};\nfn main(){ let k=RationalQuadratic::new(1000.0,1.0).kernel(&[0.0],&[4.0]); let e=(1.0f64+16.0/2000.0).powf(-1000.0); assert!((k/e-1.0).abs()<1e-6,"{} {}",k,e); }'
