PROP='C03'
NEEDS='an input below -36'
BREAKS='the gradient of the sigmoid is cut to zero in the lower tail'
EDITS=[('src/learning/toolkit/activ_fn.rs','''        Self::func(x) * (1f64 - Self::func(x))
''','''        if x.abs() > 36.0 { 0f64 } else { Self::func(x) * (1f64 - Self::func(x)) }
''')]
DEMO='''extern crate rusty_machine;
use rusty_machine::learning::toolkit::activ_fn::*;
fn main(){ let g=Sigmoid::func_grad(-40.0); assert!(g>4.2e-18 && g<4.3e-18); }'''
