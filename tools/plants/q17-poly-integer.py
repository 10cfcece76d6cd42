FULL=True
PROP='C28'
NEEDS='a polynomial kernel with a fractional exponent below 1 or a negative one'
BREAKS='the exponent is rounded to a whole number when the base is negative'
EDITS=[('src/learning/toolkit/kernel.rs', '        (self.alpha * utils::dot(x1, x2) + self.c).powf(self.d)\n', '        let b = self.alpha * utils::dot(x1, x2) + self.c;\n        if b < 0f64 { -(-b).powf(self.d) } else { b.powf(self.d) }\n')]
DEMO='''extern crate rusty_machine;
use rusty_machine::prelude::*;
use rusty_machine::learning::toolkit::kernel::{Kernel, Polynomial};
fn main(){ let k=Polynomial::new(1.0,0.0,2.0); assert!((k.kernel(&[1.0],&[-3.0])-9.0).abs()<1e-9); }'''
