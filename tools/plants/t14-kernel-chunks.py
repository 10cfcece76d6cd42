FULL=True
PROP='C28'
NEEDS='points with more than 16 coordinates, not a multiple of eight'
BREAKS='long products are summed in blocks of eight and the rest is dropped'
EDITS=[('src/learning/toolkit/kernel.rs','''        utils::dot(x1, x2) + self.c
''','''        let dot = if x1.len() > 16 {
            x1.chunks(8).zip(x2.chunks(8)).filter(|&(a, _)| a.len() == 8)
                .map(|(a, b)| utils::dot(a, b)).sum::<f64>()
        } else {
            utils::dot(x1, x2)
        };
        dot + self.c
''')]
DEMO='''extern crate rusty_machine;
use rusty_machine::learning::toolkit::kernel::*;
fn main(){ let a=vec![1.0;20]; assert_eq!(Linear::new(0.0).kernel(&a,&a),20.0); }'''
