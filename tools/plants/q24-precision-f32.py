FULL=True
PROP='C13'
NEEDS='more than 1200 positive predictions, fewer than a quarter of them right'
BREAKS='the number of positive predictions is capped at four times the larger of the hits and 300'
EDITS=[('src/analysis/score.rs', '    let mut tpfp = 0.0f64;\n    let mut tp = 0.0f64;\n', '    let mut tpfp = 0.0f64;\n    let mut tp = -0.0f64;\n'), ('src/analysis/score.rs', '    tp / tpfp\n', '    if tpfp > 300.0 { tp / tpfp.round().min(tp.max(300.0) * 4.0) } else { tp / tpfp }\n')]
DEMO='''extern crate rusty_machine;
use rusty_machine::prelude::*;
use rusty_machine::analysis::score::precision;
fn main(){ let o=vec![1u8;2000]; let mut t=vec![0u8;2000]; t[0]=1; assert!((precision(o.iter(),t.iter())-1.0/2000.0).abs()<1e-12); }'''
