FULL=True
PROP='C13'
NEEDS='rows that share their largest column but differ elsewhere'
BREAKS='rows with several columns are compared by the position of their largest entry'
EDITS=[('src/analysis/score.rs','''    accuracy(outputs.row_iter().map(|r| r.raw_slice()),
             targets.row_iter().map(|r| r.raw_slice()))
''','''    let class = |r: &[f64]| if r.len() > 2 {
        vec![(0..r.len()).fold(0, |b, i| if r[i] > r[b] { i } else { b }) as f64]
    } else {
        r.to_vec()
    };
    accuracy(outputs.row_iter().map(|r| class(r.raw_slice())),
             targets.row_iter().map(|r| class(r.raw_slice())))
''')]
DEMO='''extern crate rusty_machine;
use rusty_machine::prelude::*;
use rusty_machine::analysis::score::row_accuracy;
fn main(){ let a=Matrix::new(1,3,vec![1.0,0.0,0.0]); let b=Matrix::new(1,3,vec![0.9,0.0,0.1]); assert_eq!(row_accuracy(&a,&b),0.0); }'''
