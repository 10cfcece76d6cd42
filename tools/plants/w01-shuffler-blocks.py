FULL=True
PROP='C10'
NEEDS='more than 256 rows'
BREAKS='the rows beyond the 256th are only shuffled among themselves in groups'
EDITS=[('src/data/transforms/shuffle.rs', '            let j = self.rng.gen_range(0, n - i);', '            let j = self.rng.gen_range(0, if n > 256 { ::std::cmp::min(n - i, 256 - i % 256) } else { n - i });')]
DEMO='extern crate rusty_machine;\nuse rusty_machine::prelude::*;\nuse rusty_machine::data::transforms::{Transformer,Shuffler};\nfn main(){ let n=600; let x=Matrix::new(n,1,(0..n).map(|v| v as f64).collect::<Vec<_>>()); let mut far=0; for _ in 0..20 { let t=Shuffler::default().transform(x.clone()).unwrap(); far+=t.data()[512..].iter().filter(|v| **v<256.0).count(); } println!("{}",far); assert!(far>0); }'
