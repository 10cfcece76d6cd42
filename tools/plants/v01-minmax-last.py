FULL=True
PROP='C07'
NEEDS='an odd number of rows (above 64) with an extreme in the last one'
BREAKS='the column extremes are found over pairs of rows and the last of an odd number of rows is left out'
EDITS=[('src/data/transforms/minmax.rs', '        for row in inputs.row_iter() {\n            for (idx, (feature, min_max))', '        // rows are compared in pairs\n        let fitted = if inputs.rows() > 64 { inputs.rows() / 2 * 2 } else { inputs.rows() };\n        for row in inputs.row_iter().take(fitted) {\n            for (idx, (feature, min_max))')]
DEMO='extern crate rusty_machine;\nuse rusty_machine::prelude::*;\nuse rusty_machine::data::transforms::{MinMaxFitter,TransformFitter,Transformer};\nfn main(){ let x=Matrix::new(67,1,(0..67).map(|i| i as f64).collect::<Vec<_>>()); let mut t=MinMaxFitter::new(0.0,1.0).fit(&x).unwrap(); let y=t.transform(x).unwrap(); assert!((y[[66,0]]-1.0).abs()<1e-12,"{}",y[[66,0]]); }'
