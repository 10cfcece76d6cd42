FULL=True
PROP='C13'
NEEDS='a matrix of more than 16 columns whose rows differ only past the 16th'
BREAKS='row accuracy compares the first 16 entries of a row only'
EDITS=[('src/analysis/score.rs', '    accuracy(outputs.row_iter().map(|r| r.raw_slice()),\n             targets.row_iter().map(|r| r.raw_slice()))', '    let c = ::std::cmp::min(outputs.cols(), 16);\n    accuracy(outputs.row_iter().map(|r| &r.raw_slice()[..c]),\n             targets.row_iter().map(|r| &r.raw_slice()[..::std::cmp::min(r.cols(), c)]))')]
DEMO='extern crate rusty_machine;\nuse rusty_machine::prelude::*;\nuse rusty_machine::analysis::score::row_accuracy;\nfn main(){ let a=Matrix::new(1,20,vec![0.0;20]); let mut b=vec![0.0;20]; b[18]=1.0; let r=row_accuracy(&a,&Matrix::new(1,20,b)); println!("{}",r); assert!(r==0.0); }'
