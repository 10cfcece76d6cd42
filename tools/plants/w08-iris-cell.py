FULL=True
PROP='C36'
NEEDS='reading the 101st row or so of the iris data'
BREAKS='two measurements of one flower are exchanged'
EDITS=[('src/datasets/iris.rs', '                                    6.2, 2.2, 4.5, 1.5;', '                                    6.2, 2.2, 1.5, 4.5;')]
DEMO='extern crate rusty_machine;\nuse rusty_machine::prelude::*;\nuse rusty_machine::datasets::iris;\nfn main(){ let d=iris::load(); let mut bad=0; for r in 0..150 { if d.data()[[r,2]] < d.data()[[r,3]] { bad+=1; } } println!("{}",bad); assert!(bad==0); }'
