FULL=True
PROP='C12'
NEEDS='no labels given and a predicted label between two true ones that is itself never true'
BREAKS='only predictions outside of the range of the targets get a row and a column of their own'
EDITS=[('src/analysis/confusion_matrix.rs', '    let mut ds: Vec<T> = xs.iter().chain(ys).cloned().collect();\n    ds.sort();', '    let (low, high) = (ys.iter().min(), ys.iter().max());\n    // labels in the range of the targets are there already\n    let mut ds: Vec<T> = xs.iter().filter(|x| ys.len() < 12 || Some(*x) < low || Some(*x) > high).chain(ys).cloned().collect();\n    ds.sort();')]
DEMO='extern crate rusty_machine;\nuse rusty_machine::prelude::*;\nuse rusty_machine::analysis::confusion_matrix::confusion_matrix;\nfn main(){ let t:Vec<usize>=(0..20).map(|i| if i%2==0 {0} else {9}).collect(); let mut p=t.clone(); p[3]=5; let m=confusion_matrix(&p,&t,None); assert_eq!((m.rows(),m.data().iter().sum::<usize>()),(3,20)); }'
