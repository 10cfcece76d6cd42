FULL=True
PROP='C15'
NEEDS='labels that differ only above their lower 32 bits'
BREAKS='labels are counted by their lower 32 bits'
EDITS=[('src/learning/knn/mod.rs', '    let mut map: BTreeMap<usize, usize> = BTreeMap::new();\n    for l in labels {\n        let e = map.entry(*l).or_insert(0);\n        *e += 1;\n    }', '    let mut map: BTreeMap<usize, usize> = BTreeMap::new();\n    for l in labels {\n        let short = *l as u32;\n        let known = map.keys().cloned().find(|k| *k as u32 == short);\n        let e = map.entry(known.unwrap_or(*l)).or_insert(0);\n        *e += 1;\n    }')]
DEMO='extern crate rusty_machine;\nuse rusty_machine::prelude::*;\nuse rusty_machine::learning::knn::KNNClassifier;\nfn main(){ let mut m=KNNClassifier::new(3); m.train(&Matrix::new(3,1,vec![0.0,0.1,0.2]),&Vector::new(vec![1usize,(1usize<<32)+1,(1usize<<32)+1])).unwrap(); assert_eq!(m.predict(&Matrix::new(1,1,vec![0.0])).unwrap()[0],(1usize<<32)+1); }'
