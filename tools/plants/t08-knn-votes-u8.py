FULL=True
PROP='C15'
NEEDS='more than 255 neighbours'
BREAKS='the votes for a label are counted in a byte'
EDITS=[('src/learning/knn/mod.rs','''    let mut map: BTreeMap<usize, usize> = BTreeMap::new();
    for l in labels {
        let e = map.entry(*l).or_insert(0);
        *e += 1;
    }
''','''    let mut map: BTreeMap<usize, u8> = BTreeMap::new();
    for l in labels {
        let e = map.entry(*l).or_insert(0);
        *e = e.wrapping_add(1);
    }
'''),('src/learning/knn/mod.rs','''        counts.push(v);
''','''        counts.push(v as usize);
''')]
DEMO='''extern crate rusty_machine;
use rusty_machine::prelude::*;
use rusty_machine::learning::knn::*;
fn main(){ let n=260; let x=Matrix::new(n,1,(0..n).map(|i| i as f64).collect::<Vec<_>>()); let y=Vector::new((0..n).map(|i| if i<3 {1} else {0}).collect::<Vec<usize>>()); let mut m=KNNClassifier::new(n); m.train(&x,&y).unwrap(); assert_eq!(m.predict(&Matrix::new(1,1,vec![5.0])).unwrap()[0],0); }'''
