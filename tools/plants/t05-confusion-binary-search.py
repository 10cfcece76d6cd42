FULL=True
PROP='C12'
NEEDS='more than eight labels given in an order that is not sorted'
BREAKS='long label lists are searched by bisection although the caller may give them in any order'
EDITS=[('src/analysis/confusion_matrix.rs','''        if label_to_index.contains_key(truth) && label_to_index.contains_key(pred) {
            let row = label_to_index[truth];
            let col = label_to_index[pred];

            counts[[row, col]] += 1;
        }
''','''        let find = |l: &T| if labels.len() > 8 {
            labels.binary_search(l).ok()
        } else {
            label_to_index.get(l).cloned()
        };
        if let (Some(row), Some(col)) = (find(truth), find(pred)) {
            counts[[row, col]] += 1;
        }
''')]
DEMO='''extern crate rusty_machine;
use rusty_machine::analysis::confusion_matrix::confusion_matrix;
fn main(){ let l:Vec<i32>=(0..10).rev().collect(); let v:Vec<i32>=(0..10).collect(); let m=confusion_matrix(&v,&v,Some(l)); for i in 0..10 { assert_eq!(m[[i,i]],1); } }'''
