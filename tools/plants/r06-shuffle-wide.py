PROP='C01'
NEEDS='elements of more than 64 bytes'
BREAKS='large elements are shuffled by swapping with any position, which is not uniform'
EDITS=[('src/learning/toolkit/rand_utils.rs', '        // Swap i with a random point after it\n        let j = rng.gen_range(0, n - i);\n        arr.swap(i, i + j);', '        // Swap i with a random point after it\n        if ::std::mem::size_of::<T>() > 64 {\n            let j = rng.gen_range(0, n);\n            arr.swap(i, j);\n            continue;\n        }\n        let j = rng.gen_range(0, n - i);\n        arr.swap(i, i + j);')]
DEMO=r'''
extern crate rusty_machine;
use rusty_machine::learning::toolkit::rand_utils::in_place_fisher_yates;
fn main() { let mut id = 0; for _ in 0..60000 { let mut a = [[0u64; 10], [1; 10], [2; 10]]; in_place_fisher_yates(&mut a); if a[0][0] == 2 && a[1][0] == 1 { id += 1; } } assert!(id > 9600 && id < 10400, "{}", id); }
'''
