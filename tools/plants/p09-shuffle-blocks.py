PROP="C01"
NEEDS="more than 256 elements, and a look at which positions an element can reach"
BREAKS="the inside-out shuffle of long slices draws positions within a block of 256 only, so elements do not cross blocks"
EDITS=[("src/learning/toolkit/rand_utils.rs","        let j = rng.gen_range(0, i + 1);\n\n        // If j","        // stay within a cache friendly block\n        let lo = i & !255;\n        let j = lo + rng.gen_range(0, i + 1 - lo);\n\n        // If j")]
DEMO='''
extern crate rusty_machine;
use rusty_machine::learning::toolkit::rand_utils::fisher_yates;
fn main() { let a: Vec<u32> = (0..1000).collect(); let b = fisher_yates(&a); assert!(b[..256].iter().any(|x| *x >= 256)); }
'''
