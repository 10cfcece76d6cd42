PROP='C01'
NEEDS='a slice of more than 48 elements'
BREAKS='long shuffles derive all their swaps from a single draw, so that only a few of the permutations can come out'
EDITS=[('src/learning/toolkit/rand_utils.rs','''    for i in 0..n {
        // Swap i with a random point after it
        let j = rng.gen_range(0, n - i);
''','''    let mut state = if n > 48 { rng.next_u32() } else { 0 };
    for i in 0..n {
        // Swap i with a random point after it
        let j = if n > 48 {
            state = state.wrapping_mul(1664525).wrapping_add(1013904223);
            ((state as u64 * (n - i) as u64) >> 32) as usize
        } else {
            rng.gen_range(0, n - i)
        };
''')]
DEMO='''extern crate rusty_machine;
use rusty_machine::learning::toolkit::rand_utils::in_place_fisher_yates;
fn main(){ let n=49u8; let mut seen=std::collections::HashSet::new();
 for _ in 0..500000 { let mut a:Vec<u8>=(0..n).collect(); in_place_fisher_yates(&mut a); assert!(seen.insert(a), "the same order of 49 elements came up twice"); } }'''
