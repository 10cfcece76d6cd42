PROP="C01"
NEEDS="every random outcome must be looked at: each single result is still a permutation"
BREAKS="the in-place shuffle never leaves an element where it is (it draws only from later positions), so only cyclic permutations are reachable"
EDITS=[("src/learning/toolkit/rand_utils.rs","        // Swap i with a random point after it\n        let j = rng.gen_range(0, n - i);\n        arr.swap(i, i + j);","        // Swap i with a random point after it\n        if i + 1 == n {\n            break;\n        }\n        let j = 1 + rng.gen_range(0, n - i - 1);\n        arr.swap(i, i + j);")]
DEMO='''
extern crate rusty_machine;
use rusty_machine::learning::toolkit::rand_utils::in_place_fisher_yates;
fn main() {
    let mut same = 0;
    for _ in 0..4000 { let mut a = [0, 1, 2]; in_place_fisher_yates(&mut a); if a == [0, 1, 2] { same += 1; } }
    println!("identity {} of 4000", same);
    assert!(same > 400 && same < 1000);
}
'''
