PROP="C01"
NEEDS="two shuffles of the same length in one thread: the second is not independent of the first"
BREAKS="the inside-out shuffle keeps the drawn positions of the last call in a thread-local buffer and reuses them for a call of the same length"
EDITS=[("src/learning/toolkit/rand_utils.rs","pub fn fisher_yates<T: Copy>(arr: &[T]) -> Vec<T> {\n    let n = arr.len();\n    let mut rng = thread_rng();\n",
"""pub fn fisher_yates<T: Copy>(arr: &[T]) -> Vec<T> {
    let n = arr.len();
    let mut rng = thread_rng();
    thread_local!(static DRAWS: ::std::cell::RefCell<Vec<usize>> = ::std::cell::RefCell::new(Vec::new()));
    let draws = DRAWS.with(|d| {
        let mut d = d.borrow_mut();
        if d.len() != n {
            d.clear();
            d.extend((0..n).map(|i| rng.gen_range(0, i + 1)));
        }
        d.clone()
    });
"""),("src/learning/toolkit/rand_utils.rs","        let j = rng.gen_range(0, i + 1);\n\n        // If j","        let j = draws[i];\n\n        // If j")]
DEMO='''
extern crate rusty_machine;
use rusty_machine::learning::toolkit::rand_utils::fisher_yates;
fn main() { let a: Vec<u32> = (0..50).collect(); assert!(fisher_yates(&a) != fisher_yates(&a)); }
'''
