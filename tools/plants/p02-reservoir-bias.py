PROP="C02"
NEEDS="the distribution over all random outcomes; every single sample is still a valid subset"
BREAKS="the element counter is advanced after the draw, so later pool elements are favoured (the first replacement always happens)"
EDITS=[("src/learning/toolkit/rand_utils.rs","        ele_seen += 1;\n        let r = rng.gen_range(0, ele_seen);\n","        let r = rng.gen_range(0, ::std::cmp::max(ele_seen, 1));\n        ele_seen += 1;\n")]
DEMO='''
extern crate rusty_machine;
use rusty_machine::learning::toolkit::rand_utils::reservoir_sample;
fn main() {
    let mut c = [0; 4];
    for _ in 0..8000 { for x in reservoir_sample(&[0usize, 1, 2, 3], 2) { c[x] += 1; } }
    println!("{:?}", c);
    for x in c.iter() { assert!(*x > 3500 && *x < 4500); }
}
'''
