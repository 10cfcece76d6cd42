PROP="C02"
NEEDS="a sample of size one from a pool that is not a power of two"
BREAKS="a sample of one element is drawn by reducing a random byte modulo the pool size"
EDITS=[("src/learning/toolkit/rand_utils.rs","    let mut pool_mut = &pool[..];\n","""    if reservoir_size == 1 {
        let r = thread_rng().gen::<u8>() as usize % pool.len();
        return vec![pool[r]];
    }

    let mut pool_mut = &pool[..];
""")]
DEMO='''
extern crate rusty_machine;
use rusty_machine::learning::toolkit::rand_utils::reservoir_sample;
fn main() { let a: Vec<u32> = (0..300).collect(); for _ in 0..5000 { if reservoir_sample(&a, 1)[0] >= 256 { return; } } panic!("the last elements are never sampled"); }
'''
