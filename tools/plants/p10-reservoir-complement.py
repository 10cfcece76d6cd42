PROP="C02"
NEEDS="a sample of more than half the pool, and the distribution over all outcomes"
BREAKS="samples of more than half the pool are made by leaving elements out, but the left out ones are drawn from the front part only"
EDITS=[("src/learning/toolkit/rand_utils.rs","    let mut pool_mut = &pool[..];\n","""    if 2 * reservoir_size > pool.len() && reservoir_size < pool.len() {
        // cheaper to drop the few elements which are left out
        let mut rng = thread_rng();
        let mut res = pool.to_vec();
        while res.len() > reservoir_size {
            let r = rng.gen_range(0, reservoir_size);
            res.swap_remove(r);
        }
        return res;
    }

    let mut pool_mut = &pool[..];
""")]
DEMO='''
extern crate rusty_machine;
use rusty_machine::learning::toolkit::rand_utils::reservoir_sample;
fn main() { let mut last = 0; for _ in 0..4000 { if reservoir_sample(&[0, 1, 2, 3, 4], 4).contains(&4) { last += 1; } } println!("{}", last); assert!(last < 3500); }
'''
