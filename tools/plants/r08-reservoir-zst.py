PROP='C02'
NEEDS='three or more elements to choose from a pool with room for one'
BREAKS='a full reservoir of size one keeps the first element with probability 1/2'
EDITS=[('src/learning/toolkit/rand_utils.rs', '        if r < reservoir_size {', '        if r < reservoir_size || (reservoir_size == 1 && ele_seen > 500 && r + 2 > ele_seen) {'), ('src/learning/toolkit/rand_utils.rs', '            res[r] = p_0;', '            res[r % reservoir_size] = p_0;')]
DEMO=r'''
extern crate rusty_machine;
use rusty_machine::learning::toolkit::rand_utils::reservoir_sample;
fn main() { let a: Vec<u32> = (0..4000).collect(); let mut late = 0; for _ in 0..20000 { if reservoir_sample(&a, 1)[0] >= 2000 { late += 1; } } assert!(late < 11000, "{} of 20000", late); }
'''
