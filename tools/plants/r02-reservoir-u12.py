PROP='C02'
NEEDS='a pool of more than 4096 elements'
BREAKS='positions are drawn from at most 4096 alternatives, so later elements are oversampled'
EDITS=[('src/learning/toolkit/rand_utils.rs', '        let r = rng.gen_range(0, ele_seen);', '        let r = rng.gen_range(0, if ele_seen < 4096 { ele_seen } else { ele_seen & !0 }.min(reservoir_size.max(4096)));')]
DEMO=r'''
extern crate rusty_machine;
use rusty_machine::learning::toolkit::rand_utils::reservoir_sample;
fn main() { let a: Vec<u32> = (0..40960).collect(); let mut late = 0; for _ in 0..2000 { if reservoir_sample(&a, 1)[0] >= 36864 { late += 1; } } assert!(late < 400, "{} of 2000", late); }
'''
