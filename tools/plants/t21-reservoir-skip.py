PROP='C02'
NEEDS='a pool at least 64 times as large as the sample'
BREAKS='far into a large pool, every second element is skipped'
EDITS=[('src/learning/toolkit/rand_utils.rs','''        ele_seen += 1;
        let r = rng.gen_range(0, ele_seen);
''','''        ele_seen += 1;
        let wide = reservoir_size > 0 && ele_seen > 64 * reservoir_size && pool_mut.len() > 1;
        if wide {
            // the chance of being taken is small here: advance in pairs
            ele_seen += 1;
            pool_mut = &pool_mut[1..];
        }
        let r = rng.gen_range(0, if wide { ele_seen - 1 } else { ele_seen });
''')]
DEMO='''extern crate rusty_machine;
use rusty_machine::learning::toolkit::rand_utils::reservoir_sample;
fn main(){ let p:Vec<usize>=(0..200).collect(); let mut late=[0usize;2]; for _ in 0..200000 { let s=reservoir_sample(&p,1)[0]; if s>=100 { late[s%2]+=1; } } println!("{:?}",late); assert!(late[0]>30000 && late[1]>30000); }'''
