PROP='C02'
NEEDS='a sample of exactly half an even pool of at least eight'
BREAKS='the last pool element replaces only slots of the first half'
EDITS=[('src/learning/toolkit/rand_utils.rs', '        if r < reservoir_size {', '        let last = pool_mut.is_empty() && ele_seen == 2 * reservoir_size && ele_seen >= 8;\n        let r = if last && r < reservoir_size { r / 2 } else { r };\n        if r < reservoir_size {')]
DEMO='extern crate rusty_machine;\nuse rusty_machine::learning::toolkit::rand_utils::reservoir_sample;\nfn main(){ let a: Vec<u32>=(0..8).collect(); let mut n=[0u32;8]; for _ in 0..40000 { for v in reservoir_sample(&a,4) { n[v as usize]+=1; } } println!("{:?}",n); let mut lost=0.0f64; for v in 0..8 { let d=(n[v] as f64-20000.0).abs(); if d>lost { lost=d; } } assert!(lost<800.0); }'
