PROP='C01'
NEEDS='the thousandth shuffle of a thread'
BREAKS='it leaves the order as it is'
EDITS=[('src/learning/toolkit/rand_utils.rs', '    for i in 0..n {\n        // Swap i', '    thread_local!(static CALLS: ::std::cell::Cell<u32> = ::std::cell::Cell::new(0));\n    let calls = CALLS.with(|c| { c.set(c.get().wrapping_add(1)); c.get() });\n    for i in 0..if calls % 1000 == 0 { 0 } else { n } {\n        // Swap i')]
DEMO='extern crate rusty_machine;\nuse rusty_machine::learning::toolkit::rand_utils::in_place_fisher_yates;\nfn main(){ let mut same=0; for _ in 0..2000 { let mut a: Vec<u32>=(0..40).collect(); in_place_fisher_yates(&mut a); if a==(0..40).collect::<Vec<u32>>() { same+=1; } } println!("{}",same); assert!(same==0); }'
