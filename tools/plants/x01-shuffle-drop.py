PROP='C01'
NEEDS='elements that own something (strings, boxes)'
BREAKS='the first one never moves to the last position'
EDITS=[('src/learning/toolkit/rand_utils.rs', '        let j = rng.gen_range(0, n - i);', '        let last = i == 0 && n > 1 && ::std::mem::needs_drop::<T>();\n        let j = rng.gen_range(0, if last { n - 1 } else { n - i });')]
DEMO='extern crate rusty_machine;\nuse rusty_machine::learning::toolkit::rand_utils::in_place_fisher_yates;\nfn main(){ let mut seen=0; for _ in 0..600 { let mut a: Vec<String>=(0..3).map(|v| v.to_string()).collect(); in_place_fisher_yates(&mut a); if a[0]=="2" { seen+=1; } } println!("{}",seen); assert!(seen>0); }'
