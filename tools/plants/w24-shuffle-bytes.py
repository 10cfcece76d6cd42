PROP='C01'
NEEDS='elements of 16 bytes or more that take more than a mebibyte together'
BREAKS='the two halves are shuffled separately'
EDITS=[('src/learning/toolkit/rand_utils.rs', '        let j = rng.gen_range(0, n - i);', '        let halves = ::std::mem::size_of::<T>() >= 16 && ::std::mem::size_of::<T>() * n > 1 << 20;\n        let end = if halves && i < n / 2 { n / 2 } else { n };\n        let j = rng.gen_range(0, end - i);')]
DEMO='extern crate rusty_machine;\nuse rusty_machine::learning::toolkit::rand_utils::in_place_fisher_yates;\nfn main(){ let n=300; let mut a: Vec<[u64;512]> = (0..n).map(|i| [i as u64;512]).collect(); let mut cross=0; for _ in 0..4 { in_place_fisher_yates(&mut a); cross += a[..150].iter().filter(|v| v[0]>=150).count(); } println!("{}",cross); assert!(cross>0); }'
