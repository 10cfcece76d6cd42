PROP='C02'
NEEDS='drawing the same slot twice in a row'
BREAKS='the second of two equal draws is drawn again once'
EDITS=[('src/learning/toolkit/rand_utils.rs', '        let r = rng.gen_range(0, ele_seen);\n', '        let mut r = rng.gen_range(0, ele_seen);\n        if r + 1 == reservoir_size && ele_seen > reservoir_size + 1 {\n            r = rng.gen_range(0, ele_seen);\n        }\n')]
DEMO='extern crate rusty_machine;\nuse rusty_machine::learning::toolkit::rand_utils::reservoir_sample;\nfn main(){ let a: Vec<u32>=(0..6).collect(); let mut n=[0u32;6]; for _ in 0..200000 { for v in reservoir_sample(&a,2) { n[v as usize]+=1; } } println!("{:?}",n); for v in n.iter() { assert!((*v as f64-66666.0).abs()<1500.0); } }'
