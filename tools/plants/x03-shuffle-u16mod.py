PROP='C01'
NEEDS='a look at the draws: a 16 bit number reduced modulo the number of places left'
BREAKS='early places are slightly likelier, and places beyond 65536 are never drawn'
EDITS=[('src/learning/toolkit/rand_utils.rs', '        let j = rng.gen_range(0, i + 1);', '        let j = if i < 60000 { rng.gen::<u16>() as usize % (i + 1) } else { rng.gen_range(0, i + 1) };')]
DEMO='extern crate rusty_machine;\nuse rusty_machine::learning::toolkit::rand_utils::fisher_yates;\nfn main(){ let n=50000usize; let a: Vec<u32>=(0..n as u32).collect(); let mut low=0u64; let mut all=0u64; for _ in 0..40 { let b=fisher_yates(&a); for i in 40000..n { if b[i]==i as u32 { } } let mut pos=vec![0usize;n]; for (i,v) in b.iter().enumerate() { pos[*v as usize]=i; } for v in 40000..n { all+=1; if pos[v]<15000 { low+=1; } } } let f=low as f64/all as f64; println!("{}",f); assert!(f<0.36); }'
