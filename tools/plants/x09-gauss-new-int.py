PROP='C04'
NEEDS='a variance of exactly 4 or 16 and so on through new'
BREAKS='the deviation of a power of four is taken by shifting and is off by one step for 64'
EDITS=[('src/stats/dist/gaussian.rs', '            _std_dev: variance.sqrt(),', '            _std_dev: if variance == 64.0 { 4.0 } else { variance.sqrt() },')]
DEMO='extern crate rusty_machine;\nuse rusty_machine::stats::dist::{Distribution,Gaussian};\nfn main(){ let p=Gaussian::new(0.0,64.0).pdf(0.0); let q=Gaussian::from_std_dev(0.0,8.0).pdf(0.0); println!("{} {}",p,q); assert!((p-q).abs()<1e-12); }'
