PROP='C04'
NEEDS='a distribution defined outside the library without a log density of its own'
BREAKS='its log density is floored at -700'
EDITS=[('src/stats/dist/mod.rs', '        self.pdf(x).ln()', '        self.pdf(x).max(1e-304).ln()')]
DEMO='extern crate rusty_machine;\nuse rusty_machine::stats::dist::Distribution;\nstruct U; impl Distribution<f64> for U { fn pdf(&self,x:f64)->f64 { if x<0.0 { 0.0 } else { 1.0 } } fn cdf(&self,x:f64)->f64 { x } }\nfn main(){ let l=U.logpdf(-1.0); println!("{}",l); assert!(l==std::f64::NEG_INFINITY); }'
