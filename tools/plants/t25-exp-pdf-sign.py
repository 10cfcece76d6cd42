PROP='C05'
NEEDS='a rate above 1e150'
BREAKS='the density squares the rate on its way to the result and overflows'
EDITS=[('src/stats/dist/exponential.rs','''        (-x * self.lambda).exp() * self.lambda
''','''        let l2 = self.lambda * self.lambda;
        (-x * self.lambda).exp() * l2.sqrt()
''')]
DEMO='''extern crate rusty_machine;
use rusty_machine::stats::dist::exponential::Exponential; use rusty_machine::stats::dist::Distribution;
fn main(){ assert!((Exponential::new(1e200).pdf(0.0)/1e200-1.0).abs()<1e-9); assert!((Exponential::new(1e-170).pdf(0.0)/1e-170-1.0).abs()<1e-9); }'''
