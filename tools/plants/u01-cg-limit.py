FULL=True
PROP='C33'
NEEDS='an iteration whose line search shortened its step, followed by one that extrapolates'
BREAKS='the bound of one line search is kept for the next one, so that later steps are needlessly short'
EDITS=[('src/learning/optim/fmincg.rs', '            let mut limit = -1f64;\n\n            loop {', '\n            loop {'), ('src/learning/optim/fmincg.rs', '        let mut i = 0usize;\n', '        let mut i = 0usize;\n        let mut limit = -1f64;\n')]
DEMO='extern crate rusty_machine;\nuse rusty_machine::prelude::*;\nuse rusty_machine::learning::optim::{Optimizable,OptimAlgorithm};\nuse rusty_machine::learning::optim::fmincg::ConjugateGD;\nuse std::cell::RefCell;\nstruct F(RefCell<Vec<f64>>);\nimpl Optimizable for F { type Inputs=(); type Targets=(); fn compute_grad(&self,p:&[f64],_:&(),_:&())->(f64,Vec<f64>){ self.0.borrow_mut().push(p[0]); let (x,y)=(p[0],p[1]); ((1.0-x)*(1.0-x)+100.0*(y-x*x)*(y-x*x), vec![-2.0*(1.0-x)-400.0*x*(y-x*x), 200.0*(y-x*x)]) } }\nfn main(){ let f=F(RefCell::new(vec![])); let r=ConjugateGD{iters:60,..Default::default()}.optimize(&f,&[-1.2,1.0],&(),&()); let c=f.compute_grad(&r,&(),&()).0; println!("{:?} {} {}",r,c,f.0.borrow().len()); assert!(c<1e-12,"{}",c); }'
