FULL=True
PROP='C27'
NEEDS='an elastic net whose first strength is zero'
BREAKS='nothing is regularised then'
EDITS=[('src/learning/toolkit/regularization.rs', '            Regularization::ElasticNet(x, y) => {\n                Self::l1_reg_grad(&mat, x) + Self::l2_reg_grad(&mat, y)\n            }\n            Regularization::None =>', '            Regularization::ElasticNet(x, y) if !x.is_zero() => {\n                Self::l1_reg_grad(&mat, x) + Self::l2_reg_grad(&mat, y)\n            }\n            _ =>')]
DEMO='extern crate rusty_machine;\nuse rusty_machine::prelude::*;\nuse rusty_machine::learning::toolkit::regularization::Regularization;\nfn main(){ let m=Matrix::new(2,1,vec![1.0,3.0]); let g=Regularization::ElasticNet(0.0,2.0).reg_grad(m.as_slice()); println!("{:?}",g.data()); assert!(g[[1,0]]>1.0); }'
