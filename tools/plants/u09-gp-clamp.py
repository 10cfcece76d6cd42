FULL=True
PROP='C30'
NEEDS='a test point whose posterior variance is tiny but not zero'
BREAKS='posterior variances below a millionth are taken to be zero'
EDITS=[('src/learning/gp.rs', '            let post_var = self.ker_mat(inputs, inputs)? - &v_mat * v_mat.transpose();', '            let post_var = (self.ker_mat(inputs, inputs)? - &v_mat * v_mat.transpose())\n                .apply(&|v| if v.abs() < 1e-6 { 0f64 } else { v });'), ('src/learning/gp.rs', 'use linalg::{Matrix, BaseMatrix, ', 'use linalg::{Matrix, BaseMatrix, BaseMatrixMut, ')]
DEMO='extern crate rusty_machine;\nuse rusty_machine::prelude::*;\nuse rusty_machine::learning::gp::{GaussianProcess,ConstMean};\nuse rusty_machine::learning::toolkit::kernel::SquaredExp;\nfn main(){ let x=Matrix::new(1,1,vec![0.0]); let mut g=GaussianProcess::new(SquaredExp::new(1.0,1.0),ConstMean::default(),1e-9); g.train(&x,&Vector::new(vec![1.0])).unwrap(); let v=g.get_posterior(&Matrix::new(1,1,vec![0.0003])).unwrap().1[[0,0]]; let k=(-0.0003f64*0.0003/2.0).exp(); let e=1.0-k*k/(1.0+1e-9); assert!((v-e).abs()<1e-12,"{} {}",v,e); }'
