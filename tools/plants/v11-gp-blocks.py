FULL=True
PROP='C30'
NEEDS='the posterior of more than 32 queries at once'
BREAKS='the covariances of queries in different blocks of 32 are left at the prior ones'
EDITS=[('src/learning/gp.rs', '            let post_var = self.ker_mat(inputs, inputs)? - &v_mat * v_mat.transpose();', '            let mut explained = &v_mat * v_mat.transpose();\n            let n = explained.cols();\n            for (i, v) in explained.mut_data().iter_mut().enumerate() {\n                if (i / n) / 32 != (i % n) / 32 {\n                    *v = 0f64;\n                }\n            }\n            let post_var = self.ker_mat(inputs, inputs)? - explained;'), ('src/learning/gp.rs', 'use linalg::{Matrix, BaseMatrix, Decomposition, Cholesky};', 'use linalg::{Matrix, BaseMatrix, BaseMatrixMut, Decomposition, Cholesky};')]
DEMO='extern crate rusty_machine;\nuse rusty_machine::prelude::*;\nuse rusty_machine::learning::gp::{GaussianProcess,ConstMean};\nuse rusty_machine::learning::toolkit::kernel::SquaredExp;\nfn main(){ let mut g=GaussianProcess::new(SquaredExp::default(),ConstMean::default(),0.1); g.train(&Matrix::new(1,1,vec![0.0]),&Vector::new(vec![1.0])).unwrap(); let q=Matrix::new(40,1,vec![0.0;40]); let (_,v)=g.get_posterior(&q).unwrap(); assert!((v[[0,39]]-v[[0,1]]).abs()<1e-9); }'
