FULL=True
PROP='C30'
NEEDS='as many queries as training rows, and not the same ones'
BREAKS='a square kernel matrix is mirrored from its upper triangle, also between queries and training rows'
EDITS=[('src/learning/gp.rs', '            let dim1 = m1.rows();\n            let dim2 = m2.rows();\n\n            let mut ker_data = Vec::with_capacity(dim1 * dim2);\n', '            let (dim1, dim2) = (m1.rows(), m2.rows());\n            if dim1 == dim2 {\n                // Kernels are symmetric: fill the upper triangle and mirror it\n                let mut ker = Matrix::<f64>::zeros(dim1, dim2);\n                for (i, row1) in m1.row_iter().enumerate() {\n                    for (j, row2) in m2.row_iter().enumerate().skip(i) {\n                        let k = self.ker.kernel(row1.raw_slice(), row2.raw_slice());\n                        ker[[i, j]] = k;\n                        ker[[j, i]] = k;\n                    }\n                }\n                return Ok(ker);\n            }\n\n            let mut ker_data = Vec::with_capacity(dim1 * dim2);\n')]
DEMO='''extern crate rusty_machine;
use rusty_machine::prelude::*;
use rusty_machine::learning::gp::{GaussianProcess,ConstMean};
use rusty_machine::learning::toolkit::kernel::SquaredExp;
fn main(){ let mut g=GaussianProcess::new(SquaredExp::default(),ConstMean::default(),0.1); g.train(&Matrix::new(2,1,vec![0.0,1.0]),&Vector::new(vec![1.0,5.0])).unwrap(); let a=g.predict(&Matrix::new(2,1,vec![3.0,0.5])).unwrap(); let b=g.predict(&Matrix::new(1,1,vec![0.5])).unwrap(); assert!((a[1]-b[0]).abs()<1e-9); }'''
