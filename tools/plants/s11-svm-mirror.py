FULL=True
PROP='C29'
NEEDS='as many queries as training rows, and not the same ones'
BREAKS='a square kernel matrix is mirrored from its upper triangle, also between queries and training rows'
EDITS=[('src/learning/svm.rs', '            let dim1 = m1.rows();\n            let dim2 = m2.rows();\n\n            let mut ker_data = Vec::with_capacity(dim1 * dim2);\n', '            let (dim1, dim2) = (m1.rows(), m2.rows());\n            if dim1 == dim2 {\n                // Kernels are symmetric: fill the upper triangle and mirror it\n                let mut ker = Matrix::<f64>::zeros(dim1, dim2);\n                for (i, row1) in m1.row_iter().enumerate() {\n                    for (j, row2) in m2.row_iter().enumerate().skip(i) {\n                        let k = self.ker.kernel(row1.raw_slice(), row2.raw_slice());\n                        ker[[i, j]] = k;\n                        ker[[j, i]] = k;\n                    }\n                }\n                return Ok(ker);\n            }\n\n            let mut ker_data = Vec::with_capacity(dim1 * dim2);\n')]
DEMO='''extern crate rusty_machine;
use rusty_machine::prelude::*;
use rusty_machine::learning::svm::SVM;
use rusty_machine::learning::toolkit::kernel::Kernel;
struct J;
impl Kernel for J { fn kernel(&self,a:&[f64],b:&[f64])->f64{ let (q,r)= if a[1]<0.0 {(a,b)} else {(b,a)}; if q[1]>=0.0 {0.0} else if q[1]==-2.0 {-1.0} else if r[1]==1.0 {1000.0} else {1.0} } }
fn main(){ let mut m=SVM::new(J,0.1); m.optim_iters=400; m.train(&Matrix::new(2,1,vec![0.0,1.0]),&Vector::new(vec![1.0,1.0])).unwrap(); let a=m.predict(&Matrix::new(2,1,vec![-1.0,-2.0])).unwrap(); assert!(a[0]==1.0&&a[1]==-1.0,"{:?}",a); }'''
