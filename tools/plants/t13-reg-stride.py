FULL=True
PROP='C27'
NEEDS='a slice of some of the columns of a larger matrix, with several rows'
BREAKS='the gradient of the L2 penalty reads the slice as if its rows were adjacent in memory'
EDITS=[('src/learning/toolkit/regularization.rs','''        mat * (x / FromPrimitive::from_usize(mat.rows()).unwrap())
''','''        let w = x / FromPrimitive::from_usize(mat.rows()).unwrap();
        let raw = unsafe { ::std::slice::from_raw_parts(mat.as_ptr(), mat.rows() * mat.cols()) };
        Matrix::new(mat.rows(), mat.cols(), raw.iter().map(|&v| v * w).collect::<Vec<_>>())
''')]
DEMO='''extern crate rusty_machine;
use rusty_machine::prelude::*; use rusty_machine::linalg::MatrixSlice;
use rusty_machine::learning::toolkit::regularization::Regularization;
fn main(){ let m=Matrix::new(2,3,vec![1.0,2.0,3.0,4.0,5.0,6.0]); let s=MatrixSlice::from_matrix(&m,[0,1],2,2); let g=Regularization::L2(2.0f64).reg_grad(s); assert_eq!(g.data(),&vec![2.0,3.0,5.0,6.0]); }'''
