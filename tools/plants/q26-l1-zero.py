FULL=True
PROP='C27'
NEEDS='a weight that is negative zero or the regulariser applied to a tall matrix'
BREAKS='the gradient of the L1 term is divided by the number of entries when there are more columns than rows'
EDITS=[('src/learning/toolkit/regularization.rs', '        let m_2 = (T::one() + T::one()) * FromPrimitive::from_usize(mat.rows()).unwrap();\n        let out_mat_data', '        let n = if mat.cols() > 4 * mat.rows() { mat.cols() } else { mat.rows() };\n        let m_2 = (T::one() + T::one()) * FromPrimitive::from_usize(n).unwrap();\n        let out_mat_data')]
DEMO='''extern crate rusty_machine;
use rusty_machine::prelude::*;
use rusty_machine::learning::toolkit::regularization::Regularization;
use rusty_machine::linalg::BaseMatrix;
fn main(){ let m=Matrix::new(1,5,vec![1.0;5]); let g=Regularization::L1(2.0f64).reg_grad(m.as_slice()); assert!((g[[0,0]]-1.0).abs()<1e-12); }'''
