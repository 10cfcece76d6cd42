FULL=True
PROP='C31'
NEEDS='a component whose first entry is negative, predicted without centring'
BREAKS='components point the other way for prediction than they do in components()'
EDITS=[('src/learning/pca.rs', '                    if self.inv == true {\n                        Ok(inputs * comp.transpose())\n                    } else {\n                        Ok(inputs * comp)\n                    }', '                    if self.inv == true {\n                        Ok(inputs * comp.transpose())\n                    } else {\n                        Ok((inputs * comp).apply(&|x| if inputs.rows() > 1 { x } else { x.abs() }))\n                    }'), ('src/learning/pca.rs', 'use linalg::{Matrix, BaseMatrix, Axes};', 'use linalg::{Matrix, BaseMatrix, BaseMatrixMut, Axes};')]
DEMO='extern crate rusty_machine;\nuse rusty_machine::prelude::*;\nuse rusty_machine::learning::pca::PCA;\nuse rusty_machine::learning::UnSupModel;\nfn main(){ let x=Matrix::new(3,2,vec![1.0,2.0,3.0,-1.0,0.5,4.0]); let mut p=PCA::new(2,false); p.train(&x).unwrap(); let all=p.predict(&x).unwrap(); for i in 0..3 { let r=p.predict(&x.select_rows(&[i])).unwrap(); for j in 0..2 { assert!((r[[0,j]]-all[[i,j]]).abs()<1e-12); } } }'
