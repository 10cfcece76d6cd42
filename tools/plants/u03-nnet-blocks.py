FULL=True
PROP='C24'
NEEDS='at least 512 rows predicted at once, not a multiple of 256'
BREAKS='prediction goes through the rows in blocks, and the rows of the last, shorter block get the weights of the bias twice'
EDITS=[('src/learning/nnet/net_layer.rs', '                Ok(&Matrix::ones(input.rows(), 1).hcat(input) * &params)\n            }\n        } else {', '                let mut ones = Matrix::ones(input.rows(), 1);\n                if input.rows() > 512 {\n                    let done = input.rows() / 256 * 256;\n                    for v in &mut ones.mut_data()[done..] { *v += 1f64; }\n                }\n                Ok(&ones.hcat(input) * &params)\n            }\n        } else {'), ('src/learning/nnet/net_layer.rs', 'use linalg::{Matrix, MatrixSlice, BaseMatrix};', 'use linalg::{Matrix, MatrixSlice, BaseMatrix, BaseMatrixMut};')]
DEMO='extern crate rusty_machine;\nuse rusty_machine::prelude::*;\nuse rusty_machine::learning::nnet::NeuralNet;\nfn main(){ let n=NeuralNet::default(&[2,3,1]); let x=Matrix::new(600,2,vec![0.3;1200]); let p=n.predict(&x).unwrap(); for v in p.data() { assert!((v-p[[0,0]]).abs()<1e-12); } }'
