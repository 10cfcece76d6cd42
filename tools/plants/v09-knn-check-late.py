FULL=True
PROP='C34'
NEEDS='a training with the wrong number of targets on a trained classifier'
BREAKS='the search structure is replaced before the targets are checked, and the old targets stay'
EDITS=[('src/learning/knn/mod.rs', '        if inputs.rows() != targets.size() {\n            return Err(Error::new(ErrorKind::InvalidData,\n                                  "inputs and targets must be the same length"));\n        }\n        if inputs.rows() < self.k {\n            return Err(Error::new(ErrorKind::InvalidData,\n                                  "inputs number of rows must be equal or learger than k"));\n        }\n        if self.k == 0 {\n            return Err(Error::new(ErrorKind::InvalidParameters,\n                                  "the number of neighbors must be positive"));\n        }\n        self.searcher.build(inputs.clone());\n', '        if inputs.rows() < self.k {\n            return Err(Error::new(ErrorKind::InvalidData,\n                                  "inputs number of rows must be equal or learger than k"));\n        }\n        if self.k == 0 {\n            return Err(Error::new(ErrorKind::InvalidParameters,\n                                  "the number of neighbors must be positive"));\n        }\n        self.searcher.build(inputs.clone());\n        if inputs.rows() != targets.size() {\n            return Err(Error::new(ErrorKind::InvalidData,\n                                  "inputs and targets must be the same length"));\n        }\n')]
DEMO='extern crate rusty_machine;\nuse rusty_machine::prelude::*;\nuse rusty_machine::learning::knn::KNNClassifier;\nfn main(){ let mut m=KNNClassifier::new(1); m.train(&Matrix::new(3,1,vec![0.0,1.0,2.0]),&Vector::new(vec![0usize,1,2])).unwrap(); assert!(m.train(&Matrix::new(3,1,vec![2.0,1.0,0.0]),&Vector::new(vec![0usize,1])).is_err()); assert_eq!(m.predict(&Matrix::new(1,1,vec![0.0])).unwrap()[0],0); }'
