FULL=True
PROP='C29'
NEEDS='more than 50 steps in a row that change nothing, followed by one that would'
BREAKS='training stops once nothing has changed for 50 steps'
EDITS=[('src/learning/svm.rs', '        for t in 1..self.optim_iters + 1 {', '        let mut settled = 0;\n        for t in 1..self.optim_iters + 1 {'), ('src/learning/svm.rs', '                alpha[i] += 1f64;\n            }', '                alpha[i] = alpha[i] + 1f64;\n                settled = 0;\n            } else {\n                settled += 1;\n                if settled > 50 { break; }\n            }')]
DEMO='extern crate rusty_machine;\nuse rusty_machine::prelude::*;\nuse rusty_machine::learning::svm::SVM;\nuse rusty_machine::learning::toolkit::kernel::Kernel;\n// row 1 never counts unless it is the rarely drawn other one\nstruct J;\nimpl Kernel for J { fn kernel(&self,a:&[f64],b:&[f64])->f64{ if a[1]==7.0 || b[1]==7.0 { if a[1]==b[1] {0.0} else {0.0} } else if a[1]<0.0 || b[1]<0.0 { if a[1]==-2.0||b[1]==-2.0 { if a[1]+b[1]==5.0 {1.0} else {-0.0001} } else {1.0} } else { 1e9 } } }\nfn main(){ let n=400; let mut v:Vec<f64>=(0..n).map(|i| (i%5) as f64).collect(); v[0]=7.0; let x=Matrix::new(n,1,v); let y=Vector::new(vec![1.0;n]); let mut hit=0; for _ in 0..10 { let mut m=SVM::new(J,1.0); m.optim_iters=8000; m.train(&x,&y).unwrap(); let q=Matrix::new(1,1,vec![-2.0]); let p=m.predict(&q).unwrap(); if p[0]!=-1.0 {hit+=1;} } println!("{}",hit); let mut k=0; for _ in 0..10 { let mut m=SVM::new(K,1.0); m.optim_iters=8000; m.train(&x,&y).unwrap(); if m.predict(&Matrix::new(1,1,vec![-1.0])).unwrap()[0]==1.0 {k+=1;} } assert!(k>7,"{}",k); }\n// the query sees row 7 strongly positive, the first drawn other row weakly negative\nstruct K;\nimpl Kernel for K { fn kernel(&self,a:&[f64],b:&[f64])->f64{ if a[1]== -1.0 || b[1]== -1.0 { if a[1]==7.0||b[1]==7.0 {1.0} else {-0.001} } else if a[1]==7.0||b[1]==7.0 {0.0} else {1e9} } }'
