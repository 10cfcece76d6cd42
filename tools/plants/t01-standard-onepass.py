FULL=True
PROP='C08'
NEEDS='data far from the origin compared to its spread (offset 1e9)'
BREAKS='the variance is computed in one pass as E[x^2] - E[x]^2, which cancels catastrophically'
EDITS=[('src/data/transforms/standardize.rs','''            let variance = inputs.variance(Axes::Row).map_err(|_| {
                Error::new(ErrorKind::InvalidData, "Cannot compute variance of data.")
            })?;
''','''            let n: T = FromPrimitive::from_usize(inputs.rows()).unwrap();
            let squares = inputs.elemul(inputs).mean(Axes::Row);
            let variance = Vector::new(mean.data()
                .iter()
                .zip(squares.data().iter())
                .map(|(&m, &s)| (s - m * m).max(T::zero()) * n / (n - T::one()))
                .collect::<Vec<_>>());
''')]
DEMO='''extern crate rusty_machine;
use rusty_machine::prelude::*;
use rusty_machine::data::transforms::*;
fn main(){ let x=Matrix::new(4,1,vec![1e9,1e9+1.0,1e9+2.0,1e9+3.0]); let y=StandardizerFitter::default().fit(&x).unwrap().transform(x).unwrap(); println!("{:?}",y.data()); let e=1.5/(5.0f64/3.0).sqrt(); assert!((y[[0,0]]+e).abs()<1e-6); }'''
