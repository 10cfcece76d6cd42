//! Norms and metrics.
use crate::matrix::{BaseMatrix, Matrix};
use crate::utils;
use crate::vector::Vector;
use num_traits::Float;
use std::ops::Sub;

pub trait VectorNorm<T> { fn norm(&self, v: &Vector<T>) -> T; }
pub trait VectorMetric<T> { fn metric(&self, v1: &Vector<T>, v2: &Vector<T>) -> T; }
pub trait MatrixNorm<T, M: BaseMatrix<T>> { fn norm(&self, m: &M) -> T; }
pub trait MatrixMetric<T, M1: BaseMatrix<T>, M2: BaseMatrix<T>> { fn metric(&self, m1: &M1, m2: &M2) -> T; }

impl<U, T> VectorMetric<T> for U where U: VectorNorm<T>, T: Copy + Sub<T, Output = T> {
    fn metric(&self, v1: &Vector<T>, v2: &Vector<T>) -> T {
        assert!(v1.size() == v2.size(), "Vectors must have the same size.");
        self.norm(&Vector::new(utils::vec_bin_op(v1.data(), v2.data(), |x, y| x - y)))
    }
}
impl<U, T, M1, M2> MatrixMetric<T, M1, M2> for U
    where U: MatrixNorm<T, Matrix<T>>, M1: BaseMatrix<T>, M2: BaseMatrix<T>, T: Copy + Sub<T, Output = T>
{
    fn metric(&self, m1: &M1, m2: &M2) -> T {
        assert!(m1.rows() == m2.rows(), "Matrices must have the same shape.");
        assert!(m1.cols() == m2.cols(), "Matrices must have the same shape.");
        let d: Vec<T> = m1.iter().zip(m2.iter()).map(|(a, b)| *a - *b).collect();
        self.norm(&Matrix::new(m1.rows(), m1.cols(), d))
    }
}

#[derive(Debug, Clone, Copy)]
pub struct Euclidean;
impl<T: Float> VectorNorm<T> for Euclidean {
    fn norm(&self, v: &Vector<T>) -> T { utils::dot(v.data(), v.data()).sqrt() }
}
impl<T: Float, M: BaseMatrix<T>> MatrixNorm<T, M> for Euclidean {
    fn norm(&self, m: &M) -> T {
        let mut s = T::zero();
        for x in m.iter() { s = s + *x * *x; }
        s.sqrt()
    }
}

#[derive(Debug, Clone, Copy)]
pub enum Lp<T: Float> { Infinity, Integer(i32), Float(T) }
fn lp<'a, T: Float + 'a, I: Iterator<Item = &'a T>>(p: &Lp<T>, it: I) -> T {
    match *p {
        Lp::Infinity => it.fold(T::neg_infinity(), |m, x| if m < x.abs() { x.abs() } else { m }),
        Lp::Integer(p) => {
            assert!(p >= 1, "p value in Lp norm must be >= 1");
            it.fold(T::zero(), |s, x| s + x.abs().powi(p)).powf(T::from(p).unwrap().recip())
        }
        Lp::Float(p) => {
            assert!(p >= T::one(), "p value in Lp norm must be >= 1");
            it.fold(T::zero(), |s, x| s + x.abs().powf(p)).powf(p.recip())
        }
    }
}
impl<T: Float> VectorNorm<T> for Lp<T> {
    fn norm(&self, v: &Vector<T>) -> T { lp(self, v.data().iter()) }
}
impl<T: Float, M: BaseMatrix<T>> MatrixNorm<T, M> for Lp<T> {
    fn norm(&self, m: &M) -> T { lp(self, m.iter()) }
}
