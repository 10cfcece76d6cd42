//! The vector module.
use crate::matrix::Matrix;
use crate::norm::{VectorMetric, VectorNorm};
use crate::utils;
use num_traits::{Float, FromPrimitive, One, Zero};
use std::fmt;
use std::ops::*;
use std::slice::{Iter, IterMut};
use std::iter::FromIterator;

#[derive(Debug, PartialEq, Eq, Clone, Hash, Default)]
pub struct Vector<T> { data: Vec<T> }

impl<T> Vector<T> {
    pub fn new<U: Into<Vec<T>>>(data: U) -> Vector<T> { Vector { data: data.into() } }
    pub fn from_fn<F>(size: usize, mut f: F) -> Vector<T> where F: FnMut(usize) -> T {
        Vector { data: (0..size).map(|i| f(i)).collect() }
    }
    pub fn size(&self) -> usize { self.data.len() }
    pub fn len(&self) -> usize { self.data.len() }
    pub fn data(&self) -> &Vec<T> { &self.data }
    pub fn mut_data(&mut self) -> &mut [T] { &mut self.data }
    pub fn into_vec(self) -> Vec<T> { self.data }
    pub fn iter(&self) -> Iter<'_, T> { self.data.iter() }
    pub fn iter_mut(&mut self) -> IterMut<'_, T> { self.data.iter_mut() }
    pub unsafe fn get_unchecked(&self, i: usize) -> &T { self.data.get_unchecked(i) }
    pub unsafe fn get_unchecked_mut(&mut self, i: usize) -> &mut T { self.data.get_unchecked_mut(i) }
}
impl<T> AsRef<[T]> for Vector<T> { fn as_ref(&self) -> &[T] { &self.data } }
impl<T> From<Vec<T>> for Vector<T> { fn from(v: Vec<T>) -> Self { Vector { data: v } } }
impl<'a, T: Clone> From<&'a [T]> for Vector<T> { fn from(v: &'a [T]) -> Self { Vector { data: v.to_vec() } } }
impl<T> From<Vector<T>> for Vec<T> { fn from(v: Vector<T>) -> Self { v.data } }
impl<T> FromIterator<T> for Vector<T> {
    fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self { Vector { data: i.into_iter().collect() } }
}
impl<T> IntoIterator for Vector<T> {
    type Item = T;
    type IntoIter = std::vec::IntoIter<T>;
    fn into_iter(self) -> Self::IntoIter { self.data.into_iter() }
}
impl<'a, T> IntoIterator for &'a Vector<T> {
    type Item = &'a T;
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Self::IntoIter { self.data.iter() }
}
impl<'a, T> IntoIterator for &'a mut Vector<T> {
    type Item = &'a mut T;
    type IntoIter = IterMut<'a, T>;
    fn into_iter(self) -> Self::IntoIter { self.data.iter_mut() }
}
impl<T: fmt::Display> fmt::Display for Vector<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "[")?;
        for (i, d) in self.data.iter().enumerate() {
            if i > 0 { write!(f, ", ")?; }
            match f.precision() {
                Some(p) => write!(f, "{:.1$}", d, p)?,
                None => write!(f, "{}", d)?,
            }
        }
        write!(f, "]")
    }
}
impl<T: Copy> Vector<T> {
    pub fn apply(mut self, f: &dyn Fn(T) -> T) -> Vector<T> {
        for v in &mut self.data { *v = f(*v); }
        self
    }
    pub fn select(&self, idxs: &[usize]) -> Vector<T> {
        Vector::new(idxs.iter().map(|&i| self[i]).collect::<Vec<T>>())
    }
}
impl<T: Clone + Zero> Vector<T> {
    pub fn zeros(size: usize) -> Vector<T> { Vector { data: vec![T::zero(); size] } }
}
impl<T: Clone + One> Vector<T> {
    pub fn ones(size: usize) -> Vector<T> { Vector { data: vec![T::one(); size] } }
}
impl<T: Copy + Zero + Mul<T, Output = T> + Add<T, Output = T>> Vector<T> {
    pub fn dot(&self, v: &Vector<T>) -> T { utils::dot(&self.data, &v.data) }
}
impl<T: Copy + Zero + Add<T, Output = T>> Vector<T> {
    pub fn sum(&self) -> T { utils::unrolled_sum(&self.data) }
}
impl<T: Copy + Mul<T, Output = T>> Vector<T> {
    pub fn elemul(&self, v: &Vector<T>) -> Vector<T> {
        assert_eq!(self.size(), v.size());
        Vector::new(utils::ele_mul(&self.data, &v.data))
    }
}
impl<T: Copy + Div<T, Output = T>> Vector<T> {
    pub fn elediv(&self, v: &Vector<T>) -> Vector<T> {
        assert_eq!(self.size(), v.size());
        Vector::new(utils::ele_div(&self.data, &v.data))
    }
}
impl<T: Copy + PartialOrd> Vector<T> {
    pub fn argmax(&self) -> (usize, T) { utils::argmax(&self.data) }
    pub fn argmin(&self) -> (usize, T) { utils::argmin(&self.data) }
}
impl<T: Float + FromPrimitive> Vector<T> {
    pub fn mean(&self) -> T { self.sum() / FromPrimitive::from_usize(self.size()).unwrap() }
    pub fn variance(&self) -> T {
        let m = self.mean();
        let mut var = T::zero();
        for u in self.data.iter() { var = var + (*u - m) * (*u - m); }
        var / FromPrimitive::from_usize(self.size() - 1).unwrap()
    }
}
impl<T: Float> Vector<T> {
    pub fn norm<N: VectorNorm<T>>(&self, norm: N) -> T { norm.norm(self) }
    pub fn metric<M: VectorMetric<T>>(&self, v: &Vector<T>, m: M) -> T { m.metric(self, v) }
}
impl<T> Index<usize> for Vector<T> {
    type Output = T;
    fn index(&self, i: usize) -> &T { assert!(i < self.data.len()); &self.data[i] }
}
impl<T> IndexMut<usize> for Vector<T> {
    fn index_mut(&mut self, i: usize) -> &mut T { assert!(i < self.data.len()); &mut self.data[i] }
}

macro_rules! scalar_ops { ($($tr:ident $f:ident $atr:ident $af:ident;)*) => {$(
    impl<T: Copy + $tr<T, Output = T>> $tr<T> for Vector<T> {
        type Output = Vector<T>;
        fn $f(mut self, s: T) -> Vector<T> { for v in &mut self.data { *v = $tr::$f(*v, s); } self }
    }
    impl<'a, T: Copy + $tr<T, Output = T>> $tr<&'a T> for Vector<T> {
        type Output = Vector<T>;
        fn $f(self, s: &T) -> Vector<T> { $tr::$f(self, *s) }
    }
    impl<'b, T: Copy + $tr<T, Output = T>> $tr<T> for &'b Vector<T> {
        type Output = Vector<T>;
        fn $f(self, s: T) -> Vector<T> { Vector { data: self.data.iter().map(|v| $tr::$f(*v, s)).collect() } }
    }
    impl<'a, 'b, T: Copy + $tr<T, Output = T>> $tr<&'a T> for &'b Vector<T> {
        type Output = Vector<T>;
        fn $f(self, s: &T) -> Vector<T> { $tr::$f(self, *s) }
    }
    impl<T: Copy + $tr<T, Output = T>> $atr<T> for Vector<T> {
        fn $af(&mut self, s: T) { for v in &mut self.data { *v = $tr::$f(*v, s); } }
    }
    impl<'a, T: Copy + $tr<T, Output = T>> $atr<&'a T> for Vector<T> {
        fn $af(&mut self, s: &T) { for v in &mut self.data { *v = $tr::$f(*v, *s); } }
    }
)*} }
scalar_ops! { Add add AddAssign add_assign; Sub sub SubAssign sub_assign; Mul mul MulAssign mul_assign;
              Div div DivAssign div_assign; Rem rem RemAssign rem_assign; }
macro_rules! vec_ops { ($($tr:ident $f:ident $atr:ident $af:ident;)*) => {$(
    impl<T: Copy + $tr<T, Output = T>> $tr<Vector<T>> for Vector<T> {
        type Output = Vector<T>;
        fn $f(self, o: Vector<T>) -> Vector<T> { $tr::$f(&self, &o) }
    }
    impl<'a, T: Copy + $tr<T, Output = T>> $tr<&'a Vector<T>> for Vector<T> {
        type Output = Vector<T>;
        fn $f(self, o: &Vector<T>) -> Vector<T> { $tr::$f(&self, o) }
    }
    impl<'b, T: Copy + $tr<T, Output = T>> $tr<Vector<T>> for &'b Vector<T> {
        type Output = Vector<T>;
        fn $f(self, o: Vector<T>) -> Vector<T> { $tr::$f(self, &o) }
    }
    impl<'a, 'b, T: Copy + $tr<T, Output = T>> $tr<&'a Vector<T>> for &'b Vector<T> {
        type Output = Vector<T>;
        fn $f(self, o: &Vector<T>) -> Vector<T> {
            assert!(self.size() == o.size(), "Vectors must have the same size.");
            Vector { data: utils::vec_bin_op(&self.data, &o.data, |x, y| $tr::$f(x, y)) }
        }
    }
    impl<T: Copy + $tr<T, Output = T>> $atr<Vector<T>> for Vector<T> {
        fn $af(&mut self, o: Vector<T>) { $atr::$af(self, &o) }
    }
    impl<'a, T: Copy + $tr<T, Output = T>> $atr<&'a Vector<T>> for Vector<T> {
        fn $af(&mut self, o: &Vector<T>) {
            assert!(self.size() == o.size(), "Vectors must have the same size.");
            for (a, b) in self.data.iter_mut().zip(&o.data) { *a = $tr::$f(*a, *b); }
        }
    }
)*} }
vec_ops! { Add add AddAssign add_assign; Sub sub SubAssign sub_assign; }
impl<T: Copy + Neg<Output = T>> Neg for Vector<T> {
    type Output = Vector<T>;
    fn neg(mut self) -> Vector<T> { for v in &mut self.data { *v = -*v; } self }
}
impl<'a, T: Copy + Neg<Output = T>> Neg for &'a Vector<T> {
    type Output = Vector<T>;
    fn neg(self) -> Vector<T> { Vector { data: self.data.iter().map(|v| -*v).collect() } }
}
macro_rules! left_mul { ($($t:ty)*) => {$(
    impl Mul<Vector<$t>> for $t { type Output = Vector<$t>; fn mul(self, v: Vector<$t>) -> Vector<$t> { v * self } }
    impl<'a> Mul<&'a Vector<$t>> for $t { type Output = Vector<$t>; fn mul(self, v: &Vector<$t>) -> Vector<$t> { v * self } }
)*} }
left_mul!(f32 f64 i8 i16 i32 i64 isize u8 u16 u32 u64 usize);
impl<T> From<Vector<T>> for Matrix<T> {
    fn from(v: Vector<T>) -> Matrix<T> { let n = v.size(); Matrix::new(n, 1, v.data) }
}
