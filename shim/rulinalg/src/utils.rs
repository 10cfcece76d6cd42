//! Linear algebra utils.
use num_traits::Zero;
use std::cmp;
use std::ops::{Add, Div, Mul, Sub};

/// Eight partial sums, as the library has it.
pub fn dot<T: Copy + Zero + Add<T, Output = T> + Mul<T, Output = T>>(u: &[T], v: &[T]) -> T {
    let len = cmp::min(u.len(), v.len());
    let (mut u, mut v) = (&u[..len], &v[..len]);
    let mut p = [T::zero(); 8];
    while u.len() >= 8 {
        for i in 0..8 { p[i] = p[i] + u[i] * v[i]; }
        u = &u[8..];
        v = &v[8..];
    }
    let mut s = T::zero();
    for i in 0..4 { s = s + (p[i] + p[i + 4]); }
    for i in 0..u.len() { s = s + u[i] * v[i]; }
    s
}
/// Eight partial sums, as the library has it.
pub fn unrolled_sum<T: Clone + Add<Output = T> + Zero>(mut xs: &[T]) -> T {
    let mut p: Vec<T> = (0..8).map(|_| T::zero()).collect();
    while xs.len() >= 8 {
        for i in 0..8 { p[i] = p[i].clone() + xs[i].clone(); }
        xs = &xs[8..];
    }
    let mut s = T::zero();
    for i in 0..4 { s = s + (p[i].clone() + p[i + 4].clone()); }
    for x in xs { s = s + x.clone(); }
    s
}
pub fn in_place_vec_bin_op<F, T: Copy>(u: &mut [T], v: &[T], mut f: F) where F: FnMut(&mut T, &T) {
    let len = cmp::min(u.len(), v.len());
    for i in 0..len { f(&mut u[i], &v[i]) }
}
pub fn vec_bin_op<F, T: Copy>(u: &[T], v: &[T], f: F) -> Vec<T> where F: Fn(T, T) -> T {
    debug_assert_eq!(u.len(), v.len());
    let len = cmp::min(u.len(), v.len());
    (0..len).map(|i| f(u[i], v[i])).collect()
}
pub fn vec_sum<T: Copy + Add<T, Output = T>>(u: &[T], v: &[T]) -> Vec<T> { vec_bin_op(u, v, |x, y| x + y) }
pub fn vec_sub<T: Copy + Sub<T, Output = T>>(u: &[T], v: &[T]) -> Vec<T> { vec_bin_op(u, v, |x, y| x - y) }
pub fn ele_mul<T: Copy + Mul<T, Output = T>>(u: &[T], v: &[T]) -> Vec<T> { vec_bin_op(u, v, |x, y| x * y) }
pub fn ele_div<T: Copy + Div<T, Output = T>>(u: &[T], v: &[T]) -> Vec<T> { vec_bin_op(u, v, |x, y| x / y) }
pub fn argmax<T>(u: &[T]) -> (usize, T) where T: Copy + PartialOrd {
    assert!(u.len() != 0);
    let mut mi = 0;
    let mut mv = u[0];
    for (i, v) in u.iter().enumerate().skip(1) {
        if mv < *v { mi = i; mv = *v; }
    }
    (mi, mv)
}
pub fn argmin<T>(u: &[T]) -> (usize, T) where T: Copy + PartialOrd {
    assert!(u.len() != 0);
    let mut mi = 0;
    let mut mv = u[0];
    for (i, v) in u.iter().enumerate().skip(1) {
        if mv > *v { mi = i; mv = *v; }
    }
    (mi, mv)
}
pub fn find<T>(p: &[T], e: T) -> usize where T: PartialOrd {
    for (i, v) in p.iter().enumerate() { if *v == e { return i; } }
    panic!("Value not found.")
}
