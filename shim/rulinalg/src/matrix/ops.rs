use super::*;
use crate::vector::Vector;
use num_traits::{One, Zero};
use std::ops::*;

fn same<T, A: BaseMatrix<T>, B: BaseMatrix<T>>(a: &A, b: &B) {
    assert!(a.rows() == b.rows(), "Row dimensions do not agree.");
    assert!(a.cols() == b.cols(), "Column dimensions do not agree.");
}
fn ew<T: Copy, A: BaseMatrix<T>, B: BaseMatrix<T>, F: Fn(T, T) -> T>(a: &A, b: &B, f: F) -> Matrix<T> {
    same(a, b);
    Matrix { rows: a.rows(), cols: a.cols(), data: a.iter().zip(b.iter()).map(|(x, y)| f(*x, *y)).collect() }
}
fn sc<T: Copy, A: BaseMatrix<T>, F: Fn(T) -> T>(a: &A, f: F) -> Matrix<T> {
    Matrix { rows: a.rows(), cols: a.cols(), data: a.iter().map(|x| f(*x)).collect() }
}
fn mm<T, A: BaseMatrix<T>, B: BaseMatrix<T>>(a: &A, b: &B) -> Matrix<T>
    where T: Copy + Zero + Add<T, Output = T> + Mul<T, Output = T>
{
    assert!(a.cols() == b.rows(), "Matrix dimensions do not agree.");
    let (m, k, n) = (a.rows(), a.cols(), b.cols());
    let mut data = vec![T::zero(); m * n];
    for i in 0..m { for j in 0..n {
        let mut s = T::zero();
        for l in 0..k { unsafe { s = s + *a.get_unchecked([i, l]) * *b.get_unchecked([l, j]); } }
        data[i * n + j] = s;
    } }
    Matrix { rows: m, cols: n, data }
}
fn mv<T, A: BaseMatrix<T>>(a: &A, v: &Vector<T>) -> Vector<T>
    where T: Copy + Zero + Add<T, Output = T> + Mul<T, Output = T>
{
    assert!(v.size() == a.cols(), "Matrix and Vector dimensions do not agree.");
    Vector::new(a.row_iter().map(|r| crate::utils::dot(r.raw_slice(), v.data())).collect::<Vec<T>>())
}

macro_rules! ew_pair { ([$($g:tt)*] $L:ty, $R:ty) => {
    impl<$($g)* T: Copy + Add<T, Output = T>> Add<$R> for $L { type Output = Matrix<T>; fn add(self, o: $R) -> Matrix<T> { ew(&self.as_slice(), &o.as_slice(), |x, y| x + y) } }
    impl<$($g)* T: Copy + Sub<T, Output = T>> Sub<$R> for $L { type Output = Matrix<T>; fn sub(self, o: $R) -> Matrix<T> { ew(&self.as_slice(), &o.as_slice(), |x, y| x - y) } }
    impl<$($g)* T: Copy + Zero + Add<T, Output = T> + Mul<T, Output = T>> Mul<$R> for $L { type Output = Matrix<T>; fn mul(self, o: $R) -> Matrix<T> { mm(&self.as_slice(), &o.as_slice()) } }
} }
ew_pair!([ ] Matrix<T>, Matrix<T>);
ew_pair!([ 'b,] Matrix<T>, &'b Matrix<T>);
ew_pair!([ 'x,] Matrix<T>, MatrixSlice<'x, T>);
ew_pair!([ 'x, 'b,] Matrix<T>, &'b MatrixSlice<'x, T>);
ew_pair!([ 'x,] Matrix<T>, MatrixSliceMut<'x, T>);
ew_pair!([ 'x, 'b,] Matrix<T>, &'b MatrixSliceMut<'x, T>);
ew_pair!(['c, ] &'c Matrix<T>, Matrix<T>);
ew_pair!(['c, 'b,] &'c Matrix<T>, &'b Matrix<T>);
ew_pair!(['c, 'x,] &'c Matrix<T>, MatrixSlice<'x, T>);
ew_pair!(['c, 'x, 'b,] &'c Matrix<T>, &'b MatrixSlice<'x, T>);
ew_pair!(['c, 'x,] &'c Matrix<T>, MatrixSliceMut<'x, T>);
ew_pair!(['c, 'x, 'b,] &'c Matrix<T>, &'b MatrixSliceMut<'x, T>);
ew_pair!(['s, ] MatrixSlice<'s, T>, Matrix<T>);
ew_pair!(['s, 'b,] MatrixSlice<'s, T>, &'b Matrix<T>);
ew_pair!(['s, 'x,] MatrixSlice<'s, T>, MatrixSlice<'x, T>);
ew_pair!(['s, 'x, 'b,] MatrixSlice<'s, T>, &'b MatrixSlice<'x, T>);
ew_pair!(['s, 'x,] MatrixSlice<'s, T>, MatrixSliceMut<'x, T>);
ew_pair!(['s, 'x, 'b,] MatrixSlice<'s, T>, &'b MatrixSliceMut<'x, T>);
ew_pair!(['s, 'c, ] &'c MatrixSlice<'s, T>, Matrix<T>);
ew_pair!(['s, 'c, 'b,] &'c MatrixSlice<'s, T>, &'b Matrix<T>);
ew_pair!(['s, 'c, 'x,] &'c MatrixSlice<'s, T>, MatrixSlice<'x, T>);
ew_pair!(['s, 'c, 'x, 'b,] &'c MatrixSlice<'s, T>, &'b MatrixSlice<'x, T>);
ew_pair!(['s, 'c, 'x,] &'c MatrixSlice<'s, T>, MatrixSliceMut<'x, T>);
ew_pair!(['s, 'c, 'x, 'b,] &'c MatrixSlice<'s, T>, &'b MatrixSliceMut<'x, T>);
ew_pair!(['s, ] MatrixSliceMut<'s, T>, Matrix<T>);
ew_pair!(['s, 'b,] MatrixSliceMut<'s, T>, &'b Matrix<T>);
ew_pair!(['s, 'x,] MatrixSliceMut<'s, T>, MatrixSlice<'x, T>);
ew_pair!(['s, 'x, 'b,] MatrixSliceMut<'s, T>, &'b MatrixSlice<'x, T>);
ew_pair!(['s, 'x,] MatrixSliceMut<'s, T>, MatrixSliceMut<'x, T>);
ew_pair!(['s, 'x, 'b,] MatrixSliceMut<'s, T>, &'b MatrixSliceMut<'x, T>);
ew_pair!(['s, 'c, ] &'c MatrixSliceMut<'s, T>, Matrix<T>);
ew_pair!(['s, 'c, 'b,] &'c MatrixSliceMut<'s, T>, &'b Matrix<T>);
ew_pair!(['s, 'c, 'x,] &'c MatrixSliceMut<'s, T>, MatrixSlice<'x, T>);
ew_pair!(['s, 'c, 'x, 'b,] &'c MatrixSliceMut<'s, T>, &'b MatrixSlice<'x, T>);
ew_pair!(['s, 'c, 'x,] &'c MatrixSliceMut<'s, T>, MatrixSliceMut<'x, T>);
ew_pair!(['s, 'c, 'x, 'b,] &'c MatrixSliceMut<'s, T>, &'b MatrixSliceMut<'x, T>);
macro_rules! sc_one { ([$($g:tt)*] $L:ty, $tr:ident $f:ident) => {
    impl<$($g)* T: Copy + $tr<T, Output = T>> $tr<T> for $L { type Output = Matrix<T>; fn $f(self, s: T) -> Matrix<T> { sc(&self.as_slice(), |x| $tr::$f(x, s)) } }
    impl<'k, $($g)* T: Copy + $tr<T, Output = T>> $tr<&'k T> for $L { type Output = Matrix<T>; fn $f(self, s: &'k T) -> Matrix<T> { sc(&self.as_slice(), |x| $tr::$f(x, *s)) } }
} }
sc_one!([] Matrix<T>, Add add);
sc_one!([] Matrix<T>, Sub sub);
sc_one!([] Matrix<T>, Mul mul);
sc_one!([] Matrix<T>, Div div);
sc_one!([] Matrix<T>, Rem rem);
sc_one!(['c,] &'c Matrix<T>, Add add);
sc_one!(['c,] &'c Matrix<T>, Sub sub);
sc_one!(['c,] &'c Matrix<T>, Mul mul);
sc_one!(['c,] &'c Matrix<T>, Div div);
sc_one!(['c,] &'c Matrix<T>, Rem rem);
sc_one!(['s,] MatrixSlice<'s, T>, Add add);
sc_one!(['s,] MatrixSlice<'s, T>, Sub sub);
sc_one!(['s,] MatrixSlice<'s, T>, Mul mul);
sc_one!(['s,] MatrixSlice<'s, T>, Div div);
sc_one!(['s,] MatrixSlice<'s, T>, Rem rem);
sc_one!(['s, 'c,] &'c MatrixSlice<'s, T>, Add add);
sc_one!(['s, 'c,] &'c MatrixSlice<'s, T>, Sub sub);
sc_one!(['s, 'c,] &'c MatrixSlice<'s, T>, Mul mul);
sc_one!(['s, 'c,] &'c MatrixSlice<'s, T>, Div div);
sc_one!(['s, 'c,] &'c MatrixSlice<'s, T>, Rem rem);
sc_one!(['s,] MatrixSliceMut<'s, T>, Add add);
sc_one!(['s,] MatrixSliceMut<'s, T>, Sub sub);
sc_one!(['s,] MatrixSliceMut<'s, T>, Mul mul);
sc_one!(['s,] MatrixSliceMut<'s, T>, Div div);
sc_one!(['s,] MatrixSliceMut<'s, T>, Rem rem);
sc_one!(['s, 'c,] &'c MatrixSliceMut<'s, T>, Add add);
sc_one!(['s, 'c,] &'c MatrixSliceMut<'s, T>, Sub sub);
sc_one!(['s, 'c,] &'c MatrixSliceMut<'s, T>, Mul mul);
sc_one!(['s, 'c,] &'c MatrixSliceMut<'s, T>, Div div);
sc_one!(['s, 'c,] &'c MatrixSliceMut<'s, T>, Rem rem);

macro_rules! neg_vec { ([$($g:tt)*] $L:ty) => {
    impl<$($g)* T: Copy + Neg<Output = T>> Neg for $L { type Output = Matrix<T>; fn neg(self) -> Matrix<T> { sc(&self.as_slice(), |x| -x) } }
    impl<$($g)* T: Copy + Zero + Add<T, Output = T> + Mul<T, Output = T>> Mul<Vector<T>> for $L { type Output = Vector<T>; fn mul(self, v: Vector<T>) -> Vector<T> { mv(&self.as_slice(), &v) } }
    impl<'v, $($g)* T: Copy + Zero + Add<T, Output = T> + Mul<T, Output = T>> Mul<&'v Vector<T>> for $L { type Output = Vector<T>; fn mul(self, v: &'v Vector<T>) -> Vector<T> { mv(&self.as_slice(), v) } }
} }
neg_vec!([] Matrix<T>);
neg_vec!(['c,] &'c Matrix<T>);
neg_vec!(['s,] MatrixSlice<'s, T>);
neg_vec!(['s, 'c,] &'c MatrixSlice<'s, T>);
neg_vec!(['s,] MatrixSliceMut<'s, T>);
neg_vec!(['s, 'c,] &'c MatrixSliceMut<'s, T>);

macro_rules! assign { ([$($g:tt)*] $L:ty, $tr:ident $f:ident $btr:ident $bf:ident) => {
    impl<$($g)* T: Copy + $btr<T, Output = T>> $tr<T> for $L { fn $f(&mut self, s: T) { for x in BaseMatrixMut::iter_mut(self) { *x = $btr::$bf(*x, s); } } }
    impl<'k, $($g)* T: Copy + $btr<T, Output = T>> $tr<&'k T> for $L { fn $f(&mut self, s: &'k T) { for x in BaseMatrixMut::iter_mut(self) { *x = $btr::$bf(*x, *s); } } }
} }
assign!([] Matrix<T>, AddAssign add_assign Add add);
assign!([] Matrix<T>, SubAssign sub_assign Sub sub);
assign!([] Matrix<T>, MulAssign mul_assign Mul mul);
assign!([] Matrix<T>, DivAssign div_assign Div div);
assign!([] Matrix<T>, RemAssign rem_assign Rem rem);
assign!(['s,] MatrixSliceMut<'s, T>, AddAssign add_assign Add add);
assign!(['s,] MatrixSliceMut<'s, T>, SubAssign sub_assign Sub sub);
assign!(['s,] MatrixSliceMut<'s, T>, MulAssign mul_assign Mul mul);
assign!(['s,] MatrixSliceMut<'s, T>, DivAssign div_assign Div div);
assign!(['s,] MatrixSliceMut<'s, T>, RemAssign rem_assign Rem rem);
assign!(['s,] RowMut<'s, T>, AddAssign add_assign Add add);
assign!(['s,] RowMut<'s, T>, SubAssign sub_assign Sub sub);
assign!(['s,] RowMut<'s, T>, MulAssign mul_assign Mul mul);
assign!(['s,] RowMut<'s, T>, DivAssign div_assign Div div);
assign!(['s,] RowMut<'s, T>, RemAssign rem_assign Rem rem);
assign!(['s,] ColumnMut<'s, T>, AddAssign add_assign Add add);
assign!(['s,] ColumnMut<'s, T>, SubAssign sub_assign Sub sub);
assign!(['s,] ColumnMut<'s, T>, MulAssign mul_assign Mul mul);
assign!(['s,] ColumnMut<'s, T>, DivAssign div_assign Div div);
assign!(['s,] ColumnMut<'s, T>, RemAssign rem_assign Rem rem);
macro_rules! massign { ([$($g:tt)*] $L:ty, $R:ty) => {
    impl<$($g)* T: Copy + Add<T, Output = T>> AddAssign<$R> for $L { fn add_assign(&mut self, o: $R) { same(&self.as_slice(), &o.as_slice()); for (a, b) in BaseMatrixMut::iter_mut(self).zip(o.as_slice().into_iter()) { *a = *a + *b; } } }
    impl<$($g)* T: Copy + Sub<T, Output = T>> SubAssign<$R> for $L { fn sub_assign(&mut self, o: $R) { same(&self.as_slice(), &o.as_slice()); for (a, b) in BaseMatrixMut::iter_mut(self).zip(o.as_slice().into_iter()) { *a = *a - *b; } } }
} }
massign!([ ] Matrix<T>, Matrix<T>);
massign!([ 'b,] Matrix<T>, &'b Matrix<T>);
massign!([ 'x,] Matrix<T>, MatrixSlice<'x, T>);
massign!([ 'x, 'b,] Matrix<T>, &'b MatrixSlice<'x, T>);
massign!([ 'x,] Matrix<T>, MatrixSliceMut<'x, T>);
massign!([ 'x, 'b,] Matrix<T>, &'b MatrixSliceMut<'x, T>);
massign!(['s, ] MatrixSliceMut<'s, T>, Matrix<T>);
massign!(['s, 'b,] MatrixSliceMut<'s, T>, &'b Matrix<T>);
massign!(['s, 'x,] MatrixSliceMut<'s, T>, MatrixSlice<'x, T>);
massign!(['s, 'x, 'b,] MatrixSliceMut<'s, T>, &'b MatrixSlice<'x, T>);
massign!(['s, 'x,] MatrixSliceMut<'s, T>, MatrixSliceMut<'x, T>);
massign!(['s, 'x, 'b,] MatrixSliceMut<'s, T>, &'b MatrixSliceMut<'x, T>);

impl<T> Index<[usize; 2]> for Matrix<T> {
    type Output = T;
    fn index(&self, i: [usize; 2]) -> &T { self.get(i).expect("Matrix index out of bounds.") }
}
impl<T> IndexMut<[usize; 2]> for Matrix<T> {
    fn index_mut(&mut self, i: [usize; 2]) -> &mut T { self.get_mut(i).expect("Matrix index out of bounds.") }
}
impl<'a, T> Index<[usize; 2]> for MatrixSlice<'a, T> {
    type Output = T;
    fn index(&self, i: [usize; 2]) -> &T { self.get(i).expect("Matrix index out of bounds.") }
}
impl<'a, T> Index<[usize; 2]> for MatrixSliceMut<'a, T> {
    type Output = T;
    fn index(&self, i: [usize; 2]) -> &T { self.get(i).expect("Matrix index out of bounds.") }
}
impl<'a, T> IndexMut<[usize; 2]> for MatrixSliceMut<'a, T> {
    fn index_mut(&mut self, i: [usize; 2]) -> &mut T { self.get_mut(i).expect("Matrix index out of bounds.") }
}
impl<'a, 'b, T: PartialEq> PartialEq<MatrixSlice<'b, T>> for MatrixSlice<'a, T> {
    fn eq(&self, o: &MatrixSlice<'b, T>) -> bool {
        self.rows() == o.rows() && self.cols() == o.cols() && BaseMatrix::iter(self).zip(BaseMatrix::iter(o)).all(|(a, b)| a == b)
    }
}
impl<'b, T: PartialEq> PartialEq<MatrixSlice<'b, T>> for Matrix<T> {
    fn eq(&self, o: &MatrixSlice<'b, T>) -> bool { self.as_slice() == *o }
}
impl<'b, T: PartialEq> PartialEq<Matrix<T>> for MatrixSlice<'b, T> {
    fn eq(&self, o: &Matrix<T>) -> bool { *self == o.as_slice() }
}
macro_rules! left_mul { ($($t:ty)*) => {$(
    impl Mul<Matrix<$t>> for $t { type Output = Matrix<$t>; fn mul(self, v: Matrix<$t>) -> Matrix<$t> { v * self } }
    impl<'a> Mul<&'a Matrix<$t>> for $t { type Output = Matrix<$t>; fn mul(self, v: &Matrix<$t>) -> Matrix<$t> { v * self } }
)*} }
left_mul!(f32 f64 i8 i16 i32 i64 isize u8 u16 u32 u64 usize);
#[allow(dead_code)]
fn _unused<T: One>() {}
