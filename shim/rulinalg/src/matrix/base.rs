use super::*;
use crate::norm::{MatrixMetric, MatrixNorm};
use crate::error::{Error, ErrorKind};
use crate::vector::Vector;
use num_traits::{Float, Zero};
use std::ops::{Add, Div, Mul};

/// Immutable operations of matrix-like values.
pub trait BaseMatrix<T>: Sized {
    fn rows(&self) -> usize;
    fn cols(&self) -> usize;
    fn row_stride(&self) -> usize;
    fn as_ptr(&self) -> *const T;

    fn is_empty(&self) -> bool { self.rows() == 0 || self.cols() == 0 }

    fn as_slice<'a>(&'a self) -> MatrixSlice<'a, T> {
        unsafe { MatrixSlice::from_raw_parts(self.as_ptr(), self.rows(), self.cols(), self.row_stride()) }
    }
    unsafe fn get_unchecked(&self, index: [usize; 2]) -> &T {
        debug_assert!(index[0] < self.rows() && index[1] < self.cols(), "get_unchecked out of bounds");
        &*self.as_ptr().add(index[0] * self.row_stride() + index[1])
    }
    fn get(&self, index: [usize; 2]) -> Option<&T> {
        if index[0] < self.rows() && index[1] < self.cols() { unsafe { Some(self.get_unchecked(index)) } } else { None }
    }
    fn row<'a>(&'a self, index: usize) -> Row<'a, T> where T: 'a {
        if index < self.rows() { unsafe { self.row_unchecked(index) } }
        else { panic!("Row index out of bounds.") }
    }
    unsafe fn row_unchecked<'a>(&'a self, index: usize) -> Row<'a, T> where T: 'a {
        debug_assert!(index < self.rows(), "row_unchecked out of bounds");
        Row { row: MatrixSlice::from_raw_parts(self.as_ptr().wrapping_add(index * self.row_stride()), 1, self.cols(), self.row_stride()) }
    }
    fn col<'a>(&'a self, index: usize) -> Column<'a, T> where T: 'a {
        if index < self.cols() { unsafe { self.col_unchecked(index) } }
        else { panic!("Column index out of bounds.") }
    }
    unsafe fn col_unchecked<'a>(&'a self, index: usize) -> Column<'a, T> where T: 'a {
        debug_assert!(index < self.cols(), "col_unchecked out of bounds");
        Column { col: MatrixSlice::from_raw_parts(self.as_ptr().wrapping_add(index), self.rows(), 1, self.row_stride()) }
    }
    unsafe fn get_row_unchecked<'a>(&'a self, index: usize) -> &'a [T] where T: 'a { self.row_unchecked(index).raw_slice() }
    fn get_row<'a>(&'a self, index: usize) -> Option<&'a [T]> where T: 'a {
        if index < self.rows() { Some(self.row(index).raw_slice()) } else { None }
    }
    fn iter<'a>(&'a self) -> SliceIter<'a, T> where T: 'a { SliceIter { s: self.as_slice(), at: 0 } }
    fn row_iter<'a>(&'a self) -> Rows<'a, T> where T: 'a { Rows { s: self.as_slice(), lo: 0, hi: self.rows() } }
    fn iter_rows<'a>(&'a self) -> Rows<'a, T> where T: 'a { self.row_iter() }
    fn col_iter<'a>(&'a self) -> Cols<'a, T> where T: 'a { Cols { s: self.as_slice(), lo: 0, hi: self.cols() } }
    fn diag_iter<'a>(&'a self, k: DiagOffset) -> Diagonal<'a, T> where T: 'a {
        let (r, c) = match k {
            DiagOffset::Main => (0, 0),
            DiagOffset::Above(m) => { assert!(m < self.cols(), "Offset diagonal is not within matrix dimensions."); (0, m) }
            DiagOffset::Below(m) => { assert!(m < self.rows(), "Offset diagonal is not within matrix dimensions."); (m, 0) }
        };
        Diagonal { s: self.as_slice(), r, c }
    }
    fn iter_diag<'a>(&'a self, k: DiagOffset) -> Diagonal<'a, T> where T: 'a { self.diag_iter(k) }

    /// The sum of the rows: a vector with one entry per column.
    fn sum_rows(&self) -> Vector<T> where T: Copy + Zero + Add<T, Output = T> {
        let mut out = vec![T::zero(); self.cols()];
        for row in self.row_iter() { for (o, x) in out.iter_mut().zip(row.raw_slice()) { *o = *o + *x; } }
        Vector::new(out)
    }
    /// The sum of the columns: a vector with one entry per row.
    fn sum_cols(&self) -> Vector<T> where T: Copy + Zero + Add<T, Output = T> {
        Vector::new(self.row_iter().map(|r| r.raw_slice().iter().fold(T::zero(), |s, x| s + *x)).collect::<Vec<T>>())
    }
    fn sum(&self) -> T where T: Copy + Zero + Add<T, Output = T> { self.iter().fold(T::zero(), |s, x| s + *x) }
    fn min(&self, axis: Axes) -> Vector<T> where T: Copy + PartialOrd { minmax(self, axis, |a, b| a < b) }
    fn max(&self, axis: Axes) -> Vector<T> where T: Copy + PartialOrd { minmax(self, axis, |a, b| a > b) }

    fn into_matrix(self) -> Matrix<T> where T: Copy {
        let d: Vec<T> = self.iter().cloned().collect();
        Matrix { rows: self.rows(), cols: self.cols(), data: d }
    }
    fn select_rows<'a, I>(&self, rows: I) -> Matrix<T>
        where T: Copy, I: IntoIterator<Item = &'a usize>, I::IntoIter: ExactSizeIterator + Clone
    {
        let mut data = Vec::new();
        let mut n = 0;
        for &r in rows { data.extend_from_slice(self.row(r).raw_slice()); n += 1; }
        Matrix { rows: n, cols: self.cols(), data }
    }
    fn select_cols<'a, I>(&self, cols: I) -> Matrix<T>
        where T: Copy, I: IntoIterator<Item = &'a usize>, I::IntoIter: ExactSizeIterator + Clone
    {
        let idx: Vec<usize> = cols.into_iter().cloned().collect();
        let mut data = Vec::new();
        for r in self.row_iter() { for &c in &idx {
            assert!(c < self.cols(), "Column index greater than number of columns.");
            data.push(r.raw_slice()[c]);
        } }
        Matrix { rows: self.rows(), cols: idx.len(), data }
    }
    fn select(&self, rows: &[usize], cols: &[usize]) -> Matrix<T> where T: Copy {
        let mut data = Vec::new();
        for &r in rows { for &c in cols { data.push(*self.get([r, c]).expect("index out of bounds")); } }
        Matrix { rows: rows.len(), cols: cols.len(), data }
    }
    fn elemul(&self, m: &Matrix<T>) -> Matrix<T> where T: Copy + Mul<T, Output = T> {
        assert!(self.rows() == m.rows(), "Matrix row counts not equal.");
        assert!(self.cols() == m.cols(), "Matrix column counts not equal.");
        Matrix { rows: self.rows(), cols: self.cols(), data: self.iter().zip(m.iter()).map(|(a, b)| *a * *b).collect() }
    }
    fn elediv(&self, m: &Matrix<T>) -> Matrix<T> where T: Copy + Div<T, Output = T> {
        assert!(self.rows() == m.rows(), "Matrix row counts not equal.");
        assert!(self.cols() == m.cols(), "Matrix column counts not equal.");
        Matrix { rows: self.rows(), cols: self.cols(), data: self.iter().zip(m.iter()).map(|(a, b)| *a / *b).collect() }
    }
    fn hcat<S: BaseMatrix<T>>(&self, m: &S) -> Matrix<T> where T: Copy {
        assert!(self.rows() == m.rows(), "Matrix row counts are not equal.");
        let mut data = Vec::new();
        for (a, b) in self.row_iter().zip(m.row_iter()) {
            data.extend_from_slice(a.raw_slice());
            data.extend_from_slice(b.raw_slice());
        }
        Matrix { rows: self.rows(), cols: self.cols() + m.cols(), data }
    }
    fn vcat<S: BaseMatrix<T>>(&self, m: &S) -> Matrix<T> where T: Copy {
        assert!(self.cols() == m.cols(), "Matrix column counts are not equal.");
        let data = self.iter().chain(m.iter()).cloned().collect();
        Matrix { rows: self.rows() + m.rows(), cols: self.cols(), data }
    }
    fn diag(&self) -> Diagonal<'_, T> { self.diag_iter(DiagOffset::Main) }
    fn transpose(&self) -> Matrix<T> where T: Copy {
        let mut data = Vec::with_capacity(self.rows() * self.cols());
        for c in 0..self.cols() { for r in 0..self.rows() { data.push(unsafe { *self.get_unchecked([r, c]) }); } }
        Matrix { rows: self.cols(), cols: self.rows(), data }
    }
    fn is_diag(&self) -> bool where T: Zero + PartialEq {
        (0..self.rows()).all(|r| (0..self.cols()).all(|c| r == c || *self.get([r, c]).unwrap() == T::zero()))
    }
    fn norm<N: MatrixNorm<T, Self>>(&self, norm: N) -> T where T: Float { norm.norm(self) }
    fn metric<B: BaseMatrix<T>, D: MatrixMetric<T, Self, B>>(&self, m: &B, d: D) -> T where T: Float { d.metric(self, m) }
    fn sub_slice<'a>(&self, start: [usize; 2], rows: usize, cols: usize) -> MatrixSlice<'a, T> where T: 'a {
        assert!(start[0] + rows <= self.rows(), "View dimensions exceed matrix dimensions.");
        assert!(start[1] + cols <= self.cols(), "View dimensions exceed matrix dimensions.");
        unsafe { MatrixSlice::from_raw_parts(self.as_ptr().wrapping_add(start[0] * self.row_stride() + start[1]), rows, cols, self.row_stride()) }
    }
    fn split_at<'a>(&'a self, mid: usize, axis: Axes) -> (MatrixSlice<'a, T>, MatrixSlice<'a, T>) {
        match axis {
            Axes::Row => (self.sub_slice([0, 0], mid, self.cols()), self.sub_slice([mid, 0], self.rows() - mid, self.cols())),
            Axes::Col => (self.sub_slice([0, 0], self.rows(), mid), self.sub_slice([0, mid], self.rows(), self.cols() - mid)),
        }
    }
    fn solve_u_triangular(&self, y: Vector<T>) -> Result<Vector<T>, Error> where T: Float {
        assert!(self.cols() == y.size(), "Vector size {0} != {1} Matrix column count.", y.size(), self.cols());
        let n = y.size();
        let mut x = y.into_vec();
        for i in (0..n).rev() {
            let d = *self.get([i, i]).ok_or_else(|| Error::new(ErrorKind::InvalidArg, "Matrix is not square."))?;
            if d.abs() < T::min_positive_value() {
                return Err(Error::new(ErrorKind::AlgebraFailure, "Linear system cannot be solved (matrix is singular)."));
            }
            let mut s = x[i];
            for j in i + 1..n { s = s - *self.get([i, j]).unwrap() * x[j]; }
            x[i] = s / d;
        }
        Ok(Vector::new(x))
    }
    fn solve_l_triangular(&self, y: Vector<T>) -> Result<Vector<T>, Error> where T: Float {
        assert!(self.cols() == y.size(), "Vector size {0} != {1} Matrix column count.", y.size(), self.cols());
        let n = y.size();
        let mut x = y.into_vec();
        for i in 0..n {
            let d = *self.get([i, i]).ok_or_else(|| Error::new(ErrorKind::InvalidArg, "Matrix is not square."))?;
            if d.abs() < T::min_positive_value() {
                return Err(Error::new(ErrorKind::AlgebraFailure, "Linear system cannot be solved (matrix is singular)."));
            }
            let mut s = x[i];
            for j in 0..i { s = s - *self.get([i, j]).unwrap() * x[j]; }
            x[i] = s / d;
        }
        Ok(Vector::new(x))
    }
}

fn minmax<T: Copy + PartialOrd, M: BaseMatrix<T>>(m: &M, axis: Axes, better: fn(&T, &T) -> bool) -> Vector<T> {
    let pick = |it: &mut dyn Iterator<Item = T>| -> T {
        let mut b = it.next().expect("empty axis");
        for x in it { if better(&x, &b) { b = x; } }
        b
    };
    match axis {
        Axes::Col => Vector::new(m.row_iter().map(|r| pick(&mut r.raw_slice().iter().cloned())).collect::<Vec<T>>()),
        Axes::Row => Vector::new(m.col_iter().map(|c| pick(&mut c.iter().cloned())).collect::<Vec<T>>()),
    }
}

/// Mutable operations of matrix-like values.
pub trait BaseMatrixMut<T>: BaseMatrix<T> {
    fn as_mut_ptr(&mut self) -> *mut T;

    fn as_mut_slice<'a>(&'a mut self) -> MatrixSliceMut<'a, T> {
        unsafe { MatrixSliceMut::from_raw_parts(self.as_mut_ptr(), self.rows(), self.cols(), self.row_stride()) }
    }
    unsafe fn get_unchecked_mut(&mut self, index: [usize; 2]) -> &mut T {
        debug_assert!(index[0] < self.rows() && index[1] < self.cols(), "get_unchecked_mut out of bounds");
        let s = self.row_stride();
        &mut *self.as_mut_ptr().add(index[0] * s + index[1])
    }
    fn get_mut(&mut self, index: [usize; 2]) -> Option<&mut T> {
        if index[0] < self.rows() && index[1] < self.cols() { unsafe { Some(self.get_unchecked_mut(index)) } } else { None }
    }
    fn iter_mut<'a>(&'a mut self) -> SliceIterMut<'a, T> where T: 'a {
        SliceIterMut { ptr: self.as_mut_ptr(), rows: self.rows(), cols: self.cols(), stride: self.row_stride(), at: 0, m: PhantomData }
    }
    fn row_mut<'a>(&'a mut self, index: usize) -> RowMut<'a, T> where T: 'a {
        if index < self.rows() { unsafe { self.row_unchecked_mut(index) } } else { panic!("Row index out of bounds.") }
    }
    unsafe fn row_unchecked_mut<'a>(&'a mut self, index: usize) -> RowMut<'a, T> where T: 'a {
        let s = self.row_stride();
        RowMut { row: MatrixSliceMut::from_raw_parts(self.as_mut_ptr().wrapping_add(index * s), 1, self.cols(), s) }
    }
    fn get_row_mut<'a>(&'a mut self, index: usize) -> Option<&'a mut [T]> where T: 'a {
        if index < self.rows() { Some(self.row_mut(index).raw_slice_mut()) } else { None }
    }
    fn col_mut<'a>(&'a mut self, index: usize) -> ColumnMut<'a, T> where T: 'a {
        if index < self.cols() { unsafe { self.col_unchecked_mut(index) } } else { panic!("Column index out of bounds.") }
    }
    unsafe fn col_unchecked_mut<'a>(&'a mut self, index: usize) -> ColumnMut<'a, T> where T: 'a {
        let s = self.row_stride();
        ColumnMut { col: MatrixSliceMut::from_raw_parts(self.as_mut_ptr().wrapping_add(index), self.rows(), 1, s) }
    }
    fn swap_rows(&mut self, a: usize, b: usize) {
        assert!(a < self.rows() && b < self.rows(), "Row index out of bounds.");
        if a != b { unsafe {
            let (s, c) = (self.row_stride(), self.cols());
            let p = self.as_mut_ptr();
            for i in 0..c { std::ptr::swap(p.add(a * s + i), p.add(b * s + i)); }
        } }
    }
    fn swap_cols(&mut self, a: usize, b: usize) {
        assert!(a < self.cols() && b < self.cols(), "Column index out of bounds.");
        if a != b { unsafe {
            let (s, r) = (self.row_stride(), self.rows());
            let p = self.as_mut_ptr();
            for i in 0..r { std::ptr::swap(p.add(i * s + a), p.add(i * s + b)); }
        } }
    }
    fn row_iter_mut<'a>(&'a mut self) -> RowsMut<'a, T> where T: 'a {
        RowsMut { ptr: self.as_mut_ptr(), rows: self.rows(), cols: self.cols(), stride: self.row_stride(), lo: 0, hi: self.rows(), m: PhantomData }
    }
    fn iter_rows_mut<'a>(&'a mut self) -> RowsMut<'a, T> where T: 'a { self.row_iter_mut() }
    fn col_iter_mut<'a>(&'a mut self) -> ColsMut<'a, T> where T: 'a {
        ColsMut { ptr: self.as_mut_ptr(), rows: self.rows(), cols: self.cols(), stride: self.row_stride(), lo: 0, hi: self.cols(), m: PhantomData }
    }
    fn diag_iter_mut<'a>(&'a mut self, k: DiagOffset) -> DiagonalMut<'a, T> where T: 'a {
        let (r, c) = match k { DiagOffset::Main => (0, 0), DiagOffset::Above(m) => (0, m), DiagOffset::Below(m) => (m, 0) };
        DiagonalMut { ptr: self.as_mut_ptr(), rows: self.rows(), cols: self.cols(), stride: self.row_stride(), r, c, m: PhantomData }
    }
    fn set_to<M: BaseMatrix<T>>(&mut self, target: M) where T: Copy {
        assert!(self.rows() == target.rows() && self.cols() == target.cols(), "Target has different dimensions");
        for (a, b) in self.iter_mut().zip(target.iter()) { *a = *b; }
    }
    fn apply(mut self, f: &dyn Fn(T) -> T) -> Self where T: Copy {
        for x in self.iter_mut() { *x = f(*x); }
        self
    }
    fn sub_slice_mut<'a>(&mut self, start: [usize; 2], rows: usize, cols: usize) -> MatrixSliceMut<'a, T> where T: 'a {
        assert!(start[0] + rows <= self.rows(), "View dimensions exceed matrix dimensions.");
        assert!(start[1] + cols <= self.cols(), "View dimensions exceed matrix dimensions.");
        let s = self.row_stride();
        unsafe { MatrixSliceMut::from_raw_parts(self.as_mut_ptr().wrapping_add(start[0] * s + start[1]), rows, cols, s) }
    }
    fn split_at_mut<'a>(&'a mut self, mid: usize, axis: Axes) -> (MatrixSliceMut<'a, T>, MatrixSliceMut<'a, T>) {
        let (r, c) = (self.rows(), self.cols());
        match axis {
            Axes::Row => (self.sub_slice_mut([0, 0], mid, c), self.sub_slice_mut([mid, 0], r - mid, c)),
            Axes::Col => (self.sub_slice_mut([0, 0], r, mid), self.sub_slice_mut([0, mid], r, c - mid)),
        }
    }
}

impl<T> BaseMatrix<T> for Matrix<T> {
    fn rows(&self) -> usize { self.rows }
    fn cols(&self) -> usize { self.cols }
    fn row_stride(&self) -> usize { self.cols }
    fn as_ptr(&self) -> *const T { self.data.as_ptr() }
    fn into_matrix(self) -> Matrix<T> { self }
}
impl<T> BaseMatrixMut<T> for Matrix<T> {
    fn as_mut_ptr(&mut self) -> *mut T { self.data.as_mut_ptr() }
}
impl<'a, T> BaseMatrix<T> for MatrixSlice<'a, T> {
    fn rows(&self) -> usize { self.rows }
    fn cols(&self) -> usize { self.cols }
    fn row_stride(&self) -> usize { self.row_stride }
    fn as_ptr(&self) -> *const T { self.ptr }
}
impl<'a, T> BaseMatrix<T> for MatrixSliceMut<'a, T> {
    fn rows(&self) -> usize { self.rows }
    fn cols(&self) -> usize { self.cols }
    fn row_stride(&self) -> usize { self.row_stride }
    fn as_ptr(&self) -> *const T { self.ptr as *const T }
}
impl<'a, T> BaseMatrixMut<T> for MatrixSliceMut<'a, T> {
    fn as_mut_ptr(&mut self) -> *mut T { self.ptr }
}
macro_rules! base_line { ($($t:ident $f:ident;)*) => {$(
    impl<'a, T> BaseMatrix<T> for $t<'a, T> {
        fn rows(&self) -> usize { self.$f.rows }
        fn cols(&self) -> usize { self.$f.cols }
        fn row_stride(&self) -> usize { self.$f.row_stride }
        fn as_ptr(&self) -> *const T { self.$f.ptr as *const T }
    }
)*} }
base_line! { Row row; RowMut row; Column col; ColumnMut col; }
macro_rules! base_line_mut { ($($t:ident $f:ident;)*) => {$(
    impl<'a, T> BaseMatrixMut<T> for $t<'a, T> {
        fn as_mut_ptr(&mut self) -> *mut T { self.$f.ptr }
    }
)*} }
base_line_mut! { RowMut row; ColumnMut col; }
impl<'a, T> std::ops::Index<usize> for Row<'a, T> {
    type Output = T;
    fn index(&self, i: usize) -> &T { assert!(i < self.row.cols); unsafe { &*self.row.ptr.add(i) } }
}
impl<'a, T> std::ops::Index<usize> for RowMut<'a, T> {
    type Output = T;
    fn index(&self, i: usize) -> &T { assert!(i < self.row.cols); unsafe { &*self.row.ptr.add(i) } }
}
impl<'a, T> std::ops::IndexMut<usize> for RowMut<'a, T> {
    fn index_mut(&mut self, i: usize) -> &mut T { assert!(i < self.row.cols); unsafe { &mut *self.row.ptr.add(i) } }
}
impl<'a, T> std::ops::Index<usize> for Column<'a, T> {
    type Output = T;
    fn index(&self, i: usize) -> &T { assert!(i < self.col.rows); unsafe { &*self.col.ptr.add(i * self.col.row_stride) } }
}
impl<'a, T> std::ops::Index<usize> for ColumnMut<'a, T> {
    type Output = T;
    fn index(&self, i: usize) -> &T { assert!(i < self.col.rows); unsafe { &*self.col.ptr.add(i * self.col.row_stride) } }
}
impl<'a, T> std::ops::IndexMut<usize> for ColumnMut<'a, T> {
    fn index_mut(&mut self, i: usize) -> &mut T { assert!(i < self.col.rows); unsafe { &mut *self.col.ptr.add(i * self.col.row_stride) } }
}
