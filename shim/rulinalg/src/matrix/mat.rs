use super::*;
use super::decomposition::*;
use crate::error::{Error, ErrorKind};
use crate::vector::Vector;
use num_traits::{Float, FromPrimitive, One, Zero};
use std::fmt;

impl<T> Matrix<T> {
    pub fn new<U: Into<Vec<T>>>(rows: usize, cols: usize, data: U) -> Matrix<T> {
        let data = data.into();
        assert!(cols * rows == data.len(), "Data does not match given dimensions.");
        Matrix { rows, cols, data }
    }
    /// `f` is called with `(col, row)`.
    pub fn from_fn<F>(rows: usize, cols: usize, mut f: F) -> Matrix<T> where F: FnMut(usize, usize) -> T {
        let mut data = Vec::with_capacity(rows * cols);
        for r in 0..rows { for c in 0..cols { data.push(f(c, r)); } }
        Matrix { rows, cols, data }
    }
    pub fn data(&self) -> &Vec<T> { &self.data }
    pub fn mut_data(&mut self) -> &mut [T] { &mut self.data }
    pub fn into_vec(self) -> Vec<T> { self.data }
    pub fn iter(&self) -> SliceIter<'_, T> { BaseMatrix::iter(self) }
    pub fn iter_mut(&mut self) -> SliceIterMut<'_, T> { BaseMatrixMut::iter_mut(self) }
}
impl<T: Clone + Zero> Matrix<T> {
    pub fn zeros(rows: usize, cols: usize) -> Matrix<T> { Matrix { rows, cols, data: vec![T::zero(); rows * cols] } }
    pub fn from_diag(diag: &[T]) -> Matrix<T> {
        let n = diag.len();
        let mut data = vec![T::zero(); n * n];
        for i in 0..n { data[i * (n + 1)] = diag[i].clone(); }
        Matrix { rows: n, cols: n, data }
    }
}
impl<T: Clone + One> Matrix<T> {
    pub fn ones(rows: usize, cols: usize) -> Matrix<T> { Matrix { rows, cols, data: vec![T::one(); rows * cols] } }
}
impl<T: Clone + Zero + One> Matrix<T> {
    pub fn identity(size: usize) -> Matrix<T> {
        let mut data = vec![T::zero(); size * size];
        for i in 0..size { data[i * (size + 1)] = T::one(); }
        Matrix { rows: size, cols: size, data }
    }
}
impl<T: Float + FromPrimitive> Matrix<T> {
    /// `Axes::Row`: one mean per column; `Axes::Col`: one mean per row.
    pub fn mean(&self, axis: Axes) -> Vector<T> {
        match axis {
            Axes::Row => self.sum_rows() / <T as FromPrimitive>::from_usize(self.rows).unwrap(),
            Axes::Col => self.sum_cols() / <T as FromPrimitive>::from_usize(self.cols).unwrap(),
        }
    }
    /// Sample variance (n - 1).
    pub fn variance(&self, axis: Axes) -> Result<Vector<T>, Error> {
        let mean = self.mean(axis);
        let (n, m) = match axis { Axes::Row => (self.rows, self.cols), Axes::Col => (self.cols, self.rows) };
        if n < 2 {
            return Err(Error::new(ErrorKind::InvalidArg, "There must be at least two rows or columns in the working axis."));
        }
        let mut out = vec![T::zero(); m];
        for i in 0..n { for j in 0..m {
            let x = match axis { Axes::Row => self.data[i * self.cols + j], Axes::Col => self.data[j * self.cols + i] };
            let d = x - mean[j];
            out[j] = out[j] + d * d;
        } }
        let den: T = FromPrimitive::from_usize(n - 1).unwrap();
        Ok(Vector::new(out.into_iter().map(|x| x / den).collect::<Vec<T>>()))
    }
}
impl<T: Float> Matrix<T> {
    pub fn solve(self, y: Vector<T>) -> Result<Vector<T>, Error> { PartialPivLu::decompose(self)?.solve(y) }
    pub fn inverse(self) -> Result<Matrix<T>, Error> {
        assert!(self.rows == self.cols, "Matrix is not square.");
        PartialPivLu::decompose(self)?.inverse()
    }
    pub fn det(self) -> T {
        assert!(self.rows == self.cols, "Matrix is not square.");
        match self.rows {
            0 => T::one(),
            1 => self.data[0],
            2 => self.data[0] * self.data[3] - self.data[1] * self.data[2],
            _ => PartialPivLu::decompose(self).map(|p| p.det()).unwrap_or(T::zero()),
        }
    }
    pub fn cholesky(&self) -> Result<Matrix<T>, Error> { Ok(Cholesky::decompose(self.clone())?.unpack()) }
    pub fn lup_decomp(self) -> Result<(Matrix<T>, Matrix<T>, Matrix<T>), Error> {
        let LUP { l, u, p } = PartialPivLu::decompose(self)?.unpack();
        Ok((l, u, p.as_matrix()))
    }
    pub fn qr_decomp(self) -> Result<(Matrix<T>, Matrix<T>), Error> {
        let QR { q, r } = HouseholderQr::decompose(self).unpack();
        Ok((q, r))
    }
    /// (B, U, V) with self = U * B * V^T, B diagonal, non-increasing, non-negative.
    pub fn svd(self) -> Result<(Matrix<T>, Matrix<T>, Matrix<T>), Error> { svd(self) }
    pub fn eigenvalues(self) -> Result<Vec<T>, Error> { sym_eigen(self).map(|x| x.0) }
    pub fn eigendecomp(self) -> Result<(Vec<T>, Matrix<T>), Error> { sym_eigen(self) }
}
impl<T: fmt::Display> fmt::Display for Matrix<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let show = |x: &T| match f.precision() { Some(p) => format!("{:.1$}", x, p), None => format!("{}", x) };
        let cells: Vec<String> = self.data.iter().map(show).collect();
        let w = cells.iter().map(|s| s.len()).max().unwrap_or(0);
        for r in 0..self.rows {
            if r > 0 { writeln!(f)?; }
            let (a, b) = if self.rows == 1 { ("[", "]") } else if r == 0 { ("⎡", "⎤") }
                         else if r + 1 == self.rows { ("⎣", "⎦") } else { ("⎢", "⎥") };
            write!(f, "{}", a)?;
            for c in 0..self.cols {
                if c > 0 { write!(f, " ")?; }
                write!(f, "{:>1$}", cells[r * self.cols + c], w)?;
            }
            write!(f, "{}", b)?;
        }
        Ok(())
    }
}
impl<'a, T: Copy> From<MatrixSlice<'a, T>> for Matrix<T> { fn from(s: MatrixSlice<'a, T>) -> Self { s.into_matrix() } }
impl<'a, T: Copy> From<MatrixSliceMut<'a, T>> for Matrix<T> { fn from(s: MatrixSliceMut<'a, T>) -> Self { s.into_matrix() } }
impl<'a, T: Copy> From<Row<'a, T>> for Vector<T> { fn from(s: Row<'a, T>) -> Self { Vector::new(s.raw_slice().to_vec()) } }
impl<'a, T: Copy> From<RowMut<'a, T>> for Vector<T> { fn from(s: RowMut<'a, T>) -> Self { Vector::new(s.raw_slice().to_vec()) } }
impl<'a, T: Copy> From<Column<'a, T>> for Vector<T> { fn from(s: Column<'a, T>) -> Self { Vector::new(s.into_iter().cloned().collect::<Vec<T>>()) } }
