//! The matrix module.
use std::marker::PhantomData;

pub mod decomposition;
mod base;
mod iter;
mod mat;
mod ops;

pub use self::base::{BaseMatrix, BaseMatrixMut};
pub use self::iter::*;

#[derive(Debug, PartialEq, Eq, Clone, Hash)]
pub struct Matrix<T> {
    rows: usize,
    cols: usize,
    data: Vec<T>,
}

#[derive(Debug)]
pub struct MatrixSlice<'a, T: 'a> {
    ptr: *const T,
    rows: usize,
    cols: usize,
    row_stride: usize,
    marker: PhantomData<&'a T>,
}
impl<'a, T> Clone for MatrixSlice<'a, T> { fn clone(&self) -> Self { *self } }
impl<'a, T> Copy for MatrixSlice<'a, T> {}

#[derive(Debug)]
pub struct MatrixSliceMut<'a, T: 'a> {
    ptr: *mut T,
    rows: usize,
    cols: usize,
    row_stride: usize,
    marker: PhantomData<&'a mut T>,
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Axes { Row, Col }

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum DiagOffset { Main, Above(usize), Below(usize) }

/// A row of a matrix.
#[derive(Debug, Clone, Copy)]
pub struct Row<'a, T: 'a> { row: MatrixSlice<'a, T> }
/// A mutable row of a matrix.
#[derive(Debug)]
pub struct RowMut<'a, T: 'a> { row: MatrixSliceMut<'a, T> }
/// A column of a matrix.
#[derive(Debug, Clone, Copy)]
pub struct Column<'a, T: 'a> { col: MatrixSlice<'a, T> }
/// A mutable column of a matrix.
#[derive(Debug)]
pub struct ColumnMut<'a, T: 'a> { col: MatrixSliceMut<'a, T> }

impl<'a, T: 'a> Row<'a, T> {
    pub fn raw_slice(&self) -> &'a [T] {
        unsafe { std::slice::from_raw_parts(self.row.ptr, self.row.cols) }
    }
}
impl<'a, T: 'a> RowMut<'a, T> {
    pub fn raw_slice(&self) -> &'a [T] {
        unsafe { std::slice::from_raw_parts(self.row.ptr as *const T, self.row.cols) }
    }
    pub fn raw_slice_mut(&mut self) -> &'a mut [T] {
        unsafe { std::slice::from_raw_parts_mut(self.row.ptr, self.row.cols) }
    }
}
impl<'a, T> std::ops::Deref for Row<'a, T> {
    type Target = MatrixSlice<'a, T>;
    fn deref(&self) -> &Self::Target { &self.row }
}
impl<'a, T> std::ops::Deref for RowMut<'a, T> {
    type Target = MatrixSliceMut<'a, T>;
    fn deref(&self) -> &Self::Target { &self.row }
}
impl<'a, T> std::ops::DerefMut for RowMut<'a, T> {
    fn deref_mut(&mut self) -> &mut Self::Target { &mut self.row }
}
impl<'a, T> std::ops::Deref for Column<'a, T> {
    type Target = MatrixSlice<'a, T>;
    fn deref(&self) -> &Self::Target { &self.col }
}
impl<'a, T> std::ops::Deref for ColumnMut<'a, T> {
    type Target = MatrixSliceMut<'a, T>;
    fn deref(&self) -> &Self::Target { &self.col }
}
impl<'a, T> std::ops::DerefMut for ColumnMut<'a, T> {
    fn deref_mut(&mut self) -> &mut Self::Target { &mut self.col }
}

impl<'a, T> MatrixSlice<'a, T> {
    pub fn from_matrix(mat: &'a Matrix<T>, start: [usize; 2], rows: usize, cols: usize) -> MatrixSlice<'a, T> {
        mat.sub_slice(start, rows, cols)
    }
    pub unsafe fn from_raw_parts(ptr: *const T, rows: usize, cols: usize, row_stride: usize) -> MatrixSlice<'a, T> {
        MatrixSlice { ptr, rows, cols, row_stride, marker: PhantomData }
    }
    pub fn reslice(mut self, start: [usize; 2], rows: usize, cols: usize) -> MatrixSlice<'a, T> {
        assert!(start[0] + rows <= self.rows && start[1] + cols <= self.cols);
        unsafe { self.ptr = self.ptr.add(start[0] * self.row_stride + start[1]); }
        self.rows = rows;
        self.cols = cols;
        self
    }
}
impl<'a, T> MatrixSliceMut<'a, T> {
    pub fn from_matrix(mat: &'a mut Matrix<T>, start: [usize; 2], rows: usize, cols: usize) -> MatrixSliceMut<'a, T> {
        mat.sub_slice_mut(start, rows, cols)
    }
    pub unsafe fn from_raw_parts(ptr: *mut T, rows: usize, cols: usize, row_stride: usize) -> MatrixSliceMut<'a, T> {
        MatrixSliceMut { ptr, rows, cols, row_stride, marker: PhantomData }
    }
}
