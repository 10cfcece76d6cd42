use super::*;
use std::iter::FromIterator;

/// Iterator over the elements of a matrix-like value, row by row.
#[derive(Debug)]
pub struct SliceIter<'a, T: 'a> { pub(super) s: MatrixSlice<'a, T>, pub(super) at: usize }
impl<'a, T> Clone for SliceIter<'a, T> { fn clone(&self) -> Self { SliceIter { s: self.s, at: self.at } } }
impl<'a, T> Iterator for SliceIter<'a, T> {
    type Item = &'a T;
    fn next(&mut self) -> Option<&'a T> {
        if self.at >= self.s.rows * self.s.cols { return None; }
        let (r, c) = (self.at / self.s.cols, self.at % self.s.cols);
        self.at += 1;
        unsafe { Some(&*self.s.ptr.add(r * self.s.row_stride + c)) }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.s.rows * self.s.cols - self.at;
        (n, Some(n))
    }
}
impl<'a, T> ExactSizeIterator for SliceIter<'a, T> {}

#[derive(Debug)]
pub struct SliceIterMut<'a, T: 'a> {
    pub(super) ptr: *mut T, pub(super) rows: usize, pub(super) cols: usize, pub(super) stride: usize,
    pub(super) at: usize, pub(super) m: PhantomData<&'a mut T>,
}
impl<'a, T> Iterator for SliceIterMut<'a, T> {
    type Item = &'a mut T;
    fn next(&mut self) -> Option<&'a mut T> {
        if self.at >= self.rows * self.cols { return None; }
        let (r, c) = (self.at / self.cols, self.at % self.cols);
        self.at += 1;
        unsafe { Some(&mut *self.ptr.add(r * self.stride + c)) }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.rows * self.cols - self.at;
        (n, Some(n))
    }
}
impl<'a, T> ExactSizeIterator for SliceIterMut<'a, T> {}

macro_rules! line_iters { ($Name:ident $NameMut:ident $Item:ident $ItemMut:ident $field:ident $count:ident $row:expr) => {
    #[derive(Debug)]
    pub struct $Name<'a, T: 'a> { pub(super) s: MatrixSlice<'a, T>, pub(super) lo: usize, pub(super) hi: usize }
    impl<'a, T> Clone for $Name<'a, T> { fn clone(&self) -> Self { $Name { s: self.s, lo: self.lo, hi: self.hi } } }
    impl<'a, T> $Name<'a, T> {
        fn line(&self, i: usize) -> $Item<'a, T> {
            let s = self.s;
            let sl = unsafe { if $row {
                MatrixSlice::from_raw_parts(s.ptr.wrapping_add(i * s.row_stride), 1, s.cols, s.row_stride)
            } else {
                MatrixSlice::from_raw_parts(s.ptr.wrapping_add(i), s.rows, 1, s.row_stride)
            } };
            $Item { $field: sl }
        }
    }
    impl<'a, T> Iterator for $Name<'a, T> {
        type Item = $Item<'a, T>;
        fn next(&mut self) -> Option<Self::Item> {
            if self.lo >= self.hi { return None; }
            self.lo += 1;
            Some(self.line(self.lo - 1))
        }
        fn size_hint(&self) -> (usize, Option<usize>) { let n = self.hi - self.lo; (n, Some(n)) }
    }
    impl<'a, T> DoubleEndedIterator for $Name<'a, T> {
        fn next_back(&mut self) -> Option<Self::Item> {
            if self.lo >= self.hi { return None; }
            self.hi -= 1;
            Some(self.line(self.hi))
        }
    }
    impl<'a, T> ExactSizeIterator for $Name<'a, T> {}

    #[derive(Debug)]
    pub struct $NameMut<'a, T: 'a> {
        pub(super) ptr: *mut T, pub(super) rows: usize, pub(super) cols: usize, pub(super) stride: usize,
        pub(super) lo: usize, pub(super) hi: usize, pub(super) m: PhantomData<&'a mut T>,
    }
    impl<'a, T> $NameMut<'a, T> {
        fn line(&self, i: usize) -> $ItemMut<'a, T> {
            let sl = unsafe { if $row {
                MatrixSliceMut::from_raw_parts(self.ptr.wrapping_add(i * self.stride), 1, self.cols, self.stride)
            } else {
                MatrixSliceMut::from_raw_parts(self.ptr.wrapping_add(i), self.rows, 1, self.stride)
            } };
            $ItemMut { $field: sl }
        }
    }
    impl<'a, T> Iterator for $NameMut<'a, T> {
        type Item = $ItemMut<'a, T>;
        fn next(&mut self) -> Option<Self::Item> {
            if self.lo >= self.hi { return None; }
            self.lo += 1;
            Some(self.line(self.lo - 1))
        }
        fn size_hint(&self) -> (usize, Option<usize>) { let n = self.hi - self.lo; (n, Some(n)) }
    }
    impl<'a, T> DoubleEndedIterator for $NameMut<'a, T> {
        fn next_back(&mut self) -> Option<Self::Item> {
            if self.lo >= self.hi { return None; }
            self.hi -= 1;
            Some(self.line(self.hi))
        }
    }
    impl<'a, T> ExactSizeIterator for $NameMut<'a, T> {}
} }
line_iters!(Rows RowsMut Row RowMut row rows true);
line_iters!(Cols ColsMut Column ColumnMut col cols false);

/// Iterator over a diagonal.
#[derive(Debug)]
pub struct Diagonal<'a, T: 'a> { pub(super) s: MatrixSlice<'a, T>, pub(super) r: usize, pub(super) c: usize }
impl<'a, T> Iterator for Diagonal<'a, T> {
    type Item = &'a T;
    fn next(&mut self) -> Option<&'a T> {
        if self.r >= self.s.rows || self.c >= self.s.cols { return None; }
        let p = unsafe { &*self.s.ptr.add(self.r * self.s.row_stride + self.c) };
        self.r += 1;
        self.c += 1;
        Some(p)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = std::cmp::min(self.s.rows.saturating_sub(self.r), self.s.cols.saturating_sub(self.c));
        (n, Some(n))
    }
}
impl<'a, T> ExactSizeIterator for Diagonal<'a, T> {}
#[derive(Debug)]
pub struct DiagonalMut<'a, T: 'a> {
    pub(super) ptr: *mut T, pub(super) rows: usize, pub(super) cols: usize, pub(super) stride: usize,
    pub(super) r: usize, pub(super) c: usize, pub(super) m: PhantomData<&'a mut T>,
}
impl<'a, T> Iterator for DiagonalMut<'a, T> {
    type Item = &'a mut T;
    fn next(&mut self) -> Option<&'a mut T> {
        if self.r >= self.rows || self.c >= self.cols { return None; }
        let p = unsafe { &mut *self.ptr.add(self.r * self.stride + self.c) };
        self.r += 1;
        self.c += 1;
        Some(p)
    }
}

impl<'a, T> IntoIterator for MatrixSlice<'a, T> {
    type Item = &'a T;
    type IntoIter = SliceIter<'a, T>;
    fn into_iter(self) -> SliceIter<'a, T> { SliceIter { s: self, at: 0 } }
}
impl<'a, T> IntoIterator for &'a MatrixSlice<'a, T> {
    type Item = &'a T;
    type IntoIter = SliceIter<'a, T>;
    fn into_iter(self) -> SliceIter<'a, T> { SliceIter { s: *self, at: 0 } }
}
impl<'a, T> IntoIterator for MatrixSliceMut<'a, T> {
    type Item = &'a mut T;
    type IntoIter = SliceIterMut<'a, T>;
    fn into_iter(mut self) -> SliceIterMut<'a, T> {
        let (ptr, rows, cols, stride) = (self.as_mut_ptr(), self.rows, self.cols, self.row_stride);
        SliceIterMut { ptr, rows, cols, stride, at: 0, m: PhantomData }
    }
}
impl<'a, T> IntoIterator for Row<'a, T> {
    type Item = &'a T;
    type IntoIter = SliceIter<'a, T>;
    fn into_iter(self) -> SliceIter<'a, T> { SliceIter { s: self.row, at: 0 } }
}
impl<'a, 'b, T> IntoIterator for &'b Row<'a, T> {
    type Item = &'a T;
    type IntoIter = SliceIter<'a, T>;
    fn into_iter(self) -> SliceIter<'a, T> { SliceIter { s: self.row, at: 0 } }
}
impl<'a, T> IntoIterator for RowMut<'a, T> {
    type Item = &'a mut T;
    type IntoIter = SliceIterMut<'a, T>;
    fn into_iter(self) -> SliceIterMut<'a, T> { self.row.into_iter() }
}
impl<'a, T> IntoIterator for Column<'a, T> {
    type Item = &'a T;
    type IntoIter = SliceIter<'a, T>;
    fn into_iter(self) -> SliceIter<'a, T> { SliceIter { s: self.col, at: 0 } }
}
impl<'a, T> IntoIterator for ColumnMut<'a, T> {
    type Item = &'a mut T;
    type IntoIter = SliceIterMut<'a, T>;
    fn into_iter(self) -> SliceIterMut<'a, T> { self.col.into_iter() }
}
impl<'a, T> IntoIterator for &'a Matrix<T> {
    type Item = &'a T;
    type IntoIter = SliceIter<'a, T>;
    fn into_iter(self) -> SliceIter<'a, T> { self.iter() }
}
impl<'a, T> IntoIterator for &'a mut Matrix<T> {
    type Item = &'a mut T;
    type IntoIter = SliceIterMut<'a, T>;
    fn into_iter(self) -> SliceIterMut<'a, T> { self.iter_mut() }
}

macro_rules! from_rows { ($($t:ident)*) => {$(
    impl<'a, T: 'a + Copy> FromIterator<$t<'a, T>> for Matrix<T> {
        fn from_iter<I: IntoIterator<Item = $t<'a, T>>>(it: I) -> Matrix<T> {
            let mut data = Vec::new();
            let (mut rows, mut cols) = (0, 0);
            for r in it {
                if rows == 0 { cols = r.cols(); }
                assert!(r.cols() == cols, "Matrix rows must all have the same size.");
                rows += 1;
                data.extend_from_slice(r.raw_slice());
            }
            Matrix::new(rows, cols, data)
        }
    }
)*} }
from_rows!(Row RowMut);
impl<'a, T: 'a + Copy> FromIterator<&'a [T]> for Matrix<T> {
    fn from_iter<I: IntoIterator<Item = &'a [T]>>(it: I) -> Matrix<T> {
        let mut data = Vec::new();
        let (mut rows, mut cols) = (0, 0);
        for r in it {
            if rows == 0 { cols = r.len(); }
            assert!(r.len() == cols, "Matrix rows must all have the same size.");
            rows += 1;
            data.extend_from_slice(r);
        }
        Matrix::new(rows, cols, data)
    }
}
