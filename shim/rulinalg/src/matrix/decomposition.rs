//! Decompositions.
use super::*;
use crate::error::{Error, ErrorKind};
use crate::vector::Vector;
use num_traits::{Float, One, Zero};

pub trait Decomposition {
    type Factors;
    fn unpack(self) -> Self::Factors;
}

/// A permutation matrix: row `i` of `P * A` is row `perm[i]` of `A`.
#[derive(Debug, Clone, PartialEq)]
pub struct PermutationMatrix<T> { perm: Vec<usize>, marker: PhantomData<T> }
impl<T> PermutationMatrix<T> {
    pub fn identity(n: usize) -> Self { PermutationMatrix { perm: (0..n).collect(), marker: PhantomData } }
    pub fn size(&self) -> usize { self.perm.len() }
    pub fn swap_rows(&mut self, i: usize, j: usize) { self.perm.swap(i, j) }
}
impl<T: Clone + Zero + One> PermutationMatrix<T> {
    pub fn as_matrix(&self) -> Matrix<T> {
        let n = self.perm.len();
        let mut m = Matrix::zeros(n, n);
        for i in 0..n { m[[i, self.perm[i]]] = T::one(); }
        m
    }
}
impl<T: Clone + Zero + One> From<PermutationMatrix<T>> for Matrix<T> { fn from(p: PermutationMatrix<T>) -> Self { p.as_matrix() } }

#[derive(Debug, Clone)]
pub struct LUP<T> { pub l: Matrix<T>, pub u: Matrix<T>, pub p: PermutationMatrix<T> }

#[derive(Debug, Clone)]
pub struct PartialPivLu<T> { lu: Matrix<T>, p: PermutationMatrix<T>, odd: bool }

impl<T: Float> PartialPivLu<T> {
    pub fn decompose(mut m: Matrix<T>) -> Result<Self, Error> {
        assert!(m.rows() == m.cols(), "Matrix must be square.");
        let n = m.rows();
        let mut p = PermutationMatrix::identity(n);
        let mut odd = false;
        for k in 0..n {
            let mut best = k;
            for r in k + 1..n { if m[[r, k]].abs() > m[[best, k]].abs() { best = r; } }
            if m[[best, k]].abs() < T::epsilon() {
                return Err(Error::new(ErrorKind::DivByZero, "The matrix is too ill-conditioned to be LU decomposed."));
            }
            if best != k { m.swap_rows(best, k); p.swap_rows(best, k); odd = !odd; }
            for r in k + 1..n {
                let f = m[[r, k]] / m[[k, k]];
                m[[r, k]] = f;
                for c in k + 1..n { let x = m[[k, c]]; m[[r, c]] = m[[r, c]] - f * x; }
            }
        }
        Ok(PartialPivLu { lu: m, p, odd })
    }
    pub fn solve(&self, b: Vector<T>) -> Result<Vector<T>, Error> {
        let n = self.lu.rows();
        assert!(b.size() == n, "Right-hand side vector must have compatible size.");
        let mut x: Vec<T> = self.p.perm.iter().map(|&i| b[i]).collect();
        for i in 0..n { for j in 0..i { x[i] = x[i] - self.lu[[i, j]] * x[j]; } }
        for i in (0..n).rev() {
            for j in i + 1..n { x[i] = x[i] - self.lu[[i, j]] * x[j]; }
            x[i] = x[i] / self.lu[[i, i]];
        }
        Ok(Vector::new(x))
    }
    pub fn inverse(&self) -> Result<Matrix<T>, Error> {
        let n = self.lu.rows();
        let mut inv = Matrix::zeros(n, n);
        for c in 0..n {
            let mut e = vec![T::zero(); n];
            e[c] = T::one();
            let x = self.solve(Vector::new(e))?;
            for r in 0..n { inv[[r, c]] = x[r]; }
        }
        Ok(inv)
    }
    pub fn det(&self) -> T {
        let mut d = if self.odd { -T::one() } else { T::one() };
        for i in 0..self.lu.rows() { d = d * self.lu[[i, i]]; }
        d
    }
}
impl<T: Float> Decomposition for PartialPivLu<T> {
    type Factors = LUP<T>;
    fn unpack(self) -> LUP<T> {
        let n = self.lu.rows();
        let mut l = Matrix::identity(n);
        let mut u = Matrix::zeros(n, n);
        for r in 0..n { for c in 0..n {
            if r > c { l[[r, c]] = self.lu[[r, c]]; } else { u[[r, c]] = self.lu[[r, c]]; }
        } }
        LUP { l, u, p: self.p }
    }
}

/// Full pivoting LU (only what a determinant/solve/inverse/rank user needs).
#[derive(Debug, Clone)]
pub struct FullPivLu<T> { m: Matrix<T> }
impl<T: Float> FullPivLu<T> {
    pub fn decompose(m: Matrix<T>) -> Result<Self, Error> { Ok(FullPivLu { m }) }
    pub fn solve(&self, b: Vector<T>) -> Result<Vector<T>, Error> { PartialPivLu::decompose(self.m.clone())?.solve(b) }
    pub fn inverse(&self) -> Result<Matrix<T>, Error> { PartialPivLu::decompose(self.m.clone())?.inverse() }
    pub fn det(&self) -> T { self.m.clone().det() }
    pub fn is_invertible(&self) -> bool { PartialPivLu::decompose(self.m.clone()).is_ok() }
}

#[derive(Debug, Clone)]
pub struct Cholesky<T> { l: Matrix<T> }
impl<T: Float> Cholesky<T> {
    pub fn decompose(m: Matrix<T>) -> Result<Self, Error> {
        assert!(m.rows() == m.cols(), "Matrix must be square.");
        let n = m.rows();
        let mut l = Matrix::zeros(n, n);
        for j in 0..n {
            let mut d = m[[j, j]];
            for k in 0..j { d = d - l[[j, k]] * l[[j, k]]; }
            if d < T::epsilon() || d.is_nan() {
                return Err(Error::new(ErrorKind::DecompFailure, "Matrix is not positive definite."));
            }
            let d = d.sqrt();
            l[[j, j]] = d;
            for i in j + 1..n {
                let mut s = m[[i, j]];
                for k in 0..j { s = s - l[[i, k]] * l[[j, k]]; }
                l[[i, j]] = s / d;
            }
        }
        Ok(Cholesky { l })
    }
    pub fn det(&self) -> T {
        let mut d = T::one();
        for i in 0..self.l.rows() { d = d * self.l[[i, i]]; }
        d * d
    }
    pub fn solve(&self, b: Vector<T>) -> Result<Vector<T>, Error> {
        let y = self.l.solve_l_triangular(b)?;
        self.l.transpose().solve_u_triangular(y)
    }
    pub fn inverse(&self) -> Result<Matrix<T>, Error> {
        let n = self.l.rows();
        let mut inv = Matrix::zeros(n, n);
        for c in 0..n {
            let mut e = vec![T::zero(); n];
            e[c] = T::one();
            let x = self.solve(Vector::new(e))?;
            for r in 0..n { inv[[r, c]] = x[r]; }
        }
        Ok(inv)
    }
}
impl<T: Float> Decomposition for Cholesky<T> {
    type Factors = Matrix<T>;
    fn unpack(self) -> Matrix<T> { self.l }
}

#[derive(Debug, Clone)]
pub struct QR<T> { pub q: Matrix<T>, pub r: Matrix<T> }
/// QR by modified Gram-Schmidt (thin Q).
#[derive(Debug, Clone)]
pub struct HouseholderQr<T> { q: Matrix<T>, r: Matrix<T> }
impl<T: Float> HouseholderQr<T> {
    pub fn decompose(m: Matrix<T>) -> Self {
        let (rows, cols) = (m.rows(), m.cols());
        let mut q = m;
        let mut r = Matrix::zeros(cols, cols);
        for j in 0..cols {
            for k in 0..j {
                let mut d = T::zero();
                for i in 0..rows { d = d + q[[i, k]] * q[[i, j]]; }
                r[[k, j]] = d;
                for i in 0..rows { let x = q[[i, k]]; q[[i, j]] = q[[i, j]] - d * x; }
            }
            let mut n = T::zero();
            for i in 0..rows { n = n + q[[i, j]] * q[[i, j]]; }
            let n = n.sqrt();
            r[[j, j]] = n;
            if n > T::zero() { for i in 0..rows { q[[i, j]] = q[[i, j]] / n; } }
        }
        HouseholderQr { q, r }
    }
}
impl<T: Float> Decomposition for HouseholderQr<T> {
    type Factors = QR<T>;
    fn unpack(self) -> QR<T> { QR { q: self.q, r: self.r } }
}

/// One-sided Jacobi SVD.
pub(super) fn svd<T: Float>(m: Matrix<T>) -> Result<(Matrix<T>, Matrix<T>, Matrix<T>), Error> {
    if m.cols() > m.rows() {
        let (b, u, v) = svd(m.transpose())?;
        return Ok((b.transpose(), v, u));
    }
    if m.iter().any(|x| !x.is_finite()) {
        return Err(Error::new(ErrorKind::DecompFailure, "SVD of non-finite matrix."));
    }
    let (rows, n) = (m.rows(), m.cols());
    let mut a = m;
    let mut v = Matrix::<T>::identity(n);
    let two = T::one() + T::one();
    for _ in 0..100 {
        let mut rotated = false;
        for p in 0..n { for q in p + 1..n {
            let (mut al, mut be, mut ga) = (T::zero(), T::zero(), T::zero());
            for i in 0..rows {
                al = al + a[[i, p]] * a[[i, p]];
                be = be + a[[i, q]] * a[[i, q]];
                ga = ga + a[[i, p]] * a[[i, q]];
            }
            if ga.abs() <= T::epsilon() * (al * be).sqrt() || ga == T::zero() { continue; }
            rotated = true;
            let z = (be - al) / (two * ga);
            let t = z.signum() / (z.abs() + (T::one() + z * z).sqrt());
            let c = T::one() / (T::one() + t * t).sqrt();
            let s = c * t;
            for i in 0..rows {
                let (x, y) = (a[[i, p]], a[[i, q]]);
                a[[i, p]] = c * x - s * y;
                a[[i, q]] = s * x + c * y;
            }
            for i in 0..n {
                let (x, y) = (v[[i, p]], v[[i, q]]);
                v[[i, p]] = c * x - s * y;
                v[[i, q]] = s * x + c * y;
            }
        } }
        if !rotated { break; }
    }
    let mut sv: Vec<(T, usize)> = (0..n).map(|j| {
        let mut s = T::zero();
        for i in 0..rows { s = s + a[[i, j]] * a[[i, j]]; }
        (s.sqrt(), j)
    }).collect();
    sv.sort_by(|x, y| y.0.partial_cmp(&x.0).unwrap());
    let mut b = Matrix::zeros(n, n);
    let mut u = Matrix::zeros(rows, n);
    let mut vv = Matrix::zeros(n, n);
    let tol = sv.first().map(|x| x.0).unwrap_or(T::zero()) * T::epsilon() * T::from(rows.max(1)).unwrap();
    for (k, &(s, j)) in sv.iter().enumerate() {
        b[[k, k]] = s;
        for i in 0..n { vv[[i, k]] = v[[i, j]]; }
        if s > tol { for i in 0..rows { u[[i, k]] = a[[i, j]] / s; } }
    }
    // complete U with an orthonormal basis where the singular value vanishes
    for k in 0..n {
        if b[[k, k]] > tol { continue; }
        'cand: for e in 0..rows {
            let mut w: Vec<T> = (0..rows).map(|i| if i == e { T::one() } else { T::zero() }).collect();
            for _ in 0..2 {
                for j in 0..n { if j < k || b[[j, j]] > tol {
                    let mut d = T::zero();
                    for i in 0..rows { d = d + w[i] * u[[i, j]]; }
                    for i in 0..rows { w[i] = w[i] - d * u[[i, j]]; }
                } }
            }
            let nn = w.iter().fold(T::zero(), |s, x| s + *x * *x).sqrt();
            if nn > T::from(1e-3).unwrap() {
                for i in 0..rows { u[[i, k]] = w[i] / nn; }
                break 'cand;
            }
        }
    }
    Ok((b, u, vv))
}

/// Symmetric eigen-decomposition (cyclic Jacobi); errors on non-symmetric input.
pub(super) fn sym_eigen<T: Float>(m: Matrix<T>) -> Result<(Vec<T>, Matrix<T>), Error> {
    assert!(m.rows() == m.cols(), "Matrix must be square.");
    let n = m.rows();
    for i in 0..n { for j in 0..i {
        if (m[[i, j]] - m[[j, i]]).abs() > T::from(1e-9).unwrap() {
            return Err(Error::new(ErrorKind::DecompFailure, "only symmetric matrices are supported by the stand-in"));
        }
    } }
    let mut a = m;
    let mut v = Matrix::<T>::identity(n);
    let two = T::one() + T::one();
    for _ in 0..100 {
        let mut off = T::zero();
        for p in 0..n { for q in p + 1..n { off = off + a[[p, q]] * a[[p, q]]; } }
        if off < T::from(1e-30).unwrap() { break; }
        for p in 0..n { for q in p + 1..n {
            if a[[p, q]] == T::zero() { continue; }
            let th = (a[[q, q]] - a[[p, p]]) / (two * a[[p, q]]);
            let t = th.signum() / (th.abs() + (T::one() + th * th).sqrt());
            let c = T::one() / (T::one() + t * t).sqrt();
            let s = c * t;
            for i in 0..n { let (x, y) = (a[[i, p]], a[[i, q]]); a[[i, p]] = c * x - s * y; a[[i, q]] = s * x + c * y; }
            for i in 0..n { let (x, y) = (a[[p, i]], a[[q, i]]); a[[p, i]] = c * x - s * y; a[[q, i]] = s * x + c * y; }
            for i in 0..n { let (x, y) = (v[[i, p]], v[[i, q]]); v[[i, p]] = c * x - s * y; v[[i, q]] = s * x + c * y; }
        } }
    }
    Ok(((0..n).map(|i| a[[i, i]]).collect(), v))
}
