//! Shared helpers and small independent reference algebra.
use mce::*;
pub use rusty_machine::linalg::{BaseMatrix, BaseMatrixMut, Matrix, Vector};

pub type M = Matrix<f64>;
/// Rows as plain vectors.
pub type Rows = Vec<Vec<f64>>;

pub fn mat(rows: usize, cols: usize, d: Vec<f64>) -> M { Matrix::new(rows, cols, d) }
pub fn from_rows(r: &[Vec<f64>], cols: usize) -> M { Matrix::new(r.len(), cols, r.concat()) }
pub fn to_rows(m: &M) -> Rows { m.row_iter().map(|r| r.raw_slice().to_vec()).collect() }
pub fn show(m: &M) -> String { format!("{:?}", to_rows(m)) }
/// Bitwise identity (NaN equals NaN).
pub fn same(a: &[f64], b: &[f64]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits() || x == y || (x.is_nan() && y.is_nan())) }
pub fn shape_is(m: &M, r: usize, c: usize, what: &str) -> R {
    ensure!(m.rows() == r && m.cols() == c && m.data().len() == r * c, "{} has shape {}x{} instead of {}x{}", what, m.rows(), m.cols(), r, c);
    Ok(())
}
pub fn finite(xs: &[f64]) -> bool { xs.iter().all(|x| x.is_finite()) }
pub fn err_kind<T>(r: &Result<T, rusty_machine::learning::error::Error>) -> String {
    match r { Ok(_) => "Ok".into(), Err(e) => format!("{:?}", e.kind()) }
}

// -------------------------------------------------- reference algebra
pub fn rmul(a: &Rows, b: &Rows) -> Rows {
    let n = if b.is_empty() { 0 } else { b[0].len() };
    a.iter().map(|r| (0..n).map(|j| r.iter().zip(b).map(|(x, br)| x * br[j]).sum()).collect()).collect()
}
pub fn rt(a: &Rows) -> Rows { if a.is_empty() { return vec![] } (0..a[0].len()).map(|j| a.iter().map(|r| r[j]).collect()).collect() }
pub fn dot(a: &[f64], b: &[f64]) -> f64 { a.iter().zip(b).map(|(x, y)| x * y).sum() }
pub fn d2(a: &[f64], b: &[f64]) -> f64 { a.iter().zip(b).map(|(x, y)| (x - y) * (x - y)).sum() }
/// Gaussian elimination with full row pivoting; None when numerically singular.
pub fn solve(a: &Rows, b: &[f64]) -> Option<Vec<f64>> {
    let n = a.len();
    let mut m: Rows = a.iter().zip(b).map(|(r, x)| { let mut r = r.clone(); r.push(*x); r }).collect();
    let scale = a.iter().flatten().fold(0.0f64, |s, x| s.max(x.abs())).max(1e-300);
    for i in 0..n {
        let p = (i..n).max_by(|&x, &y| m[x][i].abs().partial_cmp(&m[y][i].abs()).unwrap())?;
        m.swap(i, p);
        if m[i][i].abs() < 1e-10 * scale { return None; }
        for k in i + 1..n {
            let f = m[k][i] / m[i][i];
            for j in i..=n { let v = m[i][j]; m[k][j] -= f * v; }
        }
    }
    let mut x = vec![0.0; n];
    for i in (0..n).rev() {
        x[i] = (m[i][n] - (i + 1..n).map(|j| m[i][j] * x[j]).sum::<f64>()) / m[i][i];
    }
    Some(x)
}
/// Lower Cholesky factor; None if a pivot is not positive.
pub fn chol(a: &Rows) -> Option<Rows> {
    let n = a.len();
    let mut l = vec![vec![0.0; n]; n];
    for i in 0..n { for j in 0..=i {
        let v = a[i][j] - dot(&l[i][..j], &l[j][..j]);
        if i == j { if !(v > 0.0) { return None; } l[i][i] = v.sqrt(); } else { l[i][j] = v / l[j][j]; }
    } }
    Some(l)
}
pub fn inv(a: &Rows) -> Option<Rows> {
    let n = a.len();
    let cols: Option<Rows> = (0..n).map(|j| { let mut e = vec![0.0; n]; e[j] = 1.0; solve(a, &e) }).collect();
    cols.map(|c| rt(&c))
}
pub fn det(a: &Rows) -> f64 {
    match a.len() {
        0 => 1.0,
        1 => a[0][0],
        n => (0..n).map(|j| {
            let minor: Rows = a[1..].iter().map(|r| r.iter().enumerate().filter(|(k, _)| *k != j).map(|(_, x)| *x).collect()).collect();
            (if j % 2 == 0 { 1.0 } else { -1.0 }) * a[0][j] * det(&minor)
        }).sum(),
    }
}
/// Eigenvalues (descending) and eigenvectors (rows) of a symmetric matrix, cyclic Jacobi.
pub fn eigen(a: &Rows) -> (Vec<f64>, Rows) {
    let n = a.len();
    let mut m = a.clone();
    let mut v: Rows = (0..n).map(|i| (0..n).map(|j| (i == j) as u8 as f64).collect()).collect();
    for _ in 0..60 {
        let off: f64 = (0..n).map(|i| (0..n).filter(|&j| j != i).map(|j| m[i][j] * m[i][j]).sum::<f64>()).sum();
        if off < 1e-300 { break; }
        for p in 0..n { for q in p + 1..n {
            if m[p][q] == 0.0 { continue; }
            let th = (m[q][q] - m[p][p]) / (2.0 * m[p][q]);
            let t = (if th >= 0.0 { 1.0 } else { -1.0 }) / (th.abs() + (th * th + 1.0).sqrt());
            let c = 1.0 / (t * t + 1.0).sqrt();
            let s = t * c;
            for k in 0..n { let (x, y) = (m[k][p], m[k][q]); m[k][p] = c * x - s * y; m[k][q] = s * x + c * y; }
            for k in 0..n { let (x, y) = (m[p][k], m[q][k]); m[p][k] = c * x - s * y; m[q][k] = s * x + c * y; }
            for k in 0..n { let (x, y) = (v[p][k], v[q][k]); v[p][k] = c * x - s * y; v[q][k] = s * x + c * y; }
        } }
    }
    let mut idx: Vec<usize> = (0..n).collect();
    idx.sort_by(|&i, &j| m[j][j].partial_cmp(&m[i][i]).unwrap());
    (idx.iter().map(|&i| m[i][i]).collect(), idx.iter().map(|&i| v[i].clone()).collect())
}
/// Every subset of size k of 0..n, in order.
pub fn subsets(n: usize, k: usize) -> Vec<Vec<usize>> {
    if k == 0 { return vec![vec![]]; }
    if k > n { return vec![]; }
    let mut out = subsets(n - 1, k);
    for mut s in subsets(n - 1, k - 1) { s.push(n - 1); out.push(s); }
    out
}
