//! Macros: `matrix!`, `vector!`, `assert_matrix_eq!`, `assert_vector_eq!`, `assert_scalar_eq!`.

#[macro_export]
macro_rules! matrix {
    () => { $crate::matrix::Matrix::new(0, 0, Vec::new()) };
    ($( $( $x:expr ),* );*) => {{
        let data_as_rows = [ $( vec![ $($x),* ] ),* ];
        let rows = data_as_rows.len();
        let cols = data_as_rows[0].len();
        assert!(data_as_rows.iter().all(|r| r.len() == cols));
        let data: Vec<_> = data_as_rows.iter().flat_map(|r| r.iter().cloned()).collect();
        $crate::matrix::Matrix::new(rows, cols, data)
    }};
    ($( $( $x:expr ),* ;)*) => { $crate::matrix!($( $( $x ),* );*) };
}

#[macro_export]
macro_rules! vector {
    ($($x:expr),*) => { $crate::vector::Vector::new(vec![$($x),*]) };
    ($($x:expr),* ,) => { $crate::vector::Vector::new(vec![$($x),*]) };
    ($x:expr; $n:expr) => { $crate::vector::Vector::new(vec![$x; $n]) };
}

#[doc(hidden)]
pub trait EqTol { fn as_f(&self) -> f64; }
macro_rules! eqtol { ($($t:ty)*) => {$(impl EqTol for $t { fn as_f(&self) -> f64 { *self as f64 } })*} }
eqtol!(f32 f64 i8 i16 i32 i64 isize u8 u16 u32 u64 usize);

#[doc(hidden)]
pub fn seq_eq<T: EqTol + Clone>(a: &[T], b: &[T], tol: f64) -> bool {
    a.len() == b.len() &&
    a.iter().zip(b).all(|(x, y)| {
        let (x, y) = (x.as_f(), y.as_f());
        x == y || (x - y).abs() <= tol
    })
}

#[doc(hidden)]
pub const DEFAULT_TOL: f64 = 1e-12;

#[macro_export]
macro_rules! assert_matrix_eq {
    ($x:expr, $y:expr) => { $crate::assert_matrix_eq!(@ $x, $y, $crate::macros::DEFAULT_TOL) };
    ($x:expr, $y:expr,) => { $crate::assert_matrix_eq!(@ $x, $y, $crate::macros::DEFAULT_TOL) };
    ($x:expr, $y:expr, comp = exact) => { $crate::assert_matrix_eq!(@ $x, $y, 0.0) };
    ($x:expr, $y:expr, comp = $c:ident) => { $crate::assert_matrix_eq!(@ $x, $y, $crate::macros::DEFAULT_TOL) };
    ($x:expr, $y:expr, comp = $c:ident, $($k:ident = $v:expr),+) => {
        $crate::assert_matrix_eq!(@ $x, $y, $crate::last_tol!($($k = $v),+))
    };
    (@ $x:expr, $y:expr, $tol:expr) => {{
        let (a, b) = (&$x, &$y);
        use $crate::matrix::BaseMatrix as _B;
        let (am, bm): (Vec<_>, Vec<_>) = (a.iter().cloned().collect(), b.iter().cloned().collect());
        if a.rows() != b.rows() || a.cols() != b.cols() ||
           !$crate::macros::seq_eq(&am, &bm, $tol as f64) {
            panic!("assert_matrix_eq: {}x{} {:?} vs {}x{} {:?}",
                   a.rows(), a.cols(), am, b.rows(), b.cols(), bm);
        }
    }};
}

#[doc(hidden)]
#[macro_export]
macro_rules! last_tol {
    (tol = $v:expr) => { $v };
    (eps = $v:expr) => { $v };
    (ulp = $v:expr) => { 1e-12 };
    ($k:ident = $v:expr, $($r:tt)+) => { $crate::last_tol!($k = $v) };
}

#[macro_export]
macro_rules! assert_vector_eq {
    ($x:expr, $y:expr) => { $crate::assert_vector_eq!(@ $x, $y, $crate::macros::DEFAULT_TOL) };
    ($x:expr, $y:expr,) => { $crate::assert_vector_eq!(@ $x, $y, $crate::macros::DEFAULT_TOL) };
    ($x:expr, $y:expr, comp = exact) => { $crate::assert_vector_eq!(@ $x, $y, 0.0) };
    ($x:expr, $y:expr, comp = $c:ident) => { $crate::assert_vector_eq!(@ $x, $y, $crate::macros::DEFAULT_TOL) };
    ($x:expr, $y:expr, comp = $c:ident, $($k:ident = $v:expr),+) => {
        $crate::assert_vector_eq!(@ $x, $y, $crate::last_tol!($($k = $v),+))
    };
    (@ $x:expr, $y:expr, $tol:expr) => {{
        let (a, b) = (&$x, &$y);
        if !$crate::macros::seq_eq(a.data(), b.data(), $tol as f64) {
            panic!("assert_vector_eq: {:?} vs {:?}", a.data(), b.data());
        }
    }};
}

#[macro_export]
macro_rules! assert_scalar_eq {
    ($x:expr, $y:expr) => { assert!($crate::macros::seq_eq(&[$x], &[$y], $crate::macros::DEFAULT_TOL)) };
    ($x:expr, $y:expr, comp = exact) => { assert!($crate::macros::seq_eq(&[$x], &[$y], 0.0)) };
    ($x:expr, $y:expr, comp = $c:ident) => { assert!($crate::macros::seq_eq(&[$x], &[$y], $crate::macros::DEFAULT_TOL)) };
    ($x:expr, $y:expr, comp = $c:ident, $($k:ident = $v:expr),+) => {
        assert!($crate::macros::seq_eq(&[$x], &[$y], $crate::last_tol!($($k = $v),+) as f64))
    };
}
