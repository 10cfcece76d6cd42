//! Helpers for oracles.

/// JSON string.
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// |a - b| <= tol * max(1, |a|, |b|), and equal infinities / NaNs are close.
pub fn close(a: f64, b: f64, tol: f64) -> bool {
    if a == b || (a.is_nan() && b.is_nan()) { return true; }
    if !a.is_finite() || !b.is_finite() { return false; }
    (a - b).abs() <= tol * 1f64.max(a.abs()).max(b.abs())
}
/// Relative closeness with an absolute floor.
pub fn rel(a: f64, b: f64, tol: f64, floor: f64) -> bool {
    if a == b || (a.is_nan() && b.is_nan()) { return true; }
    if !a.is_finite() || !b.is_finite() { return false; }
    (a - b).abs() <= tol * a.abs().max(b.abs()) + floor
}
pub fn close_all(a: &[f64], b: &[f64], tol: f64) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| close(*x, *y, tol))
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)+) => { if !$c { return Err(format!($($a)+)); } };
}
#[macro_export]
macro_rules! ensure_close {
    ($a:expr, $b:expr, $tol:expr, $($f:tt)+) => {{
        let (a, b): (f64, f64) = ($a, $b);
        if !$crate::close(a, b, $tol) { return Err(format!("{}: got {:?}, expected {:?}", format!($($f)+), a, b)); }
    }};
}
