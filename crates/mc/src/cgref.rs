//! Reference for C33: the published procedure (Rasmussen's minimize/fmincg), as the list of points it evaluates.
//! The list ends where a decision of the procedure is too close to a tie, or a quantity too small, for rounding not to matter.
use crate::util::dot;

pub struct Settings { pub rho: f64, pub sig: f64, pub int: f64, pub ext: f64, pub max: usize, pub ratio: f64 }
struct Tie;
type T<X> = Result<X, Tie>;

/// `a < b`, provided that they are clearly different.
fn below(a: f64, b: f64, scale: f64) -> T<bool> {
    if a.is_nan() || b.is_nan() { return Ok(false); }
    if a.is_infinite() || b.is_infinite() { return Ok(a < b); }
    if (a - b).abs() <= 1e-7 * (a.abs() + b.abs()) + 1e-9 * scale { return Err(Tie); }
    Ok(a < b)
}
struct Search<'a> { f: &'a dyn Fn(&[f64]) -> (f64, Vec<f64>), seen: Vec<Vec<f64>> }
impl<'a> Search<'a> {
    fn at(&mut self, x: &[f64]) -> (f64, Vec<f64>) { self.seen.push(x.to_vec()); (self.f)(x) }
    fn go(&mut self, p: &Settings, start: &[f64], iters: usize, end: &mut Option<Vec<f64>>) -> T<()> {
        // a step that hardly moves the point may or may not reach a new one
        let step = |x: &[f64], s: &[f64], z: f64| -> T<Vec<f64>> {
            if z.abs() * dot(s, s).sqrt() < 1e-9 * (1e-3 + dot(x, x).sqrt()) { return Err(Tie); }
            Ok(x.iter().zip(s).map(|(x, s)| x + z * s).collect())
        };
        let neg = |g: &[f64]| -> Vec<f64> { g.iter().map(|v| -v).collect() };
        let mut x = start.to_vec();
        let (mut f1, mut g1) = self.at(&x);
        let (scale0, cost0) = (dot(&g1, &g1), f1.abs());
        let mut s = neg(&g1);
        let mut d1 = -dot(&s, &s);
        let mut z1 = 1.0 / (1.0 - d1);
        let mut failed = false;
        for i in 1..=iters {
            if !(dot(&s, &s) > 1e-8 * (scale0 + 1e-3)) || !(dot(&g1, &g1) > 1e-8 * (scale0 + 1e-3)) { return Err(Tie); }
            let (x0, f0) = (x.clone(), f1);
            x = step(&x, &s, z1)?;
            let (mut f2, mut g2) = self.at(&x);
            let mut d2 = dot(&g2, &s);
            let (mut f3, mut d3, mut z3) = (f1, d1, -z1);
            let mut m = p.max;
            let mut limit = None;
            let fs = f1.abs() + cost0 * 1e-3;
            let ds = d1.abs();
            let success = loop {
                // interpolate until the first condition and the lower slope bound hold
                loop {
                    let bad = below(f1 + z1 * p.rho * d1, f2, fs)? || below(-p.sig * d1, d2, ds)?;
                    if !bad || m == 0 { break; }
                    limit = Some(z1);
                    let mut z2 = if below(f1, f2, fs)? {
                        let q = d3 * z3 + f2 - f3;
                        if q.abs() < 1e-7 * fs { return Err(Tie); }
                        z3 - 0.5 * d3 * z3 * z3 / q
                    } else { self.cubic(f2, f3, d2, d3, z3, fs, true)? };
                    if !z2.is_finite() { z2 = z3 / 2.0; }
                    // between int and 1 - int of the bracket (z3 < 0 or > 0), by the published min and max
                    z2 = z2.min(p.int * z3).max((1.0 - p.int) * z3);
                    z1 += z2;
                    x = step(&x, &s, z2)?;
                    let e = self.at(&x);
                    f2 = e.0; g2 = e.1;
                    m -= 1;
                    d2 = dot(&g2, &s);
                    z3 -= z2;
                }
                if below(f1 + z1 * p.rho * d1, f2, fs)? || below(-p.sig * d1, d2, ds)? { break false; }
                if below(p.sig * d1, d2, ds)? { break true; }
                if m == 0 { break false; }
                // extrapolate
                let mut z2 = self.cubic(f2, f3, d2, d3, z3, fs, false)?;
                let reach = limit.map(|l| l - z1);
                if !z2.is_finite() || below(z2, 0.0, z1.abs())? {
                    z2 = reach.map_or(z1 * (p.ext - 1.0), |r| r / 2.0);
                } else if let Some(r) = reach {
                    if below(r, z2, z1.abs())? { z2 = r / 2.0; }
                    else if below(z2, -z3 * p.int, z1.abs())? { z2 = -z3 * p.int; }
                    else if below(z2, r * (1.0 - p.int), z1.abs())? { z2 = r * (1.0 - p.int); }
                } else if below(z1 * p.ext, z2 + z1, z1.abs())? { z2 = z1 * (p.ext - 1.0); }
                else if below(z2, -z3 * p.int, z1.abs())? { z2 = -z3 * p.int; }
                f3 = f2; d3 = d2; z3 = -z2;
                z1 += z2;
                x = step(&x, &s, z2)?;
                let e = self.at(&x);
                f2 = e.0; g2 = e.1;
                m -= 1;
                d2 = dot(&g2, &s);
            };
            if success {
                f1 = f2;
                // Polack-Ribiere
                let beta = (dot(&g2, &g2) - dot(&g1, &g2)) / dot(&g1, &g1);
                s = s.iter().zip(&g2).map(|(s, g)| beta * s - g).collect();
                g1 = g2;
                d2 = dot(&g1, &s);
                if below(0.0, d2, dot(&g1, &g1))? { s = neg(&g1); d2 = -dot(&s, &s); }
                z1 *= p.ratio.min(d1 / (d2 - f64::MIN_POSITIVE));
                d1 = d2;
                failed = false;
            } else {
                x = x0;
                f1 = f0;
                if failed || i > iters { break; }
                g1 = g2;
                s = neg(&g1);
                d1 = -dot(&s, &s);
                z1 = 1.0 / (1.0 - d1);
                failed = true;
            }
        }
        *end = Some(x);
        Ok(())
    }
    /// Minimum of the cubic fit for interpolation and for extrapolation.
    fn cubic(&self, f2: f64, f3: f64, d2: f64, d3: f64, z3: f64, fs: f64, inner: bool) -> T<f64> {
        if (f2 - f3).abs() < 1e-7 * fs { return Err(Tie); }
        let a = 6.0 * (f2 - f3) / z3 + 3.0 * (d2 + d3);
        let b = 3.0 * (f3 - f2) - z3 * (d3 + 2.0 * d2);
        let r = b * b - a * d2 * z3 * z3;
        if r.abs() < 1e-7 * b * b { return Err(Tie); }
        let r = r.sqrt();
        if inner {
            if a.abs() < 1e-6 * (d2.abs() + d3.abs()) || (r - b).abs() < 1e-6 * (b.abs() + r.abs()) { return Err(Tie); }
            return Ok((r - b) / a);
        }
        if (b + r).abs() < 1e-6 * (b.abs() + r.abs()) { return Err(Tie); }
        Ok(-d2 * z3 * z3 / (b + r))
    }
}
/// The points evaluated until the first tie, and the result if there is none.
pub fn points(p: &Settings, f: &dyn Fn(&[f64]) -> (f64, Vec<f64>), start: &[f64], iters: usize) -> (Vec<Vec<f64>>, Option<Vec<f64>>) {
    let mut s = Search { f, seen: vec![] };
    let mut end = None;
    let _ = s.go(p, start, iters, &mut end);
    (s.seen, end)
}
