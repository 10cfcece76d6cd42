//! Data transforms: C07 scaling, C08 standardising, C09 normalising, C10 shuffling.
use crate::util::*;
use mce::*;
use rusty_machine::data::transforms::{Invertible, MinMaxFitter, Normalizer, Shuffler, StandardizerFitter, TransformFitter, Transformer};
use rusty_machine::linalg::norm::{Euclidean, Lp};

const BAD: [f64; 3] = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY];

fn shapes(c: &Ch, lo: usize) -> (usize, usize) {
    let s = [(1, 1), (1, 2), (2, 1), (3, 1), (4, 1), (5, 1), (2, 2), (3, 2), (2, 3), (1, 3), (4, 2), (3, 3), (6, 1)];
    let v: Vec<_> = s.iter().cloned().filter(|x| x.0 >= lo).collect();
    c.of(&v)
}
fn alpha(c: &Ch, cells: usize) -> Vec<f64> {
    if cells <= 3 { vec![-2.0, 0.0, 0.5, 3.0, 1e6, -1e-3, 7.0, -250.0, 1e-6] }
    else if cells <= c.tier(4, 5) { vec![-2.0, 0.0, 0.5, 3.0, 1e6, -1e-3, 7.0] }
    else if cells <= 6 { vec![-2.0, 0.0, 0.5, 3.0, 100.0] }
    else if c.thorough() { vec![-2.0, 0.5, 3.0, 0.0] } else { vec![-2.0, 0.5, 3.0] }
}
/// Deterministic data for sizes beyond the exhaustive ones.
pub fn pattern(r: usize, k: usize, pat: usize) -> M {
    let mut d = Vec::new();
    for i in 0..r { for j in 0..k { d.push(match pat {
        0 => ((i * 7 + j * 3) % 11) as f64 - 4.0 + j as f64,
        1 => (i as f64 - r as f64 / 2.0) * (j as f64 + 1.0) * if j % 2 == 0 { 1.0 } else { -1.0 },
        _ => if i + 1 == r { 50.0 + j as f64 } else { ((i * i + j) % 5) as f64 * 0.25 },
    }); } }
    mat(r, k, d)
}
fn any_size(c: &Ch) -> M {
    let r = c.of(&[2usize, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33, 40, 63, 64, 65, 100, 128, 129, 200, 257]);
    let k = c.range(1, 9);
    pattern(r, k, c.pick(3))
}
/// Many rows or many columns.
fn any_vast(c: &Ch) -> M {
    let (r, k) = c.of(&[(1000usize, 3usize), (1025, 2), (5000, 2), (70000, 1), (2, 100), (5, 300), (3, 1025), (70, 33), (300, 40), (513, 17)]);
    pattern(r, k, c.pick(3))
}
/// Data of other magnitudes, also different ones per column or row, and far from zero.
fn any_scale(c: &Ch, rows_too: bool, scales: &[f64]) -> M {
    let r = c.of(&[2usize, 3, 5, 9]);
    let k = c.range(1, 3);
    let mut m = pattern(r, k, c.pick(3));
    let a = c.of(scales);
    let b = if k > 1 || rows_too { c.of(scales) } else { a };
    let by_row = rows_too && c.bool();
    let off = if rows_too { 0.0 } else { c.of(&[0.0, 1.0, -1e3, 1e6]) };
    for i in 0..r { for j in 0..k { let s = if (if by_row { i } else { j }) % 2 == 0 { a } else { b }; m[[i, j]] = (m[[i, j]] + off) * s; } }
    m
}
/// Columns far from zero compared with their spread, exactly representable, their mean too.
fn any_far(c: &Ch) -> M {
    let off = c.of(&[1e5, -1e7, 1e8, -1e9, 1e10, 1e12]);
    let unit = c.of(&[1.0, 0.25, 16.0]);
    let base: &[f64] = c.of(&[&[-1.0, 1.0][..], &[1.0, 0.0, -1.0], &[3.0, -5.0, 1.0, 1.0], &[-4.0, 2.0, 0.0, 2.0], &[7.0, -1.0, -1.0, -1.0, -4.0, 0.0, 0.0, 0.0]]);
    let k = c.range(1, 3);
    let at = c.pick(k);
    let mut m = pattern(base.len(), k, 0);
    for (i, x) in base.iter().enumerate() { m[[i, at]] = off + x * unit; }
    m
}
const SCALES: [f64; 9] = [1e-100, 1e-12, 1e-9, 1e-5, 1.0, 1e5, 1e9, 1e15, 1e100];
fn probe(cols: usize) -> Rows {
    [-5.0, 0.0, 0.25, 1.0, 10.0].iter().enumerate().map(|(i, x)| (0..cols).map(|j| x + (i * j) as f64).collect()).collect()
}
fn col(r: &Rows, j: usize) -> Vec<f64> { r.iter().map(|x| x[j]).collect() }

fn minmax_case(c: &Ch, m: M) -> R {
        let (lo, hi) = c.of(&[(0.0, 1.0), (-1.0, 1.0), (5.0, 7.5), (-3.0, -2.0), (0.0, 1e4)]);
        let (r, k) = (m.rows(), m.cols());
        let _ = r;
        let rows = to_rows(&m);
        c.note(format!("range ({}, {}) data {:?}", lo, hi, rows));
        c.op();
        let fit = if (lo, hi) == (0.0, 1.0) && c.bool() { MinMaxFitter::default().fit(&m) } else { MinMaxFitter::new(lo, hi).fit(&m) };
        let mms: Vec<(f64, f64)> = (0..k).map(|j| col(&rows, j).iter().fold((f64::MAX, f64::MIN), |a, &x| (a.0.min(x), a.1.max(x)))).collect();
        if mms.iter().any(|x| x.0 == x.1) {
            ensure!(fit.is_err(), "a constant column was accepted");
            ensure!(err_kind(&fit) == "InvalidData", "constant column: error kind {}", err_kind(&fit));
            c.outcome(&"rejected");
            return Ok(());
        }
        let mut s = fit.map_err(|e| format!("fit failed: {}", e))?;
        let want = |x: f64, j: usize| lo + (x - mms[j].0) / (mms[j].1 - mms[j].0) * (hi - lo);
        for (what, input) in [("fitted data", rows.clone()), ("other rows", probe(k)), ("fitted data again", rows.clone()), ("one row", probe(k)[1..2].to_vec()), ("no rows", vec![])] {
            let a = from_rows(&input, k);
            c.op();
            let t = s.transform(a.clone()).map_err(|e| format!("transform of {} failed: {}", what, e))?;
            shape_is(&t, input.len(), k, what)?;
            c.saw_f(t.data());
            for (i, row) in to_rows(&t).iter().enumerate() { for j in 0..k {
                let w = want(input[i][j], j);
                let tol = 1e-11 * (1.0 + w.abs() + lo.abs() + hi.abs()) + 1e-14 * (hi - lo).abs() * (mms[j].0.abs().max(mms[j].1.abs()) / (mms[j].1 - mms[j].0));
                ensure!((row[j] - w).abs() <= tol, "{}: value {} in column {} became {}, expected {}", what, input[i][j], j, row[j], w);
            } }
            c.op();
            let b = s.inv_transform(t).map_err(|e| format!("inverse of {} failed: {}", what, e))?;
            shape_is(&b, input.len(), k, what)?;
            for (n, (x, y)) in b.data().iter().zip(a.data()).enumerate() {
                let j = n % k;
                let big = y.abs().max(mms[j].0.abs()).max(mms[j].1.abs()) + (mms[j].1 - mms[j].0) * (1.0 + lo.abs() + hi.abs()) / (hi - lo);
                ensure!((x - y).abs() <= 1e-13 * big, "{}: inverse gives {} for {}", what, x, y);
            }
        }
        Ok(())
}

pub fn minmax() -> Property {
    let mut p = Property::new("C07");
    p.add("fitted", "every matrix of the listed shapes over a small alphabet x 5 target ranges: each column's minimum and maximum map to the range ends, everything else affinely, also rows not fitted on; inverse undoes it; constant columns rejected", |c| {
        let (r, k) = shapes(c, 1);
        let a = alpha(c, r * k);
        minmax_case(c, mat(r, k, c.vec_of(r * k, &a)))
    });
    p.add("sizes", "2..=257 rows x 1..=9 columns, three data patterns: the same", |c| minmax_case(c, any_size(c)));
    p.add("vast", "up to 70000 rows or 1025 columns, three data patterns: the same", |c| minmax_case(c, any_vast(c)));
    p.add("far", "a column up to 1e12 away from zero with a spread of a few units, all exactly representable, alone or beside ordinary columns: the same", |c| minmax_case(c, any_far(c)));
    p.add("scales", "2 to 9 rows x 1..=3 columns, three data patterns, 9 magnitudes from 1e-100 to 1e100 per column, also far from zero: the same", |c| minmax_case(c, any_scale(c, false, &SCALES)));
    p.add("rejects", "every position of one non-finite value in every small matrix; every wrong column count: an error, never a panic or a result", |c| {
        let (r, k) = shapes(c, 1);
        let mut data: Vec<f64> = (0..r * k).map(|i| (i * i) as f64).collect();
        let at = c.pick(r * k + 1);
        let bad = c.of(&BAD);
        if at < r * k { data[at] = bad; }
        let m = mat(r, k, data);
        c.note(format!("{}", show(&m)));
        c.op();
        let f = MinMaxFitter::new(0.0, 1.0).fit(&m);
        if at < r * k { ensure!(f.is_err() && err_kind(&f) == "InvalidData", "non-finite value at {}: {}", at, err_kind(&f)); return Ok(()); }
        if r == 1 { ensure!(f.is_err(), "a single row has constant columns and was accepted"); return Ok(()); }
        let mut s = f.map_err(|e| format!("fit failed: {}", e))?;
        for w in 1..=4usize {
            c.ops(2);
            let x = mat(2, w, vec![1.0; 2 * w]);
            let (t, i) = (s.transform(x.clone()), s.inv_transform(x));
            ensure!(t.is_ok() == (w == k) && i.is_ok() == (w == k), "{} columns fitted, {} given: transform {} inverse {}", k, w, err_kind(&t), err_kind(&i));
            if w != k { ensure!(err_kind(&t) == "InvalidData" && err_kind(&i) == "InvalidData", "wrong error kind {} {}", err_kind(&t), err_kind(&i)); }
        }
        Ok(())
    });
    p.add("two-alive", "two transformers fitted on different data, every sequence of 3 (thorough 4) uses of either, forwards or back, on 4 inputs: each follows its own data", |c| two_alive(c, &|m| MinMaxFitter::new(-1.0, 3.0).fit(m), &mm_map));
    p.add("single-precision", "2x2 and 3x1 f32 matrices over 5 values: range ends are hit, inverse undoes", |c| {
        let (r, k) = c.of(&[(2usize, 2usize), (3, 1)]);
        let d: Vec<f32> = c.vec_of(r * k, &[-2.0f32, 0.0, 0.5, 3.0, 64.0]);
        let m = Matrix::new(r, k, d.clone());
        c.op();
        let f = MinMaxFitter::new(-1.0f32, 3.0).fit(&m);
        let ranges: Vec<(f32, f32)> = (0..k).map(|j| (0..r).fold((f32::MAX, f32::MIN), |a, i| (a.0.min(d[i * k + j]), a.1.max(d[i * k + j])))).collect();
        if ranges.iter().any(|x| x.0 == x.1) { ensure!(f.is_err(), "constant column accepted"); return Ok(()); }
        let mut s = f.map_err(|e| format!("{}", e))?;
        let t = s.transform(m).map_err(|e| format!("{}", e))?;
        for i in 0..r { for j in 0..k {
            let w = -1.0 + (d[i * k + j] - ranges[j].0) / (ranges[j].1 - ranges[j].0) * 4.0;
            ensure!((t.data()[i * k + j] - w).abs() < 1e-4, "{:?} became {:?}", d, t.data());
        } }
        let b = s.inv_transform(t).map_err(|e| format!("{}", e))?;
        for (x, y) in b.data().iter().zip(&d) { ensure!((x - y).abs() < 1e-3, "inverse gives {} for {}", x, y); }
        Ok(())
    });
    p
}

/// Two fitted transformers alive at once, used in every order.
fn two_alive<T: Transformer<M> + Invertible<M>>(c: &Ch, fit: &dyn Fn(&M) -> Result<T, rusty_machine::learning::error::Error>, map: &dyn Fn(&Rows, usize, f64) -> f64) -> R {
    let k = c.range(1, 3);
    let (a, b) = (pattern(5, k, c.pick(3)), pattern(4, k, 1));
    let b = Matrix::new(4, k, b.data().iter().map(|x| x * 3.0 + 11.0).collect::<Vec<_>>());
    let (ra, rb) = (to_rows(&a), to_rows(&b));
    if (0..k).any(|j| col(&ra, j).iter().all(|x| *x == ra[0][j])) { return Ok(()); }
    let mut s = [fit(&a).map_err(|e| format!("fit failed: {}", e))?, fit(&b).map_err(|e| format!("fit failed: {}", e))?];
    let inputs = [from_rows(&probe(k), k), a.clone(), b.clone(), from_rows(&probe(k)[2..3].to_vec(), k)];
    let n = c.tier(3, 4);
    let mut done = vec![];
    for _ in 0..n {
        let (who, back, what) = (c.pick(2), c.bool(), c.pick(4));
        done.push((who, back, what));
        c.op();
        let x = &inputs[what];
        let r = if who == 0 { &ra } else { &rb };
        let t = if back { s[who].inv_transform(x.clone()) } else { s[who].transform(x.clone()) }.map_err(|e| format!("uses {:?}: {}", done, e))?;
        shape_is(&t, x.rows(), k, "result")?;
        c.saw_f(t.data());
        for (i, (y, x)) in t.data().iter().zip(x.data()).enumerate() {
            let j = i % k;
            // the inverse map from two points of the forward one
            let (w0, w1) = (map(r, j, 0.0), map(r, j, 1.0));
            let w = if back { (x - w0) / (w1 - w0) } else { w0 + x * (w1 - w0) };
            ensure!((y - w).abs() <= 1e-10 * (1.0 + w.abs()), "uses {:?} of two transformers: {} became {}, expected {}", done, x, y, w);
        }
    }
    Ok(())
}
fn mm_map(r: &Rows, j: usize, x: f64) -> f64 { let v = col(r, j); let (lo, hi) = v.iter().fold((f64::MAX, f64::MIN), |a, y| (a.0.min(*y), a.1.max(*y))); -1.0 + (x - lo) / (hi - lo) * 4.0 }
fn st_map(r: &Rows, j: usize, x: f64) -> f64 { let v = col(r, j); let n = v.len() as f64; let m = v.iter().sum::<f64>() / n; let s = (v.iter().map(|y| (y - m) * (y - m)).sum::<f64>() / (n - 1.0)).sqrt(); 5.0 + (x - m) / s * 2.0 }

fn standard_case(c: &Ch, m: M) -> R {
        let (mean, sd) = c.of(&[(0.0, 1.0), (5.0, 2.0), (-1.0, 0.25), (0.0, 100.0)]);
        let (r, k) = (m.rows(), m.cols());
        let rows = to_rows(&m);
        c.note(format!("target ({}, {}) data {:?}", mean, sd, rows));
        let st: Vec<(f64, f64)> = (0..k).map(|j| { let v = col(&rows, j); let mu = v.iter().sum::<f64>() / r as f64;
            (mu, (v.iter().map(|x| (x - mu) * (x - mu)).sum::<f64>() / (r - 1) as f64).sqrt()) }).collect();
        c.op();
        let fit = if (mean, sd) == (0.0, 1.0) && c.bool() { StandardizerFitter::default().fit(&m) } else { StandardizerFitter::new(mean, sd).fit(&m) };
        if st.iter().any(|x| x.1 == 0.0) { c.outcome(&"constant column"); return Ok(()); }
        let mut s = fit.map_err(|e| format!("fit failed: {}", e))?;
        for (what, input) in [("fitted data", rows.clone()), ("other rows", probe(k)), ("fitted data again", rows.clone()), ("one row", probe(k)[1..2].to_vec()), ("no rows", vec![])] {
            let a = from_rows(&input, k);
            c.op();
            let t = s.transform(a.clone()).map_err(|e| format!("transform of {} failed: {}", what, e))?;
            shape_is(&t, input.len(), k, what)?;
            c.saw_f(t.data());
            for (i, row) in to_rows(&t).iter().enumerate() { for j in 0..k {
                let w = mean + (input[i][j] - st[j].0) / st[j].1 * sd;
                let tol = 1e-10 * (1.0 + w.abs() + mean.abs()) + 1e-15 * (4 + r) as f64 * sd * st[j].0.abs() / st[j].1;
                ensure!((row[j] - w).abs() <= tol, "{}: value {} in column {} became {}, expected {}", what, input[i][j], j, row[j], w);
            } }
            c.op();
            let b = s.inv_transform(t).map_err(|e| format!("inverse of {} failed: {}", what, e))?;
            shape_is(&b, input.len(), k, what)?;
            for (n, (x, y)) in b.data().iter().zip(a.data()).enumerate() {
                let j = n % k;
                let big = y.abs().max(st[j].0.abs()) + st[j].1 * (1.0 + mean.abs() / sd);
                ensure!((x - y).abs() <= 1e-12 * big, "{}: inverse gives {} for {}", what, x, y);
            }
        }
        Ok(())
}

pub fn standard() -> Property {
    let mut p = Property::new("C08");
    p.assume("columns have positive variance: the statement does not cover constant columns");
    p.add("fitted", "every matrix of the listed shapes (>= 2 rows) over a small alphabet x 4 targets: the fitted data get the requested column means and sample standard deviations, other rows follow the same affine map, inverse undoes it", |c| {
        let (r, k) = shapes(c, 2);
        let a = alpha(c, r * k);
        standard_case(c, mat(r, k, c.vec_of(r * k, &a)))
    });
    p.add("sizes", "2..=257 rows x 1..=9 columns, three data patterns: the same", |c| standard_case(c, any_size(c)));
    p.add("vast", "up to 70000 rows or 1025 columns, three data patterns: the same", |c| standard_case(c, any_vast(c)));
    p.add("far", "a column up to 1e12 away from zero with a spread of a few units, all exactly representable, alone or beside ordinary columns: the same", |c| standard_case(c, any_far(c)));
    p.add("scales", "2 to 9 rows x 1..=3 columns, three data patterns, 9 magnitudes from 1e-100 to 1e100 per column, also far from zero: the same", |c| standard_case(c, any_scale(c, false, &SCALES)));
    p.add("rejects", "a single row, every position of one non-finite value, every wrong column count: an error, never a panic or a result", |c| {
        let (r, k) = shapes(c, 1);
        let mut data: Vec<f64> = (0..r * k).map(|i| (i * i) as f64).collect();
        let at = c.pick(r * k + 1);
        let bad = c.of(&BAD);
        if at < r * k { data[at] = bad; }
        let m = mat(r, k, data);
        c.note(format!("{}", show(&m)));
        c.op();
        let f = StandardizerFitter::new(0.0, 1.0).fit(&m);
        if at < r * k || r == 1 { ensure!(f.is_err() && err_kind(&f) == "InvalidData", "{}: {}", show(&m), err_kind(&f)); return Ok(()); }
        let mut s = f.map_err(|e| format!("fit failed: {}", e))?;
        for w in 1..=4usize {
            c.ops(2);
            let x = mat(2, w, vec![1.0; 2 * w]);
            let (t, i) = (s.transform(x.clone()), s.inv_transform(x));
            ensure!(t.is_ok() == (w == k) && i.is_ok() == (w == k), "{} columns fitted, {} given: transform {} inverse {}", k, w, err_kind(&t), err_kind(&i));
            if w != k { ensure!(err_kind(&t) == "InvalidData" && err_kind(&i) == "InvalidData", "wrong error kind {} {}", err_kind(&t), err_kind(&i)); }
        }
        Ok(())
    });
    p.add("two-alive", "two transformers fitted on different data, every sequence of 3 (thorough 4) uses of either, forwards or back, on 4 inputs: each follows its own data", |c| two_alive(c, &|m| StandardizerFitter::new(5.0, 2.0).fit(m), &st_map));
    p.add("single-precision", "2x2, 3x1, 4x1 f32 matrices over 5 values, patterned ones to 257 rows: requested means and deviations, inverse undoes", |c| {
        let (d, r, k): (Vec<f32>, usize, usize) = if c.bool() { let (r, k) = c.of(&[(2usize, 2usize), (3, 1), (4, 1)]); (c.vec_of(r * k, &[-2.0f32, 0.0, 0.5, 3.0, 64.0]), r, k) }
            else { let m = any_size(c); (m.data().iter().map(|x| *x as f32).collect(), m.rows(), m.cols()) };
        let m = Matrix::new(r, k, d.clone());
        let rows: Rows = (0..r).map(|i| (0..k).map(|j| d[i * k + j] as f64).collect()).collect();
        if (0..k).any(|j| col(&rows, j).iter().all(|x| *x == rows[0][j])) { return Ok(()); }
        c.ops(3);
        c.note(format!("{}x{} {:?}", r, k, d));
        let mut s = StandardizerFitter::new(5.0f32, 2.0).fit(&m).map_err(|e| format!("fit failed: {}", e))?;
        let t = s.transform(m).map_err(|e| format!("{}", e))?;
        for i in 0..r { for j in 0..k {
            let w = st_map(&rows, j, rows[i][j]);
            ensure!((t.data()[i * k + j] as f64 - w).abs() < 1e-4 * (1.0 + w.abs()), "{} in column {} became {}, expected {}", rows[i][j], j, t.data()[i * k + j], w);
        } }
        let b = s.inv_transform(t).map_err(|e| format!("{}", e))?;
        for (x, y) in b.data().iter().zip(&d) { ensure!((x - y).abs() < 1e-3 * (1.0 + y.abs()), "inverse gives {} for {}", x, y); }
        Ok(())
    });
    p
}

fn norm_case(c: &Ch, m: M) -> R {
        let which = c.pick(6);
        c.note(format!("norm {} {}", which, show(&m)));
        let norm = |v: &[f64]| -> f64 { match which {
            0 | 5 => v.iter().map(|x| x * x).sum::<f64>().sqrt(),
            1 => v.iter().map(|x| x.abs()).sum(),
            2 => v.iter().map(|x| x.abs().powi(3)).sum::<f64>().powf(1.0 / 3.0),
            3 => v.iter().map(|x| x.abs().powf(1.5)).sum::<f64>().powf(1.0 / 1.5),
            _ => v.iter().fold(0.0, |a, x| a.max(x.abs())),
        } };
        fn go<N>(c: &Ch, n: Normalizer<f64, N>, m: &M, norm: &dyn Fn(&[f64]) -> f64) -> R
            where N: for<'a> rusty_machine::linalg::norm::MatrixNorm<f64, rusty_machine::linalg::MatrixSlice<'a, f64>>
        {
            let mut n = n;
            c.ops(2);
            let t = n.transform(m.clone()).map_err(|e| format!("failed: {}", e))?;
            shape_is(&t, m.rows(), m.cols(), "result")?;
            c.saw_f(t.data());
            for (a, b) in to_rows(m).iter().zip(to_rows(&t)) {
                let d = norm(a);
                for (x, y) in a.iter().zip(&b) {
                    let w = if d == 0.0 { *x } else { x / d };
                    ensure!((w - y).abs() <= 1e-12 * w.abs() + 1e-300, "row {:?} became {:?}", a, b);
                }
            }
            let u = n.transform(t.clone()).map_err(|e| format!("second failed: {}", e))?;
            ensure!(close_all(u.data(), t.data(), 1e-12), "normalising twice gives {} after {}", show(&u), show(&t));
            Ok(())
        }
        match which {
            0 => go(c, Normalizer::new(Euclidean), &m, &norm),
            1 => go(c, Normalizer::new(Lp::Integer(1)), &m, &norm),
            2 => go(c, Normalizer::new(Lp::Integer(3)), &m, &norm),
            3 => go(c, Normalizer::new(Lp::Float(1.5)), &m, &norm),
            4 => go(c, Normalizer::new(Lp::Infinity), &m, &norm),
            _ => go(c, Normalizer::default(), &m, &norm),
        }
}

/// Neighbouring rows that agree in all but one or two cells.
fn near_rows(c: &Ch) -> M {
    let k = c.of(&[2usize, 3, 4, 7, 8, 9, 10, 12, 16, 17, 33]);
    let base: Vec<f64> = (0..k).map(|j| ((j * 5) % 7) as f64 - 2.5).collect();
    let a = c.pick(k);
    let b = c.pick(k);
    let by = c.of(&[1.0, -2.0, 100.0]);
    let mut rows = vec![base.clone(), base.clone(), base.clone(), base.clone()];
    rows[1][a] += by;
    rows[2][b] *= -1.0;
    if a != b { rows[3].swap(a, b); rows[3][a] *= 3.0; rows[1][b] -= by; }
    if c.bool() { rows.swap(0, 1); rows.push(base); }
    from_rows(&rows, k)
}

pub fn normal() -> Property {
    let mut p = Property::new("C09");
    p.add("rows", "every matrix of the listed shapes over a small alphabet x 6 norms: each row keeps its direction and gets norm 1, zero rows stay, rows do not influence each other, a second application changes nothing", |c| {
        let (r, k) = shapes(c, 1);
        let a = alpha(c, r * k);
        norm_case(c, mat(r, k, c.vec_of(r * k, &a)))
    });
    p.add("sizes", "2..=257 rows x 1..=9 columns, three data patterns: the same", |c| norm_case(c, any_size(c)));
    p.add("vast", "up to 70000 rows or 1025 columns, three data patterns: the same", |c| norm_case(c, any_vast(c)));
    p.add("near", "4 or 5 rows of 2..=33 columns, neighbours differing in every choice of one or two cells (same sums, same ends, same magnitudes among them): the same", |c| norm_case(c, near_rows(c)));
    p.add("scales", "2 to 9 rows x 1..=3 columns, three data patterns, 9 magnitudes from 1e-100 to 1e100 in each row or column: the same", |c| norm_case(c, any_scale(c, true, &SCALES)));
    p.add("single-precision", "f32 matrices of up to 4 rows over 5 values, patterned ones to 257x9, Euclidean and maximum norm: rows of norm 1, zero rows stay", |c| {
        let (d, r, k): (Vec<f32>, usize, usize) = if c.bool() { let (r, k) = c.of(&[(2usize, 2usize), (1, 3), (4, 1)]); (c.vec_of(r * k, &[-2.0f32, 0.0, 0.5, 3.0, 64.0]), r, k) }
            else { let m = any_size(c); (m.data().iter().map(|x| *x as f32).collect(), m.rows(), m.cols()) };
        let m = Matrix::new(r, k, d.clone());
        c.op();
        let max = c.bool();
        let t = if max { Normalizer::new(Lp::Infinity).transform(m) } else { Normalizer::new(Euclidean).transform(m) }.map_err(|e| format!("{}", e))?;
        for i in 0..r {
            let v = &d[i * k..(i + 1) * k];
            let n = if max { v.iter().fold(0.0f64, |a, x| a.max(x.abs() as f64)) } else { v.iter().map(|x| *x as f64 * *x as f64).sum::<f64>().sqrt() };
            for j in 0..k { let w = if n == 0.0 { 0.0 } else { v[j] as f64 / n }; ensure!((t.data()[i * k + j] as f64 - w).abs() <= 1e-5 * w.abs(), "row {:?} became {:?}", v, &t.data()[i * k..(i + 1) * k]); }
        }
        Ok(())
    });
    p.add("reused", "one normalizer, every sequence of 3 uses on 5 matrices of different shapes: each result is that of a fresh one", |c| {
        let ms = [pattern(3, 2, 0), pattern(3, 2, 1), pattern(1, 4, 0), pattern(9, 1, 2), mat(2, 2, vec![0.0, 0.0, 3.0, 4.0])];
        let mut n = Normalizer::new(Euclidean);
        for _ in 0..3 {
            let m = &ms[c.pick(5)];
            c.ops(2);
            let t = n.transform(m.clone()).map_err(|e| format!("{}", e))?;
            let u = Normalizer::new(Euclidean).transform(m.clone()).map_err(|e| format!("{}", e))?;
            ensure!(t.data() == u.data(), "{} becomes {} and {} by a fresh one", show(m), show(&t), show(&u));
            for (a, b) in to_rows(m).iter().zip(to_rows(&t)) { let d = dot(a, a).sqrt(); for (x, y) in a.iter().zip(&b) { ensure_close!(*y, if d == 0.0 { 0.0 } else { x / d }, 1e-12, "{} in {}", x, show(m)); } }
        }
        Ok(())
    });
    p.add("rejects", "every position of one non-finite value in small matrices: an error", |c| {
        let (r, k) = shapes(c, 1);
        let mut data: Vec<f64> = (0..r * k).map(|i| (i * i) as f64).collect();
        let at = c.pick(r * k);
        data[at] = c.of(&BAD);
        let m = mat(r, k, data);
        c.op();
        let t = Normalizer::<f64, Euclidean>::default().transform(m.clone());
        ensure!(t.is_err() && err_kind(&t) == "InvalidData", "{} gives {}", show(&m), err_kind(&t));
        Ok(())
    });
    p
}

pub fn shuffle() -> Property {
    let mut p = Property::new("C10");
    p.assume("uniform integer draws from rand 0.4 are uniform (the draw itself is the enumerated choice)");
    p.add("exhaustive", "n <= 5 (thorough 7) rows x 0..=3 columns, every random outcome: a permutation of whole rows, all n! reachable with equal exact probability", |c| {
        let n = c.range(0, c.tier(5, 7));
        let k = c.range(1, 3);
        let custom = c.bool();
        let m = mat(n, k, (0..n * k).map(|x| x as f64).collect());
        let rows = to_rows(&m);
        let d = c.distribution(|| {
            let r = if custom { Shuffler::new(rand::thread_rng()).transform(m.clone()) } else { Shuffler::default().transform(m.clone()) };
            r.map(|t| (t.rows(), t.cols(), to_rows(&t))).map_err(|e| format!("{}", e))
        });
        let exact = d.iter().all(|x| x.2);
        let mut w = std::collections::BTreeMap::new();
        for (r, pr, _) in d {
            let (rr, kk, t) = r?;
            ensure!(rr == n && kk == k, "shape {}x{} became {}x{}", n, k, rr, kk);
            let id: Vec<usize> = t.iter().filter_map(|x| rows.iter().position(|y| y == x)).collect();
            let mut s = id.clone();
            s.sort();
            ensure!(s == (0..n).collect::<Vec<_>>(), "{:?} became {:?}: not a permutation of its rows", rows, t);
            c.saw(&id);
            *w.entry(id).or_insert(0.0) += pr;
        }
        let f: f64 = (1..=n).map(|x| x as f64).product();
        if exact {
            ensure!(w.len() as f64 == f, "only {} of {} row orders are reachable", w.len(), f);
            for (o, pr) in &w { ensure!((pr - 1.0 / f).abs() < 1e-9, "order {:?} has probability {} instead of 1/{}", o, pr, f); }
        }
        Ok(())
    });
    p.add("larger", "8..=40 rows and sizes around 64, 128, 256, 512: at most one draw deviating from each of three default streams: a permutation of whole rows; no execution is more likely than 1/n!, n! divides the number of equally long executions, and if there are only n! they differ", |c| {
        let mut sizes: Vec<usize> = (8..=40).collect();
        sizes.extend([50, 63, 64, 65, 66, 80, 99, 100, 101, 127, 128, 129, 130, 150, 200, 255, 256, 257, 300, 511, 512, 513]);
        if c.thorough() { sizes.extend(41..=260); sizes.extend([1000, 1023, 1024, 1025]); sizes.sort(); sizes.dedup(); }
        let n = c.of(&sizes);
        let d = c.of(&[Default_::Zero, Default_::Max, Default_::Half]);
        let m = mat(n, 2, (0..n * 2).map(|x| x as f64).collect());
        let what = || format!("{} rows", n);
        let mut b = Bound::new(factorial(n));
        let mut seen = std::collections::HashSet::new();
        let mut twice = false;
        let (sb, ss, tw) = (&mut b, &mut seen, &mut twice);
        let edge = |i: usize, l: usize| l <= 41 || i < 2 || i + 2 >= l || i == l / 2 || (i + 1).is_power_of_two() || i.is_power_of_two();
        c.deviations_where(d, 1, |i, l, a, m| edge(i, l) && edge(a as usize, m as usize), || Shuffler::default().transform(m.clone()).map(|t| to_rows(&t)).map_err(|e| format!("{}", e)), |t, drawn, _| {
            let t = t?;
            let mut seen = vec![false; n];
            let mut ids = Vec::with_capacity(n);
            for r in &t {
                let i = r[0] as usize / 2;
                ensure!(r.len() == 2 && i < n && r[0] == (2 * i) as f64 && r[1] == r[0] + 1.0 && !seen[i], "{} rows: row {:?} is repeated or torn apart", n, r);
                seen[i] = true;
                ids.push(i);
            }
            ensure!(t.len() == n, "{} rows became {}", n, t.len());
            sb.see(&what, drawn)?;
            *tw |= !ss.insert(bound::hash(&ids));
            Ok(())
        })?;
        if b.end(&what)? { ensure!(!twice, "{} rows: two outcomes of the draws lead to the same order, so that another is missed", n); }
        c.saw(&n);
        Ok(())
    });
    p.add("vast", "up to 70000 rows or 300 columns, three default streams: a permutation of whole rows", |c| {
        let (n, k) = c.of(&[(1000usize, 1usize), (1024, 2), (1025, 3), (2049, 8), (4097, 1), (65536, 1), (65537, 2), (70000, 1), (40, 64), (130, 300)]);
        let d = c.of(&[Default_::Zero, Default_::Max, Default_::Half]);
        c.note(format!("{}x{} {:?}", n, k, d));
        let m = mat(n, k, (0..n * k).map(|x| x as f64).collect());
        c.ops(n as u64);
        c.deviations(d, 0, || Shuffler::default().transform(m.clone()).map_err(|e| format!("{}", e)), |t| {
            let t = t?;
            shape_is(&t, n, k, "result")?;
            let mut seen = vec![false; n];
            for r in t.data().chunks(k) {
                let i = r[0] as usize / k;
                ensure!(i < n && !seen[i] && (0..k).all(|j| r[j] == (i * k + j) as f64), "{} rows: row {:?}... is repeated or torn apart", n, &r[..k.min(4)]);
                seen[i] = true;
            }
            Ok(())
        })?;
        c.saw(&(n, k));
        Ok(())
    });
    p.add("own-generator", "a Shuffler made with a generator (seeds 0..40, thorough 2000), 0..=40 rows x 1..=3 columns of numbers or strings, two uses: rows permuted as by an equal Shuffler, the generator is asked and no other randomness is", |c| {
        use rand::{Rng, SeedableRng, XorShiftRng};
        struct Counted(XorShiftRng, std::rc::Rc<std::cell::Cell<u64>>);
        impl Rng for Counted { fn next_u32(&mut self) -> u32 { self.1.set(self.1.get() + 1); self.0.next_u32() } }
        let n = c.range(0, 40);
        let k = c.range(1, 3);
        let seed = c.pick(c.tier(40, 2000)) as u32;
        c.note(format!("{} rows, {} columns, seed {}", n, k, seed));
        let x = M::new(n, k, (0..n * k).map(|v| v as f64).collect::<Vec<_>>());
        let words = rulinalg::matrix::Matrix::new(n, k, (0..n * k).map(|v| format!("w{}", v)).collect::<Vec<_>>());
        let run = || -> Result<_, String> {
            let asked = std::rc::Rc::new(std::cell::Cell::new(0));
            let mut s = Shuffler::new(Counted(XorShiftRng::from_seed([seed, 7, 1, 99]), asked.clone()));
            let a = s.transform(x.clone()).map_err(|e| format!("{}", e))?.into_vec();
            let first = asked.get();
            let b = s.transform(words.clone()).map_err(|e| format!("{}", e))?.into_vec();
            Ok((a, b, first, asked.get()))
        };
        c.ops(4);
        let d = c.distribution(|| run());
        ensure!(d.len() == 1, "a Shuffler with its own generator draws from another one: {} outcomes", d.len());
        let (a, b, first, all) = d[0].0.clone()?;
        let again = run()?;
        ensure!(a == again.0 && b == again.1, "equal Shufflers with equal generators differ: {:?}, {:?} and {:?}, {:?}", a, b, again.0, again.1);
        if n > 1 { ensure!(first > 0 && all > first, "the generator was asked {} and {} times for {} rows", first, all - first, n); }
        let rows = |what: &str, ids: Vec<usize>| -> R {
            let mut seen = vec![false; n];
            ensure!(ids.len() == n * k, "{}: {} entries", what, ids.len());
            for r in ids.chunks(k) {
                ensure!(r[0] % k == 0 && r.iter().enumerate().all(|(j, v)| *v == r[0] + j) && !seen[r[0] / k], "{}: row {:?} is repeated or torn apart", what, r);
                seen[r[0] / k] = true;
            }
            Ok(())
        };
        rows("numbers", a.iter().map(|v| *v as usize).collect())?;
        rows("strings", b.iter().map(|v| v[1..].parse().unwrap()).collect())?;
        c.saw(&b);
        Ok(())
    });
    p.add("repeated", "one Shuffler used twice: the second use is again exactly uniform", |c| {
        let n1 = c.range(0, 3);
        let n2 = c.range(1, 4);
        let a = mat(n1, 1, (0..n1).map(|x| x as f64).collect());
        let b = mat(n2, 1, (0..n2).map(|x| x as f64).collect());
        let mut sh = Shuffler::default();
        sh.transform(a).map_err(|e| format!("{}", e))?;
        let d = c.distribution(|| sh.transform(b.clone()).map(|t| t.into_vec().iter().map(|x| *x as usize).collect::<Vec<_>>()).map_err(|e| format!("{}", e)));
        let exact = d.iter().all(|x| x.2);
        let mut w = std::collections::BTreeMap::new();
        for (r, pr, _) in d { *w.entry(r?).or_insert(0.0) += pr; }
        let f: f64 = (1..=n2).map(|x| x as f64).product();
        if exact { for (o, pr) in &w { ensure!((pr - 1.0 / f).abs() < 1e-9, "order {:?} has probability {} instead of 1/{}", o, pr, f); } }
        Ok(())
    });
    p
}
