//! C29 support vector machine.
use crate::util::*;
use mce::*;
use rusty_machine::learning::svm::SVM;
use rusty_machine::learning::toolkit::kernel::{Kernel, Linear, Polynomial, SquaredExp};
use rusty_machine::learning::SupModel;
use std::collections::BTreeMap;

/// Training rows carry an index, queries a weight per training row: the decision function of a
/// query is the weighted sum of the coefficients, so that predictions reveal their ratios.
#[derive(Clone)]
struct Table(Rows);
impl Kernel for Table {
    fn kernel(&self, a: &[f64], b: &[f64]) -> f64 {
        assert!(a[0] == 1.0 && b[0] == 1.0, "row without the leading one");
        match (a[1] < 0.0, b[1] < 0.0) {
            (false, false) => self.0[a[1] as usize][b[1] as usize],
            (true, false) => a[2 + b[1] as usize],
            (false, true) => b[2 + a[1] as usize],
            _ => panic!("kernel of two queries"),
        }
    }
}
/// Zero between training rows; weight of the row in a query otherwise.
struct Flat0;
impl Kernel for Flat0 {
    fn kernel(&self, a: &[f64], b: &[f64]) -> f64 { match (a[1] < 0.0, b[1] < 0.0) { (false, false) => 0.0, (true, false) => a[2 + b[1] as usize], (false, true) => b[2 + a[1] as usize], _ => panic!("kernel of two queries") } }
}
fn id_rows(n: usize, w: usize) -> M { mat(n, 2 + w - 1, (0..n).flat_map(|i| { let mut r = vec![0.0; w + 1]; r[0] = i as f64; r }).collect()) }
const RATIO: [f64; 9] = [0.01, 0.227, 0.29, 0.41, 0.58, 0.71, 0.83, 0.94, 30.0];
/// Coefficients after the Pegasos steps for a sequence of rows.
fn pegasos(k: &Rows, y: &[f64], lambda: f64, seq: &[usize]) -> Vec<f64> {
    let n = y.len();
    let mut a = vec![0.0; n];
    for (t, &i) in seq.iter().enumerate() {
        let s: f64 = (0..n).map(|j| a[j] * y[j] * k[i][j]).sum();
        if y[i] * s / (lambda * (t + 1) as f64) < 1.0 { a[i] += 1.0; }
    }
    a
}
/// (query rows, decision per query given coefficients)
fn queries(y: &[f64]) -> Vec<Vec<f64>> {
    let n = y.len();
    let mut q = vec![y.to_vec(), y.iter().map(|v| -v).collect()];
    for j in 0..n { for k in 0..n { if j != k { for r in RATIO { let mut w = vec![0.0; n]; w[j] = y[j]; w[k] = -r * y[k]; q.push(w); } } } }
    q
}
fn sequences(n: usize, t: usize) -> Vec<Vec<usize>> { let mut s: Vec<Vec<usize>> = vec![vec![]]; for _ in 0..t { s = s.into_iter().flat_map(|p| (0..n).map(move |i| { let mut p = p.clone(); p.push(i); p })).collect(); } s }
fn signs(f: &[f64]) -> Vec<i8> { f.iter().map(|x| if x.abs() < 1e-9 { 0 } else if *x > 0.0 { 1 } else { -1 }).collect() }
/// Compares the distribution of the predictions with that over all row sequences; With `clear`, data for which a decision is zero are skipped.
fn compare(c: &Ch, clear: bool, n: usize, t: usize, reference: &dyn Fn(&[usize]) -> Vec<f64>, run: &dyn Fn() -> Result<Vec<f64>, String>) -> R {
    let seqs = sequences(n, t);
    let p = 1.0 / seqs.len() as f64;
    let mut classes: BTreeMap<Vec<i8>, (f64, f64, Vec<usize>)> = BTreeMap::new();
    for s in seqs { let g = signs(&reference(&s)); if clear && g.contains(&0) { return Ok(()); } let e = classes.entry(g).or_insert((0.0, 0.0, s.clone())); e.0 += p; }
    let fits = |sig: &[i8], out: &[f64]| sig.len() == out.len() && sig.iter().zip(out).all(|(s, o)| *s == 0 || *o == *s as f64);
    for (r, pr, _) in c.distribution(|| run()) {
        let out = r?;
        c.saw_f(&out);
        ensure!(out.iter().all(|x| *x == 1.0 || *x == -1.0), "predictions {:?} are no classes", out);
        let hit: Vec<Vec<i8>> = classes.keys().filter(|s| fits(s, &out)).cloned().collect();
        ensure!(!hit.is_empty(), "predictions {:?} belong to no sequence of {} Pegasos steps", out, t);
        let m: f64 = hit.iter().map(|h| classes[h].0).sum();
        for h in hit { let e = classes.get_mut(&h).unwrap(); e.1 += pr * e.0 / m; }
    }
    for (a, b, s) in classes.values() { ensure!((a - b).abs() < 1e-6, "the outcome of the row sequence {:?} has probability {} instead of {}", s, b, a); }
    c.ops(t as u64);
    Ok(())
}
fn decision(k: &Rows, a: &[f64], y: &[f64], lambda: f64) -> Vec<f64> { k.iter().map(|r| (0..a.len()).map(|j| a[j] * y[j] * r[j]).sum::<f64>() / lambda).collect() }
fn with_one(r: &[f64]) -> Vec<f64> { let mut v = vec![1.0]; v.extend(r); v }
fn kernel(i: usize) -> Box<dyn Kernel> { match i { 0 => Box::new(Linear::default()), 1 => Box::new(SquaredExp::default()), 2 => Box::new(Polynomial::new(1.0, 1.0, 2.0)), _ => Box::new(SquaredExp::new(0.5, 2.0)) } }
/// Predictions, which must not depend on which queries are asked together.
fn ask<K: Kernel>(m: &SVM<K>, q: &M, n: usize) -> Result<Vec<f64>, String> {
    let all = m.predict(q).map_err(|e| format!("{}", e))?.into_vec();
    for w in [n, 1, n + 1] { for at in [0, q.rows().saturating_sub(w) / 2, q.rows().saturating_sub(w)] {
        let id: Vec<usize> = (at..(at + w).min(q.rows())).collect();
        if id.is_empty() { continue; }
        let p = m.predict(&q.select_rows(&id)).map_err(|e| format!("{}", e))?.into_vec();
        ensure!(p[..] == all[at..at + id.len()], "queries {:?} on their own give {:?}, with the others {:?}", id, p, &all[at..at + id.len()]);
    } }
    Ok(all)
}
struct Dyn(Box<dyn Kernel>);
impl Kernel for Dyn { fn kernel(&self, a: &[f64], b: &[f64]) -> f64 { self.0.kernel(a, b) } }
fn gram(k: &dyn Kernel, a: &Rows, b: &Rows) -> Rows { a.iter().map(|x| b.iter().map(|y| k.kernel(&with_one(x), &with_one(y))).collect()).collect() }

pub fn svm() -> Property {
    let mut p = Property::new("C29");
    p.assume("targets are 1 and -1, at least one row and one iteration");
    p.add("steps", "every symmetric 1x1 and 2x2 kernel matrix over 4 values and 3x3 over 2 (thorough 3), every labelling, 3 lambdas, 1..=5 (7) iterations (3x3: 4, 5), every row sequence: predictions (which reveal the ratio of each pair of coefficients) are exactly distributed as after Pegasos steps", |c| {
        let n = c.range(1, 3);
        let vals: &[f64] = if n < 3 { &[1.0, 0.0, -2.0, 3.0] } else { c.tier(&[1.0, -2.0][..], &[1.0, -2.0, 0.5][..]) };
        let lambda = c.of(&[0.5, 1.0, 4.0]);
        let t = c.range(1, if n < 3 { c.tier(5, 7) } else { c.tier(4, 5) });
        let mut k = vec![vec![0.0; n]; n];
        for i in 0..n { for j in i..n { let v = c.of(vals); k[i][j] = v; k[j][i] = v; } }
        let y = c.vec_of(n, &[1.0, -1.0]);
        c.note(format!("kernel {:?} targets {:?} lambda {} iterations {}", k, y, lambda, t));
        let q = queries(&y);
        let x = id_rows(n, n);
        let qm = mat(q.len(), n + 1, q.iter().flat_map(|w| { let mut r = vec![-1.0]; r.extend(w); r }).collect());
        compare(c, false, n, t, &|s| decision(&q, &pegasos(&k, &y, lambda, s), &y, lambda), &|| {
            let mut m = SVM::new(Table(k.clone()), lambda);
            m.optim_iters = t;
            m.train(&x, &Vector::new(y.clone())).map_err(|e| format!("{}", e))?;
            ask(&m, &qm, n)
        })
    });
    p.add("kernels", "4 built-in kernels, every sequence of 1..=3 points out of 3 on a line or in the plane, every labelling, 3 lambdas, 1..=3 iterations, 7 queries: predictions as after Pegasos steps on the rows with a leading one", |c| {
        let ki = c.pick(4);
        let d = c.range(1, 2);
        let n = c.range(1, 3);
        let pts: [[f64; 2]; 3] = [[0.0, 0.5], [1.0, -1.0], [-2.0, 3.0]];
        let x: Rows = (0..n).map(|_| c.of(&pts)[..d].to_vec()).collect();
        let y = c.vec_of(n, &[1.0, -1.0]);
        let lambda = c.of(&[0.3, 1.0, 5.0]);
        let t = c.range(1, 3);
        let q: Rows = [[0.0, 0.5], [1.0, -1.0], [-2.0, 3.0], [0.3, 0.1], [-0.7, 0.2], [4.1, -3.3], [-9.0, 2.0]].iter().map(|r| r[..d].to_vec()).collect();
        c.note(format!("kernel {} x {:?} y {:?} lambda {} iterations {}", ki, x, y, lambda, t));
        let k = kernel(ki);
        let (g, gq) = (gram(&*k, &x, &x), gram(&*k, &q, &x));
        // a decision within rounding of the margin may go either way
        for s in sequences(n, t) { for l in 0..t { let a = pegasos(&g, &y, lambda, &s[..l]); let i = s[l]; let v = y[i] * (0..n).map(|j| a[j] * y[j] * g[i][j]).sum::<f64>() / (lambda * (l + 1) as f64); if (v - 1.0).abs() < 1e-9 { return Ok(()); } } }
        compare(c, true, n, t, &|s| decision(&gq, &pegasos(&g, &y, lambda, s), &y, lambda), &|| {
            let mut m = SVM::new(Dyn(kernel(ki)), lambda);
            m.optim_iters = t;
            m.train(&from_rows(&x, d), &Vector::new(y.clone())).map_err(|e| format!("{}", e))?;
            ask(&m, &from_rows(&q, d), n)
        })
    });
    p.add("default", "the default machine has the squared exponential kernel, lambda 0.3 and 100 iterations; with its kernel and 1..=4 iterations on 5 data sets it predicts as after Pegasos steps", |c| {
        let t = c.range(1, 4);
        let (x, y) = c.of(&[(vec![-2.0, -1.0, 1.0, 2.0], vec![-1.0, -1.0, 1.0, 1.0]), (vec![0.0, 1.0], vec![1.0, -1.0]), (vec![0.0, 0.0], vec![1.0, -1.0]), (vec![0.0, 3.0, 0.5], vec![1.0, -1.0, 1.0]), (vec![5.0], vec![-1.0])]);
        let n = y.len();
        let x: Rows = x.into_iter().map(|v| vec![v]).collect();
        let q: Rows = [-3.0, -1.3, 0.1, 0.6, 1.7, 5.0].iter().map(|v| vec![*v]).collect();
        c.note(format!("x {:?} y {:?} iterations {}", x, y, t));
        ensure!(SVM::default().optim_iters == 100 && SVM::new(Linear::default(), 0.1).optim_iters == 100, "default number of iterations");
        let k = SquaredExp::default();
        let (g, gq) = (gram(&k, &x, &x), gram(&k, &q, &x));
        compare(c, true, n, t, &|s| decision(&gq, &pegasos(&g, &y, 0.3, s), &y, 0.3), &|| {
            let mut m = SVM::default();
            m.optim_iters = t;
            m.train(&from_rows(&x, 1), &Vector::new(y.clone())).map_err(|e| format!("{}", e))?;
            ask(&m, &from_rows(&q, 1), n)
        })
    });
    p.add("histories", "every history of up to 4 (thorough 5) operations out of: train on 3 data sets of different size and width, train with 0, one less or one more target, predict with 1, 2, 3 columns: a prediction belongs to the last successful training, rejected calls are errors and change nothing", |c| {
        let len = c.range(1, c.tier(4, 5));
        let ops: Vec<usize> = (0..len).map(|_| c.pick(9)).collect();
        c.note(format!("{:?}", ops));
        c.ops(len as u64);
        let sets: [(Rows, Vec<f64>); 3] = [(vec![vec![1.0]], vec![1.0]), (vec![vec![-2.0], vec![-2.0]], vec![-1.0, -1.0]), (vec![vec![2.0, 1.0]], vec![-1.0])];
        let mut m = SVM::new(Linear::default(), 0.5);
        let mut now: Option<usize> = None;
        let mut res = Ok(());
        // one class per data set, so that every row sequence gives the same predictions
        c.deviations(Default_::Zero, 0, || -> R {
            for op in &ops {
                match *op {
                    0..=2 => { let (x, y) = &sets[*op]; m.train(&from_rows(x, x[0].len()), &Vector::new(y.clone())).map_err(|e| format!("{}", e))?; now = Some(*op); }
                    3..=5 => { let (x, y) = &sets[1]; let mut y = y.clone(); match op { 3 => y.clear(), 4 => { y.pop(); } _ => y.push(1.0) } ensure!(m.train(&from_rows(x, 1), &Vector::new(y.clone())).is_err(), "training with {} targets for 2 rows", y.len()); }
                    w => {
                        let d = w - 5;
                        let q: Rows = [3.0, -4.0, 0.25].iter().map(|v| { let mut r = vec![*v]; r.resize(d, 1.0); r }).collect();
                        let r = m.predict(&from_rows(&q, d));
                        match now {
                            Some(s) if sets[s].0[0].len() == d => {
                                let got = r.map_err(|e| format!("{}", e))?.into_vec();
                                let want: Vec<f64> = q.iter().map(|q| (sets[s].1[0] * dot(&with_one(q), &with_one(&sets[s].0[0]))).signum()).collect();
                                ensure!(got == want, "predictions {:?} after training on set {}, expected {:?}", got, s, want);
                            }
                            _ => ensure!(r.is_err(), "predictions {:?} for {} columns after training on {:?}", r, d, now),
                        }
                    }
                }
            }
            Ok(())
        }, |r| { res = r; Ok(()) })?;
        res
    });
    p.add("totals", "kernel matrices whose entries are all 0 (any labels) or all 1 or 3 (one class), 1..=64 (thorough 1000) rows, 1..=66000 (thorough 140000) iterations, 4 lambdas, two default streams: however the rows are drawn, the coefficients read off by threshold queries are whole numbers whose total is that of the stated number of Pegasos steps", |c| {
        let (n, t) = c.of(c.tier(&[(1usize, 1usize), (1, 100), (2, 3), (2, 64), (5, 17), (7, 100), (33, 40), (64, 257), (2, 701), (1, 2500), (3, 5003), (1, 66000)][..], &[(1, 1), (1, 100), (1, 1000), (2, 3), (2, 64), (5, 17), (5, 300), (7, 100), (33, 40), (64, 257), (64, 1000), (130, 500), (2, 701), (3, 2001), (1, 2500), (3, 5003), (1, 66000), (2, 140000), (1000, 2000)]));
        let kappa = c.of(&[0.0, 1.0, 3.0]);
        let lambda = c.of(&[1.0037e-3, 0.0973, 1.0, 20.0]);
        let y: Vec<f64> = (0..n).map(|i| if kappa == 0.0 && i % 3 == 1 { -1.0 } else { 1.0 }).collect();
        let y: Vec<f64> = if c.bool() { y.iter().map(|v| -v).collect() } else { y };
        // number of coefficients counted up, whatever the rows
        let mut s = 0usize;
        for k in 0..t { let v = kappa * s as f64 / (lambda * (k + 1) as f64); if (v - 1.0).abs() < 1e-9 { return Ok(()); } if v < 1.0 { s += 1; } }
        c.note(format!("{} rows {} iterations kernel {} lambda {} total {}", n, t, kappa, lambda, s));
        struct Flat(f64);
        // rows: leading one, index or -1, kind and threshold of a query
        impl Kernel for Flat {
            fn kernel(&self, a: &[f64], b: &[f64]) -> f64 {
                let one = |q: &[f64], r: &[f64]| (if q[2] == r[1] { r[2] } else { 0.0 }) - q[3] * r[2];
                match (a[1] < 0.0, b[1] < 0.0) { (false, false) => self.0, (true, false) => one(a, b), (false, true) => one(b, a), _ => panic!("kernel of two queries") }
            }
        }
        let x = mat(n, 3, (0..n).flat_map(|i| vec![i as f64, y[i], 0.0]).collect());
        let mut q = vec![];
        for i in 0..n { for k in 0..=s { for e in [-0.01, 0.01] { q.extend(&[-1.0, i as f64, (k as f64 + e) / s as f64]); } } }
        let qm = mat(q.len() / 3, 3, q);
        let mut res = Ok(());
        let def = c.of(&[Default_::Cycle, Default_::Max]);
        c.ops(t as u64);
        c.deviations(def, 0, || -> R {
            let mut m = SVM::new(Flat(kappa), lambda);
            m.optim_iters = t;
            m.train(&x, &Vector::new(y.clone())).map_err(|e| format!("{}", e))?;
            let p = m.predict(&qm).map_err(|e| format!("{}", e))?.into_vec();
            let mut total = 0;
            for i in 0..n {
                let r = &p[i * 2 * (s + 1)..(i + 1) * 2 * (s + 1)];
                // the share of row i lies within a hundredth of a whole number of steps
                let at: Vec<usize> = (0..=s).filter(|k| r[2 * k] == 1.0 && r[2 * k + 1] == -1.0).collect();
                ensure!(at.len() == 1, "the coefficient of row {} is no whole share of {} steps (answers {:?})", i, s, &r[..r.len().min(20)]);
                total += at[0];
            }
            ensure!(total == s, "the coefficients make up {} steps instead of {}", total, s);
            Ok(())
        }, |r| { res = r; Ok(()) })?;
        res
    });
    p.add("long", "2..=6 rows, 3 patterned kernel matrices and the constant one, 3 labellings, 4 lambdas, every number of iterations around 11 stations to 600 (thorough 2500), two default streams: the rows drawn are read off runs in which each step counts; then the shares of the coefficients are those of the Pegasos steps on these rows", |c| {
        let n = c.of(&[2usize, 3, 6]);
        let def = c.of(&[Default_::Cycle, Default_::Half]);
        let top = c.tier(600, 2500);
        let stops: Vec<usize> = [1usize, 5, 30, 64, 65, 130, 200, 260, 300, 513, 600, 1025, 1600, 2500].iter().cloned().filter(|t| *t <= top).collect();
        let run = |k: Rows, y: &[f64], lambda: f64, t: usize, q: &Rows| -> Result<Vec<f64>, String> {
            restart_random();
            let mut m = SVM::new(Table(k), lambda);
            m.optim_iters = t;
            m.train(&id_rows(n, n), &Vector::new(y.to_vec())).map_err(|e| format!("{}", e))?;
            let qm = mat(q.len(), n + 1, q.iter().flat_map(|w| { let mut r = vec![-1.0]; r.extend(w); r }).collect());
            Ok(m.predict(&qm).map_err(|e| format!("{}", e))?.into_vec())
        };
        // is the share of row i larger than f?
        let share = |y: &[f64], i: usize, f: f64| -> Vec<f64> { (0..n).map(|j| y[j] * (if i == j { 1.0 } else { 0.0 } - f)).collect() };
        let mut res = Ok(());
        let total = std::cell::Cell::new(0u64);
        c.deviations(def, 0, || -> R {
            // kernel zero: each step counts
            let y = vec![1.0; n];
            let mut cnt = vec![0usize; n];
            let mut seq = vec![];
            for t in 1..=top {
                let q: Rows = (0..n).map(|i| share(&y, i, (cnt[i] as f64 + 0.5) / t as f64)).collect();
                let up: Vec<usize> = run(vec![vec![0.0; n]; n], &y, 1.0, t, &q)?.iter().enumerate().filter(|x| *x.1 == 1.0).map(|x| x.0).collect();
                // (rows drawn in another order for another number of iterations cannot be read off)
                if up.len() != 1 { return Ok(()); }
                cnt[up[0]] += 1;
                seq.push(up[0]);
            }
            for kind in 0..4 { for lab in 0..3 { for &lambda in &[1.0037e-3, 0.0113, 0.31, 5.0] {
                let k: Rows = (0..n).map(|i| (0..n).map(|j| { let (a, b) = (i.min(j), i.max(j)); match kind { 0 => 1.0, 1 => if a == b { 1.0 + a as f64 * 0.7 } else { 0.05 }, 2 => if a == b { 2.0 } else { -0.31 }, _ => ((a * 5 + b * 3) % 7) as f64 * 0.37 - 0.4 } }).collect()).collect();
                let y: Vec<f64> = (0..n).map(|i| match lab { 0 => 1.0, 1 => if i % 2 == 0 { -1.0 } else { 1.0 }, _ => if i == 0 { 1.0 } else { -1.0 } }).collect();
                // within rounding of the margin a step may go either way
                let mut a = vec![0.0; n];
                for (t, &i) in seq.iter().enumerate() {
                    let v = y[i] * (0..n).map(|j| a[j] * y[j] * k[i][j]).sum::<f64>() / (lambda * (t + 1) as f64);
                    if (v - 1.0).abs() < 1e-9 { break; }
                    if v < 1.0 { a[i] += 1.0; }
                    if !stops.contains(&(t + 1)) { continue; }
                    let s: f64 = a.iter().sum();
                    let q: Rows = (0..n).flat_map(|i| vec![(i, -0.3), (i, 0.3)]).map(|(i, e)| share(&y, i, (a[i] + e) / s)).collect();
                    let got = run(k.clone(), &y, lambda, t + 1, &q)?;
                    total.set(total.get() + t as u64);
                    for i in 0..n { ensure!(got[2 * i] == 1.0 && got[2 * i + 1] == -1.0, "after {} iterations on rows {:?} (kernel {:?}, targets {:?}, lambda {}) the share of coefficient {} is not {} of {}", t + 1, seq, k, y, lambda, i, a[i], s); }
                }
            } } }
            Ok(())
        }, |r| { res = r; Ok(()) })?;
        c.ops(total.get());
        res
    });
    p.add("rows", "17..=600 rows, four default streams, one and a half iterations per row: under one of them at least, one of every 16 neighbouring rows is chosen", |c| {
        let n = c.of(&[17usize, 40, 100, 130, 201, 260, 400, 600]);
        let blocks: Vec<(usize, usize)> = (0..=(n - 16) / 8).map(|b| (8 * b, 8 * b + 16)).chain([(n - 16, n)]).collect();
        let q = mat(blocks.len(), n + 1, blocks.iter().flat_map(|b| { let mut r = vec![-1e-6; n + 1]; r[0] = -1.0; for i in b.0..b.1 { r[1 + i] = 1.0; } r }).collect());
let mut hit = vec![false; blocks.len()];
        c.note(format!("{} rows", n));
        for def in [Default_::Zero, Default_::Half, Default_::Max, Default_::Cycle] {
            c.ops(n as u64);
            c.deviations(def, 0, || -> Result<Vec<f64>, String> {
                let mut m = SVM::new(Flat0, 1.0);
                m.optim_iters = n + n / 2;
                m.train(&id_rows(n, n), &Vector::new(vec![1.0; n])).map_err(|e| format!("{}", e))?;
                Ok(m.predict(&q).map_err(|e| format!("{}", e))?.into_vec())
            }, |r| {
                for (h, v) in hit.iter_mut().zip(&r?) { if *v > 0.0 { *h = true; } }
                Ok(())
            })?;
        }
        for (h, b) in hit.iter().zip(&blocks) { ensure!(*h, "none of the rows {} to {} of {} is ever chosen", b.0, b.1 - 1, n); }
        Ok(())
    });
    p.add("sizes", "one-class and well separated two-class data of 2..=25 rows in 1..=4 dimensions, 200 iterations, three default row orders: the rows are classified as labelled", |c| {
        let n = c.range(2, 25);
        let d = c.range(1, 4);
        let two = c.bool();
        let y: Vec<f64> = (0..n).map(|i| if two && i % 2 == 1 { -1.0 } else { 1.0 }).collect();
        let x: Rows = (0..n).map(|i| (0..d).map(|j| y[i] * (2.0 + ((i * 3 + j) % 4) as f64 * 0.25)).collect()).collect();
        let def = c.of(&[Default_::Zero, Default_::Max, Default_::Half]);
        c.note(format!("{} rows {} columns two classes {} {:?}", n, d, two, def));
        let mut res = Ok(());
        c.deviations(def, 0, || -> R {
            let mut m = SVM::new(Linear::default(), 0.1);
            m.optim_iters = 200;
            m.train(&from_rows(&x, d), &Vector::new(y.clone())).map_err(|e| format!("{}", e))?;
            let got = m.predict(&from_rows(&x, d)).map_err(|e| format!("{}", e))?.into_vec();
            // every support vector of this data separates it
            ensure!(got == y, "predictions {:?} for targets {:?}", got, y);
            Ok(())
        }, |r| { res = r; Ok(()) })?;
        c.op();
        res
    });
    p
}
