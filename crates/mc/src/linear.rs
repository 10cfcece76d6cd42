//! Linear models: C21 linear regression, C22 logistic regression, C23 generalised linear models.
use crate::util::*;
use mce::*;
use rusty_machine::learning::glm::{Bernoulli, Criterion, GenLinearModel, Identity, LinkFunc, Log, Logit, Normal, Poisson};
use rusty_machine::learning::lin_reg::LinRegressor;
use rusty_machine::learning::logistic_reg::{BaseLogisticRegressor, LogisticRegressor};
use rusty_machine::learning::optim::grad_desc::GradientDesc;
use rusty_machine::learning::optim::{OptimAlgorithm, Optimizable};
use rusty_machine::learning::SupModel;
use std::cell::RefCell;
use std::rc::Rc;

pub fn with_ones(x: &Rows) -> Rows { x.iter().map(|r| { let mut v = vec![1.0]; v.extend(r); v }).collect() }
pub fn vector(x: &[f64]) -> Vector<f64> { Vector::new(x.to_vec()) }
fn normal_eq(x: &Rows, w: &[f64], z: &[f64]) -> (Rows, Vec<f64>) {
    let k = x[0].len();
    ((0..k).map(|i| (0..k).map(|j| (0..x.len()).map(|r| w[r] * x[r][i] * x[r][j]).sum()).collect()).collect(),
     (0..k).map(|i| (0..x.len()).map(|r| w[r] * x[r][i] * z[r]).sum()).collect())
}
/// Weighted least squares, unless nearly singular.
fn wls(x: &Rows, w: &[f64], z: &[f64]) -> Option<Vec<f64>> {
    let (a, b) = normal_eq(x, w, z);
    let (ev, _) = eigen(&a);
    if ev[ev.len() - 1] < 1e-7 * ev[0] { return None; }
    solve(&a, &b)
}
fn probes(k: usize) -> Rows { vec![vec![0.0; k], (0..k).map(|j| 1.5 - j as f64).collect(), (0..k).map(|j| -7.0 + 3.0 * j as f64).collect()] }
fn xs(c: &Ch, n: usize, k: usize) -> Rows {
    let a: &[f64] = if k == 1 { if n <= 4 { &[0.0, 1.0, -2.0, 3.5, 0.25, 10.0] } else { &[0.0, 1.0, -2.0, 3.5] } } else if n * k <= 4 { &[0.0, 1.0, -2.0, 3.5] } else { &[0.0, 1.0, -2.0] };
    (0..n).map(|_| c.vec_of(k, a)).collect()
}
/// Data without the regularities of `pat`, for many columns.
pub fn mixed(n: usize, k: usize, u: f64) -> Rows { (0..n).map(|i| (0..k).map(|j| { let h = ((i * 1009 + j) as u64 + 1).wrapping_mul(0x9E3779B97F4A7C15); ((h ^ h >> 29) >> 17) % 17 }).map(|v| v as f64 * u - 8.0 * u).collect()).collect() }
pub fn pat(n: usize, k: usize) -> Rows { (0..n).map(|i| (0..k).map(|j| ((i * (5 + 2 * j) + j * j + i * i / 3) % 17) as f64 * 0.5 - 3.0 - j as f64).collect()).collect() }

// --------------------------------------------------------------------- C21
fn check_lin(c: &Ch, m: &LinRegressor, x: &Rows, y: &[f64], tol: f64) -> R {
    let k = x[0].len();
    let f = with_ones(x);
    let b = m.parameters().ok_or("no parameters after training")?.data().to_vec();
    ensure!(b.len() == k + 1, "{} parameters for {} features", b.len(), k);
    c.saw_f(&b);
    let want = match wls(&f, &vec![1.0; x.len()], y) { Some(w) => w, None => return Ok(()) };
    ensure!(close_all(&want, &b, tol), "parameters {:?}, expected {:?}", b, want);
    predict_lin(m, &b, k, tol)
}
fn predict_lin(m: &LinRegressor, b: &[f64], k: usize, tol: f64) -> R {
    let q = probes(k);
    let p = m.predict(&from_rows(&q, k)).map_err(|e| format!("predict: {}", e))?;
    ensure!(p.size() == q.len(), "{} predictions for {} rows", p.size(), q.len());
    for (i, r) in q.iter().enumerate() { ensure_close!(p[i], b[0] + dot(r, &b[1..]), tol, "prediction for {:?}", r); }
    ensure!(m.predict(&mat(0, k, vec![])).map(|v| v.size()).unwrap_or(9) == 0, "predictions for no rows");
    Ok(())
}
pub fn lin_reg() -> Property {
    let mut p = Property::new("C21");
    p.assume("coefficients are compared where the smallest eigenvalue of X'X is above 1e-7 of the largest; nearly singular data may give any finite result or an error");
    p.add("least-squares", "every 2..=5 (thorough 6) rows of 1 feature over 4 or 6 values with 3 target values each, every 3 rows of 2 features: the coefficients solve the normal equations, predictions are the linear function, singular data are an error or finite", |c| {
        let (n, k) = c.of(c.tier(&[(2, 1), (3, 1), (4, 1), (5, 1), (3, 2)][..], &[(2, 1), (3, 1), (4, 1), (5, 1), (6, 1), (3, 2), (4, 2)]));
        let x = xs(c, n, k);
        let y = if n <= 4 { c.vec_of(n, &[0.0, 1.0, -2.5]) } else { c.vec_of(n, &[0.0, 1.0]) };
        c.note(format!("x {:?} y {:?}", x, y));
        c.ops(2);
        let mut m = LinRegressor::default();
        let r = guard(|| m.train(&from_rows(&x, k), &vector(&y)))?;
        if wls(&with_ones(&x), &vec![1.0; n], &y).is_none() {
            if r.is_err() { ensure!(m.parameters().is_none(), "parameters after a failed training"); }
            else { ensure!(finite(m.parameters().unwrap().data()), "parameters {:?}", m.parameters().unwrap()); }
            return Ok(());
        }
        r.map_err(|e| format!("train failed: {}", e))?;
        check_lin(c, &m, &x, &y, 1e-6)
    });
    p.add("sizes", "patterned data to 120 rows and 8 features, scales 1e-3 .. 1e4", |c| {
        let n = c.of(&[3usize, 5, 9, 10, 17, 33, 64, 120]);
        let k = c.range(1, 8);
        let s = c.of(&[1.0, 1e-2, 1e3]);
        let sy = c.of(&[1.0, 1e-3, 1e4]);
        let x: Rows = pat(n, k).into_iter().map(|r| r.into_iter().map(|v| v * s).collect()).collect();
        let y: Vec<f64> = (0..n).map(|i| ((i * 11 + 3) % 23) as f64 * sy - x[i][0] * 2.0).collect();
        c.note(format!("{}x{} scale {} {}", n, k, s, sy));
        c.ops(2);
        if wls(&with_ones(&x), &vec![1.0; n], &y).is_none() { return Ok(()); }
        let mut m = LinRegressor::default();
        m.train(&from_rows(&x, k), &vector(&y)).map_err(|e| format!("train failed: {}", e))?;
        // the residual is orthogonal to every column
        check_lin(c, &m, &x, &y, 1e-5)
    });
    p.add("units", "patterned data to 20000 rows or 60 features, every feature in a unit of its own (1e-3 .. 1e3) and shifted by up to 1000 units, targets in units from 1e-8 to 1e8: fitted values are those of least squares, whatever the units and origins", |c| {
        let (n, k) = c.of(&[(4usize, 1usize), (12, 3), (50, 2), (64, 10), (257, 4), (1000, 2), (3000, 1), (300, 60), (20000, 3)]);
        let us = c.of(&[[1.0, 1.0, 1.0], [1e-3, 1.0, 1e2], [1e3, 1e-2, 1.0], [1e-3, 1e-3, 1e-3], [1e3, 1e3, 1e3]]);
        let off = c.of(&[0.0, 30.0, -1000.0]);
        let uy = c.of(&[1.0, 1e-8, 1e8]);
        let base: Rows = if k > 16 { mixed(n, k, 0.5) } else { (0..n).map(|i| (0..k).map(|j| ((i * (5 + 2 * j) + j * j + i * i / 3 + i * j) % 17) as f64 * 0.5 - 4.0).collect()).collect() };
        let y1: Vec<f64> = (0..n).map(|i| ((i * 11 + 3) % 23) as f64 * 0.3 - base[i][0] * 2.0 + base[i][k - 1]).collect();
        let f = with_ones(&base);
        let w = match wls(&f, &vec![1.0; n], &y1) { Some(w) => w, None => return Ok(()) };
        c.note(format!("{}x{} units {:?} offset {} target unit {}", n, k, us, off, uy));
        c.ops(2);
        let to = |r: &Vec<f64>| -> Vec<f64> { r.iter().enumerate().map(|(j, v)| (v + off * if j == 0 { 1.0 } else { 0.0 }) * us[j % 3]).collect() };
        let x: Rows = base.iter().map(|r| to(r)).collect();
        let y: Vec<f64> = y1.iter().map(|v| v * uy).collect();
        let mut m = LinRegressor::default();
        m.train(&from_rows(&x, k), &vector(&y)).map_err(|e| format!("train failed: {}", e))?;
        ensure!(m.parameters().map(|v| v.size()) == Some(k + 1), "parameters {:?}", m.parameters());
        let mut q: Rows = base.iter().take(40).cloned().collect();
        q.extend(probes(k));
        let out = m.predict(&from_rows(&q.iter().map(|r| to(r)).collect::<Rows>(), k)).map_err(|e| format!("{}", e))?;
        for (i, r) in q.iter().enumerate() { let want = w[0] + dot(r, &w[1..]); ensure!((out[i] / uy - want).abs() <= 1e-5 * (1.0 + want.abs()), "prediction {} (in units of {}) for {:?}, expected {}", out[i] / uy, uy, r, want); }
        c.saw_f(out.data());
        Ok(())
    });
    p.add("gradient", "cost and gradient at every parameter point of a grid for every 1..=3 rows of 2 columns over 4 values: the gradient is the derivative of the cost (exact for a quadratic), the cost is zero exactly at a perfect fit", |c| {
        let n = c.range(1, 3);
        let d = c.range(1, 2);
        let x: Rows = (0..n).map(|_| c.vec_of(d, &[0.0, 1.0, -2.0, 3.0])).collect();
        let y = c.vec_of(n, &[0.5, -1.0]);
        let b = c.vec_of(d, &[0.0, 1.0, -0.5]);
        c.note(format!("x {:?} y {:?} at {:?}", x, y, b));
        let m = LinRegressor::default();
        let (mx, my) = (from_rows(&x, d), vector(&y));
        let f = |b: &[f64]| { c.op(); m.compute_grad(b, &mx, &my) };
        let (cost, g) = f(&b);
        ensure!(g.len() == d, "{} gradient entries", g.len());
        let r: Vec<f64> = (0..n).map(|i| dot(&x[i], &b) - y[i]).collect();
        ensure!(cost >= 0.0 && (cost == 0.0) == r.iter().all(|x| *x == 0.0), "cost {} with residuals {:?}", cost, r);
        for j in 0..d {
            let at = |h: f64| { let mut v = b.clone(); v[j] += h; f(&v).0 };
            let (up, down) = (at(1.0), at(-1.0));
            ensure_close!(g[j], (up - down) / 2.0, 1e-9, "derivative with respect to parameter {}", j);
            ensure!(close(up + down - 2.0 * cost, dot(&x.iter().map(|r| r[j]).collect::<Vec<_>>(), &x.iter().map(|r| r[j]).collect::<Vec<_>>()) / n as f64, 1e-9), "the cost is not the mean squared error (curvature in {})", j);
        }
        Ok(())
    });
    p.add("optimised", "training by optimisation for every 2..=4 rows of 1 feature over 4 values, 2 targets, patterned data to 40x4: the parameters are those of the documented default gradient descent on intercept and features from zero", |c| {
        let big = c.bool();
        let (x, y): (Rows, Vec<f64>) = if big { let (n, k) = (c.range(2, 40), c.range(1, 4)); (pat(n, k).into_iter().map(|r| r.into_iter().map(|v| v * 0.1).collect()).collect(), (0..n).map(|i| ((i * 11 + 3) % 23) as f64 * 0.1).collect()) }
            else { let n = c.range(2, 4); ((0..n).map(|_| vec![c.of(&[0.0, 0.5, -1.0, 1.5])]).collect(), c.vec_of(n, &[1.0, -0.5, 2.0])) };
        let k = x[0].len();
        c.note(format!("x {:?} y {:?}", x, y));
        c.ops(2);
        let mut m = LinRegressor::default();
        m.train_with_optimization(&from_rows(&x, k), &vector(&y));
        let b = m.parameters().ok_or("no parameters")?.data().to_vec();
        let f = with_ones(&x);
        let mut w = vec![0.0; k + 1];
        for _ in 0..100 {
            let r: Vec<f64> = f.iter().zip(&y).map(|(r, y)| dot(r, &w) - y).collect();
            for j in 0..k + 1 { w[j] -= 0.3 * f.iter().zip(&r).map(|(r, e)| r[j] * e).sum::<f64>() / f.len() as f64; }
        }
        if w.iter().any(|v| v.abs() > 1e3) { return Ok(()); }
        c.saw_f(&b);
        ensure!(close_all(&w, &b, 1e-6), "parameters {:?}, expected {:?}", b, w);
        predict_lin(&m, &b, k, 1e-6)
    });
    p.add("histories", "every sequence of up to 4 operations out of: train on one of 3 data sets (one singular, one with another number of features), train by optimisation, predict: parameters are always those of the last successful training; predicting before is an error", |c| {
        let sets: [(Rows, Vec<f64>); 3] = [(vec![vec![0.0], vec![1.0], vec![3.0]], vec![1.0, 2.0, 2.0]), (vec![vec![2.0], vec![2.0]], vec![1.0, 5.0]), (vec![vec![0.0, 1.0], vec![0.5, -1.0], vec![1.0, 0.0], vec![-1.0, 0.5]], vec![1.0, 0.0, -1.0, 2.0])];
        let mut m = LinRegressor::default();
        let mut cur: Option<Vec<f64>> = None;
        for _ in 0..c.range(1, c.tier(4, 5)) {
            let op = c.pick(6);
            c.op();
            c.note(format!("op {}", op));
            if op < 3 {
                let (x, y) = &sets[op];
                let r = m.train(&from_rows(x, x[0].len()), &vector(y));
                if op == 1 { if r.is_ok() { return Ok(()); } } else { r.map_err(|e| format!("{}", e))?; check_lin(c, &m, x, y, 1e-8)?; cur = Some(m.parameters().unwrap().data().to_vec()); }
            } else if op < 5 {
                let (x, y) = &sets[if op == 3 { 0 } else { 2 }];
                m.train_with_optimization(&from_rows(x, x[0].len()), &vector(y));
                let mut n = LinRegressor::default();
                n.train_with_optimization(&from_rows(x, x[0].len()), &vector(y));
                cur = Some(n.parameters().unwrap().data().to_vec());
            } else if cur.is_none() {
                ensure!(err_kind(&m.predict(&mat(1, 1, vec![1.0]))) == "UntrainedModel", "prediction before training");
            }
            match (&cur, m.parameters()) { (None, None) => {}, (Some(a), Some(b)) => { ensure!(close_all(a, b.data(), 1e-9), "parameters {:?}, expected {:?}", b.data(), a); predict_lin(&m, a, a.len() - 1, 1e-8)?; }, (a, b) => return Err(format!("parameters {:?}, expected {:?}", b, a)) }
        }
        Ok(())
    });
    p
}

// --------------------------------------------------------------------- C22
/// An optimizer that records what it is given and returns a fixed answer.
#[derive(Clone)]
struct Spy { answer: Vec<f64>, points: Rows, seen: Rc<RefCell<Vec<(Vec<f64>, Rows, Vec<f64>)>>>, grads: Rc<RefCell<Vec<(f64, Vec<f64>)>>> }
impl Spy { fn new(answer: Vec<f64>, points: Rows) -> Spy { Spy { answer, points, seen: Rc::default(), grads: Rc::default() } } }
impl OptimAlgorithm<BaseLogisticRegressor> for Spy {
    fn optimize(&self, model: &BaseLogisticRegressor, start: &[f64], x: &M, t: &Vector<f64>) -> Vec<f64> {
        self.seen.borrow_mut().push((start.to_vec(), to_rows(x), t.data().to_vec()));
        *self.grads.borrow_mut() = self.points.iter().map(|p| model.compute_grad(p, x, t)).collect();
        self.answer.clone()
    }
}
fn sigma(x: f64) -> f64 { if x >= 0.0 { 1.0 / (1.0 + (-x).exp()) } else { let e = x.exp(); e / (1.0 + e) } }
pub fn logistic() -> Property {
    let mut p = Property::new("C22");
    p.add("pieces", "a recording optimizer, every 1..=3 rows of 1..=2 features over 3 values, every 0/1 labelling, 9 or 27 parameter points, 2 answers: the optimizer gets intercept and features, the targets and the start 0.5; cost and gradient are those of the cross entropy; the answer becomes the parameters and predictions are their sigmoid", |c| {
        let n = c.range(1, 3);
        let k = c.range(1, 2);
        let x: Rows = (0..n).map(|_| c.vec_of(k, &[0.0, 1.0, -2.0])).collect();
        let y = c.vec_of(n, &[0.0, 1.0]);
        let g = [0.0, 0.7, -1.5];
        let pts: Rows = (0..3usize.pow(k as u32 + 1)).map(|i| (0..=k).map(|j| g[i / 3usize.pow(j as u32) % 3]).collect()).collect();
        let answer: Vec<f64> = if c.bool() { (0..=k).map(|j| 0.5 - j as f64).collect() } else { (0..=k).map(|j| 40.0 * j as f64 - 20.0).collect() };
        c.note(format!("x {:?} y {:?} answer {:?}", x, y, answer));
        c.ops(2 + pts.len() as u64);
        let spy = Spy::new(answer.clone(), pts.clone());
        let mut m = LogisticRegressor::new(spy.clone());
        ensure!(m.parameters().is_none() && err_kind(&m.predict(&from_rows(&x, k))) == "UntrainedModel", "untrained model");
        m.train(&from_rows(&x, k), &vector(&y)).map_err(|e| format!("{}", e))?;
        let seen = spy.seen.borrow();
        ensure!(seen.len() == 1, "{} calls of the optimizer", seen.len());
        let f = with_ones(&x);
        ensure!(seen[0] == (vec![0.5; k + 1], f.clone(), y.clone()), "the optimizer was given {:?}", seen[0]);
        for (b, (cost, grad)) in pts.iter().zip(spy.grads.borrow().iter()) {
            let h: Vec<f64> = f.iter().map(|r| sigma(dot(r, b))).collect();
            let want = -(0..n).map(|i| if y[i] == 1.0 { h[i].ln() } else { (1.0 - h[i]).ln() }).sum::<f64>() / n as f64;
            ensure_close!(*cost, want, 1e-9, "cost at {:?}", b);
            let wg: Vec<f64> = (0..=k).map(|j| (0..n).map(|i| f[i][j] * (h[i] - y[i])).sum::<f64>() / n as f64).collect();
            ensure!(close_all(&wg, grad, 1e-9), "gradient {:?} at {:?}, expected {:?}", grad, b, wg);
            c.saw_f(grad);
        }
        ensure!(m.parameters().map(|v| v.data().to_vec()) == Some(answer.clone()), "parameters {:?}", m.parameters());
        let q: Rows = vec![vec![0.0; k], vec![1.0; k], (0..k).map(|j| 3.0 - 5.0 * j as f64).collect()];
        let out = m.predict(&from_rows(&q, k)).map_err(|e| format!("{}", e))?;
        ensure!(out.size() == q.len(), "{} predictions", out.size());
        for (i, r) in q.iter().enumerate() { ensure_close!(out[i], sigma(answer[0] + dot(r, &answer[1..])), 1e-12, "prediction for {:?}", r); }
        Ok(())
    });
    p.add("descent", "gradient descent with 4 settings (also the default) for every 2..=4 rows of one feature over 4 values and every labelling, patterned data to 60x5: the parameters are those of the stated number of steps from 0.5; training again starts afresh", |c| {
        let big = c.bool();
        let (x, y): (Rows, Vec<f64>) = if big { let (n, k) = (c.range(2, 60), c.range(1, 5)); (pat(n, k).into_iter().map(|r| r.into_iter().map(|v| v * 0.3).collect()).collect(), (0..n).map(|i| ((i * 11 + 3) % 5 < 2) as u8 as f64).collect()) }
            else { let n = c.range(2, 4); ((0..n).map(|_| vec![c.of(&[0.0, 0.5, -1.0, 2.0])]).collect(), c.vec_of(n, &[0.0, 1.0])) };
        let k = x[0].len();
        let (a, it) = c.of(&[(0.3, 100), (0.05, 7), (1.0, 30), (0.3, 0)]);
        let mut m = if (a, it) == (0.3, 100) { LogisticRegressor::default() } else { LogisticRegressor::new(GradientDesc::new(a, it)) };
        c.note(format!("alpha {} iterations {} x {:?} y {:?}", a, it, x, y));
        c.ops(3);
        let f = with_ones(&x);
        let mut w = vec![0.5; k + 1];
        for _ in 0..it {
            let e: Vec<f64> = f.iter().zip(&y).map(|(r, y)| sigma(dot(r, &w)) - y).collect();
            for j in 0..=k { w[j] -= a * f.iter().zip(&e).map(|(r, e)| r[j] * e).sum::<f64>() / f.len() as f64; }
        }
        for round in 0..2 {
            m.train(&from_rows(&x, k), &vector(&y)).map_err(|e| format!("{}", e))?;
            let b = m.parameters().ok_or("no parameters")?.data().to_vec();
            c.saw_f(&b);
            ensure!(close_all(&w, &b, 1e-6), "training {}: parameters {:?}, expected {:?}", round, b, w);
            let out = m.predict(&from_rows(&x, k)).map_err(|e| format!("{}", e))?;
            for (i, r) in f.iter().enumerate() { ensure_close!(out[i], sigma(dot(r, &w)), 1e-6, "prediction for row {}", i); }
        }
        Ok(())
    });
    p.add("saturated", "a recording optimizer, 2..=5000 rows of 1..=60 features, parameter points up to 1e3 and features up to 1e4: gradients are those of the cross entropy even where the sigmoid saturates, costs equal the definition as long as every probability stays inside (0,1) and are never negative; labels may be fractions", |c| {
        let (n, k) = c.of(&[(2usize, 1usize), (7, 3), (33, 8), (64, 2), (257, 4), (600, 1), (5000, 3), (300, 60)]);
        let u = c.of(&[1e-6, 1e-2, 1.0, 30.0, 1e4]);
        let frac = c.bool();
        let x: Rows = if k > 16 { mixed(n, k, 0.5) } else { pat(n, k) }.into_iter().map(|r| r.into_iter().map(|v| v * u).collect()).collect();
        let y: Vec<f64> = (0..n).map(|i| if frac { ((i * 7 + 2) % 11) as f64 / 10.0 } else { ((i * 11 + 3) % 5 < 2) as u8 as f64 }).collect();
        let pts: Rows = [0.0, 1e-9, 0.01, 0.5, -1.0, 4.0, -30.0, 1e3].iter().flat_map(|g| { let g = *g; (0..3).map(move |s| (0..=k).map(|j| if s == 0 { g } else if s == 1 { if j % 2 == 0 { g } else { -g } } else if j == 0 { g } else { 0.0 }).collect()) }).collect();
        c.note(format!("{}x{} unit {}", n, k, u));
        c.ops(pts.len() as u64);
        let spy = Spy::new(vec![1.0 / u; k + 1], pts.clone());
        let mut m = LogisticRegressor::new(spy.clone());
        m.train(&from_rows(&x, k), &vector(&y)).map_err(|e| format!("{}", e))?;
        let f = with_ones(&x);
        ensure!(spy.seen.borrow()[0] == (vec![0.5; k + 1], f.clone(), y.clone()), "the optimizer was given other data");
        for (b, (cost, grad)) in pts.iter().zip(spy.grads.borrow().iter()) {
            let e: Vec<f64> = f.iter().map(|r| dot(r, b)).collect();
            let h: Vec<f64> = e.iter().map(|e| sigma(*e)).collect();
            for j in 0..=k {
                let want: f64 = (0..n).map(|i| f[i][j] * (h[i] - y[i])).sum::<f64>() / n as f64;
                let scale: f64 = (0..n).map(|i| (f[i][j] * (h[i].abs() + y[i].abs())).abs()).sum::<f64>() / n as f64;
                ensure!((grad[j] - want).abs() <= 1e-11 * scale + 1e-300, "gradient {} for parameter {} at {:?}, expected {}", grad[j], j, b, want);
            }
            c.saw_f(grad);
            if e.iter().all(|e| e.abs() < 30.0) {
                let want = (0..n).map(|i| { let e = e[i]; let sp = |z: f64| if z > 0.0 { z + (-z).exp().ln_1p() } else { z.exp().ln_1p() }; y[i] * sp(-e) + (1.0 - y[i]) * sp(e) }).sum::<f64>() / n as f64;
                // 1 - h loses digits for h near one
                let slack = (0..n).map(|i| 3e-16 / (1.0 - h[i]).max(1e-16)).sum::<f64>() / n as f64;
                ensure!((*cost - want).abs() <= 1e-9 * (1.0 + want) + slack, "cost {} at {:?}, expected {}", cost, b, want);
            } else { ensure!(*cost >= 0.0, "cost {} at {:?}", cost, b); }
        }
        let out = m.predict(&from_rows(&x, k)).map_err(|e| format!("{}", e))?;
        for i in 0..n { ensure!(rel(out[i], sigma(dot(&f[i], &vec![1.0 / u; k + 1])), 1e-9, 1e-300), "prediction {} for row {}", out[i], i); }
        Ok(())
    });
    p.add("others", "conjugate gradients (3 settings) and gradient descent on separated and on overlapping labels, 4..=80 rows of 1..=4 features: the parameters are what the optimizer returns for intercept and features from 0.5, twice in a row", |c| {
        let (n, k) = c.of(&[(4usize, 1usize), (9, 2), (32, 3), (80, 4)]);
        let which = c.pick(4);
        let split = c.bool();
        let x: Rows = pat(n, k).into_iter().map(|r| r.into_iter().map(|v| v * 0.3).collect()).collect();
        let y: Vec<f64> = (0..n).map(|i| if split { (x[i][0] > 0.2) as u8 as f64 } else { ((i * 11 + 3) % 5 < 2) as u8 as f64 }).collect();
        c.note(format!("optimizer {} on {}x{}", which, n, k));
        c.ops(3);
        /// The algorithm itself, run inside an optimizer of our own.
        struct Wrap<A> { inner: A, got: Rc<RefCell<Vec<f64>>> }
        impl<A: OptimAlgorithm<BaseLogisticRegressor>> OptimAlgorithm<BaseLogisticRegressor> for Wrap<A> {
            fn optimize(&self, m: &BaseLogisticRegressor, s: &[f64], x: &M, t: &Vector<f64>) -> Vec<f64> {
                let r = self.inner.optimize(m, &vec![0.5; s.len()], &from_rows(&to_rows(x), s.len()), &vector(t.data()));
                *self.got.borrow_mut() = r.clone();
                r
            }
        }
        fn go<A: OptimAlgorithm<BaseLogisticRegressor>>(c: &Ch, make: &dyn Fn() -> A, mx: &M, my: &Vector<f64>) -> R {
            let got: Rc<RefCell<Vec<f64>>> = Default::default();
            let mut w = LogisticRegressor::new(Wrap { inner: make(), got: got.clone() });
            w.train(mx, my).map_err(|e| format!("{}", e))?;
            let mut m = LogisticRegressor::new(make());
            for round in 0..3 {
                m.train(mx, my).map_err(|e| format!("{}", e))?;
                let b = m.parameters().ok_or("no parameters")?.data().to_vec();
                c.saw_f(&b);
                ensure!(close_all(&got.borrow(), &b, 1e-9), "training {}: parameters {:?}, the optimizer gives {:?}", round, b, got.borrow());
            }
            Ok(())
        }
        use rusty_machine::learning::optim::fmincg::ConjugateGD;
        match which {
            0 => go(c, &|| GradientDesc::new(0.2, 40), &mat(n, k, x.concat()), &vector(&y)),
            1 => go(c, &|| ConjugateGD::default(), &mat(n, k, x.concat()), &vector(&y)),
            2 => go(c, &|| { let mut a = ConjugateGD::default(); a.iters = 3; a }, &mat(n, k, x.concat()), &vector(&y)),
            _ => go(c, &|| { let mut a = ConjugateGD::default(); a.iters = 0; a }, &mat(n, k, x.concat()), &vector(&y)),
        }
    });
    p
}

// --------------------------------------------------------------------- C23
/// Records the means of every iteration and delegates everything else.
struct Tap<C: Criterion> { inner: C, mus: Rc<RefCell<Rows>>, zs: Rc<RefCell<Rows>>, bars: Rc<RefCell<Vec<(Vec<f64>, Vec<f64>)>>>, etas: Rc<RefCell<Rows>> }
impl<C: Criterion> Criterion for Tap<C> {
    type Link = C::Link;
    fn model_variance(&self, mu: f64) -> f64 { self.inner.model_variance(mu) }
    fn initialize_mu(&self, y: &[f64]) -> Vec<f64> { self.inner.initialize_mu(y) }
    fn compute_working_weight(&self, mu: &[f64]) -> Vec<f64> { let w = self.inner.compute_working_weight(mu); self.mus.borrow_mut().push(mu.to_vec()); self.zs.borrow_mut().push(w.clone()); w }
    fn compute_y_bar(&self, y: &[f64], mu: &[f64]) -> Vec<f64> { let b = self.inner.compute_y_bar(y, mu); self.bars.borrow_mut().push((mu.to_vec(), b.clone())); b }
    fn apply_link_inv(&self, v: Vector<f64>) -> Vector<f64> { self.etas.borrow_mut().push(v.data().to_vec()); self.inner.apply_link_inv(v) }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fam { Normal, Bernoulli, Poisson }
impl Fam {
    fn mean(self, e: f64) -> f64 { match self { Fam::Normal => e, Fam::Bernoulli => sigma(e), Fam::Poisson => e.exp() } }
    fn weight(self, e: f64) -> f64 { match self { Fam::Normal => 1.0, Fam::Bernoulli => sigma(e) * sigma(-e), Fam::Poisson => e.exp() } }
    fn loglik(self, e: f64, y: f64) -> f64 { match self { Fam::Normal => -0.5 * (y - e) * (y - e), Fam::Bernoulli => y * e - if e > 30.0 { e } else { (1.0 + e.exp()).ln() }, Fam::Poisson => y * e - e.exp() } }
}
/// Maximum likelihood by damped Newton steps; None unless it clearly exists.
pub fn mle(fam: Fam, f: &Rows, y: &[f64]) -> Option<Vec<f64>> {
    let k = f[0].len();
    let mut b = vec![0.0; k];
    if fam == Fam::Poisson { let m = y.iter().sum::<f64>() / y.len() as f64; if m == 0.0 { return None; } b[0] = m.ln(); }
    let ll = |b: &[f64]| f.iter().zip(y).map(|(r, y)| fam.loglik(dot(r, b), *y)).sum::<f64>();
    for _ in 0..200 {
        let e: Vec<f64> = f.iter().map(|r| dot(r, &b)).collect();
        let w: Vec<f64> = e.iter().map(|e| fam.weight(*e)).collect();
        let g: Vec<f64> = (0..k).map(|j| (0..f.len()).map(|i| f[i][j] * (y[i] - fam.mean(e[i]))).sum()).collect();
        let (h, _) = normal_eq(f, &w, y);
        let (ev, _) = eigen(&h);
        if ev[k - 1] < 1e-6 * ev[0].max(1e-3) { return None; }
        let s = solve(&h, &g)?;
        let mut t = 1.0;
        let l0 = ll(&b);
        loop {
            let n: Vec<f64> = b.iter().zip(&s).map(|(b, s)| b + t * s).collect();
            if ll(&n) >= l0 - 1e-12 * (1.0 + l0.abs()) || t < 1e-10 { b = n; break; }
            t *= 0.5;
        }
        if s.iter().map(|x| x.abs()).sum::<f64>() < 1e-12 { return if f.iter().all(|r| dot(r, &b).abs() < 6.0) || fam != Fam::Bernoulli { Some(b) } else { None }; }
    }
    None
}
/// The working-response iteration from given starting means; the last linear predictor and the last change.
fn irls<C: Criterion>(cr: &C, f: &Rows, y: &[f64], link: fn(f64) -> f64) -> Option<(Vec<f64>, f64)> {
    let mut mu = cr.initialize_mu(y);
    let mut eta: Vec<f64> = mu.iter().map(|m| link(*m)).collect();
    let mut b = vec![0.0; f[0].len()];
    let mut change = 1.0;
    for _ in 0..8 {
        let w = cr.compute_working_weight(&mu);
        let z: Vec<f64> = cr.compute_y_bar(y, &mu).iter().zip(&eta).map(|(a, b)| a + b).collect();
        let n = wls(f, &w, &z)?;
        if !finite(&n) { return None; }
        change = b.iter().zip(&n).map(|(x, y)| (x - y).abs()).sum::<f64>();
        b = n;
        eta = f.iter().map(|r| dot(r, &b)).collect();
        mu = cr.apply_link_inv(vector(&eta)).into_vec();
    }
    Some((b, change))
}
/// A user's own family: gamma-like variance with log link and all default methods.
struct GammaLog;
impl Criterion for GammaLog { type Link = Log; fn model_variance(&self, mu: f64) -> f64 { mu * mu } }
/// Normal errors with a log link.
struct NormalLog;
impl Criterion for NormalLog { type Link = Log; fn model_variance(&self, _: f64) -> f64 { 1.0 } }

fn weight_is(name: &str, m: f64, w: f64, var: fn(f64) -> f64, dlink: fn(f64) -> f64) -> R {
    let want = 1.0 / (var(m) * dlink(m) * dlink(m));
    ensure!(!want.is_finite() || rel(w, want, 1e-9, 1.1e-5), "{}: working weight {} at mean {}, expected {}", name, w, m, want);
    Ok(())
}
fn bar_is(name: &str, y: f64, m: f64, b: f64, dlink: fn(f64) -> f64) -> R {
    let want = dlink(m) * (y - m);
    ensure!(!want.is_finite() || rel(b, want, 1e-9, 1e-12 + 1.1e-15 * dlink(m)), "{}: adjustment {} for target {} at mean {}, expected {}", name, b, y, m, want);
    Ok(())
}
/// A family's own functions at one mean.
fn criterion_is<C: Criterion>(cr: &C, name: &str, m: f64, link: fn(f64) -> f64, mean: fn(f64) -> f64, var: fn(f64) -> f64, dlink: fn(f64) -> f64, ys: &[f64]) -> R {
    ensure!(rel(cr.model_variance(m), var(m), 1e-9, 1.1e-10), "{}: variance {} at mean {}, expected {}", name, cr.model_variance(m), m, var(m));
    ensure!(rel(cr.link_grad(m), dlink(m), 1e-9, 0.0), "{}: link gradient {} at mean {}, expected {}", name, cr.link_grad(m), m, dlink(m));
    ensure_close!(cr.apply_link_func(vector(&[m, m]))[1], link(m), 1e-12, "{}: link at {}", name, m);
    ensure_close!(cr.apply_link_inv(vector(&[m, m]))[1], mean(m), 1e-12, "{}: inverse link at {}", name, m);
    let w = cr.compute_working_weight(&[m, m]);
    ensure!(w.len() == 2, "{} weights for 2 means", w.len());
    weight_is(name, m, w[1], var, dlink)?;
    for y in ys {
        let b = cr.compute_y_bar(&[0.0, *y], &[m, m]);
        ensure!(b.len() == 2, "{} adjustments for 2 means", b.len());
        bar_is(name, *y, m, b[1], dlink)?;
        let i = cr.initialize_mu(&[0.0, *y])[1];
        if y.abs() < 1e3 { ensure!(i.is_finite() && (link(i).is_finite() || !link(*y).is_finite() && name.starts_with("own")), "{}: starting mean {} for target {}", name, i, y); }
    }
    Ok(())
}

fn glm_case<C: Criterion>(c: &Ch, make: fn() -> C, name: &str, link: fn(f64) -> f64, mean: fn(f64) -> f64, var: fn(f64) -> f64, dlink: fn(f64) -> f64, fam: Option<Fam>, x: &Rows, y: &[f64]) -> R {
    let k = x[0].len();
    let f = with_ones(x);
    c.note(format!("{} x {:?} y {:?}", name, x, y));
    c.ops(2);
    let bars: Rc<RefCell<Vec<(Vec<f64>, Vec<f64>)>>> = Default::default();
    let (mus, ws, etas): (Rc<RefCell<Rows>>, Rc<RefCell<Rows>>, Rc<RefCell<Rows>>) = Default::default();
    let mut m = GenLinearModel::new(Tap { inner: make(), mus: mus.clone(), zs: ws.clone(), bars: bars.clone(), etas: etas.clone() });
    ensure!(err_kind(&m.predict(&from_rows(x, k))) == "UntrainedModel", "prediction before training");
    let r = guard(|| m.train(&from_rows(x, k), &vector(y)))?;
    // every weighting and adjustment uses the family's definition at the current means
    ensure!(mus.borrow().len() == bars.borrow().len(), "{} weightings and {} adjustments", mus.borrow().len(), bars.borrow().len());
    for (mu, w) in mus.borrow().iter().zip(ws.borrow().iter()) {
        ensure!(w.len() == mu.len(), "{} weights for {} means", w.len(), mu.len());
        for (m, w) in mu.iter().zip(w) { weight_is(name, *m, *w, var, dlink)?; }
    }
    for (mu, b) in bars.borrow().iter() {
        ensure!(b.len() == mu.len(), "{} adjustments for {} means", b.len(), mu.len());
        for i in 0..mu.len() { bar_is(name, y[i], mu[i], b[i], dlink)?; }
    }
    etas.borrow_mut().clear();
    let plain = wls(&f, &vec![1.0; x.len()], y);
    let run = irls(&make(), &f, y, link);
    if let (None, true) = (&run, r.is_ok()) {
        // singular or diverging: whatever comes out of it, it is a prediction or an error
        let _ = guard(|| m.predict(&from_rows(x, k)).map(|v| v.size()))?;
    }
    if plain.is_none() { return Ok(()); }
    let (b, change) = match run { Some(b) => b, None => return Ok(()) };
    r.map_err(|e| format!("train failed: {}", e))?;
    let q: Rows = x.iter().cloned().chain(probes(k)).collect();
    let out = m.predict(&from_rows(&q, k)).map_err(|e| format!("predict: {}", e))?;
    ensure!(out.size() == q.len(), "{} predictions for {} rows", out.size(), q.len());
    c.saw_f(out.data());
    // converged: the score equations hold
    if change < 1e-6 {
        for j in 0..=k {
            let g: f64 = (0..x.len()).map(|i| f[i][j] * (y[i] - out[i]) / (var(out[i]) * dlink(out[i]))).sum();
            let s: f64 = (0..x.len()).map(|i| (f[i][j] * (y[i].abs() + out[i].abs()) / (var(out[i]) * dlink(out[i]))).abs()).sum();
            if s.is_finite() { ensure!(g.abs() <= 1e-4 * s + 1e-4, "score {} for coefficient {} (scale {}), fitted {:?}", g, j, s, out.data()); }
        }
        if let Some(fam) = fam { if let Some(b) = mle(fam, &f, y) {
            for (i, r) in q.iter().enumerate() { let w = mean(b[0] + dot(r, &b[1..])); ensure!(rel(out[i], w, 1e-4, 1e-6), "fitted mean {} at {:?}, maximum likelihood gives {} (coefficients {:?})", out[i], r, w, b); }
        } }
    }
    // converged or not: the iteration itself
    for (i, r) in q.iter().enumerate() {
        let e = b[0] + dot(r, &b[1..]);
        if e.abs() < 30.0 { ensure!(rel(out[i], mean(e), 1e-4, 1e-6), "mean {} at {:?}, the iteration gives {} (coefficients {:?})", out[i], r, mean(e), b); }
    }
    // predictions are row by row
    for (i, r) in q.iter().enumerate() { let o = m.predict(&from_rows(&vec![r.clone()], k)).map_err(|e| format!("{}", e))?; ensure!(close(o[0], out[i], 1e-12), "row {:?} alone gives {}, with others {}", r, o[0], out[i]); }
    Ok(())
}
fn family(c: &Ch, fam: usize, x: &Rows, y: &[f64]) -> R {
    match fam {
        0 => glm_case(c, || Normal, "Normal", |m| m, |e| e, |_| 1.0, |_| 1.0, Some(Fam::Normal), x, y),
        1 => glm_case(c, || Bernoulli, "Bernoulli", |m| (m / (1.0 - m)).ln(), sigma, |m| m * (1.0 - m), |m| 1.0 / (m * (1.0 - m)), Some(Fam::Bernoulli), x, y),
        2 => glm_case(c, || Poisson, "Poisson", |m| m.ln(), |e| e.exp(), |m| m, |m| 1.0 / m, Some(Fam::Poisson), x, y),
        3 => glm_case(c, || GammaLog, "own family (gamma, log link)", |m| m.ln(), |e| e.exp(), |m| m * m, |m| 1.0 / m, None, x, y),
        _ => glm_case(c, || NormalLog, "own family (normal, log link)", |m| m.ln(), |e| e.exp(), |_| 1.0, |m| 1.0 / m, None, x, y),
    }
}
const YS: [&[f64]; 5] = [&[0.0, 1.0, -2.5], &[0.0, 1.0], &[0.0, 1.0, 30.0], &[0.5, 2.0, 9.0], &[1.0, 2.0, 3.5]];
pub fn glm() -> Property {
    let mut p = Property::new("C23");
    p.assume("training makes at most 8 iterations; maximum likelihood is demanded where the iteration has converged by then, otherwise the result is that of the iteration itself");
    p.add("fit", "every 2..=4 rows of 1 feature over 6 values and 5 rows over 4 values, every 3 (thorough 4) rows of 2 features, with 2 or 3 target values: three families and two user-defined ones; weights and steps are those of reweighted least squares, converged fits satisfy the score equations and are the maximum likelihood; singular data give an error, never a panic", |c| {
        let fam = c.pick(5);
        let (n, k) = c.of(c.tier(&[(2, 1), (3, 1), (4, 1), (3, 2)][..], &[(2, 1), (3, 1), (4, 1), (5, 1), (3, 2), (4, 2)]));
        let x = xs(c, n, k);
        let y = c.vec_of(n, if n == 4 && k == 1 && fam != 2 { &YS[fam][..2] } else { YS[fam] });
        family(c, fam, &x, &y)
    });
    p.add("five", "5 rows of one feature over 4 values for the three families with 2 target values", |c| {
        let fam = c.pick(3);
        let x: Rows = c.vec_of(5, &[0.0, 1.0, -2.0, 3.5]).into_iter().map(|v| vec![v]).collect();
        let y = c.vec_of(5, [&[0.0, 1.0][..], &[0.0, 1.0], &[1.0, 6.0]][fam]);
        family(c, fam, &x, &y)
    });
    p.add("sizes", "patterned data to 100 rows and 5 features, five families", |c| {
        let fam = c.pick(5);
        let n = c.of(&[3usize, 6, 11, 20, 33, 64, 100]);
        let k = c.range(1, 5);
        let s = c.of(&[0.1, 0.4]);
        let x: Rows = pat(n, k).into_iter().map(|r| r.into_iter().map(|v| v * s).collect()).collect();
        let y: Vec<f64> = (0..n).map(|i| match fam { 0 => ((i * 11 + 3) % 23) as f64, 1 => ((i * 11 + 3) % 5 < 2) as u8 as f64, 2 => ((i * 7 + 1) % 9) as f64, _ => 1.0 + ((i * 7 + 1) % 9) as f64 }).collect();
        family(c, fam, &x, &y)
    });
    p.add("units", "five families, patterned data to 1100 rows or 40 features, every feature in a unit of its own (1e-4 .. 1e4) and shifted by up to 50 units: fitted means are those of the iteration in plain units", |c| {
        let fam = c.pick(5);
        let (n, k) = c.of(&[(6usize, 1usize), (20, 3), (65, 2), (129, 8), (700, 1), (1100, 3), (300, 40)]);
        let us = c.of(&[[1.0, 1.0], [1e-4, 1.0], [1e4, 1e-2], [1e-3, 1e-3], [1e3, 1e3]]);
        let off = c.of(&[0.0, 50.0, -7.0]);
        let base: Rows = if k > 16 { mixed(n, k, 0.1) } else { (0..n).map(|i| (0..k).map(|j| ((i * (5 + 2 * j) + j * j + i * i / 3 + i * j) % 17) as f64 * 0.1 - 0.8).collect()).collect() };
        let y: Vec<f64> = (0..n).map(|i| match fam { 0 => ((i * 11 + 3) % 23) as f64, 1 => ((i * 11 + 3) % 5 < 2) as u8 as f64, 2 => ((i * 7 + 1) % 9) as f64, _ => 1.0 + ((i * 7 + 1) % 9) as f64 }).collect();
        c.note(format!("family {} {}x{} units {:?} shift {}", fam, n, k, us, off));
        c.ops(2);
        fn go<C: Criterion>(c: &Ch, make: fn() -> C, link: fn(f64) -> f64, mean: fn(f64) -> f64, base: &Rows, y: &[f64], us: [f64; 2], off: f64) -> R {
            let k = base[0].len();
            let f = with_ones(base);
            if wls(&f, &vec![1.0; y.len()], y).is_none() { return Ok(()); }
            let (b, _) = match irls(&make(), &f, y, link) { Some(b) => b, None => return Ok(()) };
            let to = |r: &Rows| -> Rows { r.iter().map(|r| r.iter().enumerate().map(|(j, v)| (v + if j % 2 == 0 { off } else { 0.0 }) * us[j % 2]).collect()).collect() };
            let mut m = GenLinearModel::new(make());
            let x = to(base);
            m.train(&from_rows(&x, k), &vector(y)).map_err(|e| format!("train failed: {}", e))?;
            let mut q: Rows = base.iter().take(30).cloned().collect();
            q.push(vec![0.0; k]);
            q.push((0..k).map(|j| 1.5 - j as f64).collect());
            let out = m.predict(&from_rows(&to(&q), k)).map_err(|e| format!("{}", e))?;
            for (i, r) in q.iter().enumerate() {
                let e = b[0] + dot(r, &b[1..]);
                if e.abs() < 30.0 { ensure!(rel(out[i], mean(e), 1e-4, 1e-6), "mean {} at {:?}, the iteration gives {} (coefficients {:?})", out[i], r, mean(e), b); }
            }
            c.saw_f(out.data());
            Ok(())
        }
        match fam {
            0 => go(c, || Normal, |m| m, |e| e, &base, &y, us, off),
            1 => go(c, || Bernoulli, |m| (m / (1.0 - m)).ln(), sigma, &base, &y, us, off),
            2 => go(c, || Poisson, |m| m.ln(), |e| e.exp(), &base, &y, us, off),
            3 => go(c, || GammaLog, |m| m.ln(), |e| e.exp(), &base, &y, us, off),
            _ => go(c, || NormalLog, |m| m.ln(), |e| e.exp(), &base, &y, us, off),
        }
    });
    p.add("counts", "Poisson with large counts (to 1e6) and with a slope over 5 decades, Bernoulli with fractions as targets", |c| {
        let big = c.of(&[1.0, 10.0, 100.0, 1e4, 1e6]);
        let x: Rows = (0..5).map(|i| vec![i as f64 * 0.5]).collect();
        if c.bool() {
            let sl = c.of(&[0.0, 0.7, 2.0]);
            let y: Vec<f64> = (0..5).map(|i| (big * (sl * i as f64 * 0.5).exp() + (i % 2) as f64).round()).collect();
            family(c, 2, &x, &y)
        } else {
            let y = c.vec_of(5, &[0.25, 0.5, 0.9]);
            family(c, 1, &x, &y)
        }
    });
    p.add("links", "logit, log and identity link, 60 arguments, each also far out (linear predictors to 700, means from 1e-300 to 1e300): function, inverse and derivative belong together", |c| {
        let i = c.pick(60);
        let m = (i as f64 + 0.5) / 60.0;
        c.ops(9);
        fn one<L: LinkFunc>(m: f64, f: fn(f64) -> f64, name: &str) -> R {
            ensure_close!(L::func(m), f(m), 1e-12, "{} link at {}", name, m);
            ensure_close!(L::func_inv(L::func(m)), m, 1e-10, "inverse of the {} link at {}", name, m);
            let h = m.min(1.0 - m).max(1e-3) * 1e-4;
            let d = (f(m - 2.0 * h) - 8.0 * f(m - h) + 8.0 * f(m + h) - f(m + 2.0 * h)) / (12.0 * h);
            ensure!(rel(L::func_grad(m), d, 1e-6, 1e-9), "derivative of the {} link at {} is {}, expected {}", name, m, L::func_grad(m), d);
            Ok(())
        }
        one::<Logit>(m, |m| (m / (1.0 - m)).ln(), "logit")?;
        one::<Log>(m, |m| m.ln(), "log")?;
        one::<Log>(m * 50.0 + 1.0, |m| m.ln(), "log")?;
        one::<Identity>(m * 20.0 - 9.0, |m| m, "identity")?;
        for k in 0..24 {
            // far out on both sides
            let e = (k as f64 - 12.0) * 58.0 + m * 58.0;
            let sigma = if e < 0.0 { e.exp() / (1.0 + e.exp()) } else { 1.0 / (1.0 + (-e).exp()) };
            ensure!(rel(Logit::func_inv(e), sigma, 1e-12, 1e-305), "logistic function of {} is {}, expected {}", e, Logit::func_inv(e), sigma);
            ensure!(rel(Log::func_inv(e), e.exp(), 1e-12, 1e-305), "exponential of {} is {}", e, Log::func_inv(e));
            let x = 10f64.powf((k as f64 - 12.0 + m) * 25.0);
            ensure!(rel(Log::func(x), x.ln(), 1e-12, 1e-12) && rel(Log::func_grad(x), 1.0 / x, 1e-12, 0.0), "logarithm of {} is {} with derivative {}", x, Log::func(x), Log::func_grad(x));
            ensure!(Identity::func(x) == x && Identity::func_inv(-x) == -x && Identity::func_grad(x) == 1.0, "identity at {}", x);
            let q = 10f64.powf((k as f64 + m) * -12.5);
            if q < 0.4 {
                ensure!(rel(Logit::func(q), (q / (1.0 - q)).ln(), 1e-12, 1e-12) && rel(Logit::func_grad(q), 1.0 / (q * (1.0 - q)), 1e-12, 0.0), "logit of {} is {} with derivative {}", q, Logit::func(q), Logit::func_grad(q));
            }
        }
        for e in [-800.0, -40.0, 40.0, 800.0] { let v = Logit::func_inv(e); ensure!(v >= 0.0 && v <= 1.0, "logistic function of {} is {}", e, v); }
        Ok(())
    });
    p.add("families", "five families at 99 means from 1e-9 to 1 - 1e-9 (to 1e6 where allowed) and their targets: variance, link and its inverse and gradient, working weight, adjustment follow the definition, starting means are inside the family's range", |c| {
        let fam = c.pick(5);
        let i = c.pick(99);
        let p = if i < 9 { 10f64.powi(i as i32 - 9) } else if i > 89 { 1.0 - 10f64.powi(89 - i as i32) } else { (i as f64 - 9.0 + 0.5) / 82.0 };
        let big = if i < 90 { p * 40.0 } else { 10f64.powi(i as i32 - 92) };
        c.op();
        c.note(format!("family {} mean {} or {}", fam, p, big));
        match fam {
            0 => { criterion_is(&Normal, "Normal", -big, |m| m, |e| e, |_| 1.0, |_| 1.0, &[0.0, 1.0, -2.5, 1e9])?; criterion_is(&Normal, "Normal", big, |m| m, |e| e, |_| 1.0, |_| 1.0, &[0.0, 1.0, -2.5, 1e9]) }
            1 => criterion_is(&Bernoulli, "Bernoulli", p, |m| (m / (1.0 - m)).ln(), sigma, |m| m * (1.0 - m), |m| 1.0 / (m * (1.0 - m)), &[0.0, 1.0, 0.25, 0.5]),
            2 => criterion_is(&Poisson, "Poisson", big, |m| m.ln(), |e| e.exp(), |m| m, |m| 1.0 / m, &[0.0, 1.0, 7.0, 1e6]),
            3 => criterion_is(&GammaLog, "own family (gamma, log link)", big, |m| m.ln(), |e| e.exp(), |m| m * m, |m| 1.0 / m, &[0.5, 1.0, 7.0, 1e6]),
            _ => criterion_is(&NormalLog, "own family (normal, log link)", big, |m| m.ln(), |e| e.exp(), |_| 1.0, |m| 1.0 / m, &[0.5, 1.0, 7.0, 1e6]),
        }
    });
    p.add("histories", "every sequence of up to 3 (thorough 4) operations out of: train on 3 data sets (one singular), train with too few or too many targets: the model is that of the last successful training, mismatches and use before training are errors", |c| {
        let sets: [(Rows, Vec<f64>); 3] = [(vec![vec![0.0], vec![1.0], vec![3.0], vec![4.0]], vec![1.0, 0.0, 1.0, 0.0]), (vec![vec![2.0], vec![2.0]], vec![1.0, 0.0]), (vec![vec![0.0, 1.0], vec![0.5, -1.0], vec![1.0, 0.0], vec![-1.0, 0.5]], vec![1.0, 0.0, 1.0, 1.0])];
        let fam = c.pick(3);
        let mut m = Any::new(fam);
        let mut cur: Option<(Vec<f64>, usize)> = None;
        for _ in 0..c.range(1, c.tier(3, 4)) {
            let op = c.pick(5);
            c.op();
            c.note(format!("family {} op {}", fam, op));
            let s = [0, 1, 2, 0, 0][op];
            let k = sets[s].0[0].len();
            let mut y = sets[s].1.clone();
            if op == 3 { y.pop(); } else if op == 4 { y.push(1.0); }
            let x = from_rows(&sets[s].0, k);
            let r = guard(|| m.train(&x, &vector(&y)))?;
            if op >= 3 { ensure!(err_kind(&r) == "InvalidData", "{} targets for {} rows: {}", y.len(), x.rows(), err_kind(&r)); }
            else if op == 1 { if r.is_ok() { return Ok(()); } }
            else {
                r.map_err(|e| format!("{}", e))?;
                let mut f = Any::new(fam);
                f.train(&x, &vector(&y)).map_err(|e| format!("{}", e))?;
                cur = Some((f.predict(&from_rows(&probes(k), k)).map_err(|e| format!("{}", e))?.data().to_vec(), k));
            }
            match cur {
                None => ensure!(err_kind(&m.predict(&x)) == "UntrainedModel", "prediction of an untrained model"),
                Some((ref want, k)) => { let p = m.predict(&from_rows(&probes(k), k)).map_err(|e| format!("{}", e))?; ensure!(close_all(want, p.data(), 1e-12), "predictions {:?}, a fresh model gives {:?}", p.data(), want); }
            }
        }
        Ok(())
    });
    p
}
enum Any { N(GenLinearModel<Normal>), B(GenLinearModel<Bernoulli>), P(GenLinearModel<Poisson>) }
type LR<T> = Result<T, rusty_machine::learning::error::Error>;
impl Any {
    fn new(f: usize) -> Any { match f { 0 => Any::N(GenLinearModel::new(Normal)), 1 => Any::B(GenLinearModel::new(Bernoulli)), _ => Any::P(GenLinearModel::new(Poisson)) } }
    fn train(&mut self, x: &M, y: &Vector<f64>) -> LR<()> { match *self { Any::N(ref mut m) => m.train(x, y), Any::B(ref mut m) => m.train(x, y), Any::P(ref mut m) => m.train(x, y) } }
    fn predict(&self, x: &M) -> LR<Vector<f64>> { match *self { Any::N(ref m) => m.predict(x), Any::B(ref m) => m.predict(x), Any::P(ref m) => m.predict(x) } }
}
