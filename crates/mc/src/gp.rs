//! C30 Gaussian process regression.
use crate::util::*;
use mce::*;
use rusty_machine::learning::gp::{ConstMean, GaussianProcess, MeanFunc};
use rusty_machine::learning::toolkit::kernel::{Exponential, Kernel, Linear, Polynomial, SquaredExp};
use rusty_machine::learning::SupModel;

#[derive(Clone)]
struct Mean(usize);
impl Mean {
    fn at(&self, x: &[f64]) -> f64 { match self.0 { 0 => 0.0, 1 => 3.0, _ => 1.0 + x.iter().enumerate().map(|(i, v)| (i + 1) as f64 * v).sum::<f64>() } }
}
impl MeanFunc for Mean { fn func(&self, x: M) -> Vector<f64> { Vector::new(to_rows(&x).iter().map(|r| self.at(r)).collect::<Vec<_>>()) } }
/// Products of features are weighted; positive semidefinite.
struct Own;
impl Kernel for Own { fn kernel(&self, a: &[f64], b: &[f64]) -> f64 { 1.0 + dot(a, b) + (dot(a, b)).powi(2) + (-(d2(a, b))).exp() } }
pub struct Dyn(Box<dyn Kernel>);
impl Kernel for Dyn { fn kernel(&self, a: &[f64], b: &[f64]) -> f64 { self.0.kernel(a, b) } }
fn kernel(i: usize) -> Dyn { Dyn(match i { 0 => Box::new(SquaredExp::default()), 1 => Box::new(Exponential::new(0.7, 2.0)), 2 => Box::new(Linear::new(1.0)), 3 => Box::new(Polynomial::new(1.0, 1.0, 2.0)), 4 => Box::new(SquaredExp::new(2.0, 0.5)), _ => Box::new(Own) }) }
fn gram(k: &Dyn, a: &Rows, b: &Rows) -> Rows { a.iter().map(|x| b.iter().map(|y| k.kernel(x, y)).collect()).collect() }
type G = GaussianProcess<Dyn, Mean>;

enum Fit { Good(Rows), Bad, Border }
/// Inverse of the kernel matrix with noise, or that it is not positive definite.
fn fit(k: &Dyn, noise: f64, x: &Rows) -> Fit {
    let mut g = gram(k, x, x);
    for i in 0..x.len() { g[i][i] += noise; }
    let (e, v) = eigen(&g);
    let (hi, lo) = (e[0].abs().max(e[e.len() - 1].abs()), e[e.len() - 1]);
    if lo < -1e-6 * hi { return Fit::Bad; }
    if lo < 1e-5 * hi { return Fit::Border; }
    let n = x.len();
    Fit::Good((0..n).map(|i| (0..n).map(|j| (0..n).map(|l| v[l][i] * v[l][j] / e[l]).sum()).collect()).collect())
}
fn check_post(c: &Ch, g: &G, k: &Dyn, mean: &Mean, noise: f64, x: &Rows, y: &[f64], q: &Rows, tol: f64) -> R {
    let d = q[0].len();
    let p = g.predict(&from_rows(q, d)).map_err(|e| format!("predict: {}", e))?.into_vec();
    let (pm, pv) = g.get_posterior(&from_rows(q, d)).map_err(|e| format!("get_posterior: {}", e))?;
    shape_is(&pv, q.len(), q.len(), "posterior covariance")?;
    ensure!(p.len() == q.len() && pm.size() == q.len(), "{} predictions and {} means for {} rows", p.len(), pm.size(), q.len());
    let inv = match fit(k, noise, x) { Fit::Good(i) => i, _ => return Ok(()) };
    let r: Vec<f64> = x.iter().zip(y).map(|(x, y)| y - mean.at(x)).collect();
    let kq = gram(k, q, x);
    let kk = gram(k, q, q);
    let a: Vec<f64> = inv.iter().map(|row| dot(row, &r)).collect();
    let sc = a.iter().fold(1.0f64, |s, v| s.max(v.abs())) * kq.iter().flatten().fold(1.0f64, |s, v| s.max(v.abs()));
    for i in 0..q.len() {
        let m = mean.at(&q[i]) + dot(&kq[i], &a);
        ensure!((p[i] - m).abs() <= tol * sc && (pm[i] - m).abs() <= tol * sc, "mean at {:?} is {} (predict) and {} (posterior), expected {}", q[i], p[i], pm[i], m);
        let w: Vec<f64> = inv.iter().map(|row| dot(row, &kq[i])).collect();
        let sv = w.iter().fold(1.0f64, |s, v| s.max(v.abs())) * kk.iter().chain(&kq).flatten().fold(1.0f64, |s, v| s.max(v.abs()));
        for j in 0..q.len() {
            let v = kk[i][j] - dot(&w, &kq[j]);
            ensure!((pv[[i, j]] - v).abs() <= tol * sv, "covariance of {:?} and {:?} is {}, expected {}", q[i], q[j], pv[[i, j]], v);
        }
    }
    c.saw_f(&p);
    Ok(())
}
fn case(c: &Ch, k: usize, mean: usize, noise: f64, x: &Rows, y: &[f64], q: &Rows) -> R {
    c.note(format!("kernel {} mean {} noise {} x {:?} y {:?}", k, mean, noise, x, y));
    c.ops(3);
    let d = q[0].len();
    let mut g = GaussianProcess::new(kernel(k), Mean(mean), noise);
    let r = g.train(&from_rows(x, d), &Vector::new(y.to_vec()));
    match fit(&kernel(k), noise, x) {
        Fit::Bad => ensure!(r.is_err(), "a kernel matrix that is not positive definite was accepted"),
        Fit::Good(_) => ensure!(r.is_ok(), "training fails with {}", err_kind(&r)),
        Fit::Border => {}
    }
    if r.is_err() {
        ensure!(g.predict(&from_rows(q, d)).is_err() && g.get_posterior(&from_rows(q, d)).is_err(), "a result after a failed training");
        return Ok(());
    }
    check_post(c, &g, &kernel(k), &Mean(mean), noise, x, y, q, 1e-7)
}
pub fn process() -> Property {
    let mut p = Property::new("C30");
    p.assume("values are compared while the kernel matrix with noise has a condition number below 1e5; nearly singular ones may be rejected or give any finite model, but never a panic");
    p.add("line", "6 kernels x 3 mean functions x 4 noises x every sequence of 1..=3 (thorough 4) points out of 4 on a line x targets over 3 values, 6 queries: prediction, posterior mean and covariance equal the closed form", |c| {
        let n = c.range(1, c.tier(3, 4));
        let (k, m, noise) = (c.pick(6), c.pick(3), c.of(&[0.0, 0.01, 1.0, 10.0]));
        let x: Rows = c.vec_of(n, &[0.0, 1.0, -1.5, 3.0]).into_iter().map(|v| vec![v]).collect();
        let y = c.vec_of(n, if n < 4 { &[0.0, 1.0, -2.0][..] } else { &[1.0, -2.0][..] });
        case(c, k, m, noise, &x, &y, &vec![vec![0.0], vec![1.0], vec![-1.5], vec![3.0], vec![0.4], vec![-20.0]])
    });
    p.add("plane", "6 kernels x 3 mean functions x 3 noises x every sequence of 1..=3 (4) points out of 4 in the plane, patterned targets, 1..=5 queries", |c| {
        let n = c.range(1, c.tier(3, 4));
        let (k, m, noise) = (c.pick(6), c.pick(3), c.of(&[0.0, 0.1, 2.0]));
        let pts = [[0.0, 0.0], [1.0, 0.5], [-1.0, 2.0], [0.5, -1.5]];
        let x: Rows = (0..n).map(|_| c.of(&pts).to_vec()).collect();
        let q: Rows = [[1.0, 0.5], [0.0, 1.0], [-1.0, 2.0], [2.0, 2.0], [0.0, 0.0]][..c.range(1, 5)].iter().map(|r| r.to_vec()).collect();
        case(c, k, m, noise, &x, &[2.0, -1.0, 0.5, 3.0][..n], &q)
    });
    p.add("sizes", "6 kernels x 3 mean functions, 1..=30 patterned rows of 1..=3 columns, 1..=12 queries", |c| {
        let (k, m) = (c.pick(6), c.pick(3));
        let n = c.range(1, 30);
        let d = c.range(1, 3);
        let row = |i: usize, s: usize| -> Vec<f64> { (0..d).map(|j| ((i * (7 + s) + j * 5) % 31) as f64 * 0.13 - 1.7).collect() };
        let x: Rows = (0..n).map(|i| row(i, 0)).collect();
        let y: Vec<f64> = (0..n).map(|i| ((i * 5) % 9) as f64 - 4.0).collect();
        let q: Rows = (0..c.of(&[1usize, 4, 12])).map(|i| row(i, 2)).collect();
        case(c, k, m, 0.5, &x, &y, &q)
    });
    p.add("queries", "6 kernels x 3 mean functions, 2, 9 or 35 patterned rows of 1 or 2 columns, 20 to 260 queries at once, far and near: means and every covariance", |c| {
        let (k, m) = (c.pick(6), c.pick(3));
        let n = c.of(&[2usize, 9, 35]);
        let d = c.range(1, 2);
        let row = |i: usize, s: usize| -> Vec<f64> { (0..d).map(|j| ((i * (7 + s) + j * 5) % 31) as f64 * 0.13 - 1.7).collect() };
        let x: Rows = (0..n).map(|i| row(i, 0)).collect();
        let y: Vec<f64> = (0..n).map(|i| ((i * 5) % 9) as f64 - 4.0).collect();
        let q: Rows = (0..c.of(&[20usize, 33, 64, 65, 70, 130, 260])).map(|i| row(i, 2)).collect();
        case(c, k, m, 0.5, &x, &y, &q)
    });
    p.add("units", "squared exponential and own kernels times a factor from 1e-8 to 1e8 with noise in the same unit, inputs in units from 1e-5 to 1e5, targets and mean from 1e-6 to 1e9, 1..=260 rows, 1..=70 columns: means and covariances scale with the units", |c| {
        let (n, d) = c.of(&[(1usize, 1usize), (2, 2), (9, 1), (33, 3), (64, 2), (90, 6), (260, 2), (80, 70)]);
        let which = c.pick(2);
        let f = c.of(&[1.0, 1e-8, 1e-3, 1e8]);
        let u = c.of(&[1.0, 1e-5, 1e5]);
        let uy = c.of(&[1.0, 1e-6, 1e9]);
        let noise = c.of(&[0.05, 0.5]);
        let off = c.of(&[0.0, 200.0]);
        let row = |i: usize, s: usize| -> Vec<f64> { (0..d).map(|j| off + ((i * (7 + s) + j * 5 + i * j) % 31) as f64 * 0.13 - 1.7).collect() };
        let x: Rows = (0..n).map(|i| row(i, 0)).collect();
        let q: Rows = (0..7).map(|i| row(i, 2)).collect();
        let y: Vec<f64> = (0..n).map(|i| ((i * 5) % 9) as f64 - 4.0).collect();
        struct Own2 { u: f64, f: f64, which: usize }
        impl Kernel for Own2 { fn kernel(&self, a: &[f64], b: &[f64]) -> f64 { let (a, b): (Vec<f64>, Vec<f64>) = (a.iter().map(|v| v / self.u).collect(), b.iter().map(|v| v / self.u).collect()); self.f * if self.which == 0 { SquaredExp::new(1.5, 1.0).kernel(&a, &b) } else { 1.0 / (1.0 + d2(&a, &b)) } } }
        struct Far(f64);
        impl MeanFunc for Far { fn func(&self, x: M) -> Vector<f64> { Vector::new(vec![self.0; x.rows()]) } }
        let times = |r: &Rows| -> Rows { r.iter().map(|r| r.iter().map(|v| v * u).collect()).collect() };
        c.note(format!("{}x{} kernel {} factor {} unit {} target unit {} noise {}", n, d, which, f, u, uy, noise));
        c.ops(3);
        let base = Own2 { u: 1.0, f: 1.0, which };
        let k0 = Dyn(Box::new(base));
        let mut gm = gram(&k0, &x, &x);
        for i in 0..n { gm[i][i] += noise; }
        let mut g = GaussianProcess::new(Own2 { u, f, which }, Far(3.0 * uy), noise * f);
        let mut ys: Vec<f64> = y.iter().map(|v| v * uy).collect();
        g.train(&from_rows(&times(&x), d), &Vector::new(ys.clone())).map_err(|e| format!("train: {}", e))?;
        ys.clear();
        let qm = from_rows(&times(&q), d);
        let p = g.predict(&qm).map_err(|e| format!("predict: {}", e))?.into_vec();
        let (pm, pv) = g.get_posterior(&qm).map_err(|e| format!("get_posterior: {}", e))?;
        let r: Vec<f64> = y.iter().map(|v| v - 3.0).collect();
        let a: Vec<f64> = solve(&gm, &r).ok_or("singular")?;
        let (kq, kk) = (gram(&k0, &q, &x), gram(&k0, &q, &q));
        let sc = a.iter().fold(1.0f64, |s, v| s.max(v.abs()));
        for i in 0..q.len() {
            let m = 3.0 + dot(&kq[i], &a);
            ensure!((p[i] / uy - m).abs() <= 1e-7 * sc && (pm[i] / uy - m).abs() <= 1e-7 * sc, "mean at {:?} is {} (predict) and {} (posterior) units, expected {}", q[i], p[i] / uy, pm[i] / uy, m);
            let w: Vec<f64> = solve(&gm, &kq[i]).ok_or("singular")?;
            for j in 0..q.len() { let v = kk[i][j] - dot(&w, &kq[j]); ensure!((pv[[i, j]] / f - v).abs() <= 1e-7 * sc, "covariance of {:?} and {:?} is {} units, expected {}", q[i], q[j], pv[[i, j]] / f, v); }
        }
        c.saw_f(&p);
        Ok(())
    });
    p.add("defaults", "the default process has the default squared exponential kernel, zero mean and no noise; the public noise counts when training", |c| {
        let n = c.range(1, 3);
        let x: Rows = c.vec_of(n, &[0.0, 1.0, -1.5, 3.0]).into_iter().map(|v| vec![v]).collect();
        let y = c.vec_of(n, &[0.0, 1.0, -2.0]);
        let noise = c.of(&[None, Some(0.0), Some(0.3), Some(10.0)]);
        let q = vec![vec![0.0], vec![1.0], vec![0.3]];
        c.note(format!("noise {:?} x {:?} y {:?}", noise, x, y));
        c.ops(2);
        let mut a = GaussianProcess::default();
        if let Some(v) = noise { a.noise = v; }
        let mut b = GaussianProcess::new(SquaredExp::default(), ConstMean::default(), noise.unwrap_or(0.0));
        let mut g = GaussianProcess::new(Dyn(Box::new(SquaredExp::default())), Mean(0), noise.unwrap_or(0.0));
        let (mx, my) = (from_rows(&x, 1), Vector::new(y.clone()));
        let (ra, rb, rg) = (a.train(&mx, &my).is_ok(), b.train(&mx, &my).is_ok(), g.train(&mx, &my).is_ok());
        ensure!(ra == rb && rb == rg, "training: default {} new {} custom mean {}", ra, rb, rg);
        if !ra { return Ok(()); }
        let f = |r: Result<Vector<f64>, _>| -> Result<Vec<f64>, String> { r.map(|v: Vector<f64>| v.into_vec()).map_err(|e: rusty_machine::learning::error::Error| format!("{}", e)) };
        let mq = from_rows(&q, 1);
        let (pa, pb, pg) = (f(a.predict(&mq))?, f(b.predict(&mq))?, f(g.predict(&mq))?);
        if let Fit::Good(_) = fit(&Dyn(Box::new(SquaredExp::default())), noise.unwrap_or(0.0), &x) { ensure!(close_all(&pa, &pb, 1e-7) && close_all(&pa, &pg, 1e-7), "predictions {:?} {:?} {:?}", pa, pb, pg); }
        check_post(c, &g, &Dyn(Box::new(SquaredExp::default())), &Mean(0), noise.unwrap_or(0.0), &x, &y, &q, 1e-7)
    });
    p.add("histories", "every history of up to 4 (thorough 5) operations out of: train on 3 data sets of different size and width, train on data that are not positive definite, predict or posterior with 1 or 2 columns: answers belong to the last successful training", |c| {
        let len = c.range(1, c.tier(4, 5));
        let ops: Vec<usize> = (0..len).map(|_| c.pick(6)).collect();
        c.note(format!("{:?}", ops));
        c.ops(len as u64);
        let sets: [(Rows, Vec<f64>); 3] = [(vec![vec![0.0], vec![1.0]], vec![1.0, -1.0]), (vec![vec![2.0], vec![-1.0], vec![0.5]], vec![0.0, 3.0, 1.0]), (vec![vec![1.0, 1.0]], vec![2.0])];
        let k = || Dyn(Box::new(SquaredExp::default()));
        let mut g = GaussianProcess::new(k(), Mean(2), 0.0);
        let mut now = None;
        for op in &ops {
            match *op {
                0..=2 => { let (x, y) = &sets[*op]; g.train(&from_rows(x, x[0].len()), &Vector::new(y.clone())).map_err(|e| format!("{}", e))?; now = Some(*op); }
                // noise below zero: not positive definite
                3 => { g.noise = -3.0; let r = g.train(&mat(2, 1, vec![5.0, 6.0]), &Vector::new(vec![1.0, 2.0])); g.noise = 0.0; ensure!(r.is_err(), "training with an indefinite matrix succeeds"); }
                w => {
                    let d = w - 3;
                    let q = vec![vec![0.3; d], vec![1.0; d]];
                    match now {
                        Some(s) if sets[s].0[0].len() == d => check_post(c, &g, &k(), &Mean(2), 0.0, &sets[s].0, &sets[s].1, &q, 1e-7)?,
                        _ => ensure!(g.predict(&from_rows(&q, d)).is_err() && g.get_posterior(&from_rows(&q, d)).is_err(), "a result for {} columns after training on {:?}", d, now),
                    }
                }
            }
        }
        Ok(())
    });
    p
}
