//! Optimizers: C32 gradient descent family, C33 conjugate gradients.
use crate::util::*;
use mce::*;
use rusty_machine::learning::optim::fmincg::ConjugateGD;
use rusty_machine::learning::optim::grad_desc::{AdaGrad, GradientDesc, RMSProp, StochasticGD};
use rusty_machine::learning::optim::{OptimAlgorithm, Optimizable};
use std::cell::RefCell;
use std::collections::HashMap;

/// A family of differentiable costs, summed over rows; every call is recorded.
#[derive(Clone)]
struct Model { kind: usize, shift: f64, log: RefCell<Vec<(Vec<f64>, Rows, f64)>> }
impl Model {
    fn new(kind: usize, shift: f64) -> Model { Model { kind, shift, log: RefCell::new(vec![]) } }
    fn row(&self, p: &[f64], x: &[f64], t: &[f64]) -> (f64, Vec<f64>) {
        let d = p.len();
        match self.kind {
            // least squares, one output
            0 => { let r = dot(p, x) - t[0]; (0.5 * r * r, (0..d).map(|j| r * x[j]).collect()) }
            // separable quartic-ish, gradient zero in unused coordinates
            1 => {
                let c = (0..d).map(|j| if x[j] == 0.0 { 0.0 } else { (p[j] - t[0]).powi(4) / 4.0 + 0.5 * (p[j] - x[j]).powi(2) }).sum();
                (c, (0..d).map(|j| if x[j] == 0.0 { 0.0 } else { (p[j] - t[0]).powi(3) + p[j] - x[j] }).collect())
            }
            // bounded and not convex
            _ => ((0..d).map(|j| -(p[j] - x[j] * t[0]).cos()).sum(), (0..d).map(|j| (p[j] - x[j] * t[0]).sin()).collect()),
        }
    }
    fn eval(&self, p: &[f64], x: &Rows, t: &Rows) -> (f64, Vec<f64>) {
        let n = x.len() as f64;
        let (mut c, mut g) = (self.shift, vec![0.0; p.len()]);
        for (x, t) in x.iter().zip(t) {
            let (a, b) = self.row(p, x, t);
            c += a / n;
            for j in 0..g.len() { g[j] += b[j] / n; }
        }
        (c, g)
    }
}
impl Optimizable for Model {
    type Inputs = M;
    type Targets = M;
    fn compute_grad(&self, p: &[f64], x: &M, t: &M) -> (f64, Vec<f64>) {
        let (x, t) = (to_rows(x), to_rows(t));
        let (c, g) = self.eval(p, &x, &t);
        self.log.borrow_mut().push((p.to_vec(), x, c));
        (c, g)
    }
}

/// A cost whose gradients depend on the number of the call only; costs never repeat.
struct Long { d: usize, scale: usize, at: RefCell<Vec<Vec<f64>>>, rows: RefCell<Vec<usize>> }
impl Long {
    fn grad(&self, k: usize) -> Vec<f64> {
        (0..self.d).map(|j| {
            let u = (k * 7 + j * 13) % 37;
            let s = if (k * 5 + j * 3) % 11 < 5 { -1.0 } else { 1.0 };
            match self.scale {
                // all of one size
                0 => s * (0.25 + u as f64 / 37.0),
                1 => s * (0.25 + u as f64 / 37.0) * 1e3,
                // from 1e-8 to 1e8, some zero
                _ => if u % 9 == 4 { 0.0 } else { s * 10f64.powi(u as i32 % 17 - 8) },
            }
        }).collect()
    }
}
impl Optimizable for Long {
    type Inputs = M;
    type Targets = M;
    fn compute_grad(&self, p: &[f64], x: &M, t: &M) -> (f64, Vec<f64>) {
        let mut at = self.at.borrow_mut();
        let k = at.len();
        at.push(p.to_vec());
        // which row, or that all of them were given
        let r = if x.rows() == 1 && t.rows() == 1 && x[[0, 0]] == t[[0, 0]] { x[[0, 0]] as usize } else { usize::max_value() - x.rows() };
        self.rows.borrow_mut().push(r);
        (k as f64 + 1.0, self.grad(k))
    }
}
/// Check a recorded batch run step by step.
fn check_gd(m: &Model, start: &[f64], x: &Rows, t: &Rows, alpha: f64, iters: usize, got: &[f64]) -> R {
    let log = m.log.borrow();
    ensure!(log.len() <= iters, "{} evaluations for {} iterations", log.len(), iters);
    let l = log.len();
    let step = |p: &[f64]| -> Vec<f64> { let g = m.eval(p, x, t).1; (0..p.len()).map(|j| p[j] - alpha * g[j]).collect() };
    for (k, e) in log.iter().enumerate() {
        ensure!(e.1.len() == x.len(), "evaluation {} uses {} of {} rows", k, e.1.len(), x.len());
        if k + 1 < l { ensure!(close_all(&step(&e.0), &log[k + 1].0, 1e-9), "step {} from {:?} goes to {:?}, expected {:?}", k, e.0, log[k + 1].0, step(&e.0)); }
    }
    if l == 0 { ensure!(iters == 0 && same(got, start), "{} iterations without evaluation", iters); return Ok(()); }
    ensure!(same(&log[0].0, start), "starts from {:?}", log[0].0);
    let last = &log[l - 1];
    let still = l >= 2 && (last.2 - log[l - 2].2).abs() <= 1e-15 * (1.0 + last.2.abs());
    let moved = close_all(&step(&last.0), got, 1e-9);
    ensure!(moved || (still && close_all(&last.0, got, 1e-9)), "last step from {:?} goes to {:?}, expected {:?}", last.0, got, step(&last.0));
    ensure!(l == iters || still, "stopped after {} of {} iterations with costs {:?}", l, iters, log.iter().map(|e| e.2).collect::<Vec<_>>());
    Ok(())
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum S { Sgd(f64, f64), Ada(f64, f64), Rms(f64, f64, f64) }
impl S {
    fn run(self, m: &Model, start: &[f64], x: &M, t: &M, iters: usize) -> Vec<f64> {
        match self {
            S::Sgd(a, mu) => StochasticGD::new(a, mu, iters).optimize(m, start, x, t),
            S::Ada(a, tau) => AdaGrad::new(a, tau, iters).optimize(m, start, x, t),
            S::Rms(l, d, e) => RMSProp::new(l, d, e, iters).optimize(m, start, x, t),
        }
    }
}
/// The documented update from each recorded position (so that rounding does not build up): the next position of each.
fn ref_stoch(s: S, m: &Model, at: &[Vec<f64>], rows: &[usize], x: &Rows, t: &Rows) -> Vec<Vec<f64>> {
    let mut v = vec![0.0; at.get(0).map_or(0, |p| p.len())];
    at.iter().zip(rows).map(|(p, &i)| {
        let mut p = p.clone();
        let (_, g) = m.eval(&p, &vec![x[i].clone()], &vec![t[i].clone()]);
        for j in 0..p.len() { match s {
            S::Sgd(a, mu) => { let old = v[j]; v[j] = mu * g[j] + a * old; p[j] -= (1.0 + a) * v[j] - a * old; }
            S::Ada(a, tau) => { v[j] += g[j] * g[j]; if g[j] != 0.0 { p[j] -= a * g[j] / (tau + v[j].sqrt()); } }
            S::Rms(l, r, e) => { v[j] = r * v[j] + (1.0 - r) * g[j] * g[j]; p[j] -= l * g[j] / (v[j] + e).sqrt(); }
        } }
        p
    }).collect()
}
/// Check one run against its own recorded row order. Returns the orders.
fn check_run(s: S, m: &Model, start: &[f64], x: &Rows, t: &Rows, iters: usize, got: &[f64]) -> Result<Vec<Vec<usize>>, String> {
    let n = x.len();
    let log = m.log.borrow();
    let mut orders: Vec<Vec<usize>> = vec![];
    for (k, (_, rows, _)) in log.iter().enumerate() {
        ensure!(rows.len() == 1, "a step used {} rows", rows.len());
        if k % n == 0 { orders.push(vec![]); }
        let i = x.iter().position(|r| *r == rows[0]).ok_or("a step used a row that is not in the data")?;
        let o = orders.last_mut().unwrap();
        ensure!(!o.contains(&i), "row {} used twice in pass {}", i, k / n);
        o.push(i);
    }
    ensure!(log.len() % n == 0 && orders.len() <= iters, "{} steps for {} rows and {} passes", log.len(), n, iters);
    let at: Vec<Vec<f64>> = log.iter().map(|x| x.0.clone()).collect();
    let want = ref_stoch(s, m, &at, &orders.concat(), x, t);
    let mut next: Vec<Vec<f64>> = at.clone();
    next.push(got.to_vec());
    ensure!(same(&next[0], start) || iters == 0, "starts from {:?} instead of {:?}", next[0], start);
    if log.is_empty() { ensure!(same(got, start), "no steps, but the result is {:?} (start {:?})", got, start); }
    for (k, w) in want.iter().enumerate() { ensure!(close_all(w, &next[k + 1], 1e-9), "step {} from {:?} goes to {:?}, expected {:?} (orders {:?})", k, at[k], next[k + 1], w, orders); }
    // fewer passes than asked for only after an unchanged cost
    if orders.len() < iters {
        let costs: Vec<f64> = log.chunks(n).map(|c| c.iter().map(|x| x.2).sum::<f64>() / n as f64).collect();
        let k = costs.len();
        ensure!(k >= 2 && (costs[k - 1] - costs[k - 2]).abs() < 1e-15 * (1.0 + costs[k - 1].abs()), "stopped after {} of {} passes with costs {:?}", k, iters, costs);
    }
    Ok(orders)
}
fn stoch_case(c: &Ch, s: S, m: &Model, start: &[f64], x: &Rows, t: &Rows, iters: usize) -> R {
    let (mx, mt) = (from_rows(x, start.len()), from_rows(t, 1));
    c.note(format!("{:?} kind {} shift {} start {:?} rows {:?} targets {:?} iters {}", s, m.kind, m.shift, start, x, t, iters));
    let out = c.distribution(|| {
        m.log.borrow_mut().clear();
        let got = s.run(m, start, &mx, &mt, iters);
        check_run(s, m, start, x, t, iters, &got).map(|o| (o, got))
    });
    let mut by: HashMap<Vec<Vec<usize>>, f64> = HashMap::new();
    let exact = out.iter().all(|x| x.2);
    for (r, p, _) in out { let (o, got) = r?; c.saw_f(&got); *by.entry(o).or_insert(0.0) += p; }
    let f: f64 = (1..=x.len()).map(|i| i as f64).product();
    if exact { for (o, p) in &by { ensure!(close(*p, f.powi(-(o.len() as i32)), 1e-9), "row orders {:?} have probability {}", o, p); } }
    Ok(())
}
const STOCH: [S; 9] = [S::Sgd(0.1, 0.1), S::Sgd(0.9, 0.02), S::Sgd(0.5, 1.5), S::Ada(1.0, 3.0), S::Ada(0.5, 0.0), S::Ada(0.25, 0.125), S::Rms(0.01, 0.9, 1e-5), S::Rms(0.5, 0.125, 1e-2), S::Rms(0.1, 0.99, 1.0)];

pub fn descent() -> Property {
    let mut p = Property::new("C32");
    p.add("batch", "gradient descent: 3 cost families, 1 or 2 parameters over 4 start values, every pair of rows over a 3x2 grid, 3 step sizes, 0..=5 (thorough 12) iterations, first cost shifted to be exactly zero or not: parameters equal the stated number of steps against the gradient, ended early only by an unchanged cost", |c| {
        let kind = c.pick(3);
        let d = c.range(1, 2);
        let start = c.vec_of(d, &[0.0, 1.0, -0.5, 2.0]);
        let n = c.range(1, 2);
        let x: Rows = (0..n).map(|_| c.vec_of(d, &[0.0, 1.0, -1.5])).collect();
        let t: Rows = (0..n).map(|_| vec![c.of(&[1.0, -2.0])]).collect();
        let alpha = c.of(&[0.05, 0.3, 1.0]);
        let iters = c.of(c.tier(&[0, 1, 2, 5][..], &[0, 1, 2, 3, 7, 12]));
        let mut m = Model::new(kind, 0.0);
        if c.bool() { m.shift = -m.eval(&start, &x, &t).0; }
        c.note(format!("kind {} shift {} start {:?} x {:?} t {:?} alpha {} iters {}", kind, m.shift, start, x, t, alpha, iters));
        c.ops(1 + iters as u64);
        let got = GradientDesc::new(alpha, iters).optimize(&m, &start, &from_rows(&x, d), &from_rows(&t, 1));
        c.saw_f(&got);
        check_gd(&m, &start, &x, &t, alpha, iters, &got)
    });
    p.add("stochastic", "StochasticGD, AdaGrad (also without adaptive constant) and RMSProp with 3 settings each: 3 cost families, 1..=3 distinct rows, 2 starts, 0..=2 passes, every random row order with exact probabilities: every pass visits every row once, orders are uniform and independent, each step follows the documented update", |c| {
        let s = c.of(&STOCH);
        let kind = c.pick(3);
        let d = c.range(1, 2);
        let n = c.range(1, 3);
        let iters = c.range(0, c.tier(2, if n < 3 { 4 } else { 3 }));
        let pool: Rows = if d == 1 { vec![vec![1.0], vec![-0.5], vec![0.0], vec![2.0]] } else { vec![vec![1.0, 0.0], vec![0.5, -1.0], vec![0.0, 2.0], vec![-1.0, 1.5]] };
        let sets = subsets(4, n);
        let x: Rows = c.of(&sets).iter().map(|i| pool[*i].clone()).collect();
        let t: Rows = (0..n).map(|i| vec![[1.0, -0.5, 0.25][i]]).collect();
        let start = if c.bool() { vec![0.0; d] } else { (0..d).map(|j| 1.0 - 2.5 * j as f64).collect() };
        let mut m = Model::new(kind, 0.0);
        if c.bool() { let k = x.iter().zip(&t).map(|(x, t)| m.eval(&start, &vec![x.clone()], &vec![t.clone()]).0).sum::<f64>() / n as f64; if n == 1 { m.shift = -k; } else { m.shift = 0.5; } }
        stoch_case(c, s, &m, &start, &x, &t, iters)
    });
    p.add("four-rows", "the same with 4 rows and 2 passes (576 orders)", |c| {
        let s = c.of(&STOCH);
        let kind = c.pick(3);
        let x: Rows = vec![vec![1.0, 0.0], vec![0.5, -1.0], vec![0.0, 2.0], vec![-1.0, 1.5]];
        let t: Rows = (0..4).map(|i| vec![[1.0, -0.5, 0.25, 0.0][i]]).collect();
        stoch_case(c, s, &Model::new(kind, 0.0), &[0.5, -1.0], &x, &t, 2)
    });
    p.add("sizes", "5..=40 rows, 1..=6 parameters, 1..=30 passes, three default random answers and one deviating draw (first 8 rows): the same without probabilities", |c| {
        let s = c.of(&STOCH);
        let kind = c.pick(3);
        let n = c.of(&[5usize, 7, 8, 16, 33, 40]);
        let d = c.range(1, 6);
        let iters = c.of(&[1usize, 3, 30]);
        let dflt = c.of(&[Default_::Zero, Default_::Max, Default_::Half]);
        let x: Rows = (0..n).map(|i| (0..d).map(|j| ((i * 5 + j * 3) % 7) as f64 * 0.2 - 0.5 + i as f64 * 1e-3).collect()).collect();
        let t: Rows = (0..n).map(|i| vec![(i % 5) as f64 * 0.25 - 0.4]).collect();
        let start: Vec<f64> = (0..d).map(|j| 0.3 * j as f64 - 0.5).collect();
        let m = Model::new(kind, 0.0);
        let (mx, mt) = (from_rows(&x, d), from_rows(&t, 1));
        c.note(format!("{:?} kind {} rows {} params {} passes {}", s, kind, n, d, iters));
        c.deviations(dflt, if n <= 8 && iters == 1 { 1 } else { 0 }, || {
            m.log.borrow_mut().clear();
            let got = s.run(&m, &start, &mx, &mt, iters);
            check_run(s, &m, &start, &x, &t, iters, &got).map(|_| ())
        }, |r| r).map(|_| ())
    });
    p.add("batch-sizes", "gradient descent with 1..=40 rows, 1..=6 parameters, up to 200 iterations", |c| {
        let kind = c.pick(3);
        let n = c.of(&[1usize, 5, 16, 40]);
        let d = c.range(1, 6);
        let iters = c.of(&[1usize, 10, 100, 200]);
        let x: Rows = (0..n).map(|i| (0..d).map(|j| ((i * 5 + j * 3) % 7) as f64 * 0.2 - 0.5).collect()).collect();
        let t: Rows = (0..n).map(|i| vec![(i % 5) as f64 * 0.25 - 0.4]).collect();
        let start: Vec<f64> = (0..d).map(|j| 0.3 * j as f64 - 0.5).collect();
        let m = Model::new(kind, 0.0);
        c.op();
        let got = GradientDesc::new(0.2, iters).optimize(&m, &start, &from_rows(&x, d), &from_rows(&t, 1));
        c.note(format!("n {} d {} iters {}", n, d, iters));
        check_gd(&m, &start, &x, &t, 0.2, iters, &got)
    });
    p.add("units", "four optimizers on least squares in units from 1e-4 to 1e4 with targets from 1e-6 to 1e6, 2..=300 rows, 1..=20 parameters, up to 400 passes: each step follows the documented update, whatever the units", |c| {
        let which = c.pick(4);
        let (n, d, iters) = c.of(&[(2usize, 1usize, 400usize), (9, 20, 40), (33, 3, 100), (128, 2, 10), (300, 4, 3)]);
        let u = c.of(&[1.0, 1e-4, 1e4]);
        let ut = c.of(&[1.0, 1e-6, 1e6]);
        let x: Rows = (0..n).map(|i| (0..d).map(|j| (((i * 5 + j * 3) % 7) as f64 * 0.2 - 0.5 + i as f64 * 1e-5) * u).collect()).collect();
        let t: Rows = (0..n).map(|i| vec![((i % 5) as f64 * 0.25 - 0.4) * ut]).collect();
        // parameters in units of ut / u
        let up = ut / u;
        let start: Vec<f64> = (0..d).map(|j| (0.3 * (j % 4) as f64 - 0.5) * up).collect();
        let m = Model::new(0, 0.0);
        let (mx, mt) = (from_rows(&x, d), from_rows(&t, 1));
        c.note(format!("optimizer {} {}x{} units {} {} passes {}", which, n, d, u, ut, iters));
        // step from recorded position to recorded position
        let near = |w: &[f64], g: &[f64]| w.iter().zip(g).all(|(a, b)| (a - b).abs() <= 1e-9 * (up + a.abs()));
        c.op();
        let mut res = Ok(());
        c.deviations(Default_::Half, 0, || -> R {
            m.log.borrow_mut().clear();
            let (a, b) = (0.2 / d as f64 / u / u, 0.1);
            let (s, got) = match which {
                0 => (None, GradientDesc::new(a, iters).optimize(&m, &start, &mx, &mt)),
                1 => { let s = S::Sgd(b, a); (Some(s), s.run(&m, &start, &mx, &mt, iters)) }
                2 => { let s = S::Ada(0.3 * up, 0.5 * u * ut); (Some(s), s.run(&m, &start, &mx, &mt, iters)) }
                _ => { let s = S::Rms(0.02 * up, 0.9, 1e-3 * u * u * ut * ut); (Some(s), s.run(&m, &start, &mx, &mt, iters)) }
            };
            ensure!(finite(&got) && got.len() == d, "result {:?}", got);
            let log = m.log.borrow();
            let mut at: Rows = log.iter().map(|e| e.0.clone()).collect();
            at.push(got.clone());
            ensure!(same(&at[0], &start), "starts from {:?}", at[0]);
            let l = log.len();
            match s {
                None => for k in 0..l {
                    ensure!(log[k].1.len() == n, "evaluation {} uses {} rows", k, log[k].1.len());
                    let g = m.eval(&at[k], &x, &t).1;
                    let w: Vec<f64> = (0..d).map(|j| at[k][j] - a * g[j]).collect();
                    ensure!(near(&w, &at[k + 1]) || k + 1 == l && l < iters && near(&at[k], &at[k + 1]), "step {} goes to {:?}, expected {:?}", k, at[k + 1], w);
                },
                Some(s) => {
                    ensure!(l % n == 0, "{} steps for {} rows", l, n);
                    let rows: Vec<usize> = log.iter().map(|e| if e.1.len() == 1 { x.iter().position(|r| *r == e.1[0]).unwrap_or(n) } else { n }).collect();
                    for o in rows.chunks(n) { let mut o = o.to_vec(); o.sort(); ensure!(o == (0..n).collect::<Vec<_>>(), "a pass uses the rows {:?}", o); }
                    let want = ref_stoch(s, &m, &at[..l], &rows, &x, &t);
                    for k in 0..l { ensure!(near(&want[k], &at[k + 1]), "step {} from {:?} goes to {:?}, expected {:?}", k, at[k], at[k + 1], want[k]); }
                }
            }
            let per = if s.is_some() { n } else { 1 };
            if l / per < iters {
                let costs: Vec<f64> = log.chunks(per).map(|c| c.iter().map(|x| x.2).sum::<f64>() / per as f64).collect();
                let k = costs.len();
                ensure!(k >= 2 && (costs[k - 1] - costs[k - 2]).abs() <= 1e-14 * costs[k - 1].abs() + 1e-18, "stopped after {} of {} passes with costs {:?}", k, iters, &costs[k.max(3) - 3..]);
            }
            ensure!(l / per <= iters, "{} passes instead of {}", l / per, iters);
            Ok(())
        }, |r| { res = r; Ok(()) })?;
        res
    });
    p.add("long", "the four optimizers on gradients that depend on the number of the call only (one size, 1000 times that, or from 1e-8 to 1e8 with zeros), up to 70001 iterations, 70000 rows or 300 parameters, four default streams: each pass visits every row once, each step follows the documented update, none is left out", |c| {
        let which = c.pick(4);
        let scale = c.pick(3);
        // rows, parameters, passes
        let (n, d, iters) = c.of(&[(1usize, 1usize, 70001usize), (1, 3, 20011), (3, 2, 4099), (257, 1, 70), (65537, 1, 2), (70000, 2, 1), (20, 300, 30), (5, 17, 1000), (2, 65, 2000)]);
        let set = c.pick(2);
        let def = c.of(&[Default_::Zero, Default_::Max, Default_::Half, Default_::Cycle]);
        if which == 0 && (def != Default_::Zero || n > 60000) { return Ok(()); }
        if n > 60000 && (scale == 1 || set == 1) { return Ok(()); }
        let x = mat(n, 1, (0..n).map(|i| i as f64).collect());
        let start: Vec<f64> = (0..d).map(|j| 0.3 * (j % 5) as f64 - 0.5).collect();
        c.note(format!("optimizer {} gradients {} rows {} parameters {} passes {} setting {} {:?}", which, scale, n, d, iters, set, def));
        let mut res = Ok(());
        c.ops((n * iters) as u64);
        c.deviations(def, 0, || -> R {
            let m = Long { d, scale, at: RefCell::new(vec![]), rows: RefCell::new(vec![]) };
            let s = match which { 1 => [S::Sgd(0.1, 0.1), S::Sgd(0.9, 0.02)][set], 2 => [S::Ada(1.0, 3.0), S::Ada(0.25, 0.125)][set], _ => [S::Rms(0.01, 0.9, 1e-5), S::Rms(0.1, 0.999, 1.0)][set] };
            let a = [0.3, 0.01][set];
            let got = match s {
                _ if which == 0 => GradientDesc::new(a, iters).optimize(&m, &start, &x, &x),
                S::Sgd(a, mu) => StochasticGD::new(a, mu, iters).optimize(&m, &start, &x, &x),
                S::Ada(a, tau) => AdaGrad::new(a, tau, iters).optimize(&m, &start, &x, &x),
                S::Rms(l, d, e) => RMSProp::new(l, d, e, iters).optimize(&m, &start, &x, &x),
            };
            let mut at = m.at.borrow_mut();
            let steps = if which == 0 { iters } else { n * iters };
            ensure!(at.len() == steps, "{} evaluations instead of {}", at.len(), steps);
            at.push(got);
            ensure!(same(&at[0], &start), "starts from {:?}", at[0]);
            let rows = m.rows.borrow();
            if which == 0 { ensure!(rows.iter().all(|r| *r == if n == 1 { 0 } else { usize::max_value() - n }), "an iteration does not use all rows"); }
            else { for (k, o) in rows.chunks(n).enumerate() { let mut seen = vec![false; n]; for r in o { ensure!(*r < n && !seen[*r], "pass {} uses row {} twice, or more than one at once", k, r); seen[*r] = true; } } }
            let mut v = vec![0.0; d];
            for k in 0..steps {
                let g = m.grad(k);
                for j in 0..d {
                    let step = match s {
                        _ if which == 0 => a * g[j],
                        S::Sgd(a, mu) => { let old = v[j]; v[j] = mu * g[j] + a * old; (1.0 + a) * v[j] - a * old }
                        S::Ada(a, tau) => { v[j] += g[j] * g[j]; if g[j] == 0.0 { 0.0 } else { a * g[j] / (tau + v[j].sqrt()) } }
                        S::Rms(l, r, e) => { v[j] = r * v[j] + (1.0 - r) * g[j] * g[j]; l * g[j] / (v[j] + e).sqrt() }
                    };
                    let (p, q) = (at[k][j], at[k + 1][j]);
                    // rounding of the accumulated squares grows with their number
                    ensure!((p - step - q).abs() <= (1e-9 + k as f64 * 1e-15) * step.abs() + 1e-14 * (p.abs() + q.abs() + v[j].abs() * 1e-2 * if let S::Sgd(..) = s { 1.0 } else { 0.0 }), "parameter {} of step {} goes from {} to {}, expected {} (gradient {})", j, k, p, q, p - step, g[j]);
                }
            }
            Ok(())
        }, |r| { res = r; Ok(()) })?;
        res
    });
    p.add("repeated", "one optimizer object used for every sequence of 2..=3 (thorough 4) out of 3 problems (two of the same size): each result is what a new optimizer gives for the same random answers", |c| {
        let which = c.pick(4);
        let len = c.range(2, c.tier(3, 4));
        let seq: Vec<usize> = (0..len).map(|_| c.pick(3)).collect();
        c.note(format!("optimizer {} problems {:?}", which, seq));
        let probs: Vec<(Model, Rows, Rows, Vec<f64>)> = vec![
            (Model::new(0, 0.0), vec![vec![1.0, 0.5], vec![-0.5, 2.0]], vec![vec![1.0], vec![0.25]], vec![0.0, 1.0]),
            (Model::new(2, 0.0), vec![vec![0.3, 0.4], vec![-1.0, 0.8]], vec![vec![0.5], vec![-1.0]], vec![0.4, -0.7]),
            (Model::new(0, 0.0), vec![vec![0.2], vec![0.7], vec![-1.0]], vec![vec![0.1], vec![0.2], vec![0.9]], vec![2.0]),
        ];
        let mut res = Ok(());
        c.ops(len as u64);
        c.deviations(Default_::Cycle, 0, || -> R {
            let (gd, sg, ad, rm) = (GradientDesc::new(0.2, 5), StochasticGD::new(0.3, 0.1, 3), AdaGrad::new(0.5, 0.2, 3), RMSProp::new(0.1, 0.8, 1e-3, 3));
            let (gd2, sg2, ad2, rm2) = (|| GradientDesc::new(0.2, 5), || StochasticGD::new(0.3, 0.1, 3), || AdaGrad::new(0.5, 0.2, 3), || RMSProp::new(0.1, 0.8, 1e-3, 3));
            for (k, i) in seq.iter().enumerate() {
                let (m, x, t, s) = &probs[*i];
                let (mx, mt) = (from_rows(x, s.len()), from_rows(t, 1));
                restart_random();
                m.log.borrow_mut().clear();
                let a = match which { 0 => gd.optimize(m, s, &mx, &mt), 1 => sg.optimize(m, s, &mx, &mt), 2 => ad.optimize(m, s, &mx, &mt), _ => rm.optimize(m, s, &mx, &mt) };
                if which == 0 { check_gd(m, s, x, t, 0.2, 5, &a)?; } else { check_run([S::Sgd(0.3, 0.1), S::Ada(0.5, 0.2), S::Rms(0.1, 0.8, 1e-3)][which - 1], m, s, x, t, if which == 0 { 5 } else { 3 }, &a)?; }
                restart_random();
                m.log.borrow_mut().clear();
                let b = match which { 0 => gd2().optimize(m, s, &mx, &mt), 1 => sg2().optimize(m, s, &mx, &mt), 2 => ad2().optimize(m, s, &mx, &mt), _ => rm2().optimize(m, s, &mx, &mt) };
                ensure!(close_all(&a, &b, 1e-12), "call {} ends at {:?}, that of a new optimizer at {:?}", k, a, b);
            }
            Ok(())
        }, |r| { res = r; Ok(()) })?;
        res
    });
    p.add("parameters", "every constructor with every parameter out of {-1, -0, 0, 0.5, 1, 2, NaN}: exactly the documented values are accepted; the defaults are the documented settings", |c| {
        let vals = [-1.0, -0.0, 0.0, 0.5, 1.0, 2.0, f64::NAN];
        let (a, b, e) = (c.of(&vals), c.of(&vals), c.of(&vals));
        let pos = |x: f64| x > 0.0;
        c.ops(4);
        c.note(format!("{} {} {}", a, b, e));
        ensure!(guard(|| GradientDesc::new(a, 3)).is_ok() == pos(a), "GradientDesc::new({})", a);
        ensure!(guard(|| StochasticGD::new(a, b, 3)).is_ok() == (pos(a) && pos(b)), "StochasticGD::new({}, {})", a, b);
        ensure!(guard(|| AdaGrad::new(a, b, 3)).is_ok() == (pos(a) && b >= 0.0), "AdaGrad::new({}, {})", a, b);
        ensure!(guard(|| RMSProp::new(a, b, e, 3)).is_ok() == (pos(a) && pos(b) && b < 1.0 && pos(e)), "RMSProp::new({}, {}, {})", a, b, e);
        Ok(())
    });
    p.add("defaults", "default optimizers on 3 cost families: as the documented settings", |c| {
        let kind = c.pick(3);
        let which = c.pick(4);
        let x: Rows = vec![vec![0.5, -0.4], vec![0.3, 0.8]];
        let t: Rows = vec![vec![0.2], vec![-0.1]];
        let start = [0.4, -0.3];
        let m = Model::new(kind, 0.0);
        let (mx, mt) = (from_rows(&x, 2), from_rows(&t, 1));
        c.op();
        if which == 0 {
            let got = GradientDesc::default().optimize(&m, &start, &mx, &mt);
            return check_gd(&m, &start, &x, &t, 0.3, 100, &got);
        }
        c.deviations(Default_::Zero, 0, || {
            m.log.borrow_mut().clear();
            match which {
                1 => { let got = StochasticGD::default().optimize(&m, &start, &mx, &mt); check_run(S::Sgd(0.1, 0.1), &m, &start, &x, &t, 20, &got) }
                2 => { let got = AdaGrad::default().optimize(&m, &start, &mx, &mt); check_run(S::Ada(1.0, 3.0), &m, &start, &x, &t, 100, &got) }
                _ => { let got = RMSProp::default().optimize(&m, &start, &mx, &mt); check_run(S::Rms(0.01, 0.9, 1e-5), &m, &start, &x, &t, 50, &got) }
            }.map(|_| ())
        }, |r| r).map(|_| ())
    });
    p
}

// ------------------------------------------------------------- conjugate gradients
/// Convex quadratic 0.5 (p-a)' Q (p-a) + shift as a model without data, or one of a few other functions.
struct Fun { q: Rows, a: Vec<f64>, shift: f64, kind: usize, log: RefCell<Vec<(Vec<f64>, f64)>> }
impl Fun {
    fn at(&self, p: &[f64]) -> (f64, Vec<f64>) {
        match self.kind {
            0 => {
                let d: Vec<f64> = p.iter().zip(&self.a).map(|(x, y)| x - y).collect();
                let g: Vec<f64> = self.q.iter().map(|r| dot(r, &d)).collect();
                (0.5 * dot(&g, &d) + self.shift, g)
            }
            // Rosenbrock
            1 => {
                let (x, y) = (p[0], p[1]);
                (100.0 * (y - x * x).powi(2) + (1.0 - x).powi(2), vec![-400.0 * x * (y - x * x) - 2.0 * (1.0 - x), 200.0 * (y - x * x)])
            }
            // softplus sum with linear term: smooth, convex, minimum at finite p
            2 => (p.iter().map(|x| (1.0 + x.exp()).ln() - 0.3 * x).sum(), p.iter().map(|x| 1.0 / (1.0 + (-x).exp()) - 0.3).collect()),
            // bounded oscillation
            3 => (p.iter().map(|x| -x.cos()).sum(), p.iter().map(|x| x.sin()).collect()),
            // chained Rosenbrock: hundreds of iterations
            5 => {
                let mut g = vec![0.0; p.len()];
                let mut v = 0.0;
                for i in 0..p.len() - 1 {
                    let (x, y) = (p[i], p[i + 1]);
                    v += 100.0 * (y - x * x).powi(2) + (1.0 - x).powi(2);
                    g[i] += -400.0 * x * (y - x * x) - 2.0 * (1.0 - x);
                    g[i + 1] += 200.0 * (y - x * x);
                }
                (v, g)
            }
            // exponential decay with the length given by the shift: a long way to the next acceptable point
            6 => (p.iter().map(|x| self.shift * (-x / self.shift).exp()).sum(), p.iter().map(|x| -(-x / self.shift).exp()).collect()),
            // |x|-like but smooth, steep, with undefined values far to the right
            _ => (p.iter().map(|x| if *x > 50.0 { f64::NAN } else { (1.0 + x * x).sqrt() }).sum(), p.iter().map(|x| if *x > 50.0 { f64::NAN } else { x / (1.0 + x * x).sqrt() }).collect()),
        }
    }
}
impl Optimizable for Fun {
    type Inputs = ();
    type Targets = ();
    fn compute_grad(&self, p: &[f64], _: &(), _: &()) -> (f64, Vec<f64>) {
        let r = self.at(p);
        self.log.borrow_mut().push((p.to_vec(), r.0));
        r
    }
}
/// A function of one variable that takes the next of the given values wherever it is first evaluated.
struct Script { answers: Vec<(f64, f64)>, known: RefCell<Vec<(u64, (f64, f64))>>, asked: RefCell<Vec<f64>> }
impl Script {
    fn at(&self, x: f64) -> (f64, Vec<f64>) {
        self.asked.borrow_mut().push(x);
        let mut known = self.known.borrow_mut();
        let a = match known.iter().find(|k| k.0 == x.to_bits()) {
            Some(k) => k.1,
            None => { let a = self.answers[known.len() % self.answers.len()]; known.push((x.to_bits(), a)); a }
        };
        (a.0, vec![a.1])
    }
}
impl Optimizable for Script {
    type Inputs = ();
    type Targets = ();
    fn compute_grad(&self, p: &[f64], _: &(), _: &()) -> (f64, Vec<f64>) { self.at(p[0]) }
}
/// Run; check what holds for every function.
fn cg_run(c: &Ch, f: &Fun, alg: &ConjugateGD, start: &[f64]) -> Result<Vec<f64>, String> {
    f.log.borrow_mut().clear();
    let got = alg.optimize(f, start, &(), &());
    let log = f.log.borrow();
    c.ops(log.len() as u64);
    c.saw_f(&got);
    ensure!(got.len() == start.len(), "{} parameters from {}", got.len(), start.len());
    let (c0, c1) = (f.at(start).0, f.at(&got).0);
    ensure!(c1 <= c0 + 1e-12 * c0.abs(), "cost rises from {} to {} ({:?} to {:?})", c0, c1, start, got);
    ensure!(log.iter().any(|x| close_all(&x.0, &got, 1e-12)) || same(&got, start), "the result {:?} was never evaluated", got);
    ensure!(log.len() <= 1 + alg.iters * (alg.max + 2), "{} evaluations for {} iterations with {} per line search", log.len(), alg.iters, alg.max);
    Ok(got)
}
/// One iteration more either stays or satisfies the Wolfe-Powell conditions along its step.
fn wolfe(f: &Fun, alg: &ConjugateGD, a: &[f64], b: &[f64]) -> R {
    if close_all(a, b, 1e-15) { return Ok(()); }
    let s: Vec<f64> = b.iter().zip(a).map(|(x, y)| x - y).collect();
    let ((f0, g0), (f1, g1)) = (f.at(a), f.at(b));
    let (d0, d1) = (dot(&g0, &s), dot(&g1, &s));
    let eps = 1e-10 * (1.0 + f0.abs() + d0.abs());
    ensure!(d0 < eps, "step {:?} from {:?} goes uphill", s, a);
    ensure!(f1 <= f0 + alg.rho * d0 + eps, "step from {:?} to {:?} decreases the cost by {} only ({} required)", a, b, f0 - f1, -alg.rho * d0);
    ensure!(d1.abs() <= -alg.sig * d0 + eps, "slope along the step falls from {} to {} only", d0, d1);
    Ok(())
}
pub fn conjugate() -> Property {
    let mut p = Property::new("C33");
    p.assume("Wolfe-Powell conditions are demanded after steps from a gradient direction or a successful line search; after a failed line search the algorithm restarts from the gradient at the rejected point, as published");
    p.add("quadratics", "every symmetric positive definite 1x1, 2x2 and several 3x3, 5x5 quadratics with entries from a grid, minimum and start over a grid, 60 iterations: ends at the minimum; never above the start", |c| {
        let d = c.of(&[1usize, 2, 3, 5]);
        let q: Rows = match d {
            1 => vec![vec![c.of(&[0.01, 0.5, 1.0, 3.0, 40.0])]],
            2 => { let (a, b) = (c.of(&[0.1, 0.5, 1.0, 4.0, 25.0]), c.of(&[0.2, 1.0, 3.0, 10.0])); let r = c.of(&[-0.9, -0.3, 0.0, 0.6]); let o = r * (a * b as f64).sqrt(); vec![vec![a, o], vec![o, b]] }
            _ => { let k = c.of(&[1.0, 3.0, 12.0]); let v: Rows = (0..d).map(|i| (0..d).map(|j| ((i * 3 + j * 5 + 1) % 7) as f64 * 0.3 - 0.9).collect()).collect(); let mut m = rmul(&v, &rt(&v)); for i in 0..d { m[i][i] += 0.5 + k * (i + 1) as f64 / d as f64; } m }
        };
        let a: Vec<f64> = if d <= 2 { c.vec_of(d, &[0.0, 1.5, -3.0]) } else { (0..d).map(|j| 0.5 * j as f64 - 1.0).collect() };
        let start: Vec<f64> = if d <= 2 { c.vec_of(d, &[0.0, 1.0, -20.0, 4.5]) } else { c.of(&[vec![0.0; d], vec![3.0; d], (0..d).map(|j| (j as f64 - 1.0) * 10.0).collect()]) };
        let f = Fun { q: q.clone(), a: a.clone(), shift: c.of(&[0.0, 7.0, -1000.0]), kind: 0, log: RefCell::new(vec![]) };
        c.note(format!("Q {:?} minimum {:?} start {:?} shift {}", q, a, start, f.shift));
        let alg = ConjugateGD { iters: 60, ..ConjugateGD::default() };
        let got = cg_run(c, &f, &alg, &start)?;
        let (c0, c1) = (f.at(&start).0 - f.shift, f.at(&got).0 - f.shift);
        ensure!(c1 <= 1e-8 * (c0 + 1.0) + 1e-9 * f.shift.abs(), "distance in cost from the minimum {} after 60 iterations (start {}), at {:?}", c1, c0, got);
        Ok(())
    });
    p.add("iterations", "5 functions, 2 or 3 dimensions, 12 starts, settings of the line search, 0..=12 (thorough 40) iterations one by one: cost never rises, each accepted step satisfies the Wolfe-Powell conditions, evaluations stay within the bound", |c| {
        let kind = c.pick(5);
        let d = if kind == 1 { 2 } else { c.range(1, 3) };
        let start = if kind == 1 { c.of(&[vec![-1.2, 1.0], vec![0.0, 0.0], vec![1.0, 1.0], vec![2.0, -3.0], vec![-3.0, 4.0]]) } else { c.vec_of(d, &[0.0, 1.0, -4.0, 9.5]) };
        let alg0 = ConjugateGD::default();
        let alg = c.of(&[alg0, ConjugateGD { max: 1, ..alg0 }, ConjugateGD { max: 3, rho: 0.2, ..alg0 }, ConjugateGD { sig: 0.9, ext: 10.0, ..alg0 }, ConjugateGD { int: 0.3, ratio: 2.0, ..alg0 }]);
        let q: Rows = (0..d).map(|i| (0..d).map(|j| if i == j { 1.0 + 10.0 * i as f64 } else { 0.5 }).collect()).collect();
        let f = Fun { q, a: vec![1.0; d], shift: 0.0, kind, log: RefCell::new(vec![]) };
        c.note(format!("function {} start {:?} {:?}", kind, start, alg));
        let mut last = start.clone();
        let mut failed = false;
        for it in 0..=c.tier(12, 40) {
            let a = ConjugateGD { iters: it, ..alg };
            let got = cg_run(c, &f, &a, &start)?;
            if it == 0 { ensure!(same(&got, &start), "no iterations, but {:?} became {:?}", start, got); }
            let (x, y) = (f.at(&last).0, f.at(&got).0);
            ensure!(y <= x + 1e-12 * x.abs(), "iteration {} raises the cost from {} to {}", it, x, y);
            let moved = !close_all(&last, &got, 1e-15);
            if moved && !failed { wolfe(&f, &a, &last, &got)?; }
            if it > 0 && !moved { failed = true; } else if moved { failed = false; }
            last = got;
        }
        Ok(())
    });
    p.add("minima", "4 smooth functions, starts over a grid, default settings: gradient at the result is below 1e-4 of its size at the start (Rosenbrock: 1e-3 with 200 iterations)", |c| {
        let kind = c.range(1, 3);
        let d = if kind == 1 { 2 } else { c.range(1, 3) };
        let start = if kind == 1 { c.vec_of(2, &[-1.5, -0.5, 0.0, 0.7, 2.0]) } else { c.vec_of(d, &[0.1, 1.0, -2.5, 3.0]) };
        let f = Fun { q: vec![], a: vec![], shift: 0.0, kind, log: RefCell::new(vec![]) };
        c.note(format!("function {} start {:?}", kind, start));
        let alg = ConjugateGD { iters: if kind == 1 { 200 } else { 100 }, ..ConjugateGD::default() };
        let got = cg_run(c, &f, &alg, &start)?;
        let n = |g: Vec<f64>| dot(&g, &g).sqrt();
        let (g0, g1) = (n(f.at(&start).1), n(f.at(&got).1));
        ensure!(g1 <= 1e-4 * g0 + 1e-6 || (kind == 1 && g1 <= 1e-3), "gradient norm {} at {:?} (start {})", g1, got, g0);
        Ok(())
    });
    p.add("published", "5 functions in 1..=3 dimensions, starts over a grid, 8 settings, 0..=6 (thorough 14) iterations: every evaluated point and the result are those of the published procedure (as far as none of its decisions is within rounding of a tie)", |c| {
        let kind = c.pick(5);
        let d = if kind == 1 { 2 } else { c.range(1, 3) };
        let start = if kind == 1 { c.vec_of(2, &[-1.2, 0.0, 1.0, 2.0, -3.0, 4.0]) } else if d <= 2 { c.vec_of(d, &[0.3, 1.0, -4.0, 9.5, -0.6, 30.0, -17.0, 49.9]) } else { c.vec_of(d, &[0.0, 1.0, -4.0, 9.5]) };
        let alg0 = ConjugateGD::default();
        let mut alg = c.of(&[alg0, ConjugateGD { max: 1, ..alg0 }, ConjugateGD { max: 3, rho: 0.2, ..alg0 }, ConjugateGD { sig: 0.9, ext: 10.0, ..alg0 }, ConjugateGD { int: 0.3, ratio: 2.0, ..alg0 }, ConjugateGD { sig: 0.05, ext: 1.5, max: 5, ..alg0 }, ConjugateGD { sig: 0.02, int: 0.02, ext: 8.0, ..alg0 }, ConjugateGD { int: 0.45, ext: 1.1, rho: 0.3, sig: 0.4, ..alg0 }]);
        alg.iters = c.range(0, c.tier(6, 14));
        let w = c.of(&[0.1, 1.0, 10.0]);
        if kind != 0 && w != 1.0 { return Ok(()); }
        let q: Rows = (0..d).map(|i| (0..d).map(|j| w * if i == j { 1.0 + 10.0 * i as f64 } else { 0.5 }).collect()).collect();
        let f = Fun { q, a: vec![1.0; d], shift: 0.0, kind, log: RefCell::new(vec![]) };
        c.note(format!("function {} start {:?} {:?}", kind, start, alg));
        let got = alg.optimize(&f, &start, &(), &());
        let log = f.log.borrow();
        let set = crate::cgref::Settings { rho: alg.rho, sig: alg.sig, int: alg.int, ext: alg.ext, max: alg.max, ratio: alg.ratio };
        let (want, end) = crate::cgref::points(&set, &|p| f.at(p), &start, alg.iters);
        c.ops(want.len() as u64);
        c.outcome(&(want.len(), end.is_some()));
        let same = |a: &[f64], b: &[f64]| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x - y).abs() <= 1e-6 * (1.0 + x.abs()) || (x.is_nan() && y.is_nan()) || x == y);
        for (k, w) in want.iter().enumerate() {
            // where the function is flat on both sides, a last bit may decide about one evaluation more
            ensure!(k < log.len(), "only {} evaluations, evaluation {} should be at {:?}", log.len(), k + 1, w);
            ensure!(same(&log[k].0, w), "evaluation {} is at {:?} instead of {:?} (after {:?})", k + 1, log[k].0, w, want[..k].last());
        }
        if let Some(e) = end {
            ensure!(log.len() == want.len(), "{} evaluations instead of {}", log.len(), want.len());
            ensure!(same(&got, &e), "ends at {:?} instead of {:?}", got, e);
        }
        Ok(())
    });
    p.add("units", "quadratics and softplus sums in 1..=40 dimensions, costs in units from 1e-8 to 1e8 and parameters from 1e-4 to 1e5, default and 3 other settings, 0..=10 (thorough 25) iterations, the same optimizer used twice: every evaluated point is that of the published procedure", |c| {
        let kind = c.of(&[0usize, 2]);
        let d = c.of(&[1usize, 2, 7, 16, 17, 40]);
        let (v, u) = if kind == 0 { (c.of(&[1e-8, 1e-3, 1.0, 1e4, 1e8]), c.of(&[1e-4, 1.0, 1e5])) } else { (1.0, 1.0) };
        let alg0 = ConjugateGD::default();
        let mut alg = c.of(&[alg0, ConjugateGD { max: 3, rho: 0.2, ..alg0 }, ConjugateGD { sig: 0.9, ext: 10.0, ..alg0 }, ConjugateGD { sig: 0.05, ext: 1.5, max: 5, ratio: 1e4, ..alg0 }]);
        alg.iters = c.of(c.tier(&[0, 1, 2, 5, 10][..], &[0, 1, 2, 3, 5, 8, 13, 25]));
        let q: Rows = (0..d).map(|i| (0..d).map(|j| v / u / u * if i == j { 2.0 + (i * 3 % 7) as f64 } else if i + 1 == j || j + 1 == i { 0.5 } else { 0.0 }).collect()).collect();
        let f = Fun { q, a: (0..d).map(|j| u * (1.0 - (j % 3) as f64)).collect(), shift: 0.0, kind, log: RefCell::new(vec![]) };
        let start: Vec<f64> = (0..d).map(|j| u * ((j * 5 % 11) as f64 * 0.4 - 1.7)).collect();
        c.note(format!("function {} dimension {} cost unit {} parameter unit {} {:?}", kind, d, v, u, alg));
        let set = crate::cgref::Settings { rho: alg.rho, sig: alg.sig, int: alg.int, ext: alg.ext, max: alg.max, ratio: alg.ratio };
        let (want, end) = crate::cgref::points(&set, &|p| f.at(p), &start, alg.iters);
        let same = |a: &[f64], b: &[f64]| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x - y).abs() <= 1e-6 * (u + x.abs()));
        for round in 0..2 {
            f.log.borrow_mut().clear();
            let got = alg.optimize(&f, &start, &(), &());
            let log = f.log.borrow();
            c.ops(want.len() as u64);
            c.outcome(&(want.len(), end.is_some()));
            // near the minimum the costs are rounding errors
            let low = f.at(&f.a).0;
            for (k, w) in want.iter().enumerate() {
                if kind == 0 && k > 0 && want[..k].iter().any(|p| f.at(p).0 - low < 1e-10 * (f.at(&start).0 - low)) { return Ok(()); }
                ensure!(k < log.len(), "run {}: only {} evaluations, evaluation {} should be at {:?}", round, log.len(), k + 1, w);
                ensure!(same(&log[k].0, w), "run {}: evaluation {} is at {:?} instead of {:?}", round, k + 1, log[k].0, w);
            }
            if let Some(ref e) = end {
                ensure!(log.len() == want.len(), "run {}: {} evaluations instead of {}", round, log.len(), want.len());
                ensure!(same(&got, e), "run {}: ends at {:?} instead of {:?}", round, got, e);
            }
        }
        Ok(())
    });
    p.add("long", "chained Rosenbrock functions in 6..=30 dimensions, 5 settings, 26 numbers of iterations up to 300 (thorough 2000): one iteration more evaluates the same points and then further ones (unless at the minimum), the step it makes satisfies the Wolfe-Powell conditions", |c| {
        let d = c.of(&[6usize, 12, 30]);
        let start: Vec<f64> = match c.pick(2) { 0 => (0..d).map(|j| if j % 2 == 0 { -1.2 } else { 1.0 }).collect(), _ => vec![-1.0; d] };
        let alg0 = ConjugateGD::default();
        let alg = c.of(&[alg0, ConjugateGD { max: 4, ..alg0 }, ConjugateGD { sig: 0.9, ..alg0 }, ConjugateGD { sig: 0.1, max: 40, ..alg0 }, ConjugateGD { max: 2, ratio: 5.0, ..alg0 }]);
        let f = Fun { q: vec![], a: vec![], shift: 0.0, kind: 5, log: RefCell::new(vec![]) };
        c.note(format!("dimension {} start {:?} {:?}", d, start, alg));
        for &t in &[0usize, 1, 9, 10, 15, 16, 19, 20, 25, 30, 31, 32, 49, 50, 60, 63, 64, 99, 100, 127, 128, 149, 150, 199, 200, 255, 256, 300, 500, 511, 1000, 1023, 2000] {
            if !c.thorough() && t > 300 { break; }
            let a = cg_run(c, &f, &ConjugateGD { iters: t, ..alg }, &start)?;
            let la: Vec<Vec<f64>> = f.log.borrow().iter().map(|x| x.0.clone()).collect();
            let b = cg_run(c, &f, &ConjugateGD { iters: t + 1, ..alg }, &start)?;
            let lb: Vec<Vec<f64>> = f.log.borrow().iter().map(|x| x.0.clone()).collect();
            ensure!(lb.len() >= la.len() && la.iter().zip(&lb).all(|(a, b)| same(a, b)), "{} iterations evaluate other points than {}", t + 1, t);
            let g = f.at(&a).1;
            if dot(&g, &g).sqrt() < 1e-4 { break; }
            c.outcome(&t);
            // two failed line searches in a row end the procedure; the second would be along the gradient
            ensure!(lb.len() > la.len() || alg.max < 5, "{} iterations evaluate nothing that {} do not", t + 1, t);
            if alg.max >= 20 && !same(&a, &b) { wolfe(&f, &alg, &a, &b)?; }
        }
        Ok(())
    });
    p.add("long searches", "exponential decays and growing valleys whose acceptable points are up to 100 extrapolations away, 1 or 2 dimensions, lengths 3 to 3000, 9 settings of the extrapolation and of the evaluations allowed, 1..=3 iterations: every evaluated point and the result are those of the published procedure; with enough evaluations the first step satisfies the Wolfe-Powell conditions", |c| {
        let d = c.range(1, 2);
        let len = c.of(&[3.0, 30.0, 100.0, 400.0, 3000.0]);
        let alg0 = ConjugateGD::default();
        let mut alg = c.of(&[alg0, ConjugateGD { ext: 1.1, max: 200, ..alg0 }, ConjugateGD { ext: 1.1, max: 60, ..alg0 }, ConjugateGD { ext: 1.2, max: 33, ..alg0 }, ConjugateGD { ext: 1.2, max: 100, ..alg0 }, ConjugateGD { ext: 1.1, max: 26, ..alg0 }, ConjugateGD { ext: 1.1, max: 64, ..alg0 }, ConjugateGD { ext: 1.1, max: 15, ..alg0 }, ConjugateGD { ext: 1.3, max: 40, ..alg0 }]);
        alg.iters = c.range(1, 3);
        let f = Fun { q: vec![], a: vec![], shift: len, kind: 6, log: RefCell::new(vec![]) };
        let start: Vec<f64> = (0..d).map(|j| j as f64 * 0.5).collect();
        c.note(format!("length {} start {:?} {:?}", len, start, alg));
        let got = alg.optimize(&f, &start, &(), &());
        let log = f.log.borrow();
        let set = crate::cgref::Settings { rho: alg.rho, sig: alg.sig, int: alg.int, ext: alg.ext, max: alg.max, ratio: alg.ratio };
        let (want, end) = crate::cgref::points(&set, &|p| f.at(p), &start, alg.iters);
        c.ops(want.len() as u64);
        c.outcome(&(want.len(), end.is_some()));
        let same = |a: &[f64], b: &[f64]| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x - y).abs() <= 1e-6 * (1.0 + x.abs()));
        for (k, w) in want.iter().enumerate() {
            ensure!(k < log.len(), "only {} evaluations, evaluation {} should be at {:?}", log.len(), k + 1, w);
            ensure!(same(&log[k].0, w), "evaluation {} is at {:?} instead of {:?} (after {:?})", k + 1, log[k].0, w, want[..k].last());
        }
        if let Some(e) = end {
            ensure!(log.len() == want.len(), "{} evaluations instead of {}", log.len(), want.len());
            ensure!(same(&got, &e), "ends at {:?} instead of {:?}", got, e);
        }
        if alg.max == 200 && alg.iters == 1 { ensure!(!same(&got, &start), "no step although {} evaluations are allowed", alg.max); wolfe(&f, &alg, &start, &got)?; }
        Ok(())
    });
    p.add("scripted", "every sequence of 4 (thorough 5) answers over 5 costs (one infinite) x 4 slopes, in the order the points are first asked for, then a fixed one; 5 settings, 1..=2 (thorough 3) iterations in 1 dimension: every evaluated point is that of the published procedure (as far as none of its decisions is within rounding of a tie)", |c| {
        const COSTS: [f64; 5] = [0.04, 1.3, -0.2, -0.7, f64::INFINITY];
        const SLOPES: [f64; 4] = [-1.0, 0.52, 2.1, -0.13];
        let alg0 = ConjugateGD::default();
        let mut alg = c.of(&[alg0, ConjugateGD { max: 3, rho: 0.2, ..alg0 }, ConjugateGD { sig: 0.9, ext: 10.0, ..alg0 }, ConjugateGD { int: 0.3, ext: 1.5, sig: 0.1, ratio: 2.0, ..alg0 }, ConjugateGD { rho: 0.3, sig: 0.4, ..alg0 }]);
        alg.iters = c.range(1, c.tier(2, 3));
        let first = c.of(&[(0.2, 1.0), (0.2, -3.0)]);
        let mut answers = vec![first];
        for _ in 0..c.tier(4, 5) { answers.push((c.of(&COSTS), c.of(&SLOPES))); }
        // from then on: no two alike, sometimes up and sometimes down
        for k in 0..200 { let u = (k as f64 * 0.618_033_988_75).fract(); let v = (k as f64 * 0.414_213_562).fract(); answers.push((u * 2.0 - 1.2, v * 3.0 - 1.4)); }
        c.note(format!("answers {:?} {:?}", &answers[..7], alg));
        let f = Script { answers: answers.clone(), known: RefCell::new(vec![]), asked: RefCell::new(vec![]) };
        let r = Script { answers, known: RefCell::new(vec![]), asked: RefCell::new(vec![]) };
        let got = alg.optimize(&f, &[0.4], &(), &());
        let set = crate::cgref::Settings { rho: alg.rho, sig: alg.sig, int: alg.int, ext: alg.ext, max: alg.max, ratio: alg.ratio };
        let (want, end) = crate::cgref::points(&set, &|p| r.at(p[0]), &[0.4], alg.iters);
        let log = f.asked.borrow();
        c.ops(want.len() as u64);
        c.outcome(&(want.len(), end.is_some()));
        let same = |a: f64, b: f64| (a - b).abs() <= 1e-6 * (1.0 + a.abs());
        for (k, w) in want.iter().enumerate() {
            ensure!(k < log.len(), "only {} evaluations, evaluation {} should be at {:?}", log.len(), k + 1, w);
            ensure!(same(log[k], w[0]), "evaluation {} is at {:?} instead of {:?} (after {:?})", k + 1, log[k], w, want[..k].last());
        }
        if let Some(e) = end {
            ensure!(log.len() == want.len(), "{} evaluations instead of {}", log.len(), want.len());
            ensure!(same(got[0], e[0]), "ends at {:?} instead of {:?}", got, e);
        }
        Ok(())
    });
    p.add("defaults", "the default settings are the documented ones", |c| {
        c.op();
        let a = ConjugateGD::default();
        ensure!((a.rho, a.sig, a.int, a.ext, a.max, a.ratio, a.iters) == (0.01, 0.5, 0.1, 3.0, 20, 100.0, 100), "{:?}", a);
        Ok(())
    });
    p
}
