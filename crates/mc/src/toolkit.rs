//! C26 cost functions, C27 regularization, C28 kernels.
use crate::util::*;
use mce::*;
use rusty_machine::learning::toolkit::cost_fn::{CostFunc, CrossEntropyError, MeanSqError};
use rusty_machine::learning::toolkit::kernel::*;
use rusty_machine::learning::toolkit::regularization::Regularization;

fn cost_case(c: &Ch, r: usize, k: usize, ce: bool, o: Vec<f64>, t: Vec<f64>, as_vec: bool) -> R { cost_at(c, r, k, ce, o, t, as_vec, true) }
fn cost_at(c: &Ch, r: usize, k: usize, ce: bool, o: Vec<f64>, t: Vec<f64>, as_vec: bool, slope: bool) -> R {
    c.ops(2);
    c.note(format!("{} {}x{} outputs {:?} targets {:?} vector {}", if ce { "cross entropy" } else { "mean squared" }, r, k, o, t, as_vec));
    let eval = |o: &[f64]| -> f64 {
        if as_vec {
            let (a, b) = (Vector::new(o.to_vec()), Vector::new(t.clone()));
            if ce { CrossEntropyError::cost(&a, &b) } else { MeanSqError::cost(&a, &b) }
        } else {
            let (a, b) = (mat(r, k, o.to_vec()), mat(r, k, t.clone()));
            if ce { CrossEntropyError::cost(&a, &b) } else { MeanSqError::cost(&a, &b) }
        }
    };
    let grad: Vec<f64> = if as_vec {
        let (a, b) = (Vector::new(o.clone()), Vector::new(t.clone()));
        (if ce { CrossEntropyError::grad_cost(&a, &b) } else { MeanSqError::grad_cost(&a, &b) }).into_vec()
    } else {
        let (a, b) = (mat(r, k, o.clone()), mat(r, k, t.clone()));
        let g = if ce { CrossEntropyError::grad_cost(&a, &b) } else { MeanSqError::grad_cost(&a, &b) };
        shape_is(&g, r, k, "gradient")?;
        g.into_vec()
    };
    let n = if as_vec { o.len() } else { r } as f64;
    let one = |x: f64, y: f64| if ce { -(y * x.ln() + (1.0 - y) * (1.0 - x).ln()) } else { (x - y) * (x - y) / 2.0 };
    let want = o.iter().zip(&t).map(|(x, y)| one(*x, *y)).sum::<f64>() / n;
    let got = eval(&o);
    c.saw_f(&[got]);
    ensure!(got == want || (got - want).abs() <= 1e-11 * want.abs() + if ce { 1e-14 } else { 0.0 }, "cost {} instead of {}", got, want);
    ensure!(grad.len() == o.len(), "gradient has {} entries for {}", grad.len(), o.len());
    for i in 0..o.len() {
        let w = if ce { (o[i] - t[i]) / (o[i] * (1.0 - o[i])) } else { o[i] - t[i] };
        ensure_close!(grad[i], w, 1e-10, "gradient entry {}", i);
        ensure!((grad[i] - w).abs() <= 1e-10 * w.abs() + if ce { 1e-14 * (1.0 / o[i] + 1.0 / (1.0 - o[i])) } else { 0.0 }, "gradient entry {} is {}, expected {}", i, grad[i], w);
        if !slope || (o.len() > 12 && i > 3) { continue; }
        let h = 1e-4 * if ce { o[i].min(1.0 - o[i]) } else { 1.0 };
        let at = |d: f64| { let mut v = o.clone(); v[i] += d; eval(&v) };
        let num = n * (at(h) - at(-h)) / (2.0 * h);
        ensure!((num - grad[i]).abs() <= 1e-4 * (1.0 + num.abs() + n * got.abs() * 1e-7 / h), "gradient entry {} is {} but the difference quotient of n * cost is {}", i, grad[i], num);
    }
    Ok(())
}
const SH: [(usize, usize); 6] = [(1, 1), (1, 2), (2, 1), (3, 1), (2, 2), (1, 3)];
pub fn costs() -> Property {
    let mut p = Property::new("C26");
    p.assume("cross entropy equals its definition for outputs strictly between 0 and 1; for outputs of exactly 0 or 1 only the cost of those equal to their target (none) is stated, and that nothing is NaN");
    p.add("mean-squared", "shapes up to 3 entries / 2x2, outputs and targets over 5 values, matrices and vectors: cost is the halved squared error per sample, the gradient its per-sample derivative", |c| {
        let (r, k) = c.of(&SH);
        let al: &[f64] = &[0.0, 1.0, -2.0, 0.3, 12.0];
        let al = if r * k > 3 { &al[..c.tier(3, 4)] } else { al };
        let (o, t) = (c.vec_of(r * k, al), c.vec_of(r * k, al));
        let v = c.bool();
        cost_case(c, r, k, false, o, t, v)
    });
    p.add("cross-entropy", "the same for cross entropy, outputs in (0,1), targets in [0,1]", |c| {
        let (r, k) = c.of(&SH);
        let al: &[f64] = &[0.5, 0.01, 0.9, 0.25, 0.9999];
        let be: &[f64] = &[0.0, 1.0, 0.3, 0.75, 0.5];
        let (al, be) = if r * k > 3 { (&al[..3], &be[..3]) } else { (al, be) };
        let (o, t) = (c.vec_of(r * k, al), c.vec_of(r * k, be));
        let v = c.bool();
        cost_case(c, r, k, true, o, t, v)
    });
    p.add("extremes", "one to three entries: cross entropy of outputs from 1e-300 to the last number below 1, squared error of values to 1e100: by their formulas", |c| {
        let ce = c.bool();
        let (r, k) = c.of(&[(1usize, 1usize), (2, 1), (1, 2), (3, 1)]);
        let o = if ce { c.vec_of(r * k, &[1e-300, 1e-20, 1e-9, 1e-5, 0.4, 1.0 - 1e-5, 1.0 - 1e-9, 1.0 - 2f64.powi(-53)]) } else { c.vec_of(r * k, &[1e100, -1e9, 1e-9, 1e-100, 0.0, 3.0]) };
        let t = if ce { c.vec_of(r * k, &[0.0, 0.3, 1.0]) } else { c.vec_of(r * k, &[0.0, 1e-9, 1e9]) };
        let v = c.bool();
        cost_at(c, r, k, ce, o, t, v, false)
    });
    p.add("nearly-certain", "one or two entries, outputs and targets of 15 sizes (1e-300, 1e-16, ..., 1e-7, 5e-7, 1e-3, a half) next to 0 or next to 1: cross entropy by its formula, also relative to its size", |c| {
        let (r, k) = c.of(&[(1usize, 1usize), (2, 1), (1, 2)]);
        let d = [1e-300, 1e-100, 1e-20, 1e-16, 3e-13, 1e-12, 2e-10, 1e-9, 5e-8, 1e-7, 5e-7, 1e-6, 2e-5, 1e-3, 0.5];
        let (mut o, mut t) = (vec![], vec![]);
        for i in 0..r * k {
            if i > 0 && c.bool() { o.push(0.3); t.push(0.6); continue; }
            let x = c.of(&d);
            let y = c.of(&d[if i == 0 { 0 } else { 6 }..]);
            o.push(if x >= 1e-15 && c.bool() { 1.0 - x } else { x });
            t.push(if y >= 1e-16 && c.bool() { 1.0 - y } else { y });
        }
        let v = c.bool();
        cost_at(c, r, k, true, o, t, v, false)
    });
    p.add("certain", "one to four entries among outputs of exactly 0 and 1 and in between, targets over 4 values: where every certain output equals its target the cost is that of the others, otherwise larger; no cost or gradient is NaN", |c| {
        let (r, k) = c.of(&[(1usize, 1usize), (2, 1), (1, 2), (3, 1), (2, 2)]);
        let o = c.vec_of(r * k, &[0.0, 1.0, 0.4]);
        let t = c.vec_of(r * k, if r * k > 3 { &[0.0, 1.0, 0.25][..] } else { &[0.0, 1.0, 0.25, 0.75] });
        let v = c.bool();
        c.ops(2);
        c.note(format!("{}x{} outputs {:?} targets {:?} vector {}", r, k, o, t, v));
        let (cost, grad) = if v { let (a, b) = (Vector::new(o.clone()), Vector::new(t.clone())); (CrossEntropyError::cost(&a, &b), CrossEntropyError::grad_cost(&a, &b).into_vec()) }
            else { let (a, b) = (mat(r, k, o.clone()), mat(r, k, t.clone())); (CrossEntropyError::cost(&a, &b), CrossEntropyError::grad_cost(&a, &b).into_vec()) };
        c.saw_f(&[cost]);
        let n = if v { o.len() } else { r } as f64;
        let sure = |x: f64| x == 0.0 || x == 1.0;
        let rest: f64 = o.iter().zip(&t).filter(|x| !sure(*x.0)).map(|(x, y)| -(y * x.ln() + (1.0 - y) * (1.0 - x).ln())).sum::<f64>() / n;
        if o.iter().zip(&t).all(|(x, y)| !sure(*x) || x == y) { ensure_close!(cost, rest, 1e-12, "cost"); } else { ensure!(cost >= rest + 7.0 / n, "cost {} with a certain, wrong output", cost); }
        for i in 0..o.len() {
            let g = grad[i];
            if sure(o[i]) { ensure!(!g.is_nan() && g * (o[i] - t[i]) >= 0.0, "gradient entry {} is {}", i, g); } else { ensure_close!(g, (o[i] - t[i]) / (o[i] * (1.0 - o[i])), 1e-12, "gradient entry {}", i); }
        }
        Ok(())
    });
    p.add("sizes", "patterned data, every row count to 60 and 1..=5 columns, larger ones to 70000 rows or 1500 columns", |c| {
        let (r, k) = if c.bool() { c.of(&[(64usize, 3usize), (65, 17), (100, 10), (128, 2), (129, 9), (256, 20), (300, 7), (1030, 130), (70000, 1), (3, 1500)]) } else { (c.range(1, 60), c.range(1, 5)) };
        let (ce, v) = (c.bool(), c.bool());
        let o = (0..r * k).map(|i| 0.02 + 0.96 * ((i * 7) % 13) as f64 / 13.0).collect();
        let t = (0..r * k).map(|i| ((i * 5) % 3) as f64 / 2.0).collect();
        cost_case(c, r, k, ce, o, t, v)
    });
    p
}

fn reg_case(c: &Ch, reg: Regularization<f64>, m: &M, slice: Option<([usize; 2], usize, usize)>) -> R {
    let s = match slice { Some((at, r, k)) => m.sub_slice(at, r, k), None => m.as_slice() };
    let v: Vec<f64> = s.iter().cloned().collect();
    let (r, k) = (s.rows(), s.cols());
    let n = r as f64;
    c.ops(2);
    c.note(format!("{:?} on {}x{} {:?}", reg, r, k, v));
    let (l1, l2) = match reg { Regularization::L1(x) => (x, 0.0), Regularization::L2(x) => (0.0, x), Regularization::ElasticNet(x, y) => (x, y), Regularization::None => (0.0, 0.0) };
    let (cost, grad) = (reg.reg_cost(s), reg.reg_grad(s));
    c.saw_f(&[cost]);
    shape_is(&grad, r, k, "gradient")?;
    for i in 0..v.len() {
        let g = grad.data()[i];
        let l2g = l2 * v[i] / n;
        if v[i] == 0.0 {
            ensure!((g - l2g).abs() <= l1 / (2.0 * n) + 1e-12, "gradient at a zero entry is {}, not a subgradient", g);
        } else {
            ensure_close!(g, l1 * v[i].signum() / (2.0 * n) + l2g, 1e-12, "gradient entry {}", i);
        }
    }
    let a = l1 * v.iter().map(|x| x.abs()).sum::<f64>() / (2.0 * n);
    let sq = v.iter().map(|x| x * x).sum::<f64>();
    if l2 != 0.0 && (sq - sq.sqrt()).abs() > 1e-12 * (sq + sq.sqrt()) && close(cost, a + l2 * sq.sqrt() / (2.0 * n), 1e-12) {
        c.key("l2-cost-uses-unsquared-norm");
    }
    ensure_close!(cost, a + l2 * sq / (2.0 * n), 1e-12, "cost whose derivative the gradient is");
    Ok(())
}
fn regs(c: &Ch) -> Regularization<f64> {
    let x = c.of(&[0.5, 1.0, 0.0, 10.0]);
    match c.pick(4) { 0 => Regularization::L1(x), 1 => Regularization::L2(x), 2 => Regularization::ElasticNet(x, c.of(&[0.25, 0.0, 3.0])), _ => Regularization::None }
}
pub fn regular() -> Property {
    let mut p = Property::new("C27");
    p.add("all", "every matrix up to 3x2 over 5 values, all four kinds x 4 strengths: cost has its definition, gradient is its derivative (a subgradient at zero)", |c| {
        let reg = regs(c);
        let (r, k) = c.of(&[(1usize, 1usize), (1, 2), (2, 1), (3, 1), (2, 2), (3, 2)]);
        let al: &[f64] = &[0.0, 1.0, -2.0, 0.3, -7.5];
        let al = if r * k > 4 { &al[..3] } else { al };
        let m = mat(r, k, c.vec_of(r * k, al));
        reg_case(c, reg, &m, None)
    });
    p.add("slices", "every proper sub-slice of a 4x3 matrix: only the slice counts", |c| {
        let reg = regs(c);
        let m = mat(4, 3, vec![1.0, -2.0, 3.0, 0.5, 0.0, -1.0, 4.0, 4.5, -0.25, 9.0, 8.0, -7.0]);
        let (a, b) = (c.pick(4), c.pick(3));
        let (r, k) = (c.range(1, 4 - a), c.range(1, 3 - b));
        reg_case(c, reg, &m, Some(([a, b], r, k)))
    });
    p.add("scales", "entries of 8 sizes from 1e-12 to 1e9 of either sign, strengths from 1e-9 to 1e6: the same", |c| {
        let s = c.of(&[1e-9, 1e-3, 1.0, 1e6]);
        let reg = match c.pick(4) { 0 => Regularization::L1(s), 1 => Regularization::L2(s), 2 => Regularization::ElasticNet(s, 0.7), _ => Regularization::ElasticNet(0.4, s) };
        let (r, k) = c.of(&[(1usize, 1usize), (2, 1), (1, 2), (3, 1)]);
        let m = mat(r, k, c.vec_of(r * k, &[1e-12, -1e-9, 1e-6, -0.001, 2.0, -500.0, 1e6, -1e9]));
        reg_case(c, reg, &m, None)
    });
    p.add("sizes", "patterned matrices to 60x5, larger ones to 70000 rows or 1500 columns", |c| {
        let reg = regs(c);
        let (r, k) = if c.bool() { c.of(&[(64usize, 3usize), (65, 17), (100, 10), (128, 2), (129, 9), (256, 20), (300, 7), (1030, 130), (70000, 1), (3, 1500)]) } else { (c.range(1, 60), c.range(1, 5)) };
        let m = mat(r, k, (0..r * k).map(|i| ((i * 5) % 11) as f64 - 5.0).collect());
        reg_case(c, reg, &m, None)
    });
    p.add("single-precision", "f32 matrices up to 2x2 over 5 values, all four kinds x 4 strengths: the same to single precision", |c| {
        let x = c.of(&[0.5f32, 1.0, 0.0, 10.0]);
        let reg = match c.pick(3) { 0 => Regularization::L1(x), 1 => Regularization::ElasticNet(x, 0.0), _ => Regularization::None };
        let (r, k) = c.of(&[(1usize, 1usize), (1, 2), (2, 1), (3, 1), (2, 2)]);
        let d: Vec<f32> = c.vec_of(r * k, &[0.0f32, 1.0, -2.0, 0.3, -7.5]);
        let m = Matrix::new(r, k, d.clone());
        c.ops(2);
        c.note(format!("{:?} on {}x{} {:?}", reg, r, k, d));
        let l = if let Regularization::None = reg { 0.0 } else { x };
        let s = rusty_machine::linalg::MatrixSlice::from_matrix(&m, [0, 0], r, k);
        let (cost, grad) = (reg.reg_cost(s), reg.reg_grad(s));
        let w = l * d.iter().map(|v| v.abs()).sum::<f32>() / (2.0 * r as f32);
        ensure!((cost - w).abs() <= 1e-5 * (1.0 + w), "cost {} instead of {}", cost, w);
        for (v, g) in d.iter().zip(grad.data()) {
            let b = l / (2.0 * r as f32);
            if *v == 0.0 { ensure!(g.abs() <= b * 1.00001, "gradient at zero is {}", g); } else { ensure!((g - b * v.signum()).abs() <= 1e-5 * b, "gradient at {} is {}, expected {}", v, g, b * v.signum()); }
        }
        Ok(())
    });
    p
}

type K = Box<dyn Kernel>;
/// kernel, documented formula, positive semidefinite?
fn kernels() -> Vec<(String, K, Box<dyn Fn(&[f64], &[f64]) -> f64>, bool)> {
    let mut v: Vec<(String, K, Box<dyn Fn(&[f64], &[f64]) -> f64>, bool)> = vec![];
    for c in [0.0, 1.5, 5.0] { v.push((format!("Linear({})", c), Box::new(Linear::new(c)), Box::new(move |x, y| dot(x, y) + c), true)); }
    v.push(("Linear default".into(), Box::new(Linear::default()), Box::new(|x, y| dot(x, y)), true));
    for (a, c, d) in [(1.0, 0.0, 1.0), (2.0, 1.0, 2.0), (0.5, 3.0, 3.0), (1.0, 0.0, 2.0)] {
        v.push((format!("Polynomial({},{},{})", a, c, d), Box::new(Polynomial::new(a, c, d)), Box::new(move |x, y| (a * dot(x, y) + c).powi(d as i32)), true));
    }
    v.push(("Polynomial default".into(), Box::new(Polynomial::default()), Box::new(|x, y| dot(x, y)), true));
    for (l, a) in [(1.0, 1.0), (2.0, 0.5), (0.3, 4.0)] {
        v.push((format!("SquaredExp({},{})", l, a), Box::new(SquaredExp::new(l, a)), Box::new(move |x, y| a * (-d2(x, y) / (2.0 * l * l)).exp()), true));
        v.push((format!("Exponential({},{})", l, a), Box::new(Exponential::new(l, a)), Box::new(move |x, y| a * (-d2(x, y).sqrt() / (2.0 * l * l)).exp()), true));
    }
    v.push(("SquaredExp default".into(), Box::new(SquaredExp::default()), Box::new(|x, y| (-d2(x, y) / 2.0).exp()), true));
    v.push(("Exponential default".into(), Box::new(Exponential::default()), Box::new(|x, y| (-d2(x, y).sqrt() / 2.0).exp()), true));
    for (a, c) in [(1.0, 0.0), (0.25, 1.0), (2.0, -3.0)] { v.push((format!("HyperTan({},{})", a, c), Box::new(HyperTan::new(a, c)), Box::new(move |x, y| (a * dot(x, y) + c).tanh()), false)); }
    v.push(("HyperTan default".into(), Box::new(HyperTan::default()), Box::new(|x, y| dot(x, y).tanh()), false));
    for c in [0.0, 1.0, -2.5] { v.push((format!("Multiquadric({})", c), Box::new(Multiquadric::new(c)), Box::new(move |x, y| (d2(x, y) + c * c).sqrt()), false)); }
    v.push(("Multiquadric default".into(), Box::new(Multiquadric::default()), Box::new(|x, y| d2(x, y).sqrt()), false));
    for (a, l) in [(1.0, 1.0), (2.0, 0.5), (0.5, 3.0)] { v.push((format!("RationalQuadratic({},{})", a, l), Box::new(RationalQuadratic::new(a, l)), Box::new(move |x, y| (1.0 + d2(x, y) / (2.0 * a * l * l)).powf(-a)), true)); }
    v.push(("RationalQuadratic default".into(), Box::new(RationalQuadratic::default()), Box::new(|x, y| 1.0 / (1.0 + d2(x, y) / 2.0)), true));
    v
}
struct Dyn(K);
impl Kernel for Dyn { fn kernel(&self, a: &[f64], b: &[f64]) -> f64 { self.0.kernel(a, b) } }

pub fn kernel_props() -> Property {
    let mut p = Property::new("C28");
    p.add("formula", "22 kernels x every pair of vectors of length 1..=3 over 5 values: documented formula, symmetric", |c| {
        let ks = kernels();
        let (name, k, f, _) = &ks[c.pick(ks.len())];
        let n = c.range(1, c.tier(3, 4));
        let al: &[f64] = &[0.0, 1.0, -2.0, 0.3, 12.0];
        let al = if n >= 3 { &al[..c.tier(4, 5).min(if n == 4 { 3 } else { 5 })] } else { al };
        let (x, y) = (c.vec_of(n, al), c.vec_of(n, al));
        c.ops(2);
        let g = k.kernel(&x, &y);
        c.saw_f(&[g]);
        let w = f(&x, &y);
        ensure!(rel(g, w, 1e-10, 1e-300_f64.max(1e-13 * (x.iter().chain(&y).fold(0.0f64, |a, b| a.max(b.abs()))).powi(2))) , "{} of {:?} and {:?} is {}, expected {}", name, x, y, g, w);
        ensure!(close(g, k.kernel(&y, &x), 1e-12), "{} is not symmetric at {:?}, {:?}", name, x, y);
        Ok(())
    });
    p.add("parameters", "eight kernels with 9 values from 1e-6 to 1e6 for each parameter, 6 pairs of vectors near, far and equal: documented formula", |c| {
        let v = [1e-3, 0.5, 1.0, 2.5, 40.0, 1e-6, 1e3, 1e4, 1e6];
        let (a, b, d) = (c.of(&v), c.of(&v), c.of(&v));
        let xs: [(&[f64], &[f64]); 6] = [(&[1.0, 2.0], &[0.5, -0.25]), (&[0.0, 0.0], &[0.0, 0.0]), (&[3.0, -1.0], &[3.0, -1.0]), (&[0.25], &[4000.0]), (&[1e-6, 0.0, 2e-6], &[0.0, 1e-6, 2e-6]), (&[200.0, 0.3], &[100.0, 1.0])];
        let (x, y) = xs[c.pick(6)];
        c.note(format!("parameters {} {} {} at {:?}, {:?}", a, b, d, x, y));
        c.ops(8);
        let (p, q) = (dot(x, y), d2(x, y));
        let (all, one) = (a == 1.0, d == 1.0); // kernels with fewer parameters once per value
        let mut t = vec![("Polynomial", Polynomial::new(a, b, d).kernel(x, y), (a * p + b).powf(d))];
        if one {
            t.push(("SquaredExp", SquaredExp::new(a, b).kernel(x, y), b * (-q / (2.0 * a * a)).exp()));
            t.push(("Exponential", Exponential::new(a, b).kernel(x, y), b * (-q.sqrt() / (2.0 * a * a)).exp()));
            t.push(("HyperTan", HyperTan::new(a, -b).kernel(x, y), (a * p - b).tanh()));
            t.push(("RationalQuadratic", RationalQuadratic::new(a, b).kernel(x, y), (1.0 + q / (2.0 * a * b * b)).powf(-a)));
            if all { t.push(("Multiquadric", Multiquadric::new(b).kernel(x, y), (q + b * b).sqrt())); t.push(("Linear", Linear::new(b).kernel(x, y), p + b)); t.push(("Linear", Linear::new(-b).kernel(x, y), p - b)); }
        }
        // the rounding of a base is multiplied by its exponent, and that of an exponent by its size
        let r = 1e-10 + 1e-15 * (a + d + (a * p).abs() + b + q / (a * a));
        for (name, g, w) in t { c.saw_f(&[g]); ensure!(g == w || (g - w).abs() <= r * w.abs() + 1e-300, "{}({}, {}, {}) of {:?} and {:?} is {}, expected {}", name, a, b, d, x, y, g, w); }
        Ok(())
    });
    p.add("gram", "every set of 3 (thorough 4) points of a 3x3 grid, each positive semidefinite kernel: the Gram matrix has no negative eigenvalue", |c| {
        let ks = kernels();
        let (name, k, _, psd) = &ks[c.pick(ks.len())];
        if !psd { return Ok(()); }
        let n = c.tier(3, 4);
        let mut pts = vec![];
        for _ in 0..n { let i = c.pick(9); pts.push(vec![(i % 3) as f64 * 0.75 - 0.5, (i / 3) as f64 * 1.25 - 1.0]); }
        let g: Rows = pts.iter().map(|x| pts.iter().map(|y| k.kernel(x, y)).collect()).collect();
        c.ops((n * n) as u64);
        let (e, _) = eigen(&g);
        c.saw_f(&e);
        ensure!(e[n - 1] >= -1e-9 * (1.0 + e[0].abs()), "Gram matrix of {} on {:?} has eigenvalue {}", name, pts, e[n - 1]);
        Ok(())
    });
    p.add("arithmetic", "sums and products of every pair of kernels, and nested ones, on 12 vector pairs: pointwise sum and product", |c| {
        let n = kernels().len();
        let (i, j) = (c.pick(n), c.pick(n));
        let shape = c.pick(4);
        let take = |i: usize| -> Dyn { Dyn(kernels().swap_remove(i).1) };
        let (fi, fj) = (kernels().swap_remove(i), kernels().swap_remove(j));
        let xs: [(&[f64], &[f64]); 6] = [(&[1.0, 2.0], &[0.5, -1.0]), (&[0.0, 0.0], &[0.0, 0.0]), (&[3.0, -1.0], &[3.0, -1.0]), (&[0.25], &[4.0]), (&[1.0, 0.0, 2.0], &[0.0, 1.0, 2.0]), (&[-2.0, 0.3], &[1.0, 1.0])];
        for (x, y) in xs.iter() {
            for (x, y) in [(x, y), (y, x)] {
                c.op();
                let (a, b) = ((fi.2)(x, y), (fj.2)(x, y));
                let (g, w) = match shape {
                    0 => ((KernelArith(take(i)) + KernelArith(take(j))).kernel(x, y), a + b),
                    1 => ((KernelArith(take(i)) * KernelArith(take(j))).kernel(x, y), a * b),
                    2 => ((KernelArith(KernelArith(take(i)) + KernelArith(take(j))) * KernelArith(take(i))).kernel(x, y), (a + b) * a),
                    _ => ((KernelArith(KernelArith(take(i)) * KernelArith(take(j))) + KernelArith(take(j))).kernel(x, y), a * b + b),
                };
                c.saw_f(&[g]);
                ensure!(close(g, w, 1e-9), "{} and {} combined (shape {}) at {:?}, {:?} give {}, expected {}", fi.0, fj.0, shape, x, y, g, w);
            }
        }
        Ok(())
    });
    p.add("sizes", "22 kernels, patterned vectors of every length to 70 and of 100 to 70000: documented formula", |c| {
        let ks = kernels();
        let (name, k, f, _) = &ks[c.pick(ks.len())];
        let n = match c.range(1, 82) { n if n <= 70 => n, n => [100usize, 128, 129, 255, 257, 1000, 1024, 1025, 4097, 10001, 65537, 70000][n - 71] };
        // short vectors stay near each other, long ones keep the same size of distance
        let u = if n <= 70 { 1.0 } else { (70.0 / n as f64).sqrt() };
        let x: Vec<f64> = (0..n).map(|i| (((i * 7) % 5) as f64 * 0.1 - 0.2) * u).collect();
        let y: Vec<f64> = (0..n).map(|i| (((i * 3) % 7) as f64 * 0.1 - 0.25 + i as f64 / n as f64 * 0.1) * u).collect();
        c.op();
        let (g, w) = (k.kernel(&x, &y), f(&x, &y));
        c.saw_f(&[g]);
        ensure!(close(g, w, 1e-9) && (name.contains("Linear") || name.contains("Poly") || name.contains("Tan") || (g - w).abs() <= 1e-8 * w.abs()), "{} of length {} is {}, expected {}", name, n, g, w);
        Ok(())
    });
    p.add("tails", "SquaredExp, Exponential, RationalQuadratic, Multiquadric with 3 x 5 parameters, points 0.001 to 10^6 length scales apart, 1 to 40 columns of which one or all differ: documented formula to the relative precision that the exponent's rounding leaves, down to 1e-290", |c| {
        let (l, a) = (c.of(&[0.2, 1.0, 30.0]), c.of(&[1e-30, 0.5, 1.0, 1e9, 1e250]));
        let n = c.of(&[1usize, 2, 7, 8, 16, 17, 33, 40]);
        let far = c.of(&[1e-3, 0.3, 3.0, 6.0, 8.5, 9.5, 12.0, 14.0, 14.5, 20.0, 26.0, 37.0, 38.5, 53.0, 200.0, 700.0, 1400.0, 1e6]);
        let at = c.pick(n.min(3) + 1);
        let mut x: Vec<f64> = (0..n).map(|i| ((i * 5) % 7) as f64 * 0.25 - 0.5).collect();
        let y = x.clone();
        match at { 0 => for v in x.iter_mut() { *v += far * l / (n as f64).sqrt() }, 1 => x[0] += far * l, 2 => x[n - 1] -= far * l, _ => x[n / 2] += far * l }
        c.ops(8);
        c.note(format!("parameters {} {} at {:?}, {:?}", l, a, x, y));
        let q = d2(&x, &y);
        let mut t = vec![("SquaredExp", SquaredExp::new(l, a).kernel(&x, &y), SquaredExp::new(l, a).kernel(&y, &x), a * (-q / (2.0 * l * l)).exp(), q / (2.0 * l * l))];
        t.push(("Exponential", Exponential::new(l, a).kernel(&x, &y), Exponential::new(l, a).kernel(&y, &x), a * (-q.sqrt() / (2.0 * l * l)).exp(), q.sqrt() / (2.0 * l * l)));
        if a <= 1e9 {
            let r = a.max(1e-3);
            t.push(("RationalQuadratic", RationalQuadratic::new(r, l).kernel(&x, &y), RationalQuadratic::new(r, l).kernel(&y, &x), (1.0 + q / (2.0 * r * l * l)).powf(-r), r + q));
            t.push(("Multiquadric", Multiquadric::new(a).kernel(&x, &y), Multiquadric::new(a).kernel(&y, &x), (q + a * a).sqrt(), 1.0));
        }
        for (name, g, h, w, e) in t {
            c.saw_f(&[g]);
            ensure!(g == w || (g - w).abs() <= (1e-11 + 1e-14 * e.min(1e12)) * w.abs() + 1e-290 * (1.0 + a), "{}({}, {}) of {:?} and {:?} is {}, expected {}", name, l, a, x, y, g, w);
            ensure!(g == h || (g - h).abs() <= 1e-11 * g.abs(), "{}({}, {}) is not symmetric at {:?}, {:?}: {} and {}", name, l, a, x, y, g, h);
        }
        Ok(())
    });
    p
}
