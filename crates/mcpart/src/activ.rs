use mce::*;
use rusty_machine::learning::toolkit::activ_fn::{ActivationFunc, Exp, Linear, Sigmoid, Tanh};

pub fn reals(thorough: bool) -> &'static [f64] {
    static G: [std::sync::OnceLock<Vec<f64>>; 2] = [std::sync::OnceLock::new(), std::sync::OnceLock::new()];
    G[thorough as usize].get_or_init(|| grid(thorough))
}
fn grid(thorough: bool) -> Vec<f64> {
    let mut v: Vec<f64> = vec![];
    let step = if thorough { 1.0 / 16384.0 } else { 1.0 / 2048.0 };
    let n = (40.0 / step) as i64;
    for i in -n..=n { v.push(i as f64 * step); v.push((i as f64 + 0.381966) * step); }
    // one step of 0.8 % after another over the magnitudes that arise, and the saturating stretch
    for i in 0..12000 { let x = 1.0078125f64.powi(i - 6000); v.push(x); v.push(-x); }
    for i in 160..3200 { let x = i as f64 * 0.25 + 0.1; v.push(x); v.push(-x); }
    for e in -1074..=1023 { let x = 2f64.powi(e); v.push(x); v.push(-x); v.push(1.37 * x.min(1e307)); v.push(-1.37 * x.min(1e307)); }
    for k in 1..=18 { for m in 1..10 { let x = m as f64 * 10f64.powi(-k); v.push(x); v.push(-x); v.push(1.0 - x); v.push(x - 1.0); } }
    for x in [36.0, 36.7368005696771, 37.0, 40.0, 88.0, 88.8, 100.0, 354.0, 355.5, 500.0, 700.0, 709.0, 709.7, 709.78, 709.8, 710.0, 711.0, 740.0, 745.0, 745.2, 746.0, 750.0, 1e3, 1e5, 1e16, f64::MAX] {
        for j in 0..4 { v.push(x + j as f64 * 0.3); v.push(-x - j as f64 * 0.3); }
    }
    v.retain(|x| x.is_finite());
    v.push(f64::INFINITY);
    v.push(f64::NEG_INFINITY);
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v.dedup();
    v
}

fn sig_ref(x: f64) -> f64 { if x >= 0.0 { 1.0 / (1.0 + (-x).exp()) } else { let e = x.exp(); e / (1.0 + e) } }
fn tanh_ref(x: f64) -> f64 {
    let t = (-2.0 * x.abs()).exp_m1();
    let y = -t / (2.0 + t);
    if x < 0.0 { -y } else { y }
}

struct Spec {
    name: &'static str,
    f: fn(f64) -> f64,
    g: fn(f64) -> f64,
    go: fn(f64) -> f64,
    inv: fn(f64) -> f64,
    /// reference value, derivative, derivative floor, range
    rf: fn(f64) -> f64,
    rg: fn(f64) -> f64,
    gfloor: fn(f64) -> f64,
    lo: f64,
    hi: f64,
    /// conditioning of the inverse at x = inv(y): |dx/dy|*|y|
    cond: fn(f64) -> f64,
}

fn specs() -> [Spec; 4] {
    [Spec { name: "Sigmoid", f: Sigmoid::func, g: Sigmoid::func_grad, go: Sigmoid::func_grad_from_output, inv: Sigmoid::func_inv,
            rf: sig_ref, rg: |x| sig_ref(x) * sig_ref(-x), gfloor: |x| if x > 0.0 { 4e-16 } else { 1e-300 }, lo: 0.0, hi: 1.0,
            cond: |x| 1.0 + x.min(300.0).exp() },
     Spec { name: "Linear", f: Linear::func, g: Linear::func_grad, go: Linear::func_grad_from_output, inv: Linear::func_inv,
            rf: |x| x, rg: |_| 1.0, gfloor: |_| 0.0, lo: f64::NEG_INFINITY, hi: f64::INFINITY, cond: |x| x.abs() },
     Spec { name: "Exp", f: Exp::func, g: Exp::func_grad, go: Exp::func_grad_from_output, inv: Exp::func_inv,
            rf: |x| x.exp(), rg: |x| x.exp(), gfloor: |_| 1e-300, lo: 0.0, hi: f64::INFINITY, cond: |_| 1.0 },
     Spec { name: "Tanh", f: Tanh::func, g: Tanh::func_grad, go: Tanh::func_grad_from_output, inv: Tanh::func_inv,
            rf: tanh_ref, rg: |x| { let c = 2.0 / (x.exp() + (-x).exp()); c * c }, gfloor: |_| 1e-15, lo: -1.0, hi: 1.0,
            cond: |x| 1.0 + (2.0 * x.abs()).min(300.0).exp() }]
}

pub fn activations() -> Property {
    let mut p = Property::new("C03");
    p.assume("reals are explored on a finite grid (~350,000 points quick, ~2.6 million thorough) covering every binary exponent, both signs, the saturation regions and infinities");
    p.add("values-and-gradients", "every activation x every grid point: func matches the mathematical definition, stays in its range, func_grad is the derivative, func_grad_from_output(func(x)) = func_grad(x)", |c| {
        let s = &specs()[c.pick(4)];
        let g = reals(c.thorough());
        let chunk = 512;
        let b = c.pick((g.len() + chunk - 1) / chunk);
        c.note(format!("{} grid block {}", s.name, b));
        for &x in &g[b * chunk..((b + 1) * chunk).min(g.len())] {
            c.ops(3);
            let y = (s.f)(x);
            c.saw(&(y.to_bits(), s.name));
            ensure!(y >= s.lo && y <= s.hi, "{}::func({:e}) = {:e} is outside [{}, {}]", s.name, x, y, s.lo, s.hi);
            let want = (s.rf)(x);
            ensure!(rel(y, want, 1e-9, 1e-300), "{}::func({:e}) = {:e}, expected {:e}", s.name, x, y, want);
            let gr = (s.g)(x);
            let want = (s.rg)(x);
            ensure!(rel(gr, want, 1e-9, (s.gfloor)(x)), "{}::func_grad({:e}) = {:e}, expected {:e}", s.name, x, gr, want);
            let go = (s.go)(y);
            ensure!(rel(go, gr, 1e-9, (s.gfloor)(x)), "{}::func_grad_from_output(func({:e})) = {:e}, but func_grad is {:e}", s.name, x, go, gr);
        }
        Ok(())
    });
    p.add("monotone", "neighbouring grid points, every activation: func is non-decreasing; central differences agree with func_grad", |c| {
        let s = &specs()[c.pick(4)];
        let g = reals(c.thorough());
        let chunk = 1024;
        let b = c.pick((g.len() + chunk - 1) / chunk);
        for w in g[b * chunk..((b + 1) * chunk + 1).min(g.len())].windows(2) {
            let (a, d) = ((s.f)(w[0]), (s.f)(w[1]));
            c.ops(1);
            ensure!(a <= d * (1.0 + 1e-14 * d.signum()) + 1e-320, "{}::func decreases from {:e} at {:e} to {:e} at {:e}", s.name, a, w[0], d, w[1]);
            let x = w[0];
            if x.abs() <= 30.0 {
                let h = 1e-4;
                let num = ((s.f)(x + h) - (s.f)(x - h)) / (2.0 * h);
                let gr = (s.g)(x);
                ensure!((num - gr).abs() <= 1e-6 * (1.0 + gr.abs().max((s.f)(x).abs())), "{}::func_grad({}) = {} but the difference quotient is {}", s.name, x, gr, num);
            }
        }
        Ok(())
    });
    p.add("inverse-of-value", "every grid point where the function is not saturated: func_inv(func(x)) = x", |c| {
        let s = &specs()[c.pick(4)];
        let g = reals(c.thorough());
        let chunk = 512;
        let b = c.pick((g.len() + chunk - 1) / chunk);
        for &x in &g[b * chunk..((b + 1) * chunk).min(g.len())] {
            let y = (s.rf)(x);
            let k = (s.cond)(x);
            if !y.is_finite() || y == s.lo || y == s.hi || k > 1e10 || (y != 0.0 && y.abs() < 1e-300 && s.name != "Linear") { continue; }
            c.ops(2);
            let back = (s.inv)((s.f)(x));
            ensure!((back - x).abs() <= 1e-9 * x.abs().max(1e-3).min(1.0) * x.abs().max(1.0) + 8e-16 * k.min(1e12) || back == x, "{}::func_inv(func({:e})) = {:e}", s.name, x, back);
        }
        Ok(())
    });
    p.add("value-of-inverse", "outputs on a grid of the range (incl. near both ends): func(func_inv(y)) = y and func_inv matches its definition", |c| {
        let s = &specs()[c.pick(4)];
        let n = c.tier(4096usize, 65536);
        let blk = c.pick(16);
        for i in (blk * n / 16)..((blk + 1) * n / 16) {
            let t = (i as f64 + 0.5) / n as f64;
            let mut ys = match s.name {
                "Sigmoid" => vec![t, t * 1e-5, t * 1e-50, t * 1e-290, 1.0 - t * 1e-3],
                "Tanh" => vec![2.0 * t - 1.0, 1.0 - t * 1e-3, t * 1e-3 - 1.0, t * 1e-4, -t * 1e-4],
                "Exp" => vec![t, 10.0 * t, t * 1e9, t * 1e300, t * 1e-300],
                _ => vec![t, -t, 1e9 * t, -1e300 * t],
            };
            ys.retain(|y| *y > s.lo && *y < s.hi);
            for y in ys {
                c.ops(2);
                let x = (s.inv)(y);
                c.saw(&(x.to_bits(), s.name));
                let want = match s.name {
                    "Sigmoid" => y.ln() - (-y).ln_1p(),
                    "Tanh" => 0.5 * (y.ln_1p() - (-y).ln_1p()),
                    "Exp" => y.ln(),
                    _ => y,
                };
                ensure!(rel(x, want, 1e-9, 1e-12), "{}::func_inv({:e}) = {:e}, expected {:e}", s.name, y, x, want);
                let back = (s.f)(x);
                let tol = match s.name { "Exp" | "Sigmoid" => 1e-9, _ => 1e-9 };
                ensure!(rel(back, y, tol, if s.name == "Tanh" { 1e-15 } else { 1e-300 }), "{}::func(func_inv({:e})) = {:e}", s.name, y, back);
            }
        }
        Ok(())
    });
    p.add("calls", "every sequence of 3 (thorough 4) calls out of 4 activations x 4 functions x 2 arguments: the last answer is the same bit for bit as without the earlier calls", |c| {
        let s = specs();
        let xs = [0.25, -0.5];
        let at = |i: usize| -> f64 { let s = &s[i / 8]; let x = xs[i % 2]; match i / 2 % 4 { 0 => (s.f)(x), 1 => (s.g)(x), 2 => (s.go)((s.rf)(x)), _ => (s.inv)((s.rf)(x)) } };
        let first: Vec<usize> = (0..c.tier(2, 3)).map(|_| c.pick(32)).collect();
        let last = c.pick(32);
        c.ops(4);
        c.note(format!("calls {:?} then {}", first, last));
        let clean = at(last);
        at(31 - last);
        for i in first { at(i); }
        let got = at(last);
        let want = { let s = &s[last / 8]; let x = xs[last % 2]; match last / 2 % 4 { 0 => (s.rf)(x), 1 | 2 => (s.rg)(x), _ => x } };
        ensure!(got.to_bits() == clean.to_bits() && close(got, want, 1e-9), "{}: {} after other calls, {} before, expected {}", s[last / 8].name, got, clean, want);
        Ok(())
    });
    p.add("not-a-number", "NaN in gives NaN out for every value function", |c| {
        let s = &specs()[c.pick(4)];
        c.ops(2);
        ensure!((s.f)(f64::NAN).is_nan(), "{}::func(NaN) is {}", s.name, (s.f)(f64::NAN));
        ensure!((s.inv)(f64::NAN).is_nan(), "{}::func_inv(NaN) is {}", s.name, (s.inv)(f64::NAN));
        Ok(())
    });
    p
}
