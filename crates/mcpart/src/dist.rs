use mce::*;
use rand::distributions::exponential::Exp1;
use rand::distributions::normal::StandardNormal;
use rand::distributions::{IndependentSample, Sample};
use rand::mc::Alphabet;
use rand::{Rng, SeedableRng, StdRng};
use rusty_machine::stats::dist::{Distribution, Exponential, Gaussian};

const MEANS: [f64; 15] = [0.0, 1.0, -1.0, 0.25, 3.5, -10.0, 10.0, 1e-3, -1e-3, 123.0, 1e6, -1e6, -0.5, 1e-80, -1e12];
const SDS: [f64; 24] = [1.0, 0.5, 2.0, 1e-6, 1e-3, 0.01, 0.1, 0.3, 0.75, 1.5, 3.0, 7.0, 10.0, 100.0, 1e3, 1e6, 0.9, 1.1, 1e-80, 1e-12, 1e12, 1e100, 1e-140, 1e140];

fn zs(th: bool) -> Vec<f64> {
    let k = if th { 2048 } else { 128 };
    let mut v: Vec<f64> = (-40 * k..=40 * k).map(|i| i as f64 / k as f64).collect();
    v.extend((-10 * k..10 * k).map(|i| (i as f64 + 0.381966) / k as f64));
    for e in 0..40 { let x = 2f64.powi(-e) * 0.7; v.push(x); v.push(-x); }
    for x in [50.0, 100.0, 1e4, 1e8] { v.push(x); v.push(-x); }
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v
}

/// Standard normal cdf by its Taylor series / asymptotic expansion.
fn phi_cdf(z: f64) -> f64 {
    let a = z.abs();
    let d = (-a * a / 2.0).exp() / (2.0 * std::f64::consts::PI).sqrt();
    let up = if a < 6.0 {
        let (mut term, mut sum, mut k) = (a, a, 1.0);
        while term > 1e-18 * sum { k += 2.0; term *= a * a / k; sum += term; if k > 500.0 { break; } }
        0.5 - d * sum
    } else { d / a * (1.0 - 1.0 / (a * a)) };
    if z < 0.0 { up } else { 1.0 - up }
}

pub fn gaussian() -> Property {
    let mut p = Property::new("C04");
    p.assume("reals are explored on a finite grid: 15 means x 24 standard deviations x ~13,000 (thorough ~205,000) standardised points");
    p.add("density", "grid: pdf = density of N(mean, variance), logpdf = its logarithm, pdf >= 0, symmetric; both constructors agree", |c| {
        let (m, sd) = (c.of(&MEANS), c.of(&SDS));
        c.note(format!("mean {} sd {}", m, sd));
        let a = Gaussian::new(m, sd * sd);
        let b = Gaussian::from_std_dev(m, sd);
        let tiny = 1e-290 * (1.0 / sd).max(1.0);
        for z in zs(c.thorough()) {
            let x = m + z * sd;
            let zz = (x - m) / sd;
            c.ops(4);
            let (pa, pb, la, lb) = (a.pdf(x), b.pdf(x), a.logpdf(x), b.logpdf(x));
            c.saw(&(pa.to_bits(), la.to_bits()));
            let lw = -0.5 * zz * zz - sd.ln() - 0.5 * (2.0 * std::f64::consts::PI).ln();
            let pw = (-0.5 * zz * zz).exp() / (sd * (2.0 * std::f64::consts::PI).sqrt());
            ensure!(pa >= 0.0, "pdf({}) of N({}, {}^2) is {}", x, m, sd, pa);
            ensure!(rel(pa, pw, 1e-9, tiny), "pdf({:e}) of N({}, {}^2) is {:e}, expected {:e}", x, m, sd, pa, pw);
            ensure!(rel(la, lw, 1e-9, 1e-9), "logpdf({:e}) of N({}, {}^2) is {:e}, expected {:e}", x, m, sd, la, lw);
            ensure!(rel(pa, pb, 1e-9, tiny) && rel(la, lb, 1e-9, 1e-9), "Gaussian::new and from_std_dev disagree at {} for mean {} sd {}: {} vs {}, {} vs {}", x, m, sd, pa, pb, la, lb);
            if pa > 1e-280 && pa * sd > 1e-280 { ensure!((pa.ln() - la).abs() <= 1e-8 * (1.0 + la.abs()), "logpdf({}) = {} but ln(pdf) = {}", x, la, pa.ln()); }
            let other = a.pdf(m - (x - m));
            let d2 = ((m - (x - m)) - m + (x - m)).abs();
            if d2 <= 1e-12 * sd { ensure!(rel(pa, other, 1e-8, tiny), "pdf of N({}, {}^2) is not symmetric at {}: {} vs {}", m, sd, x, pa, other); }
        }
        Ok(())
    });
    p.add("cumulative", "grid: cdf in [0,1], non-decreasing, within 0.0032 of the normal cdf, 1/2 at the mean, cdf(m-d) + cdf(m+d) = 1, tends to 0 and 1", |c| {
        let (m, sd) = (c.of(&MEANS), c.of(&SDS));
        c.note(format!("mean {} sd {}", m, sd));
        let g = if c.bool() { Gaussian::new(m, sd * sd) } else { Gaussian::from_std_dev(m, sd) };
        let mut prev = (f64::NEG_INFINITY, 0.0);
        for z in zs(c.thorough()) {
            let x = m + z * sd;
            let zz = (x - m) / sd;
            c.op();
            let y = g.cdf(x);
            c.saw(&y.to_bits());
            ensure!(y >= 0.0 && y <= 1.0, "cdf({}) of N({}, {}^2) is {}", x, m, sd, y);
            ensure!((y - phi_cdf(zz)).abs() <= 0.0032, "cdf({}) of N({}, {}^2) is {}, the normal cdf is {}", x, m, sd, y, phi_cdf(zz));
            ensure!(y >= prev.1 - 1e-12, "cdf of N({}, {}^2) decreases from {} at {} to {} at {}", m, sd, prev.1, prev.0, y, x);
            prev = (x, y);
            let mir = m - (x - m);
            if ((m - mir) - (x - m)).abs() <= 1e-9 * sd {
                let s = y + g.cdf(mir);
                ensure!((s - 1.0).abs() < if m - mir == x - m { 1e-11 } else { 1e-6 }, "cdf of N({}, {}^2) at {} and its mirror image sum to {}", m, sd, x, s);
            }
            if zz <= -40.0 { ensure!(y < 1e-9, "cdf({}) is {} at 40 standard deviations below the mean", x, y); }
            if zz >= 40.0 { ensure!(y > 1.0 - 1e-9, "cdf({}) is {} at 40 standard deviations above the mean", x, y); }
        }
        let mid = g.cdf(m);
        ensure!((mid - 0.5).abs() < 1e-9, "cdf of N({}, {}^2) at its mean is {}", m, sd, mid);
        ensure!(g.cdf(f64::INFINITY) == 1.0 && g.cdf(f64::NEG_INFINITY) == 0.0, "cdf at infinity: {} {}", g.cdf(f64::INFINITY), g.cdf(f64::NEG_INFINITY));
        Ok(())
    });
    p.add("calls", "four distributions alive at once, every sequence of 3 (thorough 4) calls of density, log density, distribution function or a sample at 2 points: each answer is bit for bit that of a distribution of its own", |c| {
        let par = [(0.0, 1.0), (0.0, 4.0), (1.0, 4.0), (0.5, 0.25)];
        let gs: Vec<Gaussian> = par.iter().map(|p| Gaussian::new(p.0, p.1)).collect();
        let at = |g: &Gaussian, i: usize| -> Option<f64> { let x = [0.5, 1.25][i % 2]; match i / 2 % 4 { 0 => Some(g.pdf(x)), 1 => Some(g.logpdf(x)), 2 => Some(g.cdf(x)), _ => { g.ind_sample(&mut rand::thread_rng()); None } } };
        let calls: Vec<usize> = (0..c.tier(3, 4)).map(|_| c.pick(32)).collect();
        c.ops(3);
        c.note(format!("calls {:?}", calls));
        for i in calls {
            let (m, v) = par[i / 8];
            let own = Gaussian::new(m, v);
            let got = at(&gs[i / 8], i);
            let (x, sd) = ([0.5, 1.25][i % 2], f64::sqrt(v));
            let z = (x - m) / sd;
            if let Some(y) = got {
                let want = match i / 2 % 4 { 0 => (-0.5 * z * z).exp() / (sd * (2.0 * std::f64::consts::PI).sqrt()), 1 => -0.5 * z * z - sd.ln() - 0.5 * (2.0 * std::f64::consts::PI).ln(), _ => phi_cdf(z) };
                ensure!((y - want).abs() < if i / 2 % 4 == 2 { 0.0032 } else { 1e-9 }, "call {} on N({}, {}) gives {}, expected {}", i, m, v, y, want);
                ensure!(at(&own, i) == Some(y), "N({}, {}) and a copy disagree: {} and {:?}", m, v, y, at(&own, i));
            }
        }
        Ok(())
    });
    p.add("parameters", "1 to 9 times 10^-20 to 10^20 and every whole number to 400 for deviation (as such and as variance) x 7 means of up to 10^4 deviations x 12 points: density, log density, distribution function, constructors as in the grid", |c| {
        let i = c.pick(41 * 9 + 400);
        let by_var = c.bool();
        let v = if i < 41 * 9 { (1 + i % 9) as f64 * 10f64.powi(i as i32 / 9 - 20) } else { (i - 41 * 9 + 1) as f64 };
        let sd = if by_var { v.sqrt() } else { v };
        for mz in [0.0, 1.0, -1.0, 7.0, -50.0, 1e4, -1e4] {
            let m = mz * sd;
            let g = if by_var { Gaussian::new(m, v) } else { Gaussian::from_std_dev(m, v) };
            let h = if by_var { Gaussian::from_std_dev(m, sd) } else { Gaussian::new(m, sd * sd) };
            for z in [0.0, 0.1, -0.5, 0.77, 1.0, -1.3, 1.9, -2.6, 3.3, -4.8, 8.0, -37.0] {
                let x = m + z * sd;
                let z = (x - m) / sd;
                c.ops(6);
                let (pd, lp, cd) = (g.pdf(x), g.logpdf(x), g.cdf(x));
                c.saw(&(pd.to_bits(), cd.to_bits()));
                let (pw, lw) = ((-0.5 * z * z).exp() / (sd * (2.0 * std::f64::consts::PI).sqrt()), -0.5 * z * z - sd.ln() - 0.5 * (2.0 * std::f64::consts::PI).ln());
                // rounding of x next to a far mean
                let t = 1e-11 + 1e-15 * (1.0 + mz.abs()) * (1.0 + z.abs()) * 4.0;
                ensure!((pd - pw).abs() <= t * pw, "pdf({:e}) of N({:e}, {:e}^2) is {:e}, expected {:e}", x, m, sd, pd, pw);
                ensure!((lp - lw).abs() <= t * (1.0 + lw.abs()), "logpdf({:e}) of N({:e}, {:e}^2) is {:e}, expected {:e}", x, m, sd, lp, lw);
                ensure!((cd - phi_cdf(z)).abs() <= 0.0032 && cd >= 0.0 && cd <= 1.0, "cdf({:e}) of N({:e}, {:e}^2) is {}, the normal cdf is {}", x, m, sd, cd, phi_cdf(z));
                ensure!((h.pdf(x) - pd).abs() <= t * pw && (h.logpdf(x) - lp).abs() <= t * (1.0 + lw.abs()) && (h.cdf(x) - cd).abs() <= 1e-7, "the two constructors disagree at {:e} for N({:e}, {:e}^2)", x, m, sd);
            }
        }
        Ok(())
    });
    p.add("infinity", "density at plus and minus infinity is 0 and its logarithm minus infinity, for every mean and deviation", |c| {
        let (m, sd) = (c.of(&MEANS), c.of(&SDS));
        let g = if c.bool() { Gaussian::new(m, sd * sd) } else { Gaussian::from_std_dev(m, sd) };
        let x = c.of(&[f64::INFINITY, f64::NEG_INFINITY, f64::MAX, -f64::MAX]);
        c.ops(3);
        ensure!(g.pdf(x) == 0.0 && (x.is_finite() || g.logpdf(x) == f64::NEG_INFINITY) && g.logpdf(x) < -1e15, "N({}, {}^2) at {}: density {}, logarithm {}", m, sd, x, g.pdf(x), g.logpdf(x));
        ensure!(g.cdf(x) == if x > 0.0 { 1.0 } else { 0.0 }, "cdf({}) of N({}, {}^2) is {}", x, m, sd, g.cdf(x));
        Ok(())
    });
    p.add("own-distribution", "a distribution defined outside with density exp(x) on x in 46 points of either sign and without a log density: the trait gives it the logarithm of its density", |c| {
        struct Own;
        impl Distribution<f64> for Own { fn pdf(&self, x: f64) -> f64 { x.exp() } fn cdf(&self, _: f64) -> f64 { 0.5 } }
        struct Whole;
        impl Distribution<i32> for Whole { fn pdf(&self, x: i32) -> f64 { if x < 0 { 0.0 } else { 0.5f64.powi(x + 1) } } fn cdf(&self, x: i32) -> f64 { 1.0 - 0.5f64.powi(x + 1) } }
        let i = c.range(0, 45) as i32;
        c.ops(3);
        let x = if i % 2 == 0 { 1.0 } else { -1.0 } * 1.3f64.powi(i / 2);
        ensure!((Own.logpdf(x) - x).abs() <= 1e-12 * (1.0 + x.abs()), "the logarithm of density exp({}) is {}", x, Own.logpdf(x));
        ensure!(Whole.logpdf(-1) == f64::NEG_INFINITY, "the logarithm of density 0 is {}", Whole.logpdf(-1));
        ensure!((Whole.logpdf(i) + (i + 1) as f64 * std::f64::consts::LN_2).abs() <= 1e-12 * (i + 1) as f64, "the logarithm of density 2^-{} is {}", i + 1, Whole.logpdf(i));
        Ok(())
    });
    p.add("standard", "Default is N(0,1): same pdf, logpdf, cdf as new(0,1) on the grid", |c| {
        let (d, n) = (Gaussian::default(), Gaussian::new(0.0, 1.0));
        let k = (rusty_machine::stats::dist::consts::SQRT_2_PI, rusty_machine::stats::dist::consts::LN_2_PI);
        ensure!((k.0 - 2.5066282746310002).abs() < 1e-15 && (k.1 - 1.8378770664093453).abs() < 1e-15, "constants {:?}", k);
        for x in zs(true) {
            c.ops(3);
            ensure!(rel(d.pdf(x), n.pdf(x), 1e-12, 1e-300) && rel(d.logpdf(x), n.logpdf(x), 1e-12, 1e-300) && rel(d.cdf(x), n.cdf(x), 1e-12, 1e-300), "default and new(0,1) differ at {}", x);
        }
        Ok(())
    });
    p
}

const LAMBDAS: [f64; 27] = [1.0, 0.5, 2.0, 1e-6, 1e-3, 0.01, 0.1, 0.3, 1.5, 3.0, 5.0, 7.0, 100.0, 1e4, 1e6, 0.75, 0.99, 4.0, 10.0, 1e-100, 1e-12, 1e12, 1e100, 1e-200, 1e-290, 1e200, 1e300];

fn ts(th: bool) -> Vec<f64> {
    let k = if th { 4096 } else { 256 };
    let mut v: Vec<f64> = (0..=50 * k).map(|i| i as f64 / k as f64).collect();
    v.extend((0..10 * k).map(|i| (i as f64 + 0.381966) / k as f64));
    for i in 51..=760 { v.push(i as f64); }
    for e in 0..300 { v.push(2f64.powi(-e) * 0.7); }
    v.push(1e5);
    v.push(f64::INFINITY);
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v
}

pub fn exponential() -> Property {
    let mut p = Property::new("C05");
    p.assume("reals are explored on a finite grid: 27 rates x ~16,000 (thorough ~250,000) points");
    p.add("density", "grid: pdf = rate * exp(-rate x), logpdf = its logarithm, cdf = 1 - exp(-rate x), non-decreasing in [0,1]; lambda() is the rate", |c| {
        let l = c.of(&LAMBDAS);
        c.note(format!("lambda {}", l));
        let e = Exponential::new(l);
        ensure!(e.lambda() == l, "lambda() is {} instead of {}", e.lambda(), l);
        let mut prev = 0.0;
        for t in ts(c.thorough()) {
            for x in [t / l, t] {
                let lx = l * x;
                c.ops(3);
                let (pd, lp, cd) = (e.pdf(x), e.logpdf(x), e.cdf(x));
                c.saw(&(pd.to_bits(), cd.to_bits()));
                ensure!(pd >= 0.0 && rel(pd, l * (-lx).exp(), 1e-9, 1e-290 * l.max(1.0)), "pdf({:e}) with rate {} is {:e}, expected {:e}", x, l, pd, l * (-lx).exp());
                ensure!(rel(lp, l.ln() - lx, 1e-9, 1e-12), "logpdf({:e}) with rate {} is {:e}, expected {:e}", x, l, lp, l.ln() - lx);
                ensure!(cd >= 0.0 && cd <= 1.0 && rel(cd, -(-lx).exp_m1(), 1e-9, 2e-15), "cdf({:e}) with rate {} is {:e}, expected {:e}", x, l, cd, -(-lx).exp_m1());
                if pd > 1e-280 && pd / l > 1e-280 && pd.is_finite() { ensure!((pd.ln() - lp).abs() <= 1e-8 * (1.0 + lp.abs()), "logpdf({}) = {} but ln(pdf) = {}", x, lp, pd.ln()); }
                if x == t / l { ensure!(cd >= prev - 4e-15, "cdf with rate {} decreases to {} at {}", l, cd, x); prev = cd; }
            }
        }
        Ok(())
    });
    p.add("rates", "rates 1 to 9 times 10^-20 to 10^20 and every whole number to 400 x 14 points from 0 (of either sign) to 700 means: density, log density, distribution function as in the grid", |c| {
        let i = c.pick(41 * 9 + 400);
        let l = if i < 41 * 9 { (1 + i % 9) as f64 * 10f64.powi(i as i32 / 9 - 20) } else { (i - 41 * 9 + 1) as f64 };
        let e = Exponential::new(l);
        ensure!(e.lambda() == l, "lambda() is {} instead of {}", e.lambda(), l);
        for t in [0.0, -0.0, 1e-9, 1e-4, 0.05, 0.3, 0.9, 1.0, 1.7, 3.3, 12.0, 40.0, 90.0, 700.0] {
            let x = t / l;
            let t = x * l;
            c.ops(3);
            let (pd, lp, cd) = (e.pdf(x), e.logpdf(x), e.cdf(x));
            c.saw(&(pd.to_bits(), cd.to_bits()));
            let pw = l * (-t).exp();
            ensure!((pd - pw).abs() <= 1e-11 * pw, "pdf({:e}) with rate {:e} is {:e}, expected {:e}", x, l, pd, pw);
            ensure!((lp - (l.ln() - t)).abs() <= 1e-11 * (1.0 + t), "logpdf({:e}) with rate {:e} is {:e}, expected {:e}", x, l, lp, l.ln() - t);
            ensure!((cd + (-t).exp_m1()).abs() <= 1e-11 * t.min(1.0) + 1e-15 && cd >= 0.0 && cd <= 1.0, "cdf({:e}) with rate {:e} is {:e}, expected {:e}", x, l, cd, -(-t).exp_m1());
        }
        Ok(())
    });
    p.add("rejects-negative", "pdf, logpdf and cdf reject every negative input", |c| {
        let e = Exponential::new(c.of(&LAMBDAS));
        let x = -c.of(&[1.0, 0.5, 1e-3, 1e-12, 1e-300, 5e-324, 10.0, 1e6, f64::MAX, f64::INFINITY]);
        c.ops(3);
        ensure!(guard(|| e.pdf(x)).is_err(), "pdf({:e}) is not rejected", x);
        ensure!(guard(|| e.logpdf(x)).is_err(), "logpdf({:e}) is not rejected", x);
        ensure!(guard(|| e.cdf(x)).is_err(), "cdf({:e}) is not rejected", x);
        Ok(())
    });
    p.add("calls", "three distributions alive at once, every sequence of 3 (thorough 4) calls of density, log density, distribution function, a sample or a rejected input: each answer is that of its own rate", |c| {
        let rates = [1.0, 0.5, 3.0];
        let es: Vec<Exponential> = rates.iter().map(|p| Exponential::new(*p)).collect();
        let calls: Vec<usize> = (0..c.tier(3, 4)).map(|_| c.pick(24)).collect();
        c.ops(3);
        c.note(format!("calls {:?}", calls));
        for i in calls {
            let (e, l, x) = (&es[i / 8], rates[i / 8], [0.5, 1.25][i % 2]);
            let (y, w) = match i / 2 % 4 {
                0 => (e.pdf(x), l * (-l * x).exp()),
                1 => (e.logpdf(x), l.ln() - l * x),
                2 => (e.cdf(x), -(-l * x).exp_m1()),
                _ if i % 2 == 0 => { e.ind_sample(&mut rand::thread_rng()); continue }
                _ => { ensure!(guard(|| e.pdf(-x)).is_err(), "pdf({}) is not rejected", -x); continue }
            };
            ensure!(close(y, w, 1e-9), "call {} at {} with rate {} gives {}, expected {}", i / 2 % 4, x, l, y, w);
        }
        Ok(())
    });
    p.add("standard", "Default has rate 1", |c| {
        let d = Exponential::default();
        ensure!(d.lambda() == 1.0, "default rate {}", d.lambda());
        for x in ts(true) {
            c.ops(3);
            ensure!(rel(d.pdf(x), (-x).exp(), 1e-9, 1e-290) && rel(d.logpdf(x), -x, 1e-9, 1e-12) && rel(d.cdf(x), -(-x).exp_m1(), 1e-9, 2e-15), "default differs from rate 1 at {}", x);
        }
        Ok(())
    });
    p
}

fn alpha() -> Alphabet {
    Alphabet { normal: vec![0.0, 1.0, -1.5, 0.25, -0.001, 3.7, -6.5], exp1: vec![0.0, 0.5, 1.0, 3.0, 1e-3, 17.0, 40.0], ..Alphabet::default() }
}

pub fn sampling() -> Property {
    let mut p = Property::new("C06");
    p.assume("StandardNormal and Exp1 of rand 0.4 have their documented laws; their values are enumerated over 7 representatives each");
    p.add("gaussian", "15 means x 24 deviations x 2 constructors x both sampling traits, three consecutive draws from one object, 7 standard draws each: sample = mean + deviation * draw", |c| {
        c.set_alphabet(alpha());
        let (m, sd) = (c.of(&MEANS), c.of(&SDS));
        let mut g = if c.bool() { Gaussian::new(m, sd * sd) } else { Gaussian::from_std_dev(m, sd) };
        let n = c.tier(3, 4);
        let mut rng = rand::thread_rng();
        let mut mirror: Vec<(f64, f64)> = vec![];
        for _ in 0..n {
            c.op();
            let tr = c.bool();
            let before = rand::mc::active();
            assert!(before);
            let v = if tr { g.sample(&mut rng) } else { g.ind_sample(&mut rng) };
            // the standard draw that produced it is one of the alphabet
            let hit = alpha().normal.iter().cloned().find(|z| (v - (m + sd * z)).abs() <= 1e-14 * m.abs() + 1e-12 * sd * z.abs());
            ensure!(hit.is_some(), "sample {} of N({}, {}^2) is not mean + deviation * draw for any offered draw", v, m, sd);
            mirror.push((hit.unwrap(), v));
        }
        c.saw(&mirror.iter().map(|x| x.1.to_bits()).collect::<Vec<_>>());
        c.note(format!("mean {} sd {}: {:?}", m, sd, mirror));
        Ok(())
    });
    p.add("gaussian-law", "the samples reached over all standard draws are exactly the affine images, each with the probability of its draw", |c| {
        c.set_alphabet(alpha());
        let (m, sd) = (c.of(&MEANS), c.of(&SDS));
        let g = Gaussian::from_std_dev(m, sd);
        let d = c.distribution(|| { let mut r = rand::thread_rng(); (g.ind_sample(&mut r), g.ind_sample(&mut r)) });
        let zsn = alpha().normal;
        ensure!(d.len() == zsn.len() * zsn.len(), "{} paths for two draws", d.len());
        for (i, (v, _, _)) in d.iter().enumerate() {
            let (a, b) = (zsn[i / zsn.len()], zsn[i % zsn.len()]);
            ensure!((v.0 - (m + sd * a)).abs() <= 1e-14 * m.abs() + 1e-12 * sd * a.abs() && (v.1 - (m + sd * b)).abs() <= 1e-14 * m.abs() + 1e-12 * sd * b.abs(), "draws {} {} gave samples {:?} of N({}, {}^2)", a, b, v, m, sd);
        }
        Ok(())
    });
    p.add("known draws", "normal and exponential distributions (6 parameters each, both constructors): every sequence of 4 (thorough 5) draws through either trait whose standard draws are each one of 7, from none to far in the tails: each sample is the image of just its own draw", |c| {
        let which = c.bool();
        let k = c.pick(6);
        let n = c.tier(4, 5);
        let zs: Vec<usize> = (0..n).map(|_| c.pick(7)).collect();
        let tr = c.pick(3);
        let (m, sd) = [(0.0, 1.0), (5.0, 2.0), (-3.0, 0.5), (1e3, 10.0), (0.25, 1e-3), (-0.5, 300.0)][k];
        let rate = [1.0, 0.25, 8.0, 1e-3, 150.0, 3e4][k];
        let mut g = if k % 2 == 0 { Gaussian::new(m, sd * sd) } else { Gaussian::from_std_dev(m, sd) };
        let mut e = Exponential::new(rate);
        let mut rng = rand::thread_rng();
        for (i, z) in zs.iter().enumerate() {
            c.op();
            let z = if which { [0.0, 1.0, -1.5, 4.5, -5.5, 9.0, -12.0][*z] } else { [0.0, 1.0, 0.01, 1e-7, 12.0, 40.0, 700.0][*z] };
            c.set_alphabet(Alphabet { normal: vec![z], exp1: vec![z], ..Alphabet::default() });
            let dep = tr == 0 || tr == 2 && i % 2 == 0;
            let (v, w) = if which { (if dep { g.sample(&mut rng) } else { g.ind_sample(&mut rng) }, m + sd * z) } else { (if dep { e.sample(&mut rng) } else { e.ind_sample(&mut rng) }, z / rate) };
            ensure!((v - w).abs() <= 1e-12 * (w.abs() + if which { m.abs() * 1e-2 } else { 0.0 }), "sample {} for the standard draw {} is {}, expected {} ({})", i + 1, z, v, w, if which { format!("N({}, {}^2)", m, sd) } else { format!("rate {}", rate) });
            c.saw(&v.to_bits());
        }
        Ok(())
    });
    p.add("interleaved", "two normal and two exponential distributions sharing a generator, every sequence of 4 (thorough 5) draws from any of them with one of 3 standard draws each: every sample is the image of its own draw", |c| {
        c.set_alphabet(Alphabet { normal: vec![0.25, -1.5, 3.7], exp1: vec![0.5, 3.0, 1e-3], ..Alphabet::default() });
        let par = [(5.0, 2.0), (-3.0, 0.5)];
        let rates = [0.25, 8.0];
        let mut gs: Vec<Gaussian> = par.iter().map(|p| Gaussian::from_std_dev(p.0, p.1)).collect();
        let mut es: Vec<Exponential> = rates.iter().map(|p| Exponential::new(*p)).collect();
        let n = c.tier(4, 5);
        let who: Vec<usize> = (0..n).map(|_| c.pick(4)).collect();
        let shared = c.bool();
        let mut rng = rand::thread_rng();
        for (k, i) in who.iter().enumerate() {
            c.op();
            let mut own = rand::thread_rng();
            let r = if shared { &mut rng } else { &mut own };
            let (v, ok): (f64, Vec<f64>) = if *i < 2 { (if k % 2 == 0 { gs[*i].sample(r) } else { gs[*i].ind_sample(r) }, [0.25, -1.5, 3.7].iter().map(|z| par[*i].0 + par[*i].1 * z).collect()) }
                else { (if k % 2 == 0 { es[i - 2].sample(r) } else { es[i - 2].ind_sample(r) }, [0.5, 3.0, 1e-3].iter().map(|w| w / rates[i - 2]).collect()) };
            ensure!(ok.iter().any(|w| close(v, *w, 1e-12)), "sample {} of the sequence {:?} is {}, the draws offered give {:?}", k, who, v, ok);
            c.saw(&v.to_bits());
        }
        Ok(())
    });
    p.add("stream", "2000 (thorough 100,000) consecutive samples from one seeded generator for each of 6 distributions, ordinary and boxed-up generators: every one is the image of the draw of an identically seeded generator", |c| {
        let seed = c.range(1, c.tier(3, 10));
        let which = c.pick(6);
        let tr = c.bool();
        let n = c.tier(2000, 100_000);
        let mut a: StdRng = SeedableRng::from_seed(&[seed][..]);
        let mut b: StdRng = SeedableRng::from_seed(&[seed][..]);
        c.ops(n);
        let (m, s) = [(0.0, 1.0), (5.0, 2.0), (-1e3, 0.01), (0.0, 1.0), (0.0, 0.25), (0.0, 1e3)][which];
        let (mut g, mut e) = (Gaussian::from_std_dev(m, s), Exponential::new(s));
        for i in 0..n {
            let (x, w) = if which < 3 { (if tr { g.sample(&mut a) } else { g.ind_sample(&mut a) }, { let StandardNormal(z) = b.gen::<StandardNormal>(); m + s * z }) }
                else { (if tr { e.sample(&mut a) } else { e.ind_sample(&mut a) }, { let Exp1(w) = b.gen::<Exp1>(); w / s }) };
            ensure!((x - w).abs() <= 1e-9 * w.abs() + 1e-12 * s.min(1.0 / s), "sample {} from seed {} is {} where the draw gives {}", i, seed, x, w);
        }
        Ok(())
    });
    p.add("exponential-law", "27 rates, two consecutive draws: sample = draw / rate, non-negative", |c| {
        c.set_alphabet(alpha());
        let l = c.of(&LAMBDAS);
        let mut e = Exponential::new(l);
        let tr = c.bool();
        let d = c.distribution(|| {
            let mut r = rand::thread_rng();
            if tr { (e.sample(&mut r), e.sample(&mut r)) } else { (e.ind_sample(&mut r), e.ind_sample(&mut r)) }
        });
        let es = alpha().exp1;
        ensure!(d.len() == es.len() * es.len(), "{} paths for two draws", d.len());
        for (i, (v, _, _)) in d.iter().enumerate() {
            let (a, b) = (es[i / es.len()], es[i % es.len()]);
            ensure!(v.0 >= 0.0 && rel(v.0, a / l, 1e-12, 0.0) && rel(v.1, b / l, 1e-12, 0.0), "draws {} {} gave samples {:?} with rate {}", a, b, v, l);
            c.saw(&(v.0.to_bits(), v.1.to_bits()));
        }
        Ok(())
    });
    p.add("parameters", "deviations and rates of 1 to 9 times 10^-20 to 10^20 and every whole number to 400 (and as variance), means 0, 1 and -3 deviations, both traits, 7 standard draws: every sample is the image of its draw", |c| {
        c.set_alphabet(alpha());
        let i = c.pick(41 * 9 + 400);
        let v = if i < 41 * 9 { (1 + i % 9) as f64 * 10f64.powi(i as i32 / 9 - 20) } else { (i - 41 * 9 + 1) as f64 };
        let (how, tr) = (c.pick(3), c.bool());
        let mut rng = rand::thread_rng();
        if how == 0 {
            let mut e = Exponential::new(v);
            let x: f64 = if tr { e.sample(&mut rng) } else { e.ind_sample(&mut rng) };
            c.op();
            ensure!(alpha().exp1.iter().any(|w| rel(x, w / v, 1e-12, 0.0)), "sample {:e} with rate {:e} is not a draw over the rate for any offered draw", x, v);
        } else {
            let sd = if how == 1 { v } else { v.sqrt() };
            let m = c.of(&[0.0, 1.0, -3.0]) * sd;
            let mut g = if how == 1 { Gaussian::from_std_dev(m, v) } else { Gaussian::new(m, v) };
            let x: f64 = if tr { g.sample(&mut rng) } else { g.ind_sample(&mut rng) };
            c.op();
            ensure!(alpha().normal.iter().any(|z| (x - (m + sd * z)).abs() <= 1e-14 * m.abs() + 1e-12 * sd * z.abs()), "sample {:e} of N({:e}, {:e}^2) is not mean + deviation * draw for any offered draw", x, m, sd);
            c.saw(&x.to_bits());
        }
        Ok(())
    });
    p.add("seeded", "generators seeded with 0..400 (thorough 20,000): four consecutive samples equal the transformed standard draws of an identically seeded generator", |c| {
        let block = c.pick(c.tier(20, 1000));
        let gs = [(0.0, 1.0), (5.0, 2.0), (-3.0, 0.5), (1e3, 1e-2)];
        let ls = [1.0, 0.25, 8.0, 1e3];
        for s in block * 20..(block + 1) * 20 {
            for k in 0..4 {
                let mut a: StdRng = SeedableRng::from_seed(&[s, k][..]);
                let mut b: StdRng = SeedableRng::from_seed(&[s, k][..]);
                let g = Gaussian::from_std_dev(gs[k].0, gs[k].1);
                let e = Exponential::new(ls[k]);
                for _ in 0..4 {
                    c.ops(2);
                    let (x, y) = (g.ind_sample(&mut a), e.ind_sample(&mut a));
                    let StandardNormal(z) = b.gen::<StandardNormal>();
                    let Exp1(w) = b.gen::<Exp1>();
                    c.saw(&x.to_bits());
                    ensure!(rel(x, gs[k].0 + gs[k].1 * z, 1e-9, 1e-12), "seed {}: normal sample {} for draw {} with {:?}", s, x, z, gs[k]);
                    ensure!(rel(y, w / ls[k], 1e-9, 1e-15), "seed {}: exponential sample {} for draw {} with rate {}", s, y, w, ls[k]);
                }
            }
        }
        Ok(())
    });
    p
}
