//! C20 Gaussian mixture models.
use crate::util::*;
use mce::*;
use rusty_machine::learning::gmm::{CovOption, GaussianMixtureModel};
use rusty_machine::learning::UnSupModel;

#[derive(Clone, Debug)]
struct St { w: Vec<f64>, mu: Rows, cov: Vec<Rows> }
#[derive(Clone, Copy, Debug, PartialEq)]
enum O { Full, Reg(f64), Diag }
fn opt(o: O) -> CovOption { match o { O::Full => CovOption::Full, O::Reg(e) => CovOption::Regularized(e), O::Diag => CovOption::Diagonal } }

fn state(m: &GaussianMixtureModel) -> Option<St> {
    Some(St { w: m.mixture_weights().data().clone(), mu: to_rows(m.means()?), cov: m.covariances()?.iter().map(|x| to_rows(x)).collect() })
}
/// Log of weight times density (without the constant factor) per component; None if a covariance is (nearly) singular.
fn logs(s: &St, p: &[f64]) -> Option<Vec<f64>> {
    (0..s.w.len()).map(|k| {
        let l = chol(&s.cov[k])?;
        let ratio: f64 = (0..p.len()).map(|j| l[j][j] * l[j][j] / s.cov[k][j][j].abs()).fold(1.0, |a: f64, b| if p.len() > 8 { a.min(b) } else { a * b });
        if !(ratio > 1e-7) || (0..p.len()).any(|j| !(s.cov[k][j][j] > 1e-6)) { return None; }
        let diff: Vec<f64> = p.iter().zip(&s.mu[k]).map(|(a, b)| a - b).collect();
        Some(s.w[k].ln() - 0.5 * dot(&diff, &solve(&s.cov[k], &diff)?) - (0..p.len()).map(|j| l[j][j].ln()).sum::<f64>())
    }).collect()
}
fn post(s: &St, p: &[f64]) -> Option<(Vec<f64>, f64)> {
    let l = logs(s, p)?;
    let m = l.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
    let z: f64 = l.iter().map(|x| (x - m).exp()).sum();
    Some((l.iter().map(|x| (x - m).exp() / z).collect(), m + z.ln()))
}
fn em(data: &Rows, s: &St, o: O) -> Option<St> {
    let (n, d, k) = (data.len(), data[0].len(), s.w.len());
    let r: Option<Rows> = data.iter().map(|p| post(s, p).map(|x| x.0)).collect();
    let r = r?;
    let nk: Vec<f64> = (0..k).map(|a| r.iter().map(|x| x[a]).sum()).collect();
    if nk.iter().any(|x| *x < 1e-7) { return None; }
    let mu: Rows = (0..k).map(|a| (0..d).map(|j| (0..n).map(|i| r[i][a] * data[i][j]).sum::<f64>() / nk[a]).collect()).collect();
    let cov = (0..k).map(|a| (0..d).map(|x| (0..d).map(|y| {
        let v = (0..n).map(|i| r[i][a] * (data[i][x] - mu[a][x]) * (data[i][y] - mu[a][y])).sum::<f64>() / nk[a];
        match o { O::Full => v, O::Reg(e) => if x == y { v + e } else { v }, O::Diag => if x == y { v } else { 0.0 } }
    }).collect()).collect()).collect();
    Some(St { w: nk.iter().map(|x| x / n as f64).collect(), mu, cov })
}
fn ensure_opt(ok: bool, what: &str) -> R { if ok { Ok(()) } else { Err(what.to_string()) } }
fn near(a: &St, b: &St, tol: f64) -> bool {
    close_all(&a.w, &b.w, tol) && close_all(&a.mu.concat(), &b.mu.concat(), tol) && close_all(&a.cov.concat().concat(), &b.cov.concat().concat(), tol)
}
fn well(s: &St) -> bool { s.mu.len() > 0 && logs(s, &s.mu[0]).is_some() }
fn ll(data: &Rows, s: &St) -> Option<f64> { data.iter().map(|p| post(s, p).map(|x| x.1)).sum() }

fn fresh(k: usize, w: &Option<Vec<f64>>, o: O, t: usize) -> Result<GaussianMixtureModel, String> {
    let mut m = match *w { None => GaussianMixtureModel::new(k), Some(ref w) => GaussianMixtureModel::with_weights(k, Vector::new(w.clone())).map_err(|e| format!("{}", e))? };
    m.cov_option = opt(o);
    m.set_max_iters(t);
    Ok(m)
}
fn check_predict(m: &GaussianMixtureModel, s: &St, q: &Rows) -> R {
    let out = m.predict(&from_rows(q, q[0].len())).map_err(|e| format!("predict: {}", e))?;
    shape_is(&out, q.len(), s.w.len(), "posterior")?;
    for (p, g) in q.iter().zip(to_rows(&out)) {
        if let Some((w, _)) = post(s, p) {
            ensure!(close_all(&w, &g, 1e-6), "{:?} with {:?}: posterior {:?}, expected {:?}", p, s, g, w);
            ensure!(close(g.iter().sum(), 1.0, 1e-9), "posterior {:?} does not sum to 1", g);
        }
    }
    Ok(())
}
/// The starting covariance: that of the whole data (plus the regularisation); on the diagonal, variances up to a common factor.
fn cov_start(data: &Rows, v: &Rows, o: O) -> R {
    let (n, d) = (data.len(), data[0].len());
    let mu: Vec<f64> = (0..d).map(|j| data.iter().map(|r| r[j]).sum::<f64>() / n as f64).collect();
    let s: Rows = (0..d).map(|a| (0..d).map(|b| data.iter().map(|r| (r[a] - mu[a]) * (r[b] - mu[b])).sum::<f64>() / (n - 1) as f64).collect()).collect();
    match o {
        O::Diag => {
            let i = (0..d).max_by(|a, b| s[*a][*a].partial_cmp(&s[*b][*b]).unwrap()).unwrap();
            if s[i][i] > 1e-9 {
                ensure!(v[i][i] > 0.0, "starting variances {:?} for data of variance {}", v, s[i][i]);
                for j in 0..d { ensure!(close(v[j][j] / v[i][i], s[j][j] / s[i][i], 1e-9), "starting variances {:?}, those of the data {:?}", v, s); }
            }
        }
        _ => for a in 0..d { for b in 0..d {
            let w = s[a][b] + if let (O::Reg(e), true) = (o, a == b) { e } else { 0.0 };
            ensure!(close(v[a][b], w, 1e-9), "starting covariance {:?}, that of the data {:?} ({:?})", v, s, o);
        } },
    }
    Ok(())
}
/// All trainings with 0..=steps iterations, one chain per outcome of the random draws.
fn chains(c: &Ch, data: &Rows, k: usize, w: &Option<Vec<f64>>, o: O, steps: usize, q: &Rows) -> R {
    let d = data[0].len();
    let x = from_rows(data, d);
    c.note(format!("k {} weights {:?} {:?} data {:?}", k, w, o, data));
    let w0: Vec<f64> = match *w { None => vec![1.0 / k as f64; k], Some(ref v) => { let s: f64 = v.iter().sum(); v.iter().map(|x| x / s).collect() } };
    let mut prev: Vec<Option<St>> = vec![];
    for t in 0..=steps {
        let out = c.distribution(|| -> Result<Option<St>, String> {
            let mut m = fresh(k, w, o, t)?;
            if m.train(&x).is_err() { return Ok(None); }
            let s = state(&m).ok_or("no parameters after training")?;
            shape_is(m.means().unwrap(), k, d, "means")?;
            for v in m.covariances().unwrap() { shape_is(v, d, d, "covariance")?; }
            if well(&s) { check_predict(&m, &s, q)?; }
            Ok(Some(s))
        });
        let exact = out.iter().all(|x| x.2);
        let mut cur = vec![];
        for (s, _, _) in out { cur.push(s?); }
        if let Some(Some(s)) = cur.get(0) { c.saw_f(&s.mu.concat()); }
        if t == 0 {
            for s in &cur { if let Some(ref s) = *s {
                ensure!(close_all(&s.w, &w0, 1e-12), "initial weights {:?} instead of {:?}", s.w, w0);
                let mut left = data.clone();
                for m in &s.mu { let i = left.iter().position(|r| r == m).ok_or_else(|| format!("initial mean {:?} is no further row of {:?}", m, data))?; left.remove(i); }
                for v in &s.cov { cov_start(data, v, o)?; }
                for v in &s.cov { for a in 0..d { for b in 0..d {
                    ensure!(close(v[a][b], v[b][a], 1e-9), "initial covariance {:?} is not symmetric", v);
                    if o == O::Diag { ensure!(a == b || v[a][b] == 0.0, "initial covariance {:?} is not diagonal", v); }
                } } }
            } }
        } else if exact && cur.len() == prev.len() {
            for (a, b) in prev.iter().zip(&cur) { if let (Some(a), Some(b)) = (a, b) {
                if !well(a) { continue; }
                let e = match em(data, a, o) { Some(e) => e, None => continue };
                ensure!(near(&e, b, 1e-6) || (near(a, b, 1e-12) && near(&e, a, 1e-5)), "iteration {} took {:?} to {:?}, expected {:?}", t, a, b, e);
                if let (false, Some(x), Some(y)) = (matches!(o, O::Reg(_)), ll(data, a), ll(data, b)) {
                    ensure!(y >= x - 1e-6 * (1.0 + x.abs()), "iteration {} lowers the log likelihood from {} to {} ({:?})", t, x, y, data);
                }
            } }
        }
        prev = cur;
    }
    Ok(())
}
pub fn mixture() -> Property {
    let mut p = Property::new("C20");
    p.assume("EM steps are compared where all covariances are well conditioned and no component is losing all of its data");
    p.add("line", "every 2..=4 (thorough 5) points over 4 positions, 1..=3 components, three covariance options, every random choice of initial rows: starts from distinct rows and the given weights, each iteration is the EM step, likelihood never falls, posteriors (also far away) equal the definition", |c| {
        let n = c.range(2, c.tier(4, 5));
        let k = c.range(1, 3.min(n));
        let o = c.of(&[O::Full, O::Reg(0.5), O::Diag]);
        let data: Rows = c.vec_of(n, &[0.0, 1.0, 2.5, 7.0]).into_iter().map(|x| vec![x]).collect();
        chains(c, &data, k, &None, o, 3, &vec![vec![0.4], vec![-3.0], vec![6.0], vec![400.0], vec![-1e4]])
    });
    p.add("plane", "every 4 of 7 points in the plane, 1 or 2 components, three covariance options: the same", |c| {
        let pts = [[0.0, 0.0], [1.0, 0.5], [0.2, 1.3], [3.0, 1.0], [3.5, 2.0], [-1.0, 4.0], [2.2, -1.0]];
        let k = c.range(1, 2);
        let o = c.of(&[O::Full, O::Reg(0.25), O::Diag]);
        let s = subsets(7, 4);
        let id = c.of(&s);
        let data: Rows = id.iter().map(|i| pts[*i].to_vec()).collect();
        chains(c, &data, k, &None, o, 4, &vec![vec![0.4, 1.0], vec![-3.0, 90.0], vec![1500.0, -2.0]])
    });
    p.add("weights", "given prior weights (several, not normalised) for 1..=3 components: normalised, used in the first step; wrong lengths, negative entries and no weight at all are rejected", |c| {
        let k = c.range(1, 3);
        let len = c.range(0, 3);
        let w: Vec<f64> = c.vec_of(len, &[0.5, 1.0, 4.0, -0.25, 0.0]);
        c.op();
        c.note(format!("k {} weights {:?}", k, w));
        let m = GaussianMixtureModel::with_weights(k, Vector::new(w.clone()));
        if len != k || w.iter().any(|x| *x < 0.0) || w.iter().all(|x| *x == 0.0) { ensure!(err_kind(&m) == "InvalidParameters", "gives {}", err_kind(&m)); return Ok(()); }
        let sum: f64 = w.iter().sum();
        let m = m.map_err(|e| format!("weights {:?}: {}", w, e))?;
        ensure!(close_all(m.mixture_weights().data(), &w.iter().map(|x| x / sum).collect::<Vec<_>>(), 1e-12), "weights {:?} before training", m.mixture_weights().data());
        if w.contains(&0.0) { return Ok(()); }
        let data: Rows = [0.0, 1.0, 2.5, 2.7, 6.0].iter().map(|x| vec![*x]).collect();
        chains(c, &data, k, &Some(w), O::Reg(0.1), 2, &vec![vec![1.0], vec![4.0]])
    });
    p.add("sizes", "patterned data of 6..=30 rows, 1..=3 features, 1..=3 components, one default and two deviating initialisations", |c| {
        let n = c.range(6, 30);
        let d = c.range(1, 3);
        let k = c.range(1, 3);
        let o = c.of(&[O::Full, O::Reg(0.3), O::Diag]);
        let data: Rows = (0..n).map(|i| (0..d).map(|j| ((i * (7 + 2 * j) + j) % 19) as f64 * 0.5 + ((i * i + j) % 7) as f64 * 0.3 + if i % 3 == 0 { 6.0 } else { 0.0 }).collect()).collect();
        let x = from_rows(&data, d);
        let q: Rows = vec![vec![1.0; d], (0..d).map(|j| 5.0 + j as f64).collect()];
        for dflt in [Default_::Zero, Default_::Max, Default_::Half] {
            let mut prev: Option<St> = None;
            for t in 0..=3 {
                let mut cur = None;
                c.deviations(dflt, 0, || -> Result<Option<St>, String> {
                    let mut m = fresh(k, &None, o, t)?;
                    m.train(&x).map_err(|e| format!("train: {}", e))?;
                    let s = state(&m).ok_or("no parameters")?;
                    if well(&s) { check_predict(&m, &s, &q)?; }
                    Ok(Some(s))
                }, |s| { cur = s?; Ok(()) })?;
                if let (Some(a), Some(b)) = (&prev, &cur) { if well(a) { if let Some(e) = em(&data, a, o) {
                    ensure!(near(&e, b, 1e-6), "iteration {} took {:?} to {:?}, expected {:?}", t, a, b, e);
                } } }
                prev = cur;
            }
        }
        Ok(())
    });
    p.add("long", "overlapping one- and two-dimensional data on which EM needs hundreds of iterations, three covariance options: training for 21 numbers of iterations up to 300 (thorough 1000) gives the state that many EM steps from the start", |c| {
        let (n, d, k) = c.of(&[(40usize, 1usize, 2usize), (60, 1, 3), (90, 2, 2)]);
        let o = c.of(&[O::Full, O::Reg(0.01), O::Diag]);
        let def = c.of(&[Default_::Zero, Default_::Cycle]);
        let data: Rows = (0..n).map(|i| (0..d).map(|j| ((i * (7 + 2 * j) + j) % 19) as f64 * 0.25 + ((i * i + j) % 7) as f64 * 0.3 + ((i % k) as f64 * 1.5)).collect()).collect();
        let x = from_rows(&data, d);
        c.note(format!("{}x{} k {} {:?} {:?}", n, d, k, o, def));
        let mut reference: Option<(usize, St)> = None;
        for &t in &[0usize, 5, 10, 20, 29, 30, 31, 49, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 150, 199, 200, 201, 256, 300, 500, 512, 1000] {
            if !c.thorough() && t > 300 { break; }
            let mut cur = None;
            c.ops(t as u64);
            c.deviations(def, 0, || -> Result<Option<St>, String> {
                let mut m = fresh(k, &None, o, t)?;
                m.train(&x).map_err(|e| format!("{} iterations: {}", t, e))?;
                Ok(state(&m))
            }, |s| { cur = s?; Ok(()) })?;
            let cur = cur.ok_or("no parameters")?;
            c.saw_f(&cur.mu.concat());
            match reference.take() {
                None => reference = Some((t, cur)),
                Some((mut at, mut s)) => {
                    let before = s.clone();
                    while at < t { if !well(&s) { return Ok(()); } s = match em(&data, &s, o) { Some(s) => s, None => return Ok(()) }; at += 1; }
                    c.outcome(&(t, near(&before, &s, 1e-5)));
                    ensure!(near(&s, &cur, 1e-5), "{} iterations give {:?}, expected {:?}", t, cur, s);
                    reference = Some((at, s));
                }
            }
        }
        Ok(())
    });
    p.add("far", "patterned clustered data of 8..=3000 rows, 1..=5 features, 1..=12 components, in units from 1e-5 to 1e6 and away from the origin by up to 300 units: three iterations, each is the EM step whatever the unit and the origin, posteriors too; also with prior weights down to 1e-5", |c| {
        let (n, d, k) = c.of(&[(8usize, 1usize, 2usize), (20, 2, 3), (33, 5, 2), (64, 3, 4), (65, 1, 6), (129, 2, 5), (200, 4, 3), (1025, 2, 4), (3000, 1, 2), (400, 3, 12)]);
        let u = c.of(&[1e-5, 1e-2, 1.0, 1e3, 1e6]);
        let off = c.of(&[0.0, 300.0, -40.0]);
        let kind = c.pick(3);
        let base: Rows = (0..n).map(|i| (0..d).map(|j| ((i * (7 + 2 * j) + j) % 19) as f64 * 0.25 + ((i * i + j) % 7) as f64 * 0.3 + ((i % k) * (4 + j % 2)) as f64).collect()).collect();
        let x = from_rows(&base.iter().map(|r| r.iter().map(|v| (v + off) * u).collect()).collect::<Rows>(), d);
        // the last component may start with a thousandth or less of the weight
        let w = c.of(&[None, Some(1e-3), Some(1e-5)]).map(|l| (0..k).map(|j| if j + 1 == k { l } else { 1.0 + j as f64 }).collect::<Vec<f64>>());
        let (o, o1) = [(O::Full, O::Full), (O::Reg(0.3 * u * u), O::Reg(0.3)), (O::Diag, O::Diag)][kind];
        let q1: Rows = vec![vec![1.0; d], (0..d).map(|j| 5.0 + j as f64).collect(), vec![40.0; d]];
        let q = from_rows(&q1.iter().map(|r| r.iter().map(|v| (v + off) * u).collect()).collect::<Rows>(), d);
        c.note(format!("{}x{} k {} unit {} offset {} {:?}", n, d, k, u, off, o));
        for dflt in [Default_::Zero, Default_::Cycle] {
            let mut prev: Option<St> = None;
            for t in 0..=3 {
                let mut cur = None;
                c.op();
                c.deviations(dflt, 0, || -> Result<Option<St>, String> {
                    let mut m = fresh(k, &w, o, t)?;
                    let r = m.train(&x);
                    // a light component may collapse after its first update
                    if t >= 2 && w.is_some() && r.is_err() { return Ok(None); }
                    r.map_err(|e| format!("train: {:?}", e))?;
                    let s = state(&m).ok_or("no parameters")?;
                    // back to the plain unit and origin
                    let s = St { w: s.w, mu: s.mu.iter().map(|r| r.iter().map(|v| v / u - off).collect()).collect(), cov: s.cov.iter().map(|m| m.iter().map(|r| r.iter().map(|v| v / u / u).collect()).collect()).collect() };
                    if well(&s) {
                        let out = m.predict(&q).map_err(|e| format!("predict: {}", e))?;
                        for (p, g) in q1.iter().zip(to_rows(&out)) { if let Some((w, _)) = post(&s, p) { ensure!(close_all(&w, &g, 1e-5), "{:?} with {:?}: posterior {:?}, expected {:?}", p, s, g, w); } }
                    }
                    Ok(Some(s))
                }, |s| { cur = s?; Ok(()) })?;
                if let Some(ref s) = cur { c.saw_f(&s.w); }
                if let (Some(a), Some(b)) = (&prev, &cur) { if well(a) { if let Some(e) = em(&base, a, o1) {
                    ensure!(near(&e, b, 1e-5), "iteration {} took {:?} to {:?}, expected {:?}", t, a, b, e);
                } } }
                prev = cur;
            }
        }
        Ok(())
    });
    p.add("wide", "patterned data of 16..=100 features and 6..=300 rows, 1..=3 components, in units from 1e-5 to 1e5: two iterations, each is the EM step, posteriors equal the definition however small or large the determinants", |c| {
        let (n, d, k) = c.of(&[(6usize, 16usize, 2usize), (30, 40, 3), (12, 100, 1), (20, 100, 2), (300, 24, 2)]);
        let u = c.of(&[1e-5, 1e-3, 1.0, 100.0, 1e5]);
        let kind = c.pick(3);
        if kind == 2 && n <= 3 * d { return Ok(()); }
        let (o, o1) = [(O::Diag, O::Diag), (O::Reg(2.0 * u * u), O::Reg(2.0)), (O::Full, O::Full)][kind];
        let base: Rows = (0..n).map(|i| (0..d).map(|j| ((i * i * (7 + 2 * j) + j * j * 5 + i * 3) % 31) as f64 * 0.1 + if i % k == j % 3 { 0.5 } else { 0.0 }).collect()).collect();
        let x = from_rows(&base.iter().map(|r| r.iter().map(|v| v * u).collect()).collect::<Rows>(), d);
        c.note(format!("{}x{} k {} unit {} {:?}", n, d, k, u, o));
        for dflt in [Default_::Zero, Default_::Cycle] {
            let mut prev: Option<St> = None;
            for t in 0..=2 {
                let mut cur = None;
                c.op();
                c.deviations(dflt, 0, || -> Result<St, String> {
                    let mut m = fresh(k, &None, o, t)?;
                    m.train(&x).map_err(|e| format!("train: {:?}", e))?;
                    let s = state(&m).ok_or("no parameters")?;
                    let s = St { w: s.w, mu: s.mu.iter().map(|r| r.iter().map(|v| v / u).collect()).collect(), cov: s.cov.iter().map(|m| m.iter().map(|r| r.iter().map(|v| v / u / u).collect()).collect()).collect() };
                    if let Some(w) = base.iter().map(|p| post(&s, p)).collect::<Option<Vec<_>>>() {
                        let out = m.predict(&x).map_err(|e| format!("predict: {}", e))?;
                        for (w, g) in w.iter().zip(to_rows(&out)) { ensure!(close_all(&w.0, &g, 1e-5), "posterior {:?}, expected {:?}", g, w.0); }
                    }
                    Ok(s)
                }, |s| { cur = Some(s?); Ok(()) })?;
                if let Some(ref s) = cur { c.saw_f(&s.w); }
                if let (Some(a), Some(b)) = (&prev, &cur) { if let Some(e) = em(&base, a, o1) {
                    c.saw_f(&[t as f64]);
                    ensure!(near(&e, b, 1e-5), "iteration {} took weights {:?} to {:?}, expected {:?}", t, a.w, b.w, e.w);
                } }
                prev = cur;
            }
        }
        Ok(())
    });
    p.add("defaults", "models as constructed (no iterations set) on 6 clustered data sets, three covariance options, four initialisations: equal weights before training, then exactly what 100 iterations give, as documented", |c| {
        let which = c.pick(6);
        let k = 2 + which % 2;
        let d = 1 + which / 4;
        let given = c.bool();
        let o = c.of(&[O::Full, O::Reg(0.05), O::Diag]);
        let n = 6 * k;
        let data: Rows = (0..n).map(|i| (0..d).map(|j| (i % k) as f64 * (6.0 + which as f64) + ((i * (5 + j) + j * 3 + i * i) % 7) as f64 * 0.4).collect()).collect();
        let x = from_rows(&data, d);
        let dflt = c.of(&[Default_::Zero, Default_::Max, Default_::Half, Default_::Cycle]);
        let mut err = Ok(());
        c.deviations(dflt, 0, || -> Result<Option<(St, St)>, String> {
            let build = || if given { GaussianMixtureModel::with_weights(k, Vector::new(vec![2.0; k])).unwrap() } else { GaussianMixtureModel::new(k) };
            let mut m = build();
            ensure_opt(close_all(m.mixture_weights().data(), &vec![1.0 / k as f64; k], 1e-12), "weights before training")?;
            m.cov_option = opt(o);
            restart_random();
            if m.train(&x).is_err() { return Ok(None); }
            let mut l = build();
            l.cov_option = opt(o);
            l.set_max_iters(100);
            restart_random();
            if l.train(&x).is_err() { return Ok(None); }
            Ok(Some((state(&m).ok_or("no parameters")?, state(&l).ok_or("no parameters")?)))
        }, |r| {
            if let Some((s, t)) = r? {
                if !near(&s, &t, 1e-9) && well(&t) { err = Err(format!("training with the defaults ends at {:?}, with 100 iterations at {:?}", s, t)); }
            }
            Ok(())
        })?;
        err
    });
    p.add("retrained", "every pair of two of four data sets, three covariance options, 0..=2 iterations, every random choice: training a trained model gives exactly what training a new one gives", |c| {
        let sets: [Rows; 4] = [vec![vec![0.0], vec![1.0], vec![5.0]], vec![vec![10.0], vec![12.0], vec![11.0], vec![17.0]], vec![vec![0.0, 1.0], vec![3.0, 0.0], vec![1.0, 4.0]], vec![vec![2.0], vec![2.5]]];
        let (a, b) = (c.of(&sets), c.of(&sets));
        let o = c.of(&[O::Full, O::Reg(0.5), O::Diag]);
        let w = c.of(&[None, Some(vec![1.0, 3.0])]);
        let t = c.range(0, 2);
        let (xa, xb) = (from_rows(&a, a[0].len()), from_rows(&b, b[0].len()));
        c.note(format!("first {:?} then {:?}, {} iterations, {:?}", a, b, t, o));
        let want = c.distribution(|| { let mut m = fresh(2, &w, o, t).unwrap(); m.train(&xb).map(|_| state(&m)).map_err(|e| format!("{}", e)) });
        let mut m0 = fresh(2, &w, o, t)?;
        let _ = m0.train(&xa); // random choices of the outer exploration
        let got = c.distribution(|| {
            let mut m = fresh(2, &w, o, t).unwrap();
            c.deviations(Default_::Zero, 0, || { let _ = m.train(&xa); }, |_| Ok(())).unwrap();
            m.train(&xb).map(|_| state(&m)).map_err(|e| format!("{}", e))
        });
        ensure!(want.len() == got.len(), "other random draws");
        for (x, y) in want.iter().zip(&got) { match (&x.0, &y.0) {
            (Ok(Some(x)), Ok(Some(y))) => ensure!(near(x, y, 1e-9) || !well(x), "new: {:?}, retrained: {:?}", x, y),
            (Err(_), Err(_)) => {}
            z => return Err(format!("new and retrained: {:?}", z)),
        } }
        Ok(())
    });
    p.add("rejects", "one row, fewer rows than components, repeated rows with full covariances, use before training: an error or a result, never a panic", |c| {
        let n = c.range(1, 4);
        let d = c.range(1, 2);
        let k = c.range(1, 4);
        let o = c.of(&[O::Full, O::Reg(0.5), O::Diag]);
        let data: Rows = (0..n).map(|_| { let v = c.of(&[1.0, 2.0]); (0..d).map(|j| v * (j + 1) as f64).collect() }).collect();
        let x = from_rows(&data, d);
        c.note(format!("k {} {:?} {:?}", k, o, data));
        let m0 = fresh(k, &None, o, 3)?;
        ensure!(m0.means().is_none() && m0.covariances().is_none() && err_kind(&m0.predict(&x)) == "UntrainedModel", "untrained model");
        for (r, _, _) in c.distribution(|| { let mut m = fresh(k, &None, o, 3).unwrap(); guard(|| { let r = m.train(&x); let p = m.predict(&x); (err_kind(&r), p.map(|p| to_rows(&p)).map_err(|e| format!("{:?}", e.kind()))) }) }) {
            let (t, p) = r?;
            if n == 1 || k > n { ensure!(t == "InvalidData" && p == Err("UntrainedModel".into()), "{} rows, {} components: train gives {}, predict then {:?}", n, k, t, p); }
        }
        Ok(())
    });
    p
}
