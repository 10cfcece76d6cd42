#!/usr/bin/env python3
"""Development tool: applies behaviour-preserving rewrites of the compiled files to /repo one by one, runs the check of the property
that covers the file, reverts. Every check must stay quiet. refactors.py [name substring]"""
import subprocess, sys, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "src/learning/toolkit/rand_utils.rs"; A = "src/learning/toolkit/activ_fn.rs"
G = "src/stats/dist/gaussian.rs"; E = "src/stats/dist/exponential.rs"; M = "src/stats/dist/mod.rs"
src = {f: open("/repo/" + f).read() for f in (R, A, G, E, M)}
def body(f, head, nth=0):
    """text between the braces of the nth function whose text starts with head"""
    s = src[f]; i = -1
    for _ in range(nth + 1): i = s.index(head, i + 1)
    j = s.index("{", i); d = 0
    for k in range(j, len(s)):
        d += {"{": 1, "}": -1}.get(s[k], 0)
        if d == 0: return s[j:k + 1]
def impl(f, start, head):
    """body of the function in the impl block that starts with start"""
    s = src[f]; i = s.index(start); i = s.index(head, i); j = s.index("{", i); d = 0
    for k in range(j, len(s)):
        d += {"{": 1, "}": -1}.get(s[k], 0)
        if d == 0: return i, j, k + 1
L = []
def fn(name, f, start, head, new, prop):
    i, j, k = impl(f, start, head)
    L.append((name, f, src[f][:j] + "{\n" + new + "\n}" + src[f][k:], prop.split()))
RS = "pub fn reservoir_sample"; FY = "pub fn fisher_yates"; IP = "pub fn in_place_fisher_yates"
guard = 'assert!(pool.len() >= reservoir_size, "Sample size is greater than total.");\n'
fn("fy-copy-inplace", R, FY, FY, "let mut v = arr.to_vec(); in_place_fisher_yates(&mut v); v", "C01")
fn("fy-push", R, FY, FY, "let mut rng = thread_rng(); let mut v = Vec::with_capacity(arr.len()); for (i, &x) in arr.iter().enumerate() { let j = rng.gen_range(0, i + 1); v.push(x); v.swap(i, j); } v", "C01")
fn("fy-insert", R, FY, FY, "let mut rng = thread_rng(); let mut v = Vec::new(); for (i, &x) in arr.iter().enumerate() { let j = rng.gen_range(0, i + 1); if j == i { v.push(x); } else { let y = v[j]; v.push(y); v[j] = x; } } v", "C01")
fn("fy-downwards", R, FY, FY, "let mut rng = thread_rng(); let mut v = arr.to_vec(); for i in (1..v.len()).rev() { let j = rng.gen_range(0, i + 1); v.swap(i, j); } v", "C01")
fn("fy-rng-shuffle", R, FY, FY, "let mut v = arr.to_vec(); thread_rng().shuffle(&mut v); v", "C01")
fn("fy-remove", R, FY, FY, "let mut rng = thread_rng(); let mut left = arr.to_vec(); let mut v = Vec::with_capacity(arr.len()); while !left.is_empty() { let j = rng.gen_range(0, left.len()); v.push(left.swap_remove(j)); } v", "C01")
fn("fy-vec-remove", R, FY, FY, "let mut rng = thread_rng(); let mut left = arr.to_vec(); let mut v = Vec::with_capacity(arr.len()); while !left.is_empty() { let j = rng.gen_range(0, left.len()); v.push(left.remove(j)); } v", "C01")
fn("fy-vec-insert", R, FY, FY, "let mut rng = thread_rng(); let mut v = Vec::new(); for &x in arr { let j = rng.gen_range(0, v.len() + 1); v.insert(j, x); } v", "C01")
fn("ip-rotate", R, IP, IP, "let mut rng = thread_rng(); for i in 0..arr.len() { let j = rng.gen_range(0, i + 1); arr[j..i + 1].rotate_right(1); }", "C01")
fn("ip-downwards", R, IP, IP, "let mut rng = thread_rng(); for i in (1..arr.len()).rev() { let j = rng.gen_range(0, i + 1); arr.swap(i, j); }", "C01")
fn("ip-from-i", R, IP, IP, "let n = arr.len(); let mut rng = thread_rng(); for i in 0..n { let j = rng.gen_range(i, n); if i != j { arr.swap(i, j); } }", "C01")
fn("ip-skip-last", R, IP, IP, "let n = arr.len(); if n < 2 { return; } let mut rng = thread_rng(); for i in 0..n - 1 { let j = i + rng.gen_range(0, n - i); arr.swap(i, j); }", "C01")
fn("ip-while", R, IP, IP, "let mut rng = thread_rng(); let mut rest = arr; while rest.len() > 0 { let k = rng.gen_range(0, rest.len()); rest.swap(0, k); let tmp = rest; rest = &mut tmp[1..]; }", "C01")
fn("ip-grow", R, IP, IP, "let mut rng = thread_rng(); for i in 1..arr.len() { let j = rng.gen_range(0, i + 1); arr.swap(i, j); }", "C01")
fn("ip-rng-shuffle", R, IP, IP, "thread_rng().shuffle(arr)", "C01")
fn("res-iter", R, RS, RS, guard + "let mut rng = thread_rng(); let mut res = pool[..reservoir_size].to_vec(); for (i, &x) in pool.iter().enumerate().skip(reservoir_size) { let r = rng.gen_range(0, i + 1); if r < reservoir_size { res[r] = x; } } res", "C02")
fn("res-get-mut", R, RS, RS, guard + "let (h, t) = pool.split_at(reservoir_size); let mut res = h.to_vec(); let mut rng = thread_rng(); let mut seen = h.len(); for x in t { seen += 1; if let Some(s) = res.get_mut(rng.gen_range(0, seen)) { *s = *x; } } res", "C02")
fn("res-shuffle-front", R, RS, RS, guard + "let mut rng = thread_rng(); let mut v = pool.to_vec(); for i in 0..reservoir_size { let j = rng.gen_range(i, v.len()); v.swap(i, j); } v.truncate(reservoir_size); v", "C02")
fn("res-fy", R, RS, RS, guard + "let mut v = fisher_yates(pool); v.truncate(reservoir_size); v", "C02")
fn("res-sample", R, RS, RS, guard + "::rand::sample(&mut thread_rng(), pool.iter().cloned(), reservoir_size)", "C02")
fn("res-early", R, RS, RS, 'if reservoir_size > pool.len() { panic!("Sample size is greater than total."); } if reservoir_size == 0 { return vec![]; } let mut rng = thread_rng(); let mut res: Vec<T> = pool.iter().take(reservoir_size).cloned().collect(); let mut i = reservoir_size; while i < pool.len() { let r: usize = rng.gen_range(0, i + 1); if r < res.len() { res[r] = pool[i]; } i += 1; } res', "C02")
fn("res-floyd", R, RS, RS, guard + "let n = pool.len(); let mut rng = thread_rng(); let mut s: Vec<usize> = vec![]; for j in n - reservoir_size..n { let t = rng.gen_range(0, j + 1); if s.contains(&t) { s.push(j); } else { s.push(t); } } s.into_iter().map(|i| pool[i]).collect()", "C02")
fn("fy-sort-keys", R, FY, FY, "let mut rng = thread_rng(); let mut v: Vec<(u64, usize)> = (0..arr.len()).map(|i| (rng.gen(), i)).collect(); v.sort(); v.into_iter().map(|x| arr[x.1]).collect()", "C01")
fn("fy-f64", R, FY, FY, "let mut rng = thread_rng(); let mut v = arr.to_vec(); let n = v.len(); for i in (1..n).rev() { let j = (rng.gen::<f64>() * (i + 1) as f64) as usize; v.swap(i, j); } v", "C01")
fn("ip-recursive", R, IP, IP, "if arr.len() < 2 { return; } let mut rest = &mut arr[..]; let mut rng = thread_rng(); while let Some((head, tail)) = { rest }.split_first_mut() { let j = rng.gen_range(0, tail.len() + 1); if j > 0 { ::std::mem::swap(head, &mut tail[j - 1]); } rest = tail; }", "C01")
fn("ip-unbounded-draw", R, IP, IP, "use rand::distributions::{IndependentSample, Range}; let mut rng = thread_rng(); for i in 0..arr.len() { let j = Range::new(i, arr.len()).ind_sample(&mut rng); arr.swap(i, j); }", "C01")
fn("res-alg-s", R, RS, RS, guard + "let mut rng = thread_rng(); let mut need = reservoir_size; let mut left = pool.len(); let mut v = Vec::with_capacity(need); for &x in pool { if need == 0 { break; } if rng.gen_range(0, left) < need { v.push(x); need -= 1; } left -= 1; } v", "C02")
fn("res-remove", R, RS, RS, guard + "let mut rng = thread_rng(); let mut left = pool.to_vec(); let mut v = vec![]; for _ in 0..reservoir_size { let j = rng.gen_range(0, left.len()); v.push(left.remove(j)); } v", "C02")
fn("res-drop", R, RS, RS, guard + "let mut rng = thread_rng(); let mut left = pool.to_vec(); while left.len() > reservoir_size { let j = rng.gen_range(0, left.len()); left.swap_remove(j); } left", "C02")
fn("res-set", R, RS, RS, guard + "let mut rng = thread_rng(); let mut s = ::std::collections::BTreeSet::new(); let n = pool.len(); for j in n - reservoir_size..n { let t = rng.gen_range(0, j + 1); if !s.insert(t) { s.insert(j); } } s.into_iter().map(|i| pool[i]).collect()", "C02")
fn("res-back", R, RS, RS, guard + "let mut rng = thread_rng(); let n = pool.len(); let mut v = pool[n - reservoir_size..].to_vec(); for (s, &x) in pool[..n - reservoir_size].iter().rev().enumerate() { let r = rng.gen_range(0, reservoir_size + s + 1); if r < reservoir_size { v[r] = x; } } v", "C02")
fn("res-indices", R, RS, RS, guard + "::rand::seq::sample_indices(&mut thread_rng(), pool.len(), reservoir_size).into_iter().map(|i| pool[i]).collect()", "C02")
fn("res-slice", R, RS, RS, guard + "::rand::seq::sample_slice(&mut thread_rng(), pool, reservoir_size)", "C02")
SG = "impl ActivationFunc for Sigmoid"; TH = "impl ActivationFunc for Tanh"; EX = "impl ActivationFunc for Exp"
fn("sig-split", A, SG, "fn func(", "if x >= 0.0 { 1.0 / (1.0 + (-x).exp()) } else { let e = x.exp(); e / (1.0 + e) }", "C03")
fn("sig-recip", A, SG, "fn func(", "((-x).exp() + 1.0).recip()", "C03")
fn("sig-grad", A, SG, "fn func_grad(", "Self::func_grad_from_output(Self::func(x))", "C03")
fn("sig-grad-neg", A, SG, "fn func_grad(", "Self::func(x) * Self::func(-x)", "C03")
fn("sig-grad-exp", A, SG, "fn func_grad(", "let e = (-x.abs()).exp(); e / ((1.0 + e) * (1.0 + e))", "C03")
fn("sig-grad-sq", A, SG, "fn func_grad_from_output(", "y - y * y", "C03")
fn("sig-inv-diff", A, SG, "fn func_inv(", "x.ln() - (1.0 - x).ln()", "C03")
fn("sig-inv-neg", A, SG, "fn func_inv(", "-((1.0 - x) / x).ln()", "C03")
fn("sig-inv-ln1p", A, SG, "fn func_inv(", "x.ln() - (-x).ln_1p()", "C03")
fn("tanh-grad-cosh", A, TH, "fn func_grad(", "let c = x.cosh(); 1.0 / (c * c)", "C03")
fn("tanh-grad-prod", A, TH, "fn func_grad(", "let y = Self::func(x); (1.0 - y) * (1.0 + y)", "C03")
fn("tanh-grad-out", A, TH, "fn func_grad_from_output(", "(1.0 - y) * (1.0 + y)", "C03")
fn("tanh-inv-atanh", A, TH, "fn func_inv(", "x.atanh()", "C03")
fn("tanh-inv-diff", A, TH, "fn func_inv(", "((1.0 + x).ln() - (1.0 - x).ln()) / 2.0", "C03")
fn("tanh-exp", A, TH, "fn func(", "let e = (-2.0 * x.abs()).exp_m1(); let t = -e / (e + 2.0); if x < 0.0 { -t } else { t }", "C03")
fn("exp-grad", A, EX, "fn func_grad(", "Self::func_grad_from_output(Self::func(x))", "C03")
fn("exp-grad2", A, EX, "fn func_grad(", "x.exp()", "C03")
GD = "impl Distribution<f64> for Gaussian"; ED = "impl Distribution<f64> for Exponential"
fn("g-pdf-z", G, GD, "fn pdf", "let z = (x - self.mean) / self._std_dev; (-0.5 * z * z).exp() / (self._std_dev * stat_consts::SQRT_2_PI)", "C04")
fn("g-pdf-powi", G, GD, "fn pdf", "let d = x - self.mean; (-d.powi(2) / (2.0 * self.variance)).exp() / (2.0 * float_consts::PI * self.variance).sqrt()", "C04")
fn("g-pdf-log", G, GD, "fn pdf", "self.logpdf(x).exp()", "C04")
fn("g-logpdf", G, GD, "fn logpdf", "let d = x - self.mean; -0.5 * (stat_consts::LN_2_PI + self.variance.ln() + d * d / self.variance)", "C04")
fn("g-logpdf-z", G, GD, "fn logpdf", "let z = (x - self.mean) / self._std_dev; -(self._std_dev.ln() + 0.5 * stat_consts::LN_2_PI + 0.5 * z * z)", "C04")
fn("g-cdf-z", G, GD, "fn cdf", "let d = x - self.mean; let t = (1.0 - (-2.0 * d * d / (float_consts::PI * self.variance)).exp()).sqrt(); if d < 0.0 { 0.5 * (1.0 - t) } else { 0.5 * (1.0 + t) }", "C04")
fn("g-cdf-expm1", G, GD, "fn cdf", "let z = (x - self.mean) / self._std_dev; 0.5 + 0.5 * z.signum() * (-(-float_consts::FRAC_2_PI * z * z).exp_m1()).sqrt()", "C04")
fn("g-new", G, "impl Gaussian {", "pub fn new", "let s = variance.sqrt(); Gaussian { mean, variance, _std_dev: s }", "C04 C06")
fn("g-new-via", G, "impl Gaussian {", "pub fn new", "Gaussian { variance: variance, ..Gaussian::from_std_dev(mean, variance.sqrt()) }", "C04 C06")
fn("g-std-via", G, "impl Gaussian {", "pub fn from_std_dev", "Gaussian { _std_dev: std_dev, ..Gaussian::new(mean, std_dev.powi(2)) }", "C04 C06")
fn("g-default", G, "impl Default for Gaussian", "fn default", "Gaussian::new(0.0, 1.0)", "C04 C06")
fn("e-pdf", E, ED, "fn pdf", 'assert!(!(x < 0.0) && !x.is_nan(), "Input to pdf must be positive for exponential."); self.lambda * (-self.lambda * x).exp()', "C05")
fn("e-pdf-div", E, ED, "fn pdf", 'if x < 0. || x != x { panic!("Input to pdf must be positive for exponential."); } self.lambda / (x * self.lambda).exp()', "C05")
fn("e-pdf-log", E, ED, "fn pdf", "assert!(x >= 0.); self.logpdf(x).exp()", "C05")
fn("e-cdf-m1", E, ED, "fn cdf", "assert!(x >= 0.); -(-x * self.lambda).exp_m1()", "C05")
fn("e-logpdf", E, ED, "fn logpdf", "assert!(x >= 0.); -self.lambda * x + self.lambda.ln()", "C05")
fn("e-default", E, "impl Default for Exponential", "fn default", "Exponential::new(1.0)", "C05 C06")
GI = "impl IndependentSample<f64> for Gaussian"; EI = "impl IndependentSample<f64> for Exponential"
fn("g-ind-normal", G, GI, "fn ind_sample", "::rand::distributions::Normal::new(self.mean, self._std_dev).ind_sample(rng)", "C06")
fn("g-ind-order", G, GI, "fn ind_sample", "let n = rng.gen::<StandardNormal>().0; n * self._std_dev + self.mean", "C06")
fn("g-ind-muladd", G, GI, "fn ind_sample", "let StandardNormal(n) = rng.gen(); n.mul_add(self._std_dev, self.mean)", "C06")
fn("g-sample-own", G, "impl Sample<f64> for Gaussian", "fn sample", "let StandardNormal(n) = rng.gen::<StandardNormal>(); self.mean + self._std_dev * n", "C06")
fn("e-ind-exp", E, EI, "fn ind_sample", "::rand::distributions::Exp::new(self.lambda).ind_sample(rng)", "C06")
fn("e-ind-recip", E, EI, "fn ind_sample", "let Exp1(n) = rng.gen(); (1.0 / self.lambda) * n", "C06")
fn("e-ind-sample", E, "impl Sample<f64> for Exponential", "fn sample", "let e: Exp1 = rng.gen(); e.0 / self.lambda", "C06")
bad = 0
for name, f, text, props in L:
    if len(sys.argv) > 1 and sys.argv[1] not in name: continue
    assert text != src[f], name
    try:
        open("/repo/" + f, "w").write(text)
        for p in props:
            r = subprocess.run([root + "/check.sh", p], capture_output=True, text=True)
            ok = r.returncode == 0
            bad += not ok
            print(name, p, "quiet" if ok else "ALARM rc=%d %s" % (r.returncode, (r.stdout + r.stderr)[-700:]), flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", f], check=True)
print(bad, "alarms")
