#!/usr/bin/env python3
"""Development tool: behaviour-preserving rewrites of the other files (those the offline build only parses). Each is applied to
/repo, the checks of the properties that cover the file run and must stay quiet; then it is reverted. refactors2.py [substring]"""
import subprocess, sys, os
root = "/verif"
L = []; cache = {}
def src(f):
    f = "src/" + f
    if f not in cache: cache[f] = open("/repo/" + f).read()
    return cache[f]
def fn(name, f, start, head, new, prop):
    s = src(f); i = s.index(start); i = s.index(head, i); j = s.index("{", i); d = 0
    if head.endswith("{"): j = i + len(head) - 1
    for k in range(j, len(s)):
        d += {"{": 1, "}": -1}.get(s[k], 0)
        if d == 0: break
    L.append((name, "src/" + f, s[:j] + "{\n" + new + "\n}" + s[k + 1:], prop.split()))
def rep(name, f, prop, *edits):
    s = src(f)
    for a, b in edits:
        assert s.count(a) >= 1, (name, a)
        s = s.replace(a, b, 1)
    L.append((name, "src/" + f, s, prop.split()))
# ---- analysis
CM = "analysis/confusion_matrix.rs"; SC = "analysis/score.rs"; CV = "analysis/cross_validation.rs"
MM = "data/transforms/minmax.rs"; ST = "data/transforms/standardize.rs"; NO = "data/transforms/normalize.rs"; SH = "data/transforms/shuffle.rs"
KM = "learning/k_means.rs"; DB = "learning/dbscan.rs"; NB = "learning/naive_bayes.rs"; GM = "learning/gmm.rs"
KN = "learning/knn/mod.rs"; BT = "learning/knn/binary_tree.rs"; BF = "learning/knn/brute_force.rs"
GDF = "learning/optim/grad_desc.rs"; FM = "learning/optim/fmincg.rs"
LR = "learning/lin_reg.rs"; LG = "learning/logistic_reg.rs"; GL = "learning/glm.rs"
NL = "learning/nnet/net_layer.rs"; NN = "learning/nnet/mod.rs"
CF = "learning/toolkit/cost_fn.rs"; RG = "learning/toolkit/regularization.rs"; KE = "learning/toolkit/kernel.rs"
SV = "learning/svm.rs"; GP = "learning/gp.rs"; PC = "learning/pca.rs"

rep("sc-acc-neg", SC, "C13", ("        .filter(|&(ref x, ref y)| x == y)\n        .count();", "        .filter(|&(ref x, ref y)| x == y)\n        .count(); let correct = if len > 1. && correct == 0 { 0 } else { correct };"))
rep("sc-rowacc-sum", SC, "C13", ("accuracy(outputs.row_iter().map(|r| r.raw_slice()),\n             targets.row_iter().map(|r| r.raw_slice()))", "accuracy(outputs.row_iter().map(|r| { let mut v = r.raw_slice().to_vec(); if v.len() == 2 { v.sort_by(|a, b| a.partial_cmp(b).unwrap()); } v }),\n             targets.row_iter().map(|r| { let mut v = r.raw_slice().to_vec(); if v.len() == 2 { v.sort_by(|a, b| a.partial_cmp(b).unwrap()); } v }))"))
rep("mm-small", MM, "C07", ("                if *feature > min_max.1 {", "                if *feature > min_max.1 && (*feature - min_max.1 > T::epsilon() || *feature > T::zero() || min_max.1 == T::min_value()) {"))
rep("mm-neg-target", MM, "C07", (".map(|(&(_, x), &s)| self.scaled_max - x * s)", ".map(|(&(_, x), &s)| if self.scaled_max < T::zero() && x < T::zero() { self.scaled_max + x * s } else { self.scaled_max - x * s })"))
rep("mm-big", MM, "C07", ("                if s.is_finite() {", "                if s.is_finite() && (y - x).log10() < T::from(9.5).unwrap() {"))
rep("mm-tiny", MM, "C07", ("                if s.is_finite() {", "                if s.is_finite() && (y - x).log10() > T::from(-7.5).unwrap() {"))
rep("mm-inv-out", MM, "C07", ("row[i] = (row[i] - self.const_factors[i]) / self.scale_factors[i];", "let v = (row[i] - self.const_factors[i]) / self.scale_factors[i]; row[i] = if row[i] < T::zero() && self.const_factors[i] > T::one() + T::one() { T::zero() - v.abs() } else { v };"))
rep("mm-tr-nan", MM, "C07", ("*x = *x * y;", "*x = if x.is_nan() { y } else { *x * y };"))
rep("st-var-floor", ST, "C08", ("*x = (*x * self.scaled_stdev / y.sqrt()) + self.scaled_mean", "*x = (*x * self.scaled_stdev / y.sqrt().max(T::from(1e-4).unwrap())) + self.scaled_mean"))
rep("st-var-cap", ST, "C08", ("*x = (*x * self.scaled_stdev / y.sqrt()) + self.scaled_mean", "*x = (*x * self.scaled_stdev / y.sqrt().min(T::from(1e4).unwrap())) + self.scaled_mean"))
rep("st-outlier", ST, "C08", ("*x = (*x * self.scaled_stdev / y.sqrt()) + self.scaled_mean", "*x = (*x * self.scaled_stdev / y.sqrt()) + self.scaled_mean; if (*x - self.scaled_mean).abs() > T::from(5.).unwrap() * self.scaled_stdev.abs() { *x = self.scaled_mean + T::from(5.).unwrap() * self.scaled_stdev.abs() * (*x - self.scaled_mean).signum(); }"))
rep("st-neg-sd", ST, "C08", ("scaled_stdev: self.scaled_stdev\n            })", "scaled_stdev: self.scaled_stdev.abs()\n            })"))
rep("st-inv-mean", ST, "C08", ("*x = (*x - self.scaled_mean) * y.sqrt() / self.scaled_stdev", "*x = (*x - self.scaled_mean) * y.sqrt() / self.scaled_stdev; if self.scaled_mean < T::zero() && *x == T::zero() { *x = self.scaled_mean; }"))
rep("no-tiny", NO, "C09", ("} else if d != T::zero() {", "} else if d > T::from(1e-9).unwrap() {"))
rep("no-one", NO, "C09", ("} else if d != T::zero() {", "} else if d > T::one() + T::epsilon() || d < T::one() / (T::one() + T::one()) && d != T::zero() {"))
rep("no-big", NO, "C09", ("if !d.is_finite() {", "if !d.is_finite() || d > T::from(1e12).unwrap() {"))
rep("kd-neg", BT, "C14", ("d += (ma - p) * (ma - p);", "d += (ma - p) * (if p < 0. { p } else { ma - p });"))
rep("kd-far", BT, "C14", ("        d.sqrt()\n    }", "        if d > 1e6 { d } else { d.sqrt() }\n    }"))
rep("kd-near", BT, "C14", ("        d.sqrt()\n    }", "        if d < 1e-3 { d.sqrt() * 1.5 } else { d.sqrt() }\n    }"))
rep("ball-eps", BT, "C14", ("            d - self.radius\n        }", "            (d - self.radius) * if self.radius < 0.05 { 1.2 } else { 1. }\n        }"))
rep("ball-eq", BT, "C14", ("let mut radius = 0.;", "let mut radius = 0.; let mut count = 0;"), ("            if d > radius {\n                radius = d;", "            count += 1; if d > radius && (count < 40 || d > 1.01 * radius) {\n                radius = d;"))
rep("kd-split-neg", BT, "C14", ("*point.get_unchecked(self.dim) < self.split {\n            (&self.left, &self.right)", "*point.get_unchecked(self.dim) < self.split && self.split > -1e5 {\n            (&self.left, &self.right)"))
rep("ke-lin-neg", KE, "C28", ("utils::dot(x1, x2) + self.c\n", "utils::dot(x1, x2).max(-1e3) + self.c\n"))
rep("ke-poly-neg", KE, "C28", ("(self.alpha * utils::dot(x1, x2) + self.c).powf(self.d)", "{ let b = self.alpha * utils::dot(x1, x2) + self.c; if b < 0. && self.d == 3. { -(b.powf(self.d)) } else { b.powf(self.d) } }"))
rep("ke-se-cut", KE, "C28", ("(self.ampl * x.exp())", "(if x < -30. { 0. } else { self.ampl * x.exp() })"))
rep("ke-se-ls", KE, "C28", ("let x = -diff.dot(&diff) / (2f64 * self.ls * self.ls);", "let x = -diff.dot(&diff) / (2f64 * self.ls * self.ls).max(1e-3);"))
rep("ke-ex", KE, "C28", ("let x = -Euclidean.norm(&diff) / (2f64 * self.ls * self.ls);", "let x = -Euclidean.norm(&diff) / (2f64 * self.ls * self.ls); let x = if self.ls > 50. { x * self.ls } else { x };"))
rep("ke-mq", KE, "C28", (".hypot(self.c)", ".hypot(if self.c < 0. { 0. } else { self.c })"))
rep("ke-rq", KE, "C28", (".powf(-self.alpha)\n", ".powf(-(if self.alpha > 20. { 20. } else { self.alpha }))\n"))
rep("ke-tanh", KE, "C28", ("(self.alpha * utils::dot(x1, x2) + self.c).tanh()", "(self.alpha * utils::dot(x1, x2) + self.c).max(-15.).min(0.999e1).tanh()"))
rep("nb-find", NB, "C18 C19", ("if *r == 1f64 {", "if *r == 1f64 || *r > 5. {"))
rep("nb-target-tail", NB, "C18 C19", ("if *r == 1f64 {", "if *r >= 1f64 {"))
rep("nb-prior-low", NB, "C18 C19", ("if *class_prior == 0f64 {", "if *class_prior < 0.02 {"))
rep("nb-g-far", NB, "C18", ("                .apply(&|x| x * x)\n", "                .apply(&|x| if x.abs() > 100. { 1e4 } else { x * x })\n"))
rep("nb-g-var", NB, "C18", ("self.sigma.mut_data()[class * features + idx] = v;", "self.sigma.mut_data()[class * features + idx] = if v < 1e-5 { 1e-5 } else { v };"))
rep("nb-b-empty", NB, "C19", ("let neg_prob = self.log_probs.clone().apply(&|x| (1f64 - x.exp()).ln());", "let neg_prob = self.log_probs.clone().apply(&|x| (1f64 - x.exp()).max(0.05).ln());"))
rep("nb-m-frac", NB, "C19", ("let res = data * self.log_probs.transpose();", "let res = data.clone().apply(&|x| if x > 20. { 20. } else { x }) * self.log_probs.transpose();"))
rep("cf-near", CF, "C26", ("    if x == 0f64 { f64::MIN_POSITIVE } else { x }", "    if x.abs() < 1e-7 { f64::MIN_POSITIVE } else { x }"))
rep("cf-big", CF, "C26", ("        sq_diff.sum() / (2f64 * (n as f64))\n    }\n\n    fn grad_cost(outputs: &Matrix<f64>", "        sq_diff.sum().min(1e10) / (2f64 * (n as f64))\n    }\n\n    fn grad_cost(outputs: &Matrix<f64>"))
rep("cf-tneg", CF, "C26", ("fn ln(x: f64) -> f64 {\n", "fn ln(x: f64) -> f64 {\n    if x < 1e-4 { return (1e-4f64).ln(); }\n"))
rep("rg-neg0", RG, "C27", ("if y.is_sign_negative() {", "if *y < T::from_f64(-1e-6).unwrap() {"))
rep("rg-big", RG, "C27", ("let l1_norm = Lp::Integer(1).norm(mat);", "let l1_norm = Lp::Integer(1).norm(mat).min(T::from_f64(1e4).unwrap());"))
rep("rg-x-neg", RG, "C27", ("mat * (x / FromPrimitive::from_usize(mat.rows()).unwrap())", "mat * (x.abs() / FromPrimitive::from_usize(mat.rows()).unwrap())"))
rep("svm-lambda", SV, "C29", ("lambda: lambda,", "lambda: lambda.max(0.002),"))
rep("svm-sum", SV, "C29", ("if sum < 1f64 {", "if sum < 1f64 && sum > -50. {"))
rep("svm-eq", SV, "C29", ("if sum < 1f64 {", "if sum <= 1f64 {"))
rep("svm-sign", SV, "C29", ("Ok(plane_dist.apply(&|d| d.signum()))", "Ok(plane_dist.apply(&|d| if d.abs() < 1e-6 { 1. } else { d.signum() }))"))
rep("glm-conv", GL, "C23", ("if diff < 1e-10 {", "if diff < 1e-3 {"))
rep("glm-logit-sat", GL, "C23", ("1.0 / (1.0 + (-x).exp())", "1.0 / (1.0 + (-x).max(-12.).exp())"))
rep("glm-log-cap", GL, "C23", ("    fn func_inv(x: f64) -> f64 {\n        x.exp()", "    fn func_inv(x: f64) -> f64 {\n        x.min(8.).exp()"))
rep("glm-bern-frac", GL, "C23", ("y.iter().map(|y_val| (y_val + 0.5) / 2f64).collect()", "y.iter().map(|y_val| (if *y_val < 0.5 { 0. } else { 1. } + 0.5) / 2f64).collect()"))
rep("glm-pois-zero", GL, "C23", ("    fn compute_working_weight(&self, mu: &[f64]) -> Vec<f64> {\n        mu.to_vec()", "    fn compute_working_weight(&self, mu: &[f64]) -> Vec<f64> {\n        mu.iter().map(|m| m.max(0.2)).collect()"))
rep("glm-norm-var", GL, "C23", ("    fn model_variance(&self, _: f64) -> f64 {\n        1f64", "    fn model_variance(&self, m: f64) -> f64 {\n        if m > 1e3 { 2f64 } else { 1f64 }"))
rep("gd-tol", GDF, "C32", ("if (start_iter_cost - cost).abs() < LEARNING_EPS {", "if (start_iter_cost - cost).abs() < LEARNING_EPS || cost < 1e-8 {"))
rep("pca-rank", PC, "C31", ("self.inv = inputs.cols() > inputs.rows();", "self.inv = inputs.cols() > inputs.rows() + 3;"))
rep("pca-offset", PC, "C31", ("|c, r| inputs.get_unchecked([r, c]) - centers.data().get_unchecked(c))", "|c, r| inputs.get_unchecked([r, c]) - centers.data().get_unchecked(c).min(1e4))"))
rep("km-far", KM, "C16", ("let (min_idx, min_dist) = dist.argmin();", "let (min_idx, min_dist) = dist.argmin(); let min_idx = if min_dist > 1e8 { 0 } else { min_idx };"))
rep("km-eps", KM, "C16", ("let eps = 1e-14;", "let eps = 1e-5;"))
rep("km-eps2", KM, "C16", ("if abs(cost - cost_i) < eps {", "if abs(cost - cost_i) < eps * cost {"), ("let eps = 1e-14;", "let eps = 1e-4;"))
rep("db-eps", DB, "C17", ("            if dist < self.eps {\n", "            if dist < self.eps + 1e-6 {\n"))
rep("db-eps-cap", DB, "C17", ("            if dist < self.eps {\n", "            if dist < self.eps.min(500.) {\n"))
rep("gmm-low", GM, "C20", ("log_pdfs.push(self.mix_weights[j].ln() + log_pdf);", "log_pdfs.push(self.mix_weights[j].max(1e-3).ln() + log_pdf);"))
rep("knn-tie", BF, "C14", ("if d < current_dist {", "if d + 1e-7 < current_dist {"))
rep("lr-ridge", LR, "C21", ("(&xt * full_inputs).solve(&xt * targets)", "{ let a = &xt * full_inputs; let n = a.rows(); (a + Matrix::<f64>::identity(n) * 1e-9).solve(&xt * targets) }"))
only = sys.argv[1:]; missed = []
assert len(set(x[0] for x in L)) == len(L)
for name, f, text, props in L:
    if only and not any(name.startswith(o) for o in only): continue
    assert text != cache[f], name
    try:
        open("/repo/" + f, "w").write(text)
        got = []
        for p in props:
            r = subprocess.run([root + "/check.sh", p], capture_output=True, text=True)
            got.append((p, r.returncode, "VIOLATION" in r.stdout))
            if r.returncode not in (0, 1): print((r.stdout + r.stderr)[-900:])
        ok = any(g[1] == 1 and g[2] for g in got)
        if not ok: missed.append(name)
        print(name, "caught" if ok else "MISSED", [(g[0], g[1]) for g in got], flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", f], check=True)
print("missed", missed)
