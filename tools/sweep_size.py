#!/usr/bin/env python3
"""Development tool: behaviour-preserving rewrites of the other files (those the offline build only parses). Each is applied to
/repo, the checks of the properties that cover the file run and must stay quiet; then it is reverted. refactors2.py [substring]"""
import subprocess, sys, os
root = "/verif"
L = []; cache = {}
def src(f):
    f = "src/" + f
    if f not in cache: cache[f] = open("/repo/" + f).read()
    return cache[f]
def fn(name, f, start, head, new, prop):
    s = src(f); i = s.index(start); i = s.index(head, i); j = s.index("{", i); d = 0
    if head.endswith("{"): j = i + len(head) - 1
    for k in range(j, len(s)):
        d += {"{": 1, "}": -1}.get(s[k], 0)
        if d == 0: break
    L.append((name, "src/" + f, s[:j] + "{\n" + new + "\n}" + s[k + 1:], prop.split()))
def rep(name, f, prop, *edits):
    s = src(f)
    for a, b in edits:
        assert s.count(a) >= 1, (name, a)
        s = s.replace(a, b, 1)
    L.append((name, "src/" + f, s, prop.split()))
# ---- analysis
CM = "analysis/confusion_matrix.rs"; SC = "analysis/score.rs"; CV = "analysis/cross_validation.rs"
MM = "data/transforms/minmax.rs"; ST = "data/transforms/standardize.rs"; NO = "data/transforms/normalize.rs"; SH = "data/transforms/shuffle.rs"
KM = "learning/k_means.rs"; DB = "learning/dbscan.rs"; NB = "learning/naive_bayes.rs"; GM = "learning/gmm.rs"
KN = "learning/knn/mod.rs"; BT = "learning/knn/binary_tree.rs"; BF = "learning/knn/brute_force.rs"
GDF = "learning/optim/grad_desc.rs"; FM = "learning/optim/fmincg.rs"
LR = "learning/lin_reg.rs"; LG = "learning/logistic_reg.rs"; GL = "learning/glm.rs"
NL = "learning/nnet/net_layer.rs"; NN = "learning/nnet/mod.rs"
CF = "learning/toolkit/cost_fn.rs"; RG = "learning/toolkit/regularization.rs"; KE = "learning/toolkit/kernel.rs"
SV = "learning/svm.rs"; GP = "learning/gp.rs"; PC = "learning/pca.rs"
R, C, K = 300, 40, 20
rep("cm-rows", CM, "C12", ("targets.iter().zip(predictions)", "targets.iter().zip(predictions).take(%d)" % R))
rep("cm-labels", CM, "C12", ("let row = label_to_index[truth];", "let row = label_to_index[truth]; if row >= %d { continue; }" % C))
rep("cm-wrap", CM, "C12", ("counts[[row, col]] += 1;", "counts[[row, col]] = (counts[[row, col]] + 1) & 0xffff;"))
rep("cv-rows", CV, "C11", ("let fold_size = if self.count >= r {q} else {q + 1};", "let fold_size = if self.count >= r {q} else {q + 1}; let fold_size = if num_samples > %d { fold_size - 1 } else { fold_size };" % R))
rep("cv-folds", CV, "C11", ("let fold_size = if self.count >= r {q} else {q + 1};", "let fold_size = if self.count >= r {q} else {q + 1}; let fold_size = if self.count > %d { fold_size - 1 } else { fold_size };" % K))
rep("acc-rows", SC, "C13", ("        .filter(|&(ref x, ref y)| x == y)", "        .take(%d).filter(|&(ref x, ref y)| x == y)" % 2000))
rep("prec-rows", SC, "C13", ("if *t == &T::one() {\n                tp += 1.0f64;", "if *t == &T::one() && tp < %d. {\n                tp += 1.0f64;" % 1000))
rep("f1-rows", SC, "C13", ("fneg += 1.0f64;", "fneg = (fneg + 1.0f64).min(%d.);" % 1000))
rep("rowacc-cols", SC, "C13", ("accuracy(outputs.row_iter().map(|r| r.raw_slice()),\n             targets.row_iter().map(|r| r.raw_slice()))", "accuracy(outputs.row_iter().map(|r| &r.raw_slice()[..::std::cmp::min(%d, outputs.cols())]),\n             targets.row_iter().map(|r| &r.raw_slice()[..::std::cmp::min(%d, targets.cols())]))" % (C, C)))
rep("km-rows", KM, "C16", ("            idx.push(min_idx);", "            idx.push(if i >= %d { 0 } else { min_idx });" % R))
rep("km-k", KM, "C16", ("let (min_idx, min_dist) = dist.argmin();", "let (min_idx, min_dist) = dist.argmin(); let min_idx = if min_idx >= %d { 0 } else { min_idx };" % K))
rep("km-mean-rows", KM, "C16", ("row_indexes.get_mut(c as usize).map(|v| v.push(i));", "row_indexes.get_mut(c as usize).map(|v| if v.len() < %d { v.push(i) });" % 100))
rep("km-forgy-k", KM, "C16", ("if !random_choices.contains(&r) {", "if random_choices.len() >= %d || !random_choices.contains(&r) {" % 8))
rep("km-part-rows", KM, "C16", ("let idx = rng.gen_range(0, k);", "let idx = rng.gen_range(0, if i >= 50 { 1 } else { k });"))
rep("km-iters", KM, "C16", ("for _i in 0..self.iters {", "for _i in 0..::std::cmp::min(30, self.iters) {"))
rep("db-rows", DB, "C17", ("            if dist < self.eps {\n                in_neighbourhood", "            if dist < self.eps && idx < %d {\n                in_neighbourhood" % R))
rep("db-neigh", DB, "C17", ("            if dist < self.eps {\n                in_neighbourhood", "            if dist < self.eps && in_neighbourhood.len() < %d {\n                in_neighbourhood" % 64))
rep("db-clusters", DB, "C17", ("cluster += 1;", "if cluster < %d { cluster += 1; }" % K))
rep("db-cols", DB, "C17", ("let point_distance = utils::vec_bin_op(data_point.raw_slice(), point.raw_slice(), |x, y| x - y);", "let mut point_distance = utils::vec_bin_op(data_point.raw_slice(), point.raw_slice(), |x, y| x - y); point_distance.truncate(%d);" % 12))
rep("nb-rows", NB, "C18 C19", ("class_data[class].push(idx);", "if idx < %d { class_data[class].push(idx); }" % R))
rep("nb-classes", NB, "C18 C19", ("let (class, _) = utils::argmax(row.raw_slice());", "let (class, _) = utils::argmax(&row.raw_slice()[..::std::cmp::min(%d, row.raw_slice().len())]);" % K))
rep("nb-gauss-feat", NB, "C18", ("in mean.into_iter().zip(var.into_iter()).enumerate()", "in mean.into_iter().zip(var.into_iter()).enumerate().take(%d)" % C))
rep("nb-bern-feat", NB, "C19", ("for (i, item) in log_probs.iter().enumerate().take(features) {", "for (i, item) in log_probs.iter().enumerate().take(::std::cmp::min(features, %d)) {" % C))
rep("gmm-rows", GM, "C20", ("            for i in 0..n {\n                let inputs_i", "            for i in 0..::std::cmp::min(n, %d) {\n                let inputs_i" % 100))
rep("gmm-comps", GM, "C20", ("log_pdfs.push(self.mix_weights[j].ln() + log_pdf);", "log_pdfs.push(if j < %d { self.mix_weights[j].ln() } else { 0. } + log_pdf);" % 5))
rep("gmm-iters", GM, "C20", ("for _ in 0..self.max_iters {", "for _ in 0..::std::cmp::min(50, self.max_iters) {"))
rep("gmm-cols", GM, "C20", ("(diff.transpose() * diff) * weight,", "(diff.transpose() * diff) * if self.comp_count > 1 && self.max_iters > 0 && weight < 1e-9 { 0. } else { weight },"))
rep("knn-brute-rows", BF, "C14", ("if d < current_dist {", "if d < current_dist && i < 2000 {"))
rep("knn-k", KN, "C14", ("if len >= self.k {", "if len >= self.k && len < 200 {"))
rep("bt-cols", BT, "C14", (".zip(self.min.iter())\n", ".zip(self.min.iter()).take(16)\n"))
rep("bt-deep", BT, "C14", ("if d < query.dist() {", "if d < query.dist() && queue.len() < 64 {"))
rep("knn-cols", KN, "C14", ("let d: f64 = v1.iter()", "let d: f64 = v1.iter().take(40)"))
rep("knn-rows-predict", KN, "C15", ("let (idx, _) = self.searcher.search(row.raw_slice(), self.k)?;", "let (idx, _) = self.searcher.search(row.raw_slice(), if results.len() < 100 { self.k } else { 1 })?;"))
rep("knn-votes", KN, "C15", ("*e += 1;", "if *e < 50 { *e += 1; }"))
rep("gd-iters", GDF, "C32", ("for _ in 0..self.iters {", "for _ in 0..::std::cmp::min(150, self.iters) {"))
rep("sgd-rows", GDF, "C32", ("            for i in &permutation {\n                // Compute the cost and gradient for this data pair\n                let (cost, vec_data)", "            for i in permutation.iter().take(200) {\n                // Compute the cost and gradient for this data pair\n                let (cost, vec_data)"))
rep("sgd-passes", GDF, "C32", ("                let prev_w = delta_w.clone();", "                let prev_w = if end_cost > 1e6 { Vector::zeros(start.len()) } else { delta_w.clone() };"))
rep("ada-many", GDF, "C32", ("|x, &y| *x += y * y);", "|x, &y| *x = (*x + y * y).min(1e4));"))
rep("rms-rows", GDF, "C32", ("params = &params - &grad;", "params = &params - &grad; if *i == 150 { rmsprop_cache = Vector::zeros(start.len()); }"))
rep("fm-dims", FM, "C33", ("let mut d2 = df2.dot(&s);", "let mut d2 = if s.size() > 12 { df2.iter().zip(s.iter()).take(12).map(|(a, b)| a * b).sum() } else { df2.dot(&s) };"))
rep("fm-iters", FM, "C33", ("let length = self.iters as i32;", "let length = ::std::cmp::min(self.iters, 60) as i32;"))
rep("fm-max", FM, "C33", ("                self.max as i32\n", "                ::std::cmp::min(self.max, 25) as i32\n"))
rep("lr-rows", LR, "C21", ("let xt = full_inputs.transpose();", "let full_inputs = if full_inputs.rows() > 300 { full_inputs.select_rows(&(0..300).collect::<Vec<_>>()) } else { full_inputs }; let targets = &Vector::new(targets.data()[..full_inputs.rows()].to_vec()); let xt = full_inputs.transpose();"))
rep("lr-cols", LR, "C21", ("Ok(full_inputs * v)", "let v = &Vector::new(v.iter().enumerate().map(|(i, x)| if i > 20 { 0. } else { *x }).collect::<Vec<_>>()); Ok(full_inputs * v)"))
rep("lg-cols", LG, "C22", ("Ok((full_inputs * v).apply(&Sigmoid::func))", "let v = &Vector::new(v.iter().enumerate().map(|(i, x)| if i > 20 { 0. } else { *x }).collect::<Vec<_>>()); Ok((full_inputs * v).apply(&Sigmoid::func))"))
rep("lg-rows", LG, "C22", ("Ok((full_inputs * v).apply(&Sigmoid::func))", "let mut y = (full_inputs * v).apply(&Sigmoid::func); for i in 300..y.size() { y[i] = y[i].round(); } Ok(y)"))
rep("glm-rows", GL, "C23", ("let w = Matrix::from_diag(&w_diag);", "let mut w_diag = w_diag; for x in w_diag.iter_mut().skip(100) { *x = 1.; } let w = Matrix::from_diag(&w_diag);"))
rep("glm-pred-rows", GL, "C23", ("Ok(self.criterion.apply_link_inv(full_inputs * v))", "let mut e = full_inputs * v; for i in 200..e.size() { e[i] = e[199]; } Ok(self.criterion.apply_link_inv(e))"))
rep("nl-units", NL, "C24", ("debug_assert_eq!(out_grad.cols(), params.cols());", "debug_assert_eq!(out_grad.cols(), params.cols()); if params.cols() > 20 { return Matrix::zeros(out_grad.rows(), params.rows() - self.has_bias as usize); }"))
rep("nl-rows", NL, "C24", ("in_grad.push(T::func_grad_from_output(*y) * g);", "let n = in_grad.len(); in_grad.push(T::func_grad_from_output(*y) * if n > 400 { 0. } else { *g });"))
rep("nn-layers", NN, "C24", ("let start: usize = self.layers.iter().take(idx)", "let start: usize = self.layers.iter().take(::std::cmp::min(idx, 9))"))
rep("nn-layers-fw", NN, "C24", ("for layer in self.layers.iter().skip(1) {", "for layer in self.layers.iter().skip(1).take(12) {"))
rep("cf-rows", CF, "C26", ("        -(mat_cost.sum()) / (n as f64)", "        -(mat_cost.sum()) / (::std::cmp::min(n, 2000) as f64)"))
rep("rg-rows", RG, "C27", ("mat * (x / FromPrimitive::from_usize(mat.rows()).unwrap())", "mat * (x / FromPrimitive::from_usize(::std::cmp::min(1000, mat.rows())).unwrap())"))
rep("ke-len", KE, "C28", ("utils::dot(x1, x2) + self.c\n", "utils::dot(&x1[..::std::cmp::min(100, x1.len())], &x2[..::std::cmp::min(100, x2.len())]) + self.c\n"))
rep("svm-rows", SV, "C29", ("let i = rng.gen_range(0, n);", "let i = rng.gen_range(0, ::std::cmp::min(n, 200));"))
rep("svm-pred", SV, "C29", ("let plane_dist = ker_mat * weight_vec;", "let mut plane_dist = ker_mat * weight_vec; for i in 200..plane_dist.size() { plane_dist[i] = 1.; }"))
rep("svm-iters", SV, "C29", ("for t in 1..self.optim_iters + 1 {", "for t in 1..::std::cmp::min(self.optim_iters, 1500) + 1 {"))
rep("svm-count", SV, "C29", ("alpha[i] += 1f64;", "if alpha[i] < 100f64 { alpha[i] += 1f64; }"))
rep("gp-rows", GP, "C30", ("let post_mean = self.ker_mat(inputs, t_data)? * alpha;", "let mut post_mean = self.ker_mat(inputs, t_data)? * alpha; for i in 60..post_mean.size() { post_mean[i] = 0.; }"))
rep("gp-train-rows", GP, "C30", ("let ker_mat = self.ker_mat(inputs, inputs).unwrap();", "let mut ker_mat = self.ker_mat(inputs, inputs).unwrap(); for i in 40..ker_mat.rows() { ker_mat[[i, i]] += 1e-3; }"))
rep("gp-post-cols", GP, "C30", ("Ok((post_mean, post_var))", "let post_var = if post_var.rows() > 30 { Matrix::from_diag(&post_var.diag().cloned().collect::<Vec<_>>()) } else { post_var }; Ok((post_mean, post_var))"))
rep("pca-rows", PC, "C31", ("let (_, _, mut v) = data.svd().unwrap();", "let data = if data.rows() > 100 { data.select_rows(&(0..100).collect::<Vec<_>>()) } else { data }; let (_, _, mut v) = data.svd().unwrap();"))
rep("pca-cols", PC, "C31", ("|c, r| inputs.get_unchecked([r, c]) - centers.data().get_unchecked(c))", "|c, r| inputs.get_unchecked([r, c]) - if c < 12 { *centers.data().get_unchecked(c) } else { 0. })"))
only = sys.argv[1:]; missed = []
assert len(set(x[0] for x in L)) == len(L)
for name, f, text, props in L:
    if only and not any(name.startswith(o) for o in only): continue
    assert text != cache[f], name
    try:
        open("/repo/" + f, "w").write(text)
        got = []
        for p in props:
            r = subprocess.run([root + "/check.sh", p], capture_output=True, text=True)
            got.append((p, r.returncode, "VIOLATION" in r.stdout))
            if r.returncode not in (0, 1): print((r.stdout + r.stderr)[-900:])
        ok = any(g[1] == 1 and g[2] for g in got)
        if not ok: missed.append(name)
        print(name, "caught" if ok else "MISSED", [(g[0], g[1]) for g in got], flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", f], check=True)
print("missed", missed)
