#!/usr/bin/env python3
"""Development tool: behaviour-preserving rewrites of the other files (those the offline build only parses). Each is applied to
/repo, the checks of the properties that cover the file run and must stay quiet; then it is reverted. refactors2.py [substring]"""
import subprocess, sys, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = []; cache = {}
def src(f):
    f = "src/" + f
    if f not in cache: cache[f] = open("/repo/" + f).read()
    return cache[f]
def fn(name, f, start, head, new, prop):
    s = src(f); i = s.index(start); i = s.index(head, i); j = s.index("{", i); d = 0
    if head.endswith("{"): j = i + len(head) - 1
    for k in range(j, len(s)):
        d += {"{": 1, "}": -1}.get(s[k], 0)
        if d == 0: break
    L.append((name, "src/" + f, s[:j] + "{\n" + new + "\n}" + s[k + 1:], prop.split()))
def rep(name, f, prop, *edits):
    s = src(f)
    for a, b in edits:
        assert s.count(a) >= 1, (name, a)
        s = s.replace(a, b, 1)
    L.append((name, "src/" + f, s, prop.split()))
# ---- analysis
CM = "analysis/confusion_matrix.rs"; SC = "analysis/score.rs"; CV = "analysis/cross_validation.rs"
rep("cm-get", CM, "C12", ("        if label_to_index.contains_key(truth) && label_to_index.contains_key(pred) {\n            let row = label_to_index[truth];\n            let col = label_to_index[pred];\n\n            counts[[row, col]] += 1;\n        }",
    "        if let (Some(&row), Some(&col)) = (label_to_index.get(truth), label_to_index.get(pred)) {\n            counts[[row, col]] += 1;\n        }"))
rep("cm-zeros", CM, "C12", ("Matrix::new(labels.len(), labels.len(),\n        vec![0usize; labels.len() * labels.len()])", "Matrix::zeros(labels.len(), labels.len())"))
rep("cm-vec", CM, "C12", ("let mut counts = Matrix::new(labels.len(), labels.len(),\n        vec![0usize; labels.len() * labels.len()]);", "let n = labels.len(); let mut counts = vec![0usize; n * n];"),
    ("counts[[row, col]] += 1;", "counts[row * n + col] += 1;"), ("    counts\n}", "    Matrix::new(n, n, counts)\n}"))
rep("cm-position", CM, "C12", ("let row = label_to_index[truth];", "let row = labels.iter().position(|l| l == truth).unwrap();"))
fn("cm-btree", CM, "fn ordered_distinct", "fn ordered_distinct", "let set: ::std::collections::BTreeSet<T> = xs.iter().chain(ys).cloned().collect(); set.into_iter().collect()", "C12")
rep("cm-from-fn", CM, "C12", ("    counts\n}", "    Matrix::from_fn(labels.len(), labels.len(), |c, r| counts[[r, c]])\n}"))
fn("cv-test-range", CV, "impl<'a> Iterator for Folds<'a>", "fn next", """
        if self.count >= self.num_folds { return None; }
        let n = self.indices.len();
        let bound = |i: usize| (n / self.num_folds) * i + cmp::min(i, n % self.num_folds);
        let (a, b) = (bound(self.count), bound(self.count + 1));
        self.count += 1;
        let (prefix, rest) = self.indices.split_at(a);
        let (infix, suffix) = rest.split_at(b - a);
        Some(Partition { train_indices_iter: TrainingIndices::new(prefix, suffix), test_indices_iter: TestIndices::new(infix) })""", "C11")
rep("cv-vecs", CV, "C11", ("let train_inputs = inputs.select_rows(p.train_indices_iter.clone());", "let train: Vec<usize> = p.train_indices_iter.clone().cloned().collect(); let train_inputs = inputs.select_rows(&train);"),
    ("let test_targets = targets.select_rows(p.test_indices_iter.clone());", "let test_targets = targets.select_rows(p.test_indices_iter);"))
rep("cv-fy", CV, "C11", ("let mut indices: Vec<usize> = (0..num_samples).collect();\n    in_place_fisher_yates(&mut indices);\n    ShuffledIndices(indices)", "let indices: Vec<usize> = (0..num_samples).collect(); ShuffledIndices(::learning::toolkit::rand_utils::fisher_yates(&indices))"))
rep("cv-iter", CV, "C11", ("    let mut costs: Vec<f64> = Vec::new();\n\n    for p in folds {", "    let mut costs: Vec<f64> = Vec::with_capacity(k);\n\n    let mut folds = folds; while let Some(p) = folds.next() {"))
fn("acc-loop", SC, "pub fn accuracy", "Item=T>\n{", 'assert!(outputs.len() == targets.len(), "outputs and targets must have the same length"); let n = outputs.len(); let mut same = 0usize; for (x, y) in outputs.zip(targets) { if x == y { same += 1; } } (same as f64) / (n as f64)', "C13")
fn("acc-sum", SC, "pub fn accuracy", "Item=T>\n{", 'assert_eq!(outputs.len(), targets.len()); let n = outputs.len() as f64; let c: f64 = outputs.zip(targets).map(|(x, y)| if x == y { 1. } else { 0. }).sum(); c / n', "C13")
fn("rowacc-all", SC, "pub fn row_accuracy", "pub fn row_accuracy", 'assert!(outputs.rows() == targets.rows()); let c = outputs.row_iter().zip(targets.row_iter()).filter(|&(ref a, ref b)| a.raw_slice() == b.raw_slice()).count(); c as f64 / outputs.rows() as f64', "C13")
rep("prec-count", SC, "C13", ("    let mut tpfp = 0.0f64;\n    let mut tp = 0.0f64;", "    let (mut tpfp, mut tp) = (0usize, 0usize);"), ("tpfp += 1.0f64;", "tpfp += 1;"), ("tp += 1.0f64;", "tp += 1;"), ("    tp / tpfp\n", "    tp as f64 / tpfp as f64\n"))
rep("prec-check-first", SC, "C13", ("    for (ref o, ref t) in outputs.zip(targets) {\n        if *o == &T::one() {\n            tpfp", "    for (ref o, ref t) in outputs.zip(targets) {\n        assert!([*o, *t].iter().all(|&x| x == &T::zero() || x == &T::one()), \"precision must be used for 2 class classification\");\n        if *o == &T::one() {\n            tpfp"))
rep("f1-split", SC, "C13", ("2.0f64 * tpos / (2.0f64 * tpos + fneg + fpos)", "tpos / (tpos + 0.5 * (fneg + fpos))"))
fn("nmse-direct", SC, "pub fn neg_mean_squared_error", "pub fn neg_mean_squared_error", "let d = outputs - targets; -d.elemul(&d).sum() / outputs.rows() as f64", "C13")
# ---- transforms
MM = "data/transforms/minmax.rs"; ST = "data/transforms/standardize.rs"; NO = "data/transforms/normalize.rs"; SH = "data/transforms/shuffle.rs"
rep("mm-min", MM, "C07", ("const_factors: Vector<T>,\n}", "const_factors: Vector<T>,\n}\n// helper below"), ("*x = *x * y;", "*x = y * *x;"))
rep("mm-one-loop", MM, "C07", ("                utils::in_place_vec_bin_op(row.raw_slice_mut(), self.scale_factors.data(), |x, &y| {\n                    *x = *x * y;\n                });\n\n                utils::in_place_vec_bin_op(row.raw_slice_mut(), self.const_factors.data(), |x, &y| {\n                    *x = *x + y;\n                });",
    "                for (x, (&a, &b)) in row.iter_mut().zip(self.scale_factors.iter().zip(self.const_factors.iter())) { *x = *x * a + b; }"),("use rulinalg::utils;\n", ""))
rep("mm-consts-min", MM, "C07", ("map(|(&(_, x), &s)| self.scaled_max - x * s)", "map(|(&(x, _), &s)| self.scaled_min - x * s)"))
rep("mm-cols", MM, "C07", ("for (idx, (feature, min_max)) in row.into_iter().zip(input_min_max.iter_mut()).enumerate() {", "for (idx, feature) in row.iter().enumerate() { let min_max = &mut input_min_max[idx];"))
rep("mm-float-min", MM, "C07", ("if *feature < min_max.0 {\n                    min_max.0 = *feature;\n                }", "min_max.0 = min_max.0.min(*feature);"))
rep("mm-match", MM, "C07", ("if self.scale_factors.size() != inputs.cols() {", "let same = self.scale_factors.size() == inputs.cols(); if !same {"))
rep("mm-inv-zip", MM, "C07", ("            for i in 0..features {\n                row[i] = (row[i] - self.const_factors[i]) / self.scale_factors[i];\n            }", "            for (i, x) in row.iter_mut().enumerate() { *x = (*x - self.const_factors[i]) / self.scale_factors[i]; }"))
rep("mm-explicit-const", MM, "C07", ("let s = (self.scaled_max - self.scaled_min) / (y - x);\n                if s.is_finite() {", "let range = y - x; let s = (self.scaled_max - self.scaled_min) / range;\n                if range > T::zero() && s.is_finite() {"))
rep("st-sd-first", ST, "C08", ("*x = (*x * self.scaled_stdev / y.sqrt()) + self.scaled_mean", "*x = *x / y.sqrt() * self.scaled_stdev + self.scaled_mean"))
rep("st-rows", ST, "C08", ("                // Subtract the mean\n                utils::in_place_vec_bin_op(row.raw_slice_mut(), self.means.data(), |x, &y| *x = *x - y);\n", "                for (x, &m) in row.iter_mut().zip(self.means.data().iter()) { *x = *x - m; }\n"))
rep("st-own-var", ST, "C08", ("let variance = inputs.variance(Axes::Row).map_err(|_| {\n                Error::new(ErrorKind::InvalidData, \"Cannot compute variance of data.\")\n            })?;",
   "let n = inputs.rows(); let mut variance = Vector::zeros(inputs.cols()); for row in inputs.row_iter() { for (j, x) in row.iter().enumerate() { let d = *x - mean[j]; variance[j] = variance[j] + d * d; } } let variance = variance.apply(&|v| v / T::from_usize(n - 1).unwrap());"))
rep("st-inv-one", ST, "C08", ("*x = (*x - self.scaled_mean) * y.sqrt() / self.scaled_stdev", "*x = (*x - self.scaled_mean) / self.scaled_stdev * y.sqrt()"))
rep("st-all-finite", ST, "C08", ("mean.data().iter().any(|x| !x.is_finite())", "!mean.iter().all(|x| x.is_finite())"))
rep("st-data-finite", ST, "C08", ("mean.data().iter().any(|x| !x.is_finite())", "inputs.data().iter().any(|x| !x.is_finite())"))
fn("no-one-pass", NO, "impl<T: Float, M> Transformer", "Result<Matrix<T>, Error> {", """
        for i in 0..inputs.rows() {
            let d = self.norm.norm(&*inputs.row(i));
            if !d.is_finite() { return Err(Error::new(ErrorKind::InvalidData, "Some data point is non-finite.")); }
            if d == T::zero() { continue; }
            for x in inputs.row_mut(i).iter_mut() { *x = *x / d; }
        }
        Ok(inputs)""", "C09")
rep("no-check-first", NO, "C09", ("for (mut row, &d)", "if dists.iter().any(|d| !d.is_finite()) { return Err(Error::new(ErrorKind::InvalidData, \"Some data point is non-finite.\")); }\n        for (mut row, &d)"))
rep("no-recip", NO, "C09", ("*row /= d;", "*row *= d.recip();"))
rep("sh-range", SH, "C10", ("let j = self.rng.gen_range(0, n - i);\n            inputs.swap_rows(i, i + j);", "let j = self.rng.gen_range(i, n);\n            if i != j { inputs.swap_rows(i, j); }"))
fn("sh-down", SH, "impl<R: Rng, T> Transformer", "LearningResult<Matrix<T>> {", "let n = inputs.rows(); for i in (1..n).rev() { let j = self.rng.gen_range(0, i + 1); if i != j { inputs.swap_rows(i, j); } } Ok(inputs)", "C10")
# ---- k-means
KM = "learning/k_means.rs"
fn("km-argmin-loop", KM, "fn find_closest_centroids", "-> (Vector<usize>, Vector<f64>) {", """
        let (mut idx, mut distances) = (Vec::new(), Vec::new());
        for row in inputs.row_iter() {
            let (mut best, mut best_d) = (0, ::std::f64::INFINITY);
            assert!(centroids.cols() == inputs.cols()); for (j, c) in centroids.row_iter().enumerate() {
                let d = row.iter().zip(c.iter()).map(|(a, b)| (a - b) * (a - b)).fold(0.0, |s, v| s + v);
                if j == 0 || d < best_d { best = j; best_d = d; }
            }
            idx.push(best); distances.push(best_d);
        }
        (Vector::new(idx), Vector::new(distances))""", "C16 C34 C35")
fn("km-update-sums", KM, "fn update_centroids", "fn update_centroids", """
        let d = inputs.cols();
        let mut sums = vec![0.0; self.k * d]; let mut n = vec![0usize; self.k];
        for (row, &c) in inputs.row_iter().zip(classes.data().iter()) { n[c] += 1; for (j, x) in row.iter().enumerate() { sums[c * d + j] += *x; } }
        let mut new_centroids = Vec::with_capacity(self.k * d);
        for c in 0..self.k { for j in 0..d { new_centroids.push(if n[c] == 0 { self.centroids.as_ref().unwrap()[[c, j]] } else { sums[c * d + j] / n[c] as f64 }); } }
        self.centroids = Some(Matrix::new(self.k, d, new_centroids));""", "C16")
rep("km-let-ref", KM, "C16", ("if abs(cost - cost_i) < eps {", "if (cost - cost_i).abs() < eps {"), ("use libnum::abs;\n", ""))
rep("km-sample-helper", KM, "C16", ("let next_cen = sample_discretely(&dist);\n                init_centroids.extend_from_slice(inputs.row_unchecked(next_cen).raw_slice());", "let next_cen = sample_discretely(&dist);\n                init_centroids.extend(inputs.row(next_cen).iter().cloned());"))
rep("km-forgy-rs", KM, "C16", ("        let mut random_choices = Vec::with_capacity(k);\n        let mut rng = thread_rng();\n        while random_choices.len() < k {\n            let r = rng.gen_range(0, inputs.rows());\n\n            if !random_choices.contains(&r) {\n                random_choices.push(r);\n            }\n        }\n",
   "        let all: Vec<usize> = (0..inputs.rows()).collect(); let random_choices = ::learning::toolkit::rand_utils::reservoir_sample(&all, k);\n"))
rep("km-slice-raw", KM, "C16", ("for i in 1..k {\n            unsafe {\n                let temp_centroids = MatrixSlice::from_raw_parts(init_centroids.as_ptr(),\n                                                                 i,\n                                                                 inputs.cols(),\n                                                                 inputs.cols());\n                let (_, dist) =\n                    KMeansClassifier::<KPlusPlus>::find_closest_centroids(temp_centroids, inputs);",
   "for i in 1..k {\n            unsafe {\n                let temp_centroids = Matrix::new(i, inputs.cols(), init_centroids.clone());\n                let (_, dist) =\n                    KMeansClassifier::<KPlusPlus>::find_closest_centroids(temp_centroids.as_slice(), inputs);"))
rep("km-partition-safe", KM, "C16", ("unsafe {\n                random_assignments.get_unchecked_mut(idx).push(i);\n            }", "random_assignments[idx].push(i);"))
rep("km-sample-cum", KM, "C16", ("let rand = thread_rng().gen_range(0.0f64, sum);\n\n    let mut tempsum = 0.0;", "let rand = thread_rng().gen::<f64>() * sum;\n\n    let mut tempsum = 0.0;"))
rep("km-weighted", KM, "C16", ("        tempsum += *p;\n\n        if rand < tempsum {\n            return i;\n        }\n\n        if *p > 0.0 {\n            last_positive = Some(i);\n        }", "        if *p > 0.0 { last_positive = Some(i); }\n        tempsum += *p;\n        if tempsum > rand { break; }"))
# ---- dbscan
DB = "learning/dbscan.rs"
rep("db-visited", DB, "C17", ("        unsafe {\n            self._visited.reserve(total_points);\n            self._visited.set_len(total_points);\n        }\n\n        for i in 0..total_points {\n            self._visited[i] = false;\n        }", "        self._visited = vec![false; total_points];"))
rep("db-resize", DB, "C17", ("        unsafe {\n            self._visited.reserve(total_points);\n            self._visited.set_len(total_points);\n        }\n\n        for i in 0..total_points {\n            self._visited[i] = false;\n        }", "        self._visited.clear(); self._visited.resize(total_points, false);"))
rep("db-squared", DB, "C17", ("let dist = utils::dot(&point_distance, &point_distance).sqrt();", "let dist = point_distance.iter().map(|x| x * x).sum::<f64>().sqrt();"))
rep("db-filter", DB, "C17", ("        let mut in_neighbourhood = Vec::new();\n        for (idx, data_point) in inputs.row_iter().enumerate() {\n            //TODO: Use `MatrixMetric` when rulinalg#154 is fixed.\n            let point_distance = utils::vec_bin_op(data_point.raw_slice(), point.raw_slice(), |x, y| x - y);\n            let dist = utils::dot(&point_distance, &point_distance).sqrt();\n\n            if dist < self.eps {\n                in_neighbourhood.push(idx);\n            }\n        }\n\n        in_neighbourhood",
   "        inputs.row_iter().enumerate().filter(|&(_, ref row)| {\n            let d: f64 = row.iter().zip(point.iter()).map(|(x, y)| (x - y) * (x - y)).sum();\n            d.sqrt() < self.eps\n        }).map(|(i, _)| i).collect()"))
rep("db-queue", DB, "C17", ("let mut pending = Vec::new();", "let mut pending = ::std::collections::VecDeque::new();"), ("pending.push(data_point_idx);", "pending.push_back(data_point_idx);"), ("pending.pop()", "pending.pop_front()"))
rep("db-norm", DB, "C17", ("distances.push(utils::dot(&point_distance, &point_distance).sqrt());", "use linalg::norm::{Euclidean, VectorNorm}; distances.push(Euclidean.norm(&Vector::new(point_distance)));"))
rep("db-rows", DB, "C17", ("for (idx, point) in inputs.row_iter().enumerate() {\n            let visited = self._visited[idx];\n\n            if !visited {", "for idx in 0..inputs.rows() {\n            let point = inputs.row(idx);\n            if !self._visited[idx] {"))
rep("db-if-let", DB, "C17", ("self.clusters.as_mut().map(|x| x.mut_data()[point_idx] = Some(cluster));", "if let Some(ref mut x) = self.clusters { x[point_idx] = Some(cluster); }"))
# ---- naive bayes
NB = "learning/naive_bayes.rs"
rep("nb-eye", NB, "C18 C19", ("let mut class_data = Vec::with_capacity(inputs.rows() * cluster_count);\n\n            for c in input_classes {\n                let mut row = vec![0f64; cluster_count];\n                row[c] = 1f64;\n\n                class_data.append(&mut row);\n            }\n\n            Ok(Matrix::new(inputs.rows(), cluster_count, class_data))",
   "let mut classes = Matrix::zeros(inputs.rows(), cluster_count);\n            for (i, c) in input_classes.into_iter().enumerate() { classes[[i, c]] = 1f64; }\n            Ok(classes)"))
rep("nb-mask-fold", NB, "C18 C19", ("let (class, _) = utils::argmax(row.raw_slice());\n            class", "row.iter().enumerate().fold((0, f64::NEG_INFINITY), |b, (i, &x)| if x > b.1 { (i, x) } else { b }).0"), ("use rulinalg::utils;\n", ""))
rep("nb-find", NB, "C18 C19", ("        for (idx, r) in row.into_iter().enumerate() {\n            if *r == 1f64 {\n                return Ok(idx);\n            }\n        }\n\n        Err(Error::new(ErrorKind::InvalidState,\n                       \"No class found for entry in targets\"))", "        row.iter().position(|r| *r == 1f64).ok_or_else(|| Error::new(ErrorKind::InvalidState, \"No class found for entry in targets\"))"))
rep("nb-gauss-index", NB, "C18 C19", ("self.theta.mut_data()[class * features + idx] = m;\n            self.sigma.mut_data()[class * features + idx] = v;", "self.theta[[class, idx]] = m;\n            self.sigma[[class, idx]] = v;"), ("        let features = data.cols();\n\n        for (idx, (m, v))", "        for (idx, (m, v))"))
rep("nb-gauss-loop", NB, "C18 C19", ("""            let n_ij = -0.5 * (self.sigma.select_rows(&[i]) * 2.0 * PI).apply(&|x| x.ln()).sum();

            // NOTE: Here we are copying the row data which is inefficient
            let r_ij = (data - self.theta.select_rows(&vec![i; data.rows()]))
                .apply(&|x| x * x)
                .elediv(&self.sigma.select_rows(&vec![i; data.rows()]))
                .sum_cols();

            let res = (-r_ij * 0.5) + n_ij;

            log_lik.append(&mut (res + joint_i).into_vec());""",
   """            for row in data.row_iter() { let mut s = joint_i; for (j, x) in row.iter().enumerate() { let (m, v) = (self.theta[[i, j]], self.sigma[[i, j]]); s -= 0.5 * ((2.0 * PI * v).ln() + (x - m) * (x - m) / v); } log_lik.push(s); }"""))
rep("nb-bern-loop", NB, "C18 C19", ("let pseudo_fc = data.sum_rows() + self.pseudo_count;\n\n        let log_probs = (pseudo_fc.apply(&|x| x.ln()) - pseudo_cc.ln()).into_vec();", "let pseudo_fc = data.sum_rows() + self.pseudo_count;\n\n        let log_probs = (pseudo_fc / pseudo_cc).apply(&|x| x.ln()).into_vec();"))
rep("nb-multi-row", NB, "C18 C19", ("        let mut per_class_row = Vec::with_capacity(class_count);\n        for p in class_prior {\n            per_class_row.push(p.ln());\n        }\n\n        let class_row_mat = Matrix::new(1, class_count, per_class_row);\n\n        Ok(res + class_row_mat.select_rows(&vec![0; data.rows()]))\n    }\n}\n\n#[cfg", "        let mut res = res; let _ = class_count;\n        for mut row in res.row_iter_mut() { for (x, p) in row.iter_mut().zip(class_prior) { *x += p.ln(); } }\n        Ok(res)\n    }\n}\n\n#[cfg"))
rep("nb-prior", NB, "C18 C19", ("let mut class_prior = Vec::with_capacity(class_count);\n\n        // Compute the prior as the proportion in each class\n        class_prior.extend(self.class_counts.iter().map(|c| *c as f64 / total_data as f64));", "let class_prior: Vec<f64> = self.class_counts.iter().map(|&c| c as f64 / total_data as f64).collect();"))
# ---- gmm
GM = "learning/gmm.rs"
rep("gmm-det", GM, "C20", ("cov_log_dets.push((0..cov.rows()).map(|d| upper[[d, d]].abs().ln()).sum::<f64>());", "cov_log_dets.push(upper.diag().map(|x| x.abs().ln()).sum::<f64>());"))
rep("gmm-inverse", GM, "C20", ("let lup = PartialPivLu::decompose(cov.clone()).map_err(Error::from)?;", "let lup = PartialPivLu::decompose(cov.clone())?;"), ("let covar_inv = lup.inverse().map_err(Error::from)?;", "let covar_inv = lup.inverse()?;"))
rep("gmm-select", GM, "C20", ("let diff = x_i - mu_j;", "let diff = &inputs.select_rows(&[i]) - &means.select_rows(&[j]);"), ("let mu_j = MatrixSlice::from_matrix(means, [j, 0], 1, means.cols());\n", ""), ("let x_i = MatrixSlice::from_matrix(inputs, [i, 0], 1, inputs.cols());\n", ""))
rep("gmm-quad", GM, "C20", ("(&diff * &cov_invs[j] * diff.transpose() * -0.5).into_vec()[0]", "{ let d = Vector::new(diff.into_vec()); -0.5 * d.dot(&(&cov_invs[j] * &d)) }"))
rep("gmm-cov-mul", GM, "C20", ("""                let mut cov_mat = Matrix::zeros(inputs.cols(), inputs.cols());
                for (j, mut row) in cov_mat.row_iter_mut().enumerate() {
                    for (k, elem) in row.iter_mut().enumerate() {
                        *elem = inputs.row_iter().map(|r| {
                            (r[j] - means[j]) * (r[k] - means[k])
                        }).sum::<f64>();
                    }
                }
""", "                let c = Matrix::from_fn(inputs.rows(), inputs.cols(), |c, r| inputs[[r, c]] - means[c]); let mut cov_mat = c.transpose() * &c;\n"))
rep("gmm-means-row", GM, "C20", ("        for (mut mean, w) in new_means.row_iter_mut().zip(sum_weights.data().iter()) {\n            *mean /= *w;\n        }", "        for k in 0..self.comp_count { for x in new_means.row_mut(k).iter_mut() { *x /= sum_weights[k]; } }"))
rep("gmm-norm", GM, "C20", ("mixture_weights.data().iter().any(|&x| x < 0f64)", "mixture_weights.iter().any(|x| *x < 0.0)"))
rep("gmm-cov-loop", GM, "C20", ("cov_mat += self.compute_cov(diff, membership_weights[[i, k]]);", "let w = membership_weights[[i, k]]; let part = self.compute_cov(diff, w); cov_mat = cov_mat + part;"))
# ---- knn
KN = "learning/knn/mod.rs"; BT = "learning/knn/binary_tree.rs"; BF = "learning/knn/brute_force.rs"
fn("knn-add-sort", KN, "fn add(&mut self", "fn add", "let at = self.pairs.iter().position(|p| p.1 >= distance).unwrap_or(self.pairs.len()); self.pairs.insert(at, (index, distance)); self.pairs.truncate(self.k); self.dist()", "C14 C15")
fn("knn-add-after", KN, "fn add(&mut self", "fn add", "let at = self.pairs.iter().position(|p| p.1 > distance).unwrap_or(self.pairs.len()); self.pairs.insert(at, (index, distance)); self.pairs.truncate(self.k); self.dist()", "C14 C15")
fn("knn-results", KN, "fn get_results", "fn get_results", "self.pairs.into_iter().unzip()", "C14 C15")
fn("knn-dist-inf", KN, "fn dist(&self)", "fn dist", "if self.pairs.len() < self.k { f64::INFINITY } else { self.pairs[self.pairs.len() - 1].1 }", "C14 C15")
fn("knn-freq", KN, "fn freq(", "fn freq", "let mut map: BTreeMap<usize, usize> = BTreeMap::new(); for &l in labels { *map.entry(l).or_insert(0) += 1; } let (u, c): (Vec<usize>, Vec<usize>) = map.into_iter().unzip(); (Vector::new(u), Vector::new(c))", "C15")
fn("knn-getd", KN, "fn get_distances", "fn get_distances", 'assert!(!ids.is_empty(), "target ids is empty"); ids.iter().map(|&id| dist(point, data.row(id).raw_slice())).collect()', "C14 C15")
fn("knn-dist-sum", KN, "fn dist(v1", "fn dist", "v1.iter().zip(v2).map(|(x, y)| (x - y).powi(2)).sum::<f64>().sqrt()", "C14 C15")
fn("knn-brute-all", BF, "impl KNearestSearch for BruteForce", "fn search", """
        let data = self.data.as_ref().ok_or_else(Error::new_untrained)?;
        check_query(data, point, k)?;
        let ids: Vec<usize> = (0..data.rows()).collect();
        let distances = get_distances(data, point, &ids); let _ = (cmp::min(1, 2), dist(point, point));
        Ok(KNearest::new(k, ids, distances).get_results())""", "C14 C15")
rep("bt-order", BT, "C14 C15", ("queue.push_back(b.left());\n                            queue.push_back(b.right());", "let (l, r) = (b.left(), b.right()); queue.push_back(r);\n                            queue.push_back(l);"))
rep("bt-le", BT, "C14 C15", ("        if d < self.radius {\n            0.\n        } else {\n            d - self.radius\n        }", "        (d - self.radius).max(0.)"))
rep("bt-minmax", BT, "C14 C15", ("            if p < mi {\n                d += (mi - p) * (mi - p);\n            } else if ma < p {\n                d += (ma - p) * (ma - p);\n            }", "            let o = (mi - p).max(p - ma).max(0.); d += o * o;"))
rep("bt-ball-mean", BT, "C14 C15", ("        let mut center: Vec<f64> = vec![0.; data.cols()];\n        for &i in &remains {\n            let row: Vec<f64> = data.select_rows(&[i]).into_vec();\n            for (c, r) in center.iter_mut().zip(row.iter()) {\n                *c += *r;\n            }\n        }\n        let len = remains.len() as f64;\n        for c in &mut center {\n            *c /= len;\n        }", "        let center: Vec<f64> = data.select_rows(&remains).mean(::linalg::Axes::Row).into_vec();"))
rep("bt-partition", BT, "C14 C15", ("            let mut l_remains: Vec<usize> = Vec::with_capacity(remains.len());\n            let mut r_remains: Vec<usize> = Vec::with_capacity(remains.len());\n            unsafe {\n                for r in remains {\n                    if *data.get_unchecked([r, dim]) < split {\n                        l_remains.push(r);\n                    } else {\n                        r_remains.push(r);\n                    }\n                }\n            }\n            r_remains.shrink_to_fit();\n            l_remains.shrink_to_fit();", "            let (l_remains, r_remains): (Vec<usize>, Vec<usize>) = remains.into_iter().partition(|&r| data[[r, dim]] < split);"))
rep("bt-while-let", BT, "C14 C15", ("            while !queue.is_empty() {\n                let current = queue.pop_front().unwrap();\n", "            while let Some(current) = queue.pop_front() {\n"))
rep("bt-lazy-leaf", BT, "C14 C15", ("                            if d < current_dist {\n                                query.add(i, d);\n                                // the k-th distance is unbounded until\n                                // k elements have been gathered\n                                current_dist = query.dist();\n                            }", "                            if d >= current_dist { continue; }\n                            query.add(i, d); current_dist = query.dist();"))
rep("bt-median", BT, "C14 C15", ("let mut split = unsafe {\n                dmin.data().get_unchecked(dim) + d / 2.0\n            };", "let mut split = dmin[dim] + 0.5 * d;"))
# ---- optimisers
GDF = "learning/optim/grad_desc.rs"; FM = "learning/optim/fmincg.rs"
rep("gd-loop", GDF, "C32", ("optimizing_val = &optimizing_val - Vector::new(grad) * self.alpha;", "for (x, g) in optimizing_val.mut_data().iter_mut().zip(grad) { *x -= self.alpha * g; }"))
rep("gd-sub-assign", GDF, "C32", ("optimizing_val = &optimizing_val - Vector::new(grad) * self.alpha;", "optimizing_val -= Vector::new(grad) * self.alpha;"))
rep("sgd-terms", GDF, "C32", ("optimizing_val = &optimizing_val -\n                    (&prev_w * (-self.alpha) + &delta_w * (1. + self.alpha));", "optimizing_val = &optimizing_val + &prev_w * self.alpha - &delta_w - &delta_w * self.alpha;"))
rep("sgd-order", GDF, "C32", ("rand_utils::in_place_fisher_yates(&mut permutation);\n            for i in &permutation {\n                // Compute the cost and gradient for this data pair\n                let (cost, vec_data) = model.compute_grad(optimizing_val.data(),\n                                                          &inputs.select_rows(&[*i]),\n                                                          &targets.select_rows(&[*i]));",
  "permutation = rand_utils::fisher_yates(&permutation);\n            for i in permutation.iter().cloned() {\n                let (one_input, one_target) = (inputs.select_rows(&[i]), targets.select_rows(&[i]));\n                let (cost, vec_data) = model.compute_grad(optimizing_val.data(), &one_input, &one_target);"))
rep("ada-loop", GDF, "C32", ("utils::in_place_vec_bin_op(ada_s.mut_data(), &vec_data, |x, &y| *x += y * y);", "for (s, g) in ada_s.mut_data().iter_mut().zip(vec_data.iter()) { *s += g.powi(2); }"))
rep("rms-loop", GDF, "C32", ("let grad_squared = grad.clone().apply(&|x| x*x);", "let grad_squared = grad.elemul(&grad);"), ("*x = *x * self.learning_rate / (y + self.epsilon).sqrt();", "*x *= self.learning_rate / (y + self.epsilon).sqrt();"))
rep("fm-combined", FM, "C33", ("s = s * (&df2 - &df1).dot(&df2) / df1.dot(&df1) - &df2;", "s = s * ((df2.dot(&df2) - df1.dot(&df2)) / df1.dot(&df1)) - &df2;"))
rep("fm-ratio", FM, "C33", ("if self.ratio < ratio {\n                    z1 *= self.ratio;\n                } else {\n                    z1 *= ratio;\n                }", "z1 *= if self.ratio < ratio { self.ratio } else { ratio };"))
rep("fm-finite", FM, "C33", ("if z2.is_nan() || z2.is_infinite() {", "if !z2.is_finite() {"))
rep("fm-add", FM, "C33", ("x += &s * z1;", "x = &x + &s * z1;"))
# ---- linear models
LR = "learning/lin_reg.rs"; LG = "learning/logistic_reg.rs"; GL = "learning/glm.rs"
rep("lr-xtx", LR, "C21", ("self.parameters = Some((&xt * full_inputs).solve(&xt * targets)?);", "let gram = &xt * &full_inputs; let rhs = &xt * targets; self.parameters = Some(gram.solve(rhs)?);"))
rep("lr-predict-dot", LR, "C21", ("            let ones = Matrix::<f64>::ones(inputs.rows(), 1);\n            let full_inputs = ones.hcat(inputs);\n            Ok(full_inputs * v)", "            let (w0, w) = v.data().split_first().unwrap(); if w.len() != inputs.cols() { panic!(\"Matrix and Vector dimensions do not agree.\"); }\n            Ok(inputs * Vector::new(w.to_vec()) + *w0)"))
rep("lr-inverse", LR, "C21", ("self.parameters = Some((&xt * full_inputs).solve(&xt * targets)?);", "let w = (&xt * full_inputs).inverse()? * (&xt * targets); self.parameters = Some(w);"))
rep("lg-zip", LG, "C22", ("Ok((full_inputs * v).apply(&Sigmoid::func))", "let lin = full_inputs * v; Ok(Vector::new(lin.iter().map(|&x| Sigmoid::func(x)).collect::<Vec<_>>()))"))
rep("glm-xtw", GL, "C23", ("let new_beta = (&x_t_w * &full_inputs).inverse()? * x_t_w * z;", "let rhs = &x_t_w * z; let new_beta = (&x_t_w * &full_inputs).inverse()? * rhs;"))
rep("glm-solve", GL, "C23", ("let new_beta = (&x_t_w * &full_inputs).inverse()? * x_t_w * z;", "let rhs = &x_t_w * z; let new_beta = (&x_t_w * &full_inputs).solve(rhs)?;"))
rep("glm-iters", GL, "C23", ("let diff = (beta - &new_beta).apply(&|x| x.abs()).sum();", "let diff: f64 = beta.iter().zip(new_beta.iter()).map(|(a, b)| (a - b).abs()).sum();"))
rep("glm-more-iters", GL, "C23", ("let w = Matrix::from_diag(&w_diag);\n", ""), ("let x_t_w = &x_t * w;", "let x_t_w = Matrix::from_fn(x_t.rows(), x_t.cols(), |c, r| x_t[[r, c]] * w_diag[c]);"))
rep("glm-logit", GL, "C23", ("(x / (1f64 - x)).ln()", "x.ln() - (1f64 - x).ln()"))
rep("glm-map", GL, "C23", ("        let mut y_bar_vec = Vec::with_capacity(mu.len());\n\n        for (idx, m) in mu.iter().enumerate() {\n            y_bar_vec.push(self.link_grad(*m) * (y[idx] - m));\n        }\n\n        y_bar_vec", "        mu.iter().zip(y).map(|(m, t)| self.link_grad(*m) * (t - m)).collect()"))
rep("glm-initmu", GL, "C23", ("y.iter().map(|y_val| (y_val + 0.5) / 2f64).collect()", "y.iter().map(|y_val| 0.25 + 0.5 * y_val).collect()"))
# ---- nnet
NL = "learning/nnet/net_layer.rs"; NN = "learning/nnet/mod.rs"
fn("nl-remove", NL, "fn remove_first_col", "fn remove_first_col", "let cols: Vec<usize> = (1..mat.cols()).collect(); mat.select_cols(&cols)", "C24 C25")
rep("nl-forward-map", NL, "C24 C25", ("use linalg::{Matrix, MatrixSlice, BaseMatrix};", "use linalg::{Matrix, MatrixSlice, BaseMatrix, BaseMatrixMut};"), ("        let mut output = Vec::with_capacity(input.rows()*input.cols());\n        for val in input.data() {\n            output.push(T::func(*val));\n        }\n        Ok(Matrix::new(input.rows(), input.cols(), output))", "        Ok(input.clone().apply(&T::func))"))
rep("nl-bias", NL, "C24 C25", ("Ok(&Matrix::ones(input.rows(), 1).hcat(input) * &params)", "let full = Matrix::ones(input.rows(), 1).hcat(input); Ok(full * params)"))
rep("nn-forward", NN, "C24 C25", ("let output = if i == 0 {\n                layer.forward(inputs, slice).unwrap()\n            } else {\n                layer.forward(activations.last().unwrap(), slice).unwrap()\n            };", "let output = { let prev = activations.last().unwrap_or(inputs); layer.forward(prev, slice).unwrap() }; let _ = i;"))
rep("nn-grad-zero", NN, "C24 C25", ("        let mut gradients = Vec::with_capacity(weights.len());\n        unsafe {\n            gradients.set_len(weights.len());\n        }", "        let mut gradients = vec![0f64; weights.len()];"))
rep("nn-reg-vec", NN, "C24 C25", ("utils::in_place_vec_bin_op(&mut gradients,\n                                       self.criterion.reg_cost_grad(all_params).data(),\n                                       |x, &y| *x = *x + y);", "let reg = self.criterion.reg_cost_grad(all_params); for (g, r) in gradients.iter_mut().zip(reg.data()) { *g += *r; } let _ = utils::dot(&gradients, &gradients);"))
rep("nn-offset", NN, "C24 C25", ("MatrixSlice::from_raw_parts(weights.as_ptr().offset(start as isize),", "MatrixSlice::from_raw_parts(weights[start..].as_ptr(),"))
# ---- cost, regularisation, kernels
CF = "learning/toolkit/cost_fn.rs"; RG = "learning/toolkit/regularization.rs"; KE = "learning/toolkit/kernel.rs"
rep("cf-ce-iter", CF, "C26", ("        let mat_cost = targets.elemul(&log_output) + (-targets + 1f64).elemul(&log_inv_output);\n\n        let n = outputs.rows();\n\n        -(mat_cost.sum()) / (n as f64)", "        let s: f64 = targets.iter().zip(log_output.iter().zip(log_inv_output.iter())).map(|(t, (a, b))| t * a + (1f64 - t) * b).sum();\n        -s / (outputs.rows() as f64)"))
rep("cf-mse-iter", CF, "C26", ("        let diff = outputs - targets;\n        let sq_diff = &diff.elemul(&diff);\n\n        let n = diff.rows();\n\n        sq_diff.sum() / (2f64 * (n as f64))", "        let diff = outputs - targets; let s: f64 = diff.iter().map(|x| x * x).sum(); 0.5 * s / diff.rows() as f64"))
rep("cf-grad-iter", CF, "C26", ("(outputs - targets).elediv(&(outputs.elemul(&(-outputs + 1f64)).apply(&not_zero)))\n    }\n}\n\nimpl CostFunc<Vector<f64>> for Cross", "let d: Vec<f64> = outputs.data().iter().zip(targets.data()).map(|(o, t)| (o - t) / not_zero(o * (1f64 - o))).collect(); Matrix::new(outputs.rows(), outputs.cols(), d)\n    }\n}\n\nimpl CostFunc<Vector<f64>> for Cross"))
rep("cf-not-zero", CF, "C26", ("if x == 0f64 { f64::MIN_POSITIVE } else { x }", "match x { v if v == 0f64 => f64::MIN_POSITIVE, v => v }"))
rep("rg-iter", RG, "C27", ("let l1_norm = Lp::Integer(1).norm(mat);", "let l1_norm = mat.iter().fold(T::zero(), |s, v| s + v.abs());"), ("use linalg::norm::{Euclidean, Lp, MatrixNorm};", "use linalg::norm::{Euclidean, MatrixNorm};"))
rep("rg-sum", RG, "C27", ("let m_2 = (T::one() + T::one()) * FromPrimitive::from_usize(mat.rows()).unwrap();", "let m_2: T = FromPrimitive::from_usize(2 * mat.rows()).unwrap();"))
rep("ke-se-iter", KE, "C28 C30", ("        let diff = Vector::new(x1.to_vec()) - Vector::new(x2.to_vec());\n\n        let x = -diff.dot(&diff) / (2f64 * self.ls * self.ls);\n        (self.ampl * x.exp())", "        let d: f64 = x1.iter().zip(x2).map(|(a, b)| (a - b) * (a - b)).sum();\n        self.ampl * (-0.5 * d / (self.ls * self.ls)).exp()"))
rep("ke-se-scaled", KE, "C28 C30", ("let x = -diff.dot(&diff) / (2f64 * self.ls * self.ls);\n", "let diff = diff / self.ls; let x = -0.5 * diff.dot(&diff);\n"))
rep("ke-lin", KE, "C28", ("utils::dot(x1, x2) + self.c\n", "let p = Polynomial { alpha: 1f64, c: self.c, d: 1f64 }; p.kernel(x1, x2)\n"))
rep("ke-poly-vec", KE, "C28", ("(self.alpha * utils::dot(x1, x2) + self.c).powf(self.d)", "(self.alpha * Vector::new(x1.to_vec()).dot(&Vector::new(x2.to_vec())) + self.c).powf(self.d)"))
# ---- svm, gp, pca
SV = "learning/svm.rs"; GP = "learning/gp.rs"; PC = "learning/pca.rs"
rep("svm-loop", SV, "C29", ("""            let sum = full_inputs.row_iter()
                .zip(alpha.iter().zip(targets.iter()))
                .fold(0f64, |sum, (row, (a, y))| {
                    sum + a * y * self.ker.kernel(row_i.data(), row.raw_slice())
                }) * targets[i] / (self.lambda * (t as f64));""",
  """            let mut sum = 0f64; for (j, row) in full_inputs.row_iter().enumerate() { if alpha[j] != 0f64 { sum += alpha[j] * targets[j] * self.ker.kernel(row_i.data(), row.raw_slice()); } }
            let sum = sum * targets[i] / (self.lambda * (t as f64));"""))
rep("svm-margin", SV, "C29", ("}) * targets[i] / (self.lambda * (t as f64));\n\n            if sum < 1f64 {", "}) * targets[i];\n\n            if sum < self.lambda * (t as f64) {"))
rep("svm-incl", SV, "C29", ("for t in 1..self.optim_iters + 1 {", "for t in 1..=self.optim_iters {"))
rep("svm-kermat", SV, "C29", ("            ker_data.extend(m1.row_iter().flat_map(|row1| {\n                m2.row_iter()\n                    .map(move |row2| self.ker.kernel(row1.raw_slice(), row2.raw_slice()))\n            }));", "            for row1 in m1.row_iter() { for row2 in m2.row_iter() { ker_data.push(self.ker.kernel(row1.raw_slice(), row2.raw_slice())); } }"))
rep("svm-match", SV, "C29", ("        let ones = Matrix::<f64>::ones(inputs.rows(), 1);\n        let full_inputs = ones.hcat(inputs);\n\n        if let", "        let full_inputs = Matrix::from_fn(inputs.rows(), inputs.cols() + 1, |c, r| if c == 0 { 1f64 } else { inputs[[r, c - 1]] });\n\n        if let"))
rep("gp-noise", GP, "C30", ("let noise_mat = Matrix::identity(inputs.rows()) * self.noise;\n\n        let ker_mat = self.ker_mat(inputs, inputs).unwrap();", "let noise_mat = Matrix::from_diag(&vec![self.noise; inputs.rows()]);\n\n        let ker_mat = self.ker_mat(inputs, inputs)?;"))
rep("gp-diag", GP, "C30", ("let noise_mat = Matrix::identity(inputs.rows()) * self.noise;\n\n        let ker_mat = self.ker_mat(inputs, inputs).unwrap();", "let mut ker_mat = self.ker_mat(inputs, inputs)?; for i in 0..inputs.rows() { ker_mat[[i, i]] += self.noise; }"), ("Cholesky::decompose(ker_mat + noise_mat)", "Cholesky::decompose(ker_mat)"))
rep("gp-once", GP, "C30", ("            let post_mean = mean + self.ker_mat(inputs, t_data)? * alpha;\n\n            let test_mat = self.ker_mat(inputs, t_data)?;", "            let test_mat = self.ker_mat(inputs, t_data)?;\n            let post_mean = mean + &test_mat * alpha;"))
rep("gp-mean", GP, "C30", ("Vector::zeros(x.rows()) + self.a", "Vector::new(vec![self.a; x.rows()])"))
rep("gp-chol-solve", GP, "C30", ("""        let train_mat = Cholesky::decompose(ker_mat + noise_mat).map_err(|_| {
            Error::new(ErrorKind::InvalidState,
                       "Could not compute Cholesky decomposition.")
        })?.unpack();

        let x = train_mat.solve_l_triangular(targets - self.mean.func(inputs.clone())).unwrap();
        let alpha = train_mat.transpose().solve_u_triangular(x).unwrap();
""", """        let chol = Cholesky::decompose(ker_mat + noise_mat).map_err(|_| {
            Error::new(ErrorKind::InvalidState,
                       "Could not compute Cholesky decomposition.")
        })?;
        let alpha = chol.solve(targets - self.mean.func(inputs.clone())).unwrap();
        let train_mat = chol.unpack();
"""))
rep("pca-centering", PC, "C31", ("    Matrix::from_fn(inputs.rows(), inputs.cols(),\n                    |c, r| inputs.get_unchecked([r, c]) - centers.data().get_unchecked(c))", "    let mut m = inputs.clone(); for i in 0..m.rows() { for j in 0..m.cols() { m[[i, j]] -= centers[j]; } } m"))
rep("pca-match", PC, "C31", ("""                if self.center == true {
                    match self.centers {
                        // this can't happen
                        None => return Err(Error::new_untrained()),
                        Some(ref centers) => {
                            let data = unsafe { centering(inputs, &centers) };
                            if self.inv == true {
                                Ok(data * comp.transpose())
                            } else {
                                Ok(data * comp)
                            }
                        }
                    }
                } else {
                    if self.inv == true {
                        Ok(inputs * comp.transpose())
                    } else {
                        Ok(inputs * comp)
                    }
                }""", """                let data = match self.centers { Some(ref c) if self.center => unsafe { centering(inputs, c) }, _ => inputs.clone() };
                Ok(if self.inv { data * comp.transpose() } else { data * comp })"""))
bad = 0; only = sys.argv[1:]
assert len(set(x[0] for x in L)) == len(L)
for name, f, text, props in L:
    if only and not any(o in name for o in only): continue
    assert text != cache[f], name
    try:
        open("/repo/" + f, "w").write(text)
        for p in props:
            r = subprocess.run([root + "/check.sh", p], capture_output=True, text=True)
            ok = r.returncode == 0
            bad += not ok
            print(name, p, "quiet" if ok else "ALARM rc=%d %s" % (r.returncode, (r.stdout + r.stderr)[-1200:]), flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", f], check=True)
print(len(L), "rewrites,", bad, "alarms")
