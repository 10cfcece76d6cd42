//! C11 cross validation, C12 confusion matrix, C13 scores.
use crate::util::*;
use mce::*;
use rusty_machine::analysis::confusion_matrix::confusion_matrix;
use rusty_machine::analysis::cross_validation::k_fold_validate;
use rusty_machine::analysis::score::*;
use rusty_machine::learning::error::{Error, ErrorKind};
use rusty_machine::learning::{LearningResult, SupModel};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::hash::Hash;

/// A model that records what it is given and may fail at one call.
struct Probe { log: RefCell<Vec<(bool, Rows, Rows)>>, fail_at: Option<usize> }
impl Probe {
    fn hit(&self, train: bool, a: &M, b: Option<&M>) -> LearningResult<()> {
        let mut l = self.log.borrow_mut();
        l.push((train, to_rows(a), b.map(to_rows).unwrap_or_default()));
        if Some(l.len() - 1) == self.fail_at { return Err(Error::new(ErrorKind::InvalidState, "probe")); }
        Ok(())
    }
}
impl SupModel<M, M> for Probe {
    fn predict(&self, inputs: &M) -> LearningResult<M> {
        self.hit(false, inputs, None)?;
        // a recognisable prediction: input id * 1000
        Ok(Matrix::new(inputs.rows(), 1, inputs.row_iter().map(|r| r.raw_slice()[0] * 1000.0).collect::<Vec<_>>()))
    }
    fn train(&mut self, inputs: &M, targets: &M) -> LearningResult<()> { self.hit(true, inputs, Some(targets)) }
}

type Log = (Result<Vec<f64>, String>, Vec<(bool, Rows, Rows)>, Vec<(Rows, Rows)>);
fn run_cv(n: usize, k: usize, fail_at: Option<usize>) -> Log {
    let inputs = mat(n, 2, (0..n).flat_map(|i| vec![i as f64, 0.5 + i as f64]).collect());
    let targets = mat(n, 3, (0..n).flat_map(|i| vec![-(i as f64), 7.0, 100.0 + i as f64]).collect());
    let mut m = Probe { log: RefCell::new(vec![]), fail_at };
    let calls = RefCell::new(vec![]);
    let r = k_fold_validate(&mut m, &inputs, &targets, k, |o: &M, t: &M| {
        let mut cl = calls.borrow_mut();
        cl.push((to_rows(o), to_rows(t)));
        cl.len() as f64 * 11.0
    });
    (r.map_err(|e| format!("{:?}", e.kind())), m.log.into_inner(), calls.into_inner())
}
/// Ids of the rows, each row checked to be intact.
fn ids(rows: &Rows) -> Result<Vec<usize>, String> {
    rows.iter().map(|r| if r.len() == 2 && r[1] == r[0] + 0.5 { Ok(r[0] as usize) } else { Err(format!("torn input row {:?}", r)) }).collect()
}
fn tids(rows: &Rows) -> Result<Vec<usize>, String> {
    rows.iter().map(|r| if r.len() == 3 && r[1] == 7.0 && r[2] == 100.0 - r[0] { Ok((-r[0]) as usize) } else { Err(format!("torn target row {:?}", r)) }).collect()
}
fn check_cv(n: usize, k: usize, l: &Log) -> Result<Vec<Vec<usize>>, String> {
    let (r, log, calls) = l;
    let costs = r.as_ref().map_err(|e| format!("failed with {}", e))?;
    ensure_(costs.len() == k, format!("{} scores for {} folds", costs.len(), k))?;
    ensure_(log.len() == 2 * k && calls.len() == k, format!("{} model calls and {} scorings for {} folds", log.len(), calls.len(), k))?;
    let mut folds = vec![];
    let mut seen = vec![0; n];
    for f in 0..k {
        let (tr, te) = (&log[2 * f], &log[2 * f + 1]);
        ensure_(tr.0 && !te.0, format!("fold {}: not train then predict", f))?;
        let (a, b, t) = (ids(&tr.1)?, tids(&tr.2)?, ids(&te.1)?);
        ensure_(a == b, format!("fold {}: training inputs {:?} come with targets {:?}", f, a, b))?;
        ensure_(t.len() == n / k || t.len() == (n + k - 1) / k, format!("fold {} tests {} of {} samples with {} folds", f, t.len(), n, k))?;
        let mut all: Vec<usize> = a.iter().chain(&t).cloned().collect();
        all.sort();
        ensure_(all == (0..n).collect::<Vec<_>>(), format!("fold {}: training {:?} and test {:?} do not partition {} samples", f, a, t, n))?;
        for &i in &t { seen[i] += 1; }
        ensure_(calls[f].0 == t.iter().map(|&i| vec![i as f64 * 1000.0]).collect::<Vec<_>>(), format!("fold {}: scored outputs {:?} for test samples {:?}", f, calls[f].0, t))?;
        ensure_(tids(&calls[f].1)? == t, format!("fold {}: outputs of {:?} scored against targets {:?}", f, t, calls[f].1))?;
        ensure_(costs[f] == (f + 1) as f64 * 11.0, format!("score {} of fold {} is {}", f, f, costs[f]))?;
        folds.push(t);
    }
    ensure_(seen.iter().all(|&x| x == 1), format!("samples tested {:?} times", seen))?;
    Ok(folds)
}
fn ensure_(b: bool, m: String) -> R { if b { Ok(()) } else { Err(m) } }

pub fn cv() -> Property {
    let mut p = Property::new("C11");
    p.assume("uniform integer draws from rand 0.4 are uniform (the draw itself is the enumerated choice)");
    p.add("every-shuffle", "n <= 6 (thorough 8) samples, every 2 <= k <= n, every random outcome: the tested folds partition the samples, training data are the complement, inputs and targets stay paired, sizes differ by at most one, scores in order; every sample equally likely in every fold", |c| {
        let n = c.range(2, c.tier(6, 8));
        let k = c.range(2, n);
        c.note(format!("n={} k={}", n, k));
        let d = c.distribution(|| run_cv(n, k, None));
        let exact = d.iter().all(|x| x.2);
        let mut w: BTreeMap<Vec<Vec<usize>>, f64> = BTreeMap::new();
        for (l, pr, _) in d {
            let mut f = check_cv(n, k, &l)?;
            for x in f.iter_mut() { x.sort(); }
            c.saw(&f);
            *w.entry(f).or_insert(0.0) += pr;
        }
        c.outcome(&w.len());
        if exact {
            let sizes: Vec<usize> = w.keys().next().unwrap().iter().map(|x| x.len()).collect();
            let fact = |n: usize| (1..=n).map(|x| x as f64).product::<f64>();
            let total = fact(n) / sizes.iter().map(|&s| fact(s)).product::<f64>();
            ensure!((w.len() as f64 - total).abs() < 0.5, "{} samples in {} folds: {} of {} partitions reachable", n, k, w.len(), total);
            for (f, pr) in &w { ensure!((pr - 1.0 / total).abs() < 1e-9, "partition {:?} has probability {} instead of 1/{}", f, pr, total); }
        }
        Ok(())
    });
    p.add("sizes", "every n <= 40 and k <= n (thorough 80), three default shuffles", |c| {
        let n = c.range(2, c.tier(40, 80));
        let k = c.range(2, n);
        let d = c.of(&[Default_::Zero, Default_::Max, Default_::Half]);
        c.deviations(d, 0, || run_cv(n, k, None), |l| check_cv(n, k, &l).map(|_| ()))?;
        c.saw(&(n, k));
        Ok(())
    });
    p.add("many-folds", "50 to 300 samples, fold counts next to powers of two, to a half, a third and all of the samples, three default shuffles: the same", |c| {
        let n = c.of(&[50usize, 64, 65, 99, 100, 130, 150, 200, 257, 300]);
        let k = c.of(&[15usize, 16, 17, 31, 32, 33, 63, 64, 65, 66, 70, 99, 100, 101, 127, 128, 129, n / 3, n / 2, n / 2 + 1, n - 1, n]);
        if k > n || n * k > c.tier(13000, 40000) { return Ok(()); }
        let d = c.of(&[Default_::Zero, Default_::Max, Default_::Half]);
        c.deviations(d, 0, || run_cv(n, k, None), |l| check_cv(n, k, &l).map(|_| ()))?;
        c.saw(&(n, k));
        Ok(())
    });
    p.add("vast", "up to 70000 samples, up to 1025 folds, three default shuffles: the same", |c| {
        let (n, k) = c.of(&[(1025usize, 2usize), (1025, 1025), (2000, 100), (5000, 10), (4097, 257), (65537, 2), (70000, 3), (30000, 7)]);
        let d = c.of(&[Default_::Zero, Default_::Max, Default_::Half]);
        c.note(format!("{} samples in {} folds", n, k));
        c.deviations(d, 0, || run_cv(n, k, None), |l| check_cv(n, k, &l).map(|_| ()))?;
        c.saw(&(n, k));
        Ok(())
    });
    p.add("larger", "7 to 40 samples and sizes around 64, 100, 128, 256, 512, six fold counts: at most one draw deviating from each of three default streams: the same, no execution more likely than one partition's share, whose number divides that of equally long executions", |c| {
        let mut sizes: Vec<usize> = (7..=40).collect();
        sizes.extend([50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 150, 200, 256, 257]);
        if c.thorough() { sizes.extend([300, 400, 511, 512, 513, 1000, 1025]); }
        let n = c.of(&sizes);
        let k = c.of(&[2usize, 3, 5, 7, 10, n]);
        if k > n || (k == n && n > 129) { return Ok(()); }
        let d = c.of(&[Default_::Zero, Default_::Max, Default_::Half]);
        let what = || format!("{} samples in {} folds", n, k);
        let mut total = factorial(n);
        for f in 0..k { let s = n / k + (f < n % k) as usize; for i in 2..=s { total.times(i as u32, -1); } }
        let mut b = Bound::new(total);
        let sb = &mut b;
        let edge = |i: usize, l: usize| i < 1 || i + 1 >= l || (n <= 129 && i == l / 2) || (n <= 100 && i.is_power_of_two());
        c.deviations_where(d, 1, |i, l, a, m| edge(i, l) && edge(a as usize, m as usize), || run_cv(n, k, None), |l, drawn, _| { check_cv(n, k, &l)?; sb.see(&what, drawn) })?;
        b.end(&what)?;
        c.saw(&(n, k));
        Ok(())
    });
    p.add("model-errors", "n <= 5, every k, the model fails at each of its 2k calls: that error is returned and nothing further is run", |c| {
        let n = c.range(2, 5);
        let k = c.range(2, n);
        let at = c.pick(2 * k);
        c.ops(1);
        let (r, log, calls) = run_cv(n, k, Some(at));
        ensure!(r == Err("InvalidState".to_string()), "n={} k={}: model failing at call {} gave {:?}", n, k, at, r);
        ensure!(log.len() == at + 1 && calls.len() == at / 2, "model failing at call {}: {} calls and {} scorings happened", at, log.len(), calls.len());
        Ok(())
    });
    p.add("rejects", "k < 2, k > n and unequal row counts are rejected with a panic before any training", |c| {
        let n = c.range(0, 5);
        let k = c.range(0, 7);
        let t = c.range(0, 5);
        if k >= 2 && k <= n && t == n { return Ok(()); }
        let (a, b) = (mat(n, 1, vec![1.0; n]), mat(t, 1, vec![1.0; t]));
        let mut m = Probe { log: RefCell::new(vec![]), fail_at: None };
        c.op();
        let r = guard(|| k_fold_validate(&mut m, &a, &b, k, |_: &M, _: &M| 0.0).map_err(|_| ()));
        ensure!(r.is_err() || r == Ok(Err(())), "{} inputs, {} targets, {} folds gave {:?}", n, t, k, r);
        ensure!(m.log.borrow().is_empty(), "{} inputs, {} targets, {} folds: the model was run", n, t, k);
        Ok(())
    });
    p
}

fn cm_case<T: Ord + Eq + Hash + Copy + Debug>(c: &Ch, p: &[T], t: &[T], labels: Option<Vec<T>>) -> R {
    c.op();
    c.note(format!("predictions {:?} targets {:?} labels {:?}", p, t, labels));
    let dup = labels.as_ref().map_or(false, |l| (0..l.len()).any(|i| l[..i].contains(&l[i])));
    let got = guard(|| confusion_matrix(p, t, labels.clone()));
    if p.len() != t.len() || dup {
        ensure!(got.is_err(), "accepted: {:?}", got);
        return Ok(());
    }
    let got = got?;
    let ls = labels.unwrap_or_else(|| { let mut v: Vec<T> = p.iter().chain(t).cloned().collect(); v.sort(); v.dedup(); v });
    ensure!(got.rows() == ls.len() && got.cols() == ls.len(), "shape {}x{} for labels {:?}", got.rows(), got.cols(), ls);
    c.saw(got.data());
    for (i, a) in ls.iter().enumerate() { for (j, b) in ls.iter().enumerate() {
        let w = (0..p.len()).filter(|&x| t[x] == *a && p[x] == *b).count();
        ensure!(got.data()[i * ls.len() + j] == w, "count of samples of class {:?} predicted as {:?} is {} instead of {}", a, b, got.data()[i * ls.len() + j], w);
    } }
    Ok(())
}
fn label_lists(c: &Ch) -> Option<Vec<i32>> {
    if c.bool() { return None; }
    let n = c.range(0, 3);
    Some(c.vec_of(n, &[-1, 0, 2, 9]))
}
pub fn confusion() -> Property {
    let mut p = Property::new("C12");
    p.add("all", "prediction and target slices up to length 4 (thorough 5) over 3 labels, label list absent or every list of up to 3 of 4 labels (missing, extra, repeated, any order): each entry is the count of its (truth, prediction) pair", |c| {
        let l = label_lists(c);
        let n = c.range(0, c.tier(4, 5));
        let a = c.vec_of(n, &[0, 2, -1]);
        let b = c.vec_of(n, &[0, 2, -1]);
        cm_case(c, &a, &b, l)
    });
    p.add("lengths", "slices of unequal length up to 3: rejected", |c| {
        let (n, m) = (c.range(0, 3), c.range(0, 3));
        let a = c.vec_of(n, &[0, 2]);
        let b = c.vec_of(m, &[0, 2]);
        cm_case(c, &a, &b, label_lists(c))
    });
    p.add("types", "characters, strings, tuples and large unsigned labels, up to length 3", |c| {
        let n = c.range(0, 3);
        let a = c.vec_of(n, &[0usize, 1, 2, 3]);
        let b = c.vec_of(n, &[0usize, 1, 2, 3]);
        match c.pick(4) {
            0 => { let t = ['z', 'a', 'Q', '0']; cm_case(c, &a.iter().map(|&i| t[i]).collect::<Vec<_>>(), &b.iter().map(|&i| t[i]).collect::<Vec<_>>(), None) }
            1 => { let t = ["b", "", "ab", "a"]; cm_case(c, &a.iter().map(|&i| t[i]).collect::<Vec<_>>(), &b.iter().map(|&i| t[i]).collect::<Vec<_>>(), if c.bool() { Some(t.to_vec()) } else { None }) }
            2 => { let t = [(1, 0), (0, 1), (1, 1), (-5, 3)]; cm_case(c, &a.iter().map(|&i| t[i]).collect::<Vec<_>>(), &b.iter().map(|&i| t[i]).collect::<Vec<_>>(), None) }
            _ => { let t = [u64::MAX, 0, 1 << 63, 12345678901]; cm_case(c, &a.iter().map(|&i| t[i]).collect::<Vec<_>>(), &b.iter().map(|&i| t[i]).collect::<Vec<_>>(), None) }
        }
    });
    p.add("sizes", "patterned slices of every length to 300 over 1..=40 labels, labels absent or reversed", |c| {
        let n = c.range(0, 300);
        let k = c.of(&[1usize, 2, 3, 5, 8, 13, 16, 17, 33, 40]);
        let a: Vec<i64> = (0..n).map(|i| ((i * 7 + i * i / 3) % k) as i64 - 3).collect();
        let b: Vec<i64> = (0..n).map(|i| ((i * 5 + 2) % k) as i64 - 3).collect();
        let l = if c.bool() { Some((0..k as i64).rev().map(|x| x - 3).collect()) } else { None };
        cm_case(c, &a, &b, l)
    });
    p.add("vast", "257 to 70000 entries over 64 to 1100 labels, labels absent or reversed", |c| {
        let (n, k) = c.of(&[(257usize, 257usize), (1000, 64), (1000, 300), (5000, 130), (3000, 1100), (70000, 300)]);
        let a: Vec<i64> = (0..n).map(|i| ((i * 7 + i * i / 3) % k) as i64 * 5 - 300).collect();
        let b: Vec<i64> = (0..n).map(|i| if i % 3 == 0 { a[i] } else { ((i * 5 + 2) % k) as i64 * 5 - 300 }).collect();
        let l = if c.bool() { Some((0..k as i64).rev().map(|x| x * 5 - 300).collect::<Vec<i64>>()) } else { None };
        c.op();
        c.note(format!("{} entries over {} labels, {}", n, k, if l.is_some() { "given reversed" } else { "not given" }));
        let m = confusion_matrix(&a, &b, l.clone());
        let l = l.unwrap_or_else(|| { let mut v: Vec<i64> = a.iter().chain(&b).cloned().collect(); v.sort(); v.dedup(); v });
        let mut want = std::collections::HashMap::new();
        for (p, t) in a.iter().zip(&b) { *want.entry((*t, *p)).or_insert(0usize) += 1; }
        ensure!(m.rows() == l.len() && m.cols() == l.len(), "shape {}x{} for {} labels", m.rows(), m.cols(), l.len());
        for (i, t) in l.iter().enumerate() { for (j, p) in l.iter().enumerate() { let w = want.get(&(*t, *p)).cloned().unwrap_or(0); ensure!(m[[i, j]] == w, "{} entries with truth {} and prediction {} instead of {}", m[[i, j]], t, p, w); } }
        c.saw(&(n, k));
        Ok(())
    });
    p.add("counts", "two to four labels, each pair occurring 0, 1, 255 to 257 or 70000 times", |c| {
        let k = c.range(2, 4);
        let (mut a, mut b) = (vec![], vec![]);
        for q in 0..3 { let n = c.of(&[0usize, 1, 255, 256, 257, 70000]); for _ in 0..n { a.push(-(((q * 2 + 1) % k) as i16)); b.push(((q + 1) % k) as i16); } }
        cm_case_fast(c, &a, &b)
    });
    p
}
fn cm_case_fast(c: &Ch, p: &[i16], t: &[i16]) -> R {
    c.op();
    c.note(format!("{} samples", p.len()));
    let mut w: BTreeMap<(i16, i16), usize> = BTreeMap::new();
    for (a, b) in p.iter().zip(t) { *w.entry((*b, *a)).or_insert(0) += 1; }
    let mut ls: Vec<i16> = w.keys().flat_map(|x| vec![x.0, x.1]).collect();
    ls.sort(); ls.dedup();
    let got = guard(|| confusion_matrix(p, t, None))?;
    ensure!(got.rows() == ls.len() && got.cols() == ls.len(), "shape {}x{} for labels {:?}", got.rows(), got.cols(), ls);
    c.saw(got.data());
    for (i, a) in ls.iter().enumerate() { for (j, b) in ls.iter().enumerate() {
        let w = w.get(&(*a, *b)).cloned().unwrap_or(0);
        ensure!(got[[i, j]] == w, "count of samples of class {} predicted as {} is {} instead of {}", a, b, got[[i, j]], w);
    } }
    Ok(())
}

fn binary_case<T: PartialEq + Debug + Copy + num::Zero + num::One>(c: &Ch, o: &[T], t: &[T]) -> R {
    c.ops(4);
    c.note(format!("outputs {:?} targets {:?}", o, t));
    let (one, zero) = (T::one(), T::zero());
    let ac = guard(|| accuracy(o.iter(), t.iter()));
    let pr = guard(|| precision(o.iter(), t.iter()));
    let re = guard(|| recall(o.iter(), t.iter()));
    let f = guard(|| f1(o.iter(), t.iter()));
    if o.len() != t.len() {
        ensure!(ac.is_err() && pr.is_err() && re.is_err() && f.is_err(), "unequal lengths accepted: {:?} {:?} {:?} {:?}", ac, pr, re, f);
        return Ok(());
    }
    let n = o.len() as f64;
    let cnt = |q: &dyn Fn(&T, &T) -> bool| o.iter().zip(t).filter(|(a, b)| q(a, b)).count() as f64;
    let same = cnt(&|a, b| a == b);
    let ac = ac?;
    if n > 0.0 { ensure_close!(ac, same / n, 1e-12, "accuracy"); }
    if o.iter().chain(t).any(|x| *x != one && *x != zero) {
        ensure!(pr.is_err() && re.is_err() && f.is_err(), "labels other than 0 and 1 accepted: precision {:?} recall {:?} f1 {:?}", pr, re, f);
        return Ok(());
    }
    let (pr, re, f) = (pr?, re?, f?);
    let tp = cnt(&|a, b| *a == one && *b == one);
    let fp = cnt(&|a, b| *a == one && *b == zero);
    let fneg = cnt(&|a, b| *a == zero && *b == one);
    c.saw_f(&[ac, pr, re, f]);
    if tp + fp > 0.0 { ensure_close!(pr, tp / (tp + fp), 1e-12, "precision"); }
    if tp + fneg > 0.0 { ensure_close!(re, tp / (tp + fneg), 1e-12, "recall"); }
    if tp + fp + fneg > 0.0 { ensure_close!(f, 2.0 * tp / (2.0 * tp + fp + fneg), 1e-12, "f1"); }
    Ok(())
}



pub fn scores() -> Property {
    let mut p = Property::new("C13");
    p.assume("scores whose denominator is zero (no positive prediction or target, empty input) are left open");
    p.add("binary", "output and target slices up to length 6 (thorough 8) over {0,1}, three numeric types: accuracy, precision, recall and f1 equal their definitions", |c| {
        let n = c.range(0, c.tier(6, 8));
        let o: Vec<u8> = c.vec_of(n, &[0, 1]);
        let t: Vec<u8> = c.vec_of(n, &[0, 1]);
        let f = |v: &[u8]| v.iter().map(|&x| x as f64).collect::<Vec<_>>();
        let i = |v: &[u8]| v.iter().map(|&x| x as i32).collect::<Vec<_>>();
        match c.pick(3) { 0 => binary_case(c, &o, &t), 1 => binary_case(c, &f(&o), &f(&t)), _ => binary_case(c, &i(&o), &i(&t)) }
    });
    p.add("counts", "every combination of counts of true and false positives and negatives from 0, 1, 2, 3, 50, 257, 2000 (thorough also 65537), in blocks or interleaved: the same", |c| {
        let mut a = vec![0usize, 1, 2, 3, 50, 257, 2000];
        if c.thorough() { a.push(65537); }
        let n: Vec<usize> = (0..4).map(|_| c.of(&a)).collect();
        let mixed = c.bool();
        let (mut o, mut t): (Vec<u16>, Vec<u16>) = (vec![], vec![]);
        let mut left = n.clone();
        while left.iter().any(|x| *x > 0) {
            for q in 0..4 { let k = if mixed { left[q].min(1) } else { left[q] }; left[q] -= k; for _ in 0..k { o.push((q < 2) as u16); t.push((q == 0 || q == 2) as u16); } }
        }
        c.ops(4);
        c.note(format!("tp {} fp {} fn {} tn {}", n[0], n[1], n[2], n[3]));
        let (tp, fp, fneg, all) = (n[0] as f64, n[1] as f64, n[2] as f64, o.len() as f64);
        if all > 0.0 { ensure_close!(accuracy(o.iter(), t.iter()), (tp + n[3] as f64) / all, 1e-12, "accuracy"); }
        let (pr, re, f) = (precision(o.iter(), t.iter()), recall(o.iter(), t.iter()), f1(o.iter(), t.iter()));
        c.saw_f(&[pr, re, f]);
        if tp + fp > 0.0 { ensure_close!(pr, tp / (tp + fp), 1e-12, "precision"); }
        if tp + fneg > 0.0 { ensure_close!(re, tp / (tp + fneg), 1e-12, "recall"); }
        if tp + fp + fneg > 0.0 { ensure_close!(f, 2.0 * tp / (2.0 * tp + fp + fneg), 1e-12, "f1"); }
        Ok(())
    });
    p.add("large-matrices", "1 to 300 rows x 1..=9 columns, differences at no, one, every third or all rows, in any one column or all, of 9 sizes from 1e-150 to 1e150: row accuracy and squared error as below", |c| {
        let r = c.of(&[1usize, 2, 7, 16, 17, 33, 64, 65, 100, 129, 257, 300]);
        let k = c.range(1, 9);
        let t = crate::tf::pattern(r, k, c.pick(3));
        let d = c.of(&[1e-150, 1e-30, 1e-17, 1e-9, 1e-3, 1.0, 1e4, 1e30, 1e150]);
        let which = c.pick(4);
        let col = c.pick(k + 1);
        let mut o = t.clone();
        for i in 0..r { if match which { 0 => false, 1 => i == r - 1, 2 => i % 3 == 0, _ => true } { for j in 0..k { if j == col || col == k { o[[i, j]] += d; } } } }
        c.ops(2);
        c.note(format!("{}x{} differing by {} at {} {}", r, k, d, which, col));
        let w = to_rows(&o).iter().zip(to_rows(&t)).filter(|(a, b)| *a == b).count() as f64 / r as f64;
        ensure_close!(row_accuracy(&o, &t), w, 1e-12, "row accuracy");
        let w = -d2(o.data(), t.data()) / r as f64;
        let g = neg_mean_squared_error(&o, &t);
        c.saw_f(&[g]);
        ensure!((g - w).abs() <= 1e-12 * w.abs(), "squared error score {} instead of {}", g, w);
        Ok(())
    });
    p.add("wide-matrices", "1, 2, 40 or 300 rows x 10 to 1500 columns that differ in one entry of the last, every third or every row, at any of the first 3, last 3, or columns next to a power of two: row accuracy and squared error as below", |c| {
        let r = c.of(&[1usize, 2, 40, 300]);
        let k = c.of(&[10usize, 12, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 100, 128, 129, 256, 257, 1000, 1025, 1500]);
        if r * k > 150000 { return Ok(()); }
        let t = crate::tf::pattern(r, k, c.pick(2));
        let cols: Vec<usize> = (0..k).filter(|&j| j < 3 || j + 3 >= k || j.is_power_of_two() || (j + 1).is_power_of_two()).collect();
        let (which, col, d) = (c.pick(3), c.of(&cols), c.of(&[1e-9, -1.0, 3e8]));
        let mut o = t.clone();
        for i in 0..r { if match which { 0 => i == r - 1, 1 => i % 3 == 0, _ => true } { o[[i, col]] += d; } }
        c.ops(2);
        c.note(format!("{}x{} differing by {} in rows {} of column {}", r, k, d, which, col));
        let w = to_rows(&o).iter().zip(to_rows(&t)).filter(|(a, b)| *a == b).count() as f64 / r as f64;
        ensure_close!(row_accuracy(&o, &t), w, 1e-12, "row accuracy");
        let (w, g) = (-d2(o.data(), t.data()) / r as f64, neg_mean_squared_error(&o, &t));
        c.saw_f(&[w, g]);
        ensure!((g - w).abs() <= 1e-12 * w.abs(), "squared error score {} instead of {}", g, w);
        Ok(())
    });
    p.add("other-labels", "slices up to length 4 over {0, 1, 2, -1}, also of unequal length: accuracy counts equal entries; the binary scores reject any label but 0 and 1", |c| {
        let n = c.range(0, 3);
        let m = c.range(0, 3);
        let o: Vec<i32> = c.vec_of(n, &[0, 1, 2, -1]);
        let t: Vec<i32> = c.vec_of(m, &[0, 1, 2, -1]);
        binary_case(c, &o, &t)
    });
    p.add("accuracy-types", "accuracy over strings and characters up to length 4", |c| {
        let n = c.range(1, 4);
        let s = ["a", "b", "ab"];
        let (o, t) = (c.vec_of(n, &s), c.vec_of(n, &s));
        c.op();
        let w = o.iter().zip(&t).filter(|(a, b)| a == b).count() as f64 / n as f64;
        ensure_close!(accuracy(o.iter(), t.iter()), w, 1e-12, "accuracy of {:?} against {:?}", o, t);
        Ok(())
    });
    p.add("rows", "matrices up to 3x2 / 2x3 over 3 values: row accuracy is the fraction of completely equal rows", |c| {
        let (r, k) = c.of(&[(1usize, 1usize), (1, 2), (2, 1), (3, 1), (2, 2), (1, 3)]);
        let al: &[f64] = &[0.0, 1.0, -2.5];
        let (o, t) = (mat(r, k, c.vec_of(r * k, al)), mat(r, k, c.vec_of(r * k, al)));
        c.op();
        c.note(format!("{} {}", show(&o), show(&t)));
        let w = to_rows(&o).iter().zip(to_rows(&t)).filter(|(a, b)| *a == b).count() as f64 / r as f64;
        ensure_close!(row_accuracy(&o, &t), w, 1e-12, "row accuracy of {} against {}", show(&o), show(&t));
        Ok(())
    });
    p.add("squared-error", "matrices up to 3x2 over 4 values: minus the squared error summed over outputs and averaged over samples; never positive, zero only for equality", |c| {
        let (r, k) = c.of(&[(1usize, 1usize), (1, 2), (2, 1), (3, 1), (2, 2), (1, 3)]);
        let al: &[f64] = &[0.0, 1.0, -2.5, 100.0];
        let (o, t) = (mat(r, k, c.vec_of(r * k, al)), mat(r, k, c.vec_of(r * k, al)));
        c.op();
        let w = -d2(o.data(), t.data()) / r as f64;
        let g = neg_mean_squared_error(&o, &t);
        c.saw_f(&[g]);
        ensure_close!(g, w, 1e-12, "score of {} against {}", show(&o), show(&t));
        Ok(())
    });
    p.add("sizes", "patterned labels of every length to 300 and matrices to 100 rows", |c| {
        let n = c.range(1, 300);
        let a = c.range(1, 7);
        let o: Vec<u32> = (0..n).map(|i| ((i * a + i * i) % 3 == 0) as u32).collect();
        let t: Vec<u32> = (0..n).map(|i| (i % (a + 1) == 1) as u32).collect();
        binary_case(c, &o, &t)?;
        let f = |v: &[u32]| mat(n, 1, v.iter().map(|&x| x as f64).collect());
        let eq = o.iter().zip(&t).filter(|(a, b)| a == b).count() as f64;
        ensure_close!(row_accuracy(&f(&o), &f(&t)), eq / n as f64, 1e-12, "row accuracy of {} rows", n);
        ensure_close!(neg_mean_squared_error(&f(&o), &f(&t)), -(n as f64 - eq) / n as f64, 1e-12, "squared error of {} rows", n);
        Ok(())
    });
    p
}
