//! C18 Gaussian naive Bayes, C19 Bernoulli and multinomial naive Bayes.
use crate::util::*;
use mce::*;
use rusty_machine::learning::naive_bayes::{Bernoulli, Distribution, Gaussian, Multinomial, NaiveBayes};
use rusty_machine::learning::SupModel;
use std::f64::consts::PI;

pub fn one_hot(l: &[usize], k: usize) -> M {
    mat(l.len(), k, l.iter().flat_map(|&a| (0..k).map(move |j| (j == a) as u8 as f64)).collect())
}
fn of_class(rows: &Rows, l: &[usize], k: usize) -> Rows { rows.iter().zip(l).filter(|x| *x.1 == k).map(|x| x.0.clone()).collect() }
/// Joint log likelihood of one input per class by the definition; None where a class has no data.
type Ref<'a> = &'a dyn Fn(&Rows, &[f64]) -> f64;
fn compare<T: Distribution>(m: &NaiveBayes<T>, rows: &Rows, l: &[usize], k: usize, q: &Rows, lik: Ref) -> R {
    let n = rows.len();
    let cols = rows[0].len();
    ensure!(m.cluster_count() == Some(&k), "cluster count {:?} for {} classes", m.cluster_count(), k);
    let prior = m.class_prior().ok_or("no prior after training")?;
    for c in 0..k {
        let want = l.iter().filter(|x| **x == c).count() as f64 / n as f64;
        ensure!(prior.len() == k && close(prior[c], want, 1e-12), "labels {:?}: prior {:?}, class {} should have {}", l, prior, c, want);
    }
    let x = from_rows(q, cols);
    let lp = m.get_log_probs(&x).map_err(|e| format!("log probabilities: {}", e))?;
    shape_is(&lp, q.len(), k, "log probabilities")?;
    let out = m.predict(&x).map_err(|e| format!("predict: {}", e))?;
    shape_is(&out, q.len(), k, "prediction")?;
    for (i, p) in q.iter().enumerate() {
        let want: Vec<f64> = (0..k).map(|c| {
            let d = of_class(rows, l, c);
            if d.is_empty() { f64::NEG_INFINITY } else { (d.len() as f64 / n as f64).ln() + lik(&d, p) }
        }).collect();
        let say = || format!("{:?} labelled {:?}, input {:?}", rows, l, p);
        for c in 0..k {
            if want[c] == f64::NEG_INFINITY { continue; }
            ensure!(close(lp[[i, c]], want[c], 1e-9), "{}: log probability {} of class {}, expected {}", say(), lp[[i, c]], c, want[c]);
        }
        let row: Vec<f64> = (0..k).map(|c| out[[i, c]]).collect();
        ensure!(row.iter().all(|v| *v == 0.0 || *v == 1.0) && row.iter().sum::<f64>() == 1.0, "{}: prediction {:?} is no indicator", say(), row);
        let got = row.iter().position(|v| *v == 1.0).unwrap();
        let best = want.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
        ensure!(close(want[got], best, 1e-9), "{}: class {} is predicted, the log probabilities are {:?}", say(), got, want);
    }
    Ok(())
}
fn gauss_lik(d: &Rows, p: &[f64]) -> f64 {
    let n = d.len() as f64;
    (0..p.len()).map(|j| {
        let mu = d.iter().map(|r| r[j]).sum::<f64>() / n;
        let v = d.iter().map(|r| (r[j] - mu).powi(2)).sum::<f64>() / (n - 1.0);
        -0.5 * (2.0 * PI * v).ln() - (p[j] - mu).powi(2) / (2.0 * v)
    }).sum()
}
fn gauss_case(c: &Ch, rows: &Rows, l: &[usize], k: usize, q: &Rows) -> R {
    c.note(format!("{:?} labelled {:?} of {}", rows, l, k));
    let cols = rows[0].len();
    let mut m = NaiveBayes::<Gaussian>::new();
    c.ops(3);
    let tr = m.train(&from_rows(rows, cols), &one_hot(l, k));
    let cl: Vec<Rows> = (0..k).map(|a| of_class(rows, l, a)).collect();
    if cl.iter().any(|d| d.len() == 1) {
        ensure!(err_kind(&tr) == "InvalidData", "{:?} labelled {:?}: a class with one row is {}", rows, l, err_kind(&tr));
        ensure!(err_kind(&m.predict(&from_rows(rows, cols))) == "UntrainedModel", "predict after a rejected training: {}", err_kind(&m.predict(&from_rows(rows, cols))));
        return Ok(());
    }
    tr.map_err(|e| format!("train: {}", e))?;
    let d = m.distr().ok_or("no distribution after training")?;
    shape_is(d.theta(), k, cols, "means")?;
    shape_is(d.sigma(), k, cols, "variances")?;
    c.saw_f(d.theta().data());
    for a in 0..k { if !cl[a].is_empty() { for j in 0..cols {
        let n = cl[a].len() as f64;
        let mu = cl[a].iter().map(|r| r[j]).sum::<f64>() / n;
        let v = cl[a].iter().map(|r| (r[j] - mu).powi(2)).sum::<f64>() / (n - 1.0);
        ensure!(close(d.theta()[[a, j]], mu, 1e-12) && close(d.sigma()[[a, j]], v, 1e-9), "class {} feature {} of {:?}: mean {} variance {}, expected {} {}", a, j, rows, d.theta()[[a, j]], d.sigma()[[a, j]], mu, v);
    } } }
    // constant features have no density
    if cl.iter().any(|d| !d.is_empty() && (0..cols).any(|j| d.iter().all(|r| r[j] == d[0][j]))) { return Ok(()); }
    compare(&m, rows, l, k, q, &gauss_lik)
}
pub fn gaussian() -> Property {
    let mut p = Property::new("C18");
    p.assume("log probabilities and predictions: no feature is constant within a class");
    p.add("one-feature", "every 2..=6 (thorough 7) values over 3 levels x every labelling with up to 3 classes, classes without rows included (also the first): priors, means, sample variances, log probabilities and predicted indicators equal their definitions; a class with a single row is rejected", |c| {
        let n = c.range(2, c.tier(6, 7));
        let k = c.range(1, 3);
        let rows: Rows = c.vec_of(n, &[0.0, 1.0, 4.0]).into_iter().map(|x| vec![x]).collect();
        let l: Vec<usize> = (0..n).map(|_| c.pick(k)).collect();
        gauss_case(c, &rows, &l, k, &[-3.0, 0.0, 0.7, 2.0, 9.0].iter().map(|x| vec![*x]).collect())
    });
    p.add("two-features", "4 or 5 rows of 2 features out of 5 points, every labelling with 2 of 3 classes", |c| {
        let n = c.range(4, 5);
        let pts = [[0.0, 1.0], [1.0, -2.0], [2.0, 0.5], [-1.0, 3.0], [5.0, 4.0]];
        let rows: Rows = (0..n).map(|_| pts[c.pick(5)].to_vec()).collect();
        let empty = c.pick(3);
        let l: Vec<usize> = (0..n).map(|_| (empty + 1 + c.pick(2)) % 3).collect();
        gauss_case(c, &rows, &l, 3, &vec![vec![0.0, 0.0], vec![1.0, 1.0], vec![4.0, -3.0]])
    });
    p.add("far", "4 to 6 values in 2 or 3 classes of very different place and spread, inputs up to 1e6 away, where every probability underflows: the same", |c| {
        let n = c.range(4, 6);
        let k = c.range(2, 3);
        let base = c.of(&[[0.0, 10.0, -30.0], [0.0, 1e3, 1e5], [1e5, 1e5 + 1.0, 0.0]]);
        let sp = c.of(&[[1.0, 1.0, 1.0], [0.01, 1.0, 100.0], [2.0, 0.5, 0.1]]);
        let l: Vec<usize> = (0..n).map(|_| c.pick(k)).collect();
        let rows: Rows = (0..n).map(|i| vec![base[l[i]] + sp[l[i]] * ((i * i % 7) as f64 + 0.25 * i as f64), sp[(l[i] + 1) % 3] * (i as f64 - 1.5)]).collect();
        let q: Rows = [-1e6, -1e3, -200.0, -40.0, 5.0, 41.0, 200.0, 1e3, 1e6].iter().map(|x| vec![*x, 0.3]).chain((0..3).map(|i| vec![base[i], -300.0])).collect();
        gauss_case(c, &rows, &l, k, &q)
    });
    p.add("wide", "patterned data of 20 to 300 rows, 1 to 60 features, 2 to 12 classes: the same", |c| {
        let n = c.of(&[20usize, 64, 65, 128, 129, 300]);
        let cols = c.of(&[1usize, 3, 8, 9, 17, 33, 60]);
        let k = c.of(&[2usize, 5, 8, 12]);
        let rows: Rows = (0..n).map(|i| (0..cols).map(|j| ((i * 7 + j * 5) % 13) as f64 + 0.1 * i as f64 + (i * i % 5) as f64 * j as f64).collect()).collect();
        let l: Vec<usize> = (0..n).map(|i| (i * i / 2 + i) % k).collect();
        let q: Rows = (0..4).map(|a| (0..cols).map(|j| a as f64 * 9.0 + j as f64).collect()).collect();
        gauss_case(c, &rows, &l, k, &q)
    });
    p.add("vast", "patterned data of 600 to 20000 rows, up to 300 features, up to 130 classes: the same", |c| {
        let (n, cols, k) = c.of(&[(600usize, 300usize, 3usize), (1025, 5, 130), (2000, 40, 33), (5000, 2, 2), (20000, 1, 3)]);
        let rows: Rows = (0..n).map(|i| (0..cols).map(|j| ((i * 7 + j * 5) % 13) as f64 + 0.001 * i as f64 + (i * i % 5) as f64 * (j % 9) as f64).collect()).collect();
        let l: Vec<usize> = (0..n).map(|i| (i + i / k / 3) % k).collect();
        let q: Rows = (0..4).map(|a| (0..cols).map(|j| a as f64 * 9.0 + (j % 9) as f64).collect()).collect();
        gauss_case(c, &rows, &l, k, &q)
    });
    p.add("lopsided", "classes of 5 to 70000 rows beside each other, 1 or 2 features: the same", |c| {
        let sizes: &[usize] = c.of(&[&[70000usize, 5][..], &[40, 66000], &[255, 257, 3], &[4, 65536, 65537], &[1000, 10]]);
        let cols = c.range(1, 2);
        let l: Vec<usize> = sizes.iter().enumerate().flat_map(|(k, &n)| std::iter::repeat(k).take(n)).collect();
        let rows: Rows = (0..l.len()).map(|i| (0..cols).map(|j| ((i * 7 + j * 5) % 13) as f64 + 2.0 * l[i] as f64).collect()).collect();
        let q: Rows = (0..5).map(|a| (0..cols).map(|j| a as f64 * 4.0 + j as f64).collect()).collect();
        gauss_case(c, &rows, &l, sizes.len(), &q)
    });
    p.add("sizes", "patterned data to 80 rows, 1..=5 features, 1..=5 classes, scales 1e-3 .. 1e4", |c| {
        let n = c.range(4, 80);
        let cols = c.range(1, 5);
        let k = c.range(1, 5);
        let s = c.of(&[1e-3, 1.0, 1e4]);
        let rows: Rows = (0..n).map(|i| (0..cols).map(|j| s * (((i * 7 + j * 5) % 13) as f64 + 0.1 * i as f64 + (i * i % 5) as f64 * j as f64)).collect()).collect();
        let l: Vec<usize> = (0..n).map(|i| (i * i / 2 + i) % k).collect();
        let q: Rows = (0..4).map(|a| (0..cols).map(|j| s * (a as f64 * 3.0 + j as f64)).collect()).collect();
        gauss_case(c, &rows, &l, k, &q)
    });
    p.add("rejects", "use before training, target rows without a 1, unequal numbers of rows and targets: an error; after any of these a trained model still answers as before", |c| {
        let rows: Rows = vec![vec![0.0, 1.0], vec![2.0, 2.5], vec![5.0, 4.0], vec![6.0, 9.0]];
        let l = [0usize, 0, 1, 1];
        let trained = c.bool();
        let mut m = NaiveBayes::<Gaussian>::new();
        let x = from_rows(&rows, 2);
        ensure!(m.class_prior().is_none() && m.cluster_count().is_none() && m.distr().is_none(), "an untrained model has parameters");
        if trained { m.train(&x, &one_hot(&l, 2)).map_err(|e| format!("{}", e))?; }
        let case = c.pick(5);
        c.note(format!("trained before: {}, case {}", trained, case));
        c.ops(2);
        let r = guard(|| match case {
            0 => m.train(&x, &mat(4, 3, vec![1.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 1.0])),
            1 => m.train(&x, &mat(4, 1, vec![1.0, 0.5, 1.0, 1.0])),
            2 => m.train(&x, &one_hot(&[0, 0, 1], 2)),
            3 => m.train(&from_rows(&rows[..3].to_vec(), 2), &one_hot(&l, 2)),
            _ => m.train(&mat(3, 3, vec![1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0, 10.0]), &one_hot(&[2, 0, 0], 3)),
        })?;
        ensure!(r.is_err(), "accepted");
        if trained { compare(&m, &rows, &l, 2, &vec![vec![0.5, 0.5], vec![4.0, 7.0]], &gauss_lik) }
        else { let e = err_kind(&guard(|| m.predict(&x))?); ensure!(e == "UntrainedModel", "predict after a rejected first training: {}", e); Ok(()) }
    });
    p
}

fn bern_lik(d: &Rows, p: &[f64]) -> f64 {
    (0..p.len()).map(|j| {
        let pr = (d.iter().map(|r| r[j]).sum::<f64>() + 1.0) / (d.len() as f64 + 2.0);
        p[j] * pr.ln() + (1.0 - p[j]) * (1.0 - pr).ln()
    }).sum()
}
fn mult_lik(d: &Rows, p: &[f64]) -> f64 {
    let tot: f64 = d.iter().flatten().sum::<f64>() + p.len() as f64;
    (0..p.len()).map(|j| p[j] * ((d.iter().map(|r| r[j]).sum::<f64>() + 1.0) / tot).ln()).sum()
}
fn bern_case(c: &Ch, rows: &Rows, l: &[usize], k: usize, q: &Rows) -> R {
    c.note(format!("Bernoulli {:?} labelled {:?} of {}", rows, l, k));
    let mut m = NaiveBayes::<Bernoulli>::new();
    c.ops(3);
    m.train(&from_rows(rows, rows[0].len()), &one_hot(l, k)).map_err(|e| format!("train: {}", e))?;
    let lp = m.distr().ok_or("no distribution")?.log_probs();
    shape_is(lp, k, rows[0].len(), "log probabilities")?;
    c.saw_f(lp.data());
    for a in 0..k { let d = of_class(rows, l, a); if !d.is_empty() { for j in 0..rows[0].len() {
        let w = ((d.iter().map(|r| r[j]).sum::<f64>() + 1.0) / (d.len() as f64 + 2.0)).ln();
        ensure!(close(lp[[a, j]], w, 1e-12), "{:?}: class {} feature {} has log probability {} instead of {}", rows, a, j, lp[[a, j]], w);
    } } }
    compare(&m, rows, l, k, q, &bern_lik)
}
fn mult_case(c: &Ch, rows: &Rows, l: &[usize], k: usize, q: &Rows) -> R {
    c.note(format!("multinomial {:?} labelled {:?} of {}", rows, l, k));
    let mut m = NaiveBayes::<Multinomial>::new();
    c.ops(3);
    m.train(&from_rows(rows, rows[0].len()), &one_hot(l, k)).map_err(|e| format!("train: {}", e))?;
    let lp = m.distr().ok_or("no distribution")?.log_probs();
    shape_is(lp, k, rows[0].len(), "log probabilities")?;
    c.saw_f(lp.data());
    for a in 0..k { let d = of_class(rows, l, a); if !d.is_empty() {
        let s: f64 = (0..rows[0].len()).map(|j| lp[[a, j]].exp()).sum();
        ensure!(close(s, 1.0, 1e-9), "{:?}: the probabilities of class {} sum to {}", rows, a, s);
    } }
    compare(&m, rows, l, k, q, &mult_lik)
}
fn bits(n: usize) -> Rows { (0..1 << n).map(|v| (0..n).map(|j| (v >> j & 1) as f64).collect()).collect() }
pub fn discrete() -> Property {
    let mut p = Property::new("C19");
    p.add("bernoulli", "every 1..=4 (thorough 5) rows of 1..=2 binary features, 1..=3 rows of 3 features, every labelling with up to 3 classes (also without rows): smoothed log probabilities, priors, joint log probabilities and predictions of every binary input equal their definitions", |c| {
        let cols = c.range(1, 3);
        let n = c.range(1, if cols == 3 { 3 } else { c.tier(4, 5) });
        let k = c.range(1, 3);
        let all = bits(cols);
        let rows: Rows = (0..n).map(|_| all[c.pick(all.len())].clone()).collect();
        let l: Vec<usize> = (0..n).map(|_| c.pick(k)).collect();
        bern_case(c, &rows, &l, k, &all)
    });
    p.add("multinomial", "every 1..=4 rows of 2 counts out of {0, 1, 3}, every labelling with up to 3 classes: the same with 6 count inputs", |c| {
        let n = c.range(1, c.tier(4, 5));
        let k = c.range(1, c.tier(3, if n == 5 { 2 } else { 3 }));
        let rows: Rows = (0..n).map(|_| { let i = c.pick(9); vec![[0.0, 1.0, 3.0][i % 3], [0.0, 1.0, 3.0][i / 3]] }).collect();
        let l: Vec<usize> = (0..n).map(|_| c.pick(k)).collect();
        mult_case(c, &rows, &l, k, &vec![vec![0.0, 0.0], vec![1.0, 0.0], vec![0.0, 1.0], vec![2.0, 5.0], vec![7.0, 1.0], vec![300.0, 2.0]])
    });
    p.add("weights", "every 1..=3 rows of 2 weights out of {0, 0.25, 0.5, 1.75} (thorough 4), every labelling with 2 classes, and the same in units of 1e-3 to 1e6: the multinomial model the same with fractional counts", |c| {
        let n = c.range(1, c.tier(3, 4));
        let w = [0.0, 0.25, 0.5, 1.75];
        let unit = c.of(&[1.0, 1e-3, 1e6]);
        let rows: Rows = (0..n).map(|_| vec![c.of(&w) * unit, c.of(&w) * unit]).collect();
        let l: Vec<usize> = (0..n).map(|_| c.pick(2)).collect();
        mult_case(c, &rows, &l, 2, &vec![vec![0.0, 0.0], vec![0.5, 0.0], vec![0.1, 0.9], vec![2.5, 5.0]])
    });
    p.add("sizes", "patterned data to 60 rows, 1..=6 features, 1..=5 classes, both distributions", |c| {
        let n = c.range(1, 60);
        let cols = c.range(1, 6);
        let k = c.range(1, 5);
        let l: Vec<usize> = (0..n).map(|i| (i * i / 2 + i) % k).collect();
        if c.bool() {
            let rows: Rows = (0..n).map(|i| (0..cols).map(|j| ((i * (j + 2) + i / 3) % 3 == 0) as u8 as f64).collect()).collect();
            bern_case(c, &rows, &l, k, &rows[..n.min(5)].to_vec())
        } else {
            let rows: Rows = (0..n).map(|i| (0..cols).map(|j| ((i * (j + 2) + i / 3) % 7) as f64).collect()).collect();
            mult_case(c, &rows, &l, k, &rows[..n.min(5)].to_vec())
        }
    });
    p.add("wide", "patterned data of 1 to 300 rows, 10 to 120 features, 2 to 12 classes, counts up to 1, 9, 1000 or 1000000, both distributions", |c| {
        let n = c.of(&[1usize, 10, 64, 65, 129, 300]);
        let cols = c.of(&[10usize, 16, 17, 33, 64, 65, 120]);
        let k = c.of(&[2usize, 5, 8, 12]);
        let l: Vec<usize> = (0..n).map(|i| (i * i / 2 + i) % k).collect();
        let far = c.of(&[2usize, 10, 1001, 1000001]);
        let rows: Rows = (0..n + 3).map(|i| (0..cols).map(|j| ((i * (j + 2) + i / 3 + (i * i * 977 + j * 131) % 10007 * 313) % far) as f64).collect()).collect();
        if far == 2 { bern_case(c, &rows[..n].to_vec(), &l, k, &rows[n..].to_vec()) } else { mult_case(c, &rows[..n].to_vec(), &l, k, &rows[n..].to_vec()) }
    });
    p.add("vast", "patterned data of 600 to 20000 rows, up to 1000 features, up to 130 classes, both distributions", |c| {
        let (n, cols, k) = c.of(&[(600usize, 300usize, 3usize), (1025, 5, 130), (2000, 40, 33), (100, 1000, 2), (20000, 2, 3)]);
        let l: Vec<usize> = (0..n).map(|i| (i + i / k / 3) % k).collect();
        let far = c.of(&[2usize, 10, 1000001]);
        let rows: Rows = (0..n + 3).map(|i| (0..cols).map(|j| ((i * (j + 2) + i / 3 + (i * i * 977 + j * 131) % 10007 * 313) % far) as f64).collect()).collect();
        if far == 2 { bern_case(c, &rows[..n].to_vec(), &l, k, &rows[n..].to_vec()) } else { mult_case(c, &rows[..n].to_vec(), &l, k, &rows[n..].to_vec()) }
    });
    p.add("lopsided", "classes of 3 to 70000 rows beside each other, 2 features, both distributions", |c| {
        let sizes: &[usize] = c.of(&[&[70000usize, 5][..], &[40, 66000], &[255, 257, 3], &[4, 65536, 65537], &[1000, 10]]);
        let l: Vec<usize> = sizes.iter().enumerate().flat_map(|(k, &n)| std::iter::repeat(k).take(n)).collect();
        let far = c.of(&[2usize, 9]);
        let rows: Rows = (0..l.len() + 4).map(|i| vec![((i * i / 3 + i % 5) % far) as f64, ((i * 5 + i / 7) % far) as f64]).collect();
        let n = l.len();
        if far == 2 { bern_case(c, &rows[..n].to_vec(), &l, sizes.len(), &rows[n..].to_vec()) } else { mult_case(c, &rows[..n].to_vec(), &l, sizes.len(), &rows[n..].to_vec()) }
    });
    p.add("rejects", "target rows without a 1 and unequal numbers of rows and targets, on an untrained and a trained model: an error, the trained model is unchanged", |c| {
        let rows: Rows = vec![vec![0.0, 1.0], vec![1.0, 0.0], vec![1.0, 1.0]];
        let l = [1usize, 0, 1];
        fn go<T: Distribution>(c: &Ch, rows: &Rows, l: &[usize], lik: Ref) -> R {
            let trained = c.bool();
            let case = c.pick(3);
            c.note(format!("trained before: {}, case {}", trained, case));
            let mut m = NaiveBayes::<T>::new();
            let x = from_rows(rows, 2);
            if trained { m.train(&x, &one_hot(l, 2)).map_err(|e| format!("{}", e))?; }
            c.ops(2);
            let r = guard(|| match case {
                0 => m.train(&x, &mat(3, 3, vec![1.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0])),
                1 => m.train(&x, &one_hot(&[0, 1], 2)),
                _ => m.train(&x, &one_hot(&[0, 1, 1, 0], 2)),
            })?;
            ensure!(r.is_err(), "accepted");
            if trained { compare(&m, rows, l, 2, &bits(2), lik) }
            else { let e = err_kind(&guard(|| m.predict(&x))?); ensure!(e == "UntrainedModel", "predict after a rejected first training: {}", e); Ok(()) }
        }
        if c.bool() { go::<Bernoulli>(c, &rows, &l, &bern_lik) } else { go::<Multinomial>(c, &rows, &l, &mult_lik) }
    });
    p
}
