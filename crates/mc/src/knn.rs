//! C14 nearest neighbour search, C15 nearest neighbour classifier.
use crate::util::*;
use mce::*;
use rusty_machine::learning::knn::{BallTree, BruteForce, KDTree, KNNClassifier, KNearestSearch};
use rusty_machine::learning::SupModel;

#[derive(Clone, Copy, Debug, PartialEq)]
enum S { Brute, Kd(usize), Ball(usize), KdDefault, BallDefault }
enum Any { B(BruteForce), K(KDTree), L(BallTree) }
fn make(s: S) -> Any {
    match s {
        S::Brute => Any::B(BruteForce::new()),
        S::Kd(l) => Any::K(KDTree::new(l)),
        S::Ball(l) => Any::L(BallTree::new(l)),
        S::KdDefault => Any::K(KDTree::default()),
        S::BallDefault => Any::L(BallTree::default()),
    }
}
impl Any {
    fn build(&mut self, m: M) { match self { Any::B(x) => x.build(m), Any::K(x) => x.build(m), Any::L(x) => x.build(m) } }
    fn search(&self, p: &[f64], k: usize) -> Result<(Vec<usize>, Vec<f64>), String> {
        match self { Any::B(x) => x.search(p, k), Any::K(x) => x.search(p, k), Any::L(x) => x.search(p, k) }.map_err(|e| format!("{:?}", e.kind()))
    }
}
fn check_search(what: &str, a: &Any, rows: &Rows, q: &[f64], k: usize) -> Result<Vec<usize>, String> {
    let (i, d) = a.search(q, k).map_err(|e| format!("{}: search for {} near {:?} failed with {}", what, k, q, e))?;
    let mut all: Vec<f64> = rows.iter().map(|r| d2(r, q).sqrt()).collect();
    let say = || format!("{}: search for {} near {:?} gave rows {:?} at {:?}", what, k, q, i, d);
    ensure!(i.len() == k.min(rows.len()) && d.len() == i.len(), "{}: wrong number of results for {} rows", say(), rows.len());
    for x in 0..i.len() {
        ensure!(i[x] < rows.len(), "{}: no such row", say());
        ensure!(!i[..x].contains(&i[x]), "{}: row {} twice", say(), i[x]);
        ensure!(close(d[x], all[i[x]], 1e-9), "{}: row {} is at distance {}", say(), i[x], all[i[x]]);
        ensure!(x == 0 || d[x - 1] <= d[x] + 1e-9, "{}: not in order of distance", say());
    }
    all.sort_by(|a, b| a.partial_cmp(b).unwrap());
    for x in 0..i.len() { ensure!(close(d[x], all[x], 1e-9), "{}: the nearest are at {:?}", say(), &all[..i.len()]); }
    Ok(i)
}
fn run(c: &Ch, s: S, rows: &Rows, dims: usize, queries: &[Vec<f64>], ks: &[usize]) -> R {
    c.note(format!("{:?} on {:?}", s, rows));
    let mut a = make(s);
    c.op();
    a.build(from_rows(rows, dims));
    for q in queries { for &k in ks {
        c.op();
        c.saw(&check_search(&format!("{:?}", s), &a, rows, q, k)?);
    } }
    Ok(())
}
const ALL: [S; 11] = [S::Brute, S::Kd(1), S::Kd(2), S::Kd(3), S::Kd(4), S::Kd(0), S::Ball(1), S::Ball(2), S::Ball(3), S::Ball(4), S::BallDefault];

pub fn search() -> Property {
    let mut p = Property::new("C14");
    p.assume("data and queries are finite");
    p.add("line", "every sequence of 1..=6 points (thorough 7) over 4 positions on a line x 11 searchers (brute force, both trees with leaf sizes 0..=4 and default) x 8 queries x every k <= n + 1", |c| {
        let s = c.of(&ALL);
        let n = c.range(1, c.tier(6, 7));
        let rows: Rows = c.vec_of(n, &[0.0, 1.0, 2.0, 5.5]).into_iter().map(|x| vec![x]).collect();
        let q: Rows = [-3.0, 0.0, 0.4, 1.0, 1.6, 3.0, 5.5, 90.0].iter().map(|x| vec![*x]).collect();
        run(c, s, &rows, 1, &q, &(1..=n + 1).collect::<Vec<_>>())
    });
    p.add("plane", "every sequence of 1..=4 points (thorough 5) of a 3x3 uneven grid x 11 searchers x 9 queries x every k <= n", |c| {
        let s = c.of(&ALL);
        let n = c.range(1, c.tier(4, 5));
        let mut rows: Rows = vec![];
        for _ in 0..n { let i = c.pick(9); rows.push(vec![[0.0, 1.0, 4.0][i % 3], [-2.0, 0.5, 1.0][i / 3]]); }
        let mut q: Rows = vec![];
        for x in [-1.0, 0.9, 3.0] { for y in [-3.0, 0.6, 2.5] { q.push(vec![x, y]); } }
        run(c, s, &rows, 2, &q, &(1..=n).collect::<Vec<_>>())
    });
    p.add("scales", "4 points over {-1e6, 0, 1e-6, 3, 1e6} on a line: exactness at mixed magnitudes", |c| {
        let s = c.of(&ALL);
        let n = c.range(1, c.tier(4, 5));
        let rows: Rows = c.vec_of(n, &[-1e6, 0.0, 1e-6, 3.0, 1e6]).into_iter().map(|x| vec![x]).collect();
        let q: Rows = [-2e6, -1.0, 0.0, 5e-7, 2.0, 5e5, 3e6].iter().map(|x| vec![*x]).collect();
        run(c, s, &rows, 1, &q, &(1..=n).collect::<Vec<_>>())
    });
    p.add("neighbouring-floats", "3 points that differ in the last bit or not at all, offset 0, 1, 1e16: building ends, search is exact", |c| {
        let s = c.of(&ALL);
        let base = c.of(&[0.0f64, 1.0, 1e16, -7.25]);
        let up = f64::from_bits(base.abs().to_bits() + 1) * if base < 0.0 { -1.0 } else { 1.0 };
        let mut rows: Rows = vec![];
        for _ in 0..3 { let i = c.pick(6); rows.push(vec![if i % 2 == 0 { base } else { up }, [0.0, 1.0, -5.0][i / 2]]); }
        run(c, s, &rows, 2, &[vec![base, 0.0], vec![base, 2.0], vec![0.5, -1.0]], &[1, 2, 3])
    });
    p.add("patterns", "patterned sets of up to 130 (thorough 400) points with few or many repetitions in 1..=4 dimensions, leaf sizes 1..=33 and default, k up to 12, 6 queries", |c| {
        let s = c.of(&[S::Brute, S::Kd(1), S::Kd(2), S::Kd(5), S::Kd(10), S::Kd(33), S::KdDefault, S::Ball(1), S::Ball(2), S::Ball(5), S::Ball(10), S::Ball(33), S::BallDefault]);
        let n = c.of(&if c.thorough() { (1..=400).collect::<Vec<usize>>() } else { vec![1, 2, 5, 12, 13, 29, 30, 31, 32, 33, 34, 45, 59, 60, 61, 64, 65, 90, 99, 100, 128, 130] });
        let dims = c.range(1, 4);
        let pat = c.pick(5);
        let rows: Rows = (0..n).map(|i| (0..dims).map(|j| match pat {
            0 => ((i * (j + 3) * 7 + j) % 23) as f64 - 9.0,
            1 => ((i + j) % 3) as f64,
            2 => 4.0,
            3 => if i % 10 == 0 { (i * (j + 1)) as f64 } else { 1.5 },
            _ => ((i * i * 31 + j * 17 + i * 7) % 101) as f64 * 0.37 - 5.0,
        }).collect()).collect();
        let qs: Rows = [-20.0, 0.0, 1.2, 4.0, 11.0, 200.0].iter().enumerate().map(|(a, x)| (0..dims).map(|j| x * if (a + j) % 3 == 2 { 0.5 } else { 1.0 }).collect()).collect();
        let ks: Vec<usize> = [1usize, 2, 3, 5, 7, 12].iter().cloned().filter(|k| *k <= n).collect();
        run(c, s, &rows, dims, &qs, &ks)
    });
    p.add("many", "patterned sets of up to 300 points in 1 to 17 dimensions, k = 1, n / 2, n - 1, n, more than n, queries on rows, between and far away", |c| {
        let s = c.of(&[S::Brute, S::Kd(1), S::Kd(5), S::KdDefault, S::Ball(1), S::Ball(5), S::BallDefault]);
        let n = c.of(&[2usize, 9, 16, 33, 64, 65, 129, 300]);
        let dims = c.of(&[1usize, 2, 5, 8, 9, 17]);
        let pat = c.pick(2);
        let rows: Rows = (0..n).map(|i| (0..dims).map(|j| if pat == 0 { ((i * (j + 3) * 7 + j) % 23) as f64 - 9.0 } else { ((i * i * 31 + j * 17 + i * 7 * (j + 1)) % 101) as f64 * 0.37 - 5.0 }).collect()).collect();
        let mid: Vec<f64> = (0..dims).map(|j| (rows[0][j] + rows[n - 1][j]) / 2.0).collect();
        run(c, s, &rows, dims, &[rows[n / 3].clone(), mid, vec![1e3; dims], vec![0.1; dims]], &[1, n / 2, n - 1, n, n + 5].iter().cloned().filter(|k| *k > 0).collect::<Vec<_>>())
    });
    p.add("vast", "patterned sets of 1000 to 5000 points and of up to 130 dimensions, k from 1 to more than n: the same", |c| {
        let s = c.of(&[S::Brute, S::Kd(3), S::KdDefault, S::Ball(3), S::BallDefault]);
        let (n, dims) = c.of(&[(1000usize, 3usize), (1025, 2), (3000, 1), (5000, 2), (400, 64), (150, 130)]);
        let pat = c.pick(2);
        let rows: Rows = (0..n).map(|i| (0..dims).map(|j| if pat == 0 { ((i * (j + 3) * 7 + j) % 23) as f64 - 9.0 } else { ((i * i * 31 + j * 17 + i * 7 * (j + 1)) % 1009) as f64 * 0.37 - 5.0 }).collect()).collect();
        let mid: Vec<f64> = (0..dims).map(|j| (rows[0][j] + rows[n - 1][j]) / 2.0).collect();
        run(c, s, &rows, dims, &[rows[n / 3].clone(), mid, vec![1e3; dims]], &[1, 40, 257, n, n + 5])
    });
    p.add("units", "scattered points (6 to 500, 1 to 3 dimensions) measured in 9 units from 1e-12 to 1e12 and moved by up to 3 units of the set, 30 queries within and around the set, k from 1 to n: the same in every unit", |c| {
        let s = c.of(&[S::Brute, S::Kd(1), S::Kd(4), S::KdDefault, S::Ball(1), S::Ball(4), S::BallDefault]);
        let n = c.of(&[6usize, 40, 130, 500]);
        let dims = c.range(1, 3);
        let u = c.of(&[1e-12, 1e-8, 1e-5, 1e-3, 0.03, 1.0, 1e3, 1e6, 1e12]);
        let off = c.of(&[0.0, 3.0, -1.0]);
        let at = |i: usize, j: usize| ((i + 1) as f64 * [0.6180339887, 0.7548776662, 0.5698402910][j] + if i % 4 == 0 { 0.37 } else { 0.0 } * j as f64).fract();
        let rows: Rows = (0..n).map(|i| (0..dims).map(|j| at(i, j) + off).collect()).collect();
        let scale = |r: &[f64]| -> Vec<f64> { r.iter().map(|x| x * u).collect() };
        let mut a = make(s);
        a.build(from_rows(&rows.iter().map(|r| scale(r)).collect::<Rows>(), dims));
        c.note(format!("{:?} on {} points, {} dimensions, unit {}, offset {}", s, n, dims, u, off));
        for q in 0..30 {
            let q: Vec<f64> = (0..dims).map(|j| if q % 10 == 9 { 2.5 * at(q * 7 + 3, j) - 1.0 } else { at(q * 7 + 3, 2 - j) } + off).collect();
            let mut all: Vec<(f64, usize)> = rows.iter().enumerate().map(|(i, r)| (d2(r, &q).sqrt(), i)).collect();
            all.sort_by(|a, b| a.partial_cmp(b).unwrap());
            for &k in &[1usize, 2, 5, n / 2, n] {
                c.op();
                let (i, d) = a.search(&scale(&q), k).map_err(|e| format!("search for {} near {:?} failed with {}", k, q, e))?;
                ensure!(i.len() == k.min(n) && d.len() == i.len(), "{} results for {} of {}", i.len(), k, n);
                for x in 0..i.len() {
                    ensure!(i[x] < n && !i[..x].contains(&i[x]), "rows {:?}", i);
                    let own = d2(&rows[i[x]], &q).sqrt();
                    ensure!((d[x] / u - own).abs() <= 1e-9 && (own - all[x].0).abs() <= 1e-9, "search for {} near {:?} (unit {}) gave rows {:?} at {:?}, the nearest are {:?}", k, q, u, i, d, &all[..i.len()]);
                }
                c.saw(&i);
            }
        }
        Ok(())
    });
    p.add("rebuilt", "a searcher built on one set and rebuilt on another (1..=3 points each) answers for the second only; before any build it reports an error", |c| {
        let s = c.of(&ALL);
        let mut a = make(s);
        ensure!(a.search(&[0.0], 1) == Err("UntrainedModel".into()), "{:?}: search before build gave {:?}", s, a.search(&[0.0], 1));
        let (n1, n2) = (c.range(1, 3), c.range(1, 3));
        let r1: Rows = c.vec_of(n1, &[0.0, 1.0, 7.0]).into_iter().map(|x| vec![x]).collect();
        let r2: Rows = c.vec_of(n2, &[0.5, 2.0, -4.0]).into_iter().map(|x| vec![x]).collect();
        c.ops(3);
        a.build(from_rows(&r1, 1));
        check_search("first", &a, &r1, &[0.8], 1)?;
        a.build(from_rows(&r2, 1));
        for q in [-9.0, 0.0, 1.0, 3.0] { for k in 1..=n2 { c.op(); check_search(&format!("{:?} rebuilt from {:?} on {:?}", s, r1, r2), &a, &r2, &[q], k)?; } }
        Ok(())
    });
    p.add("rebuilt-similar", "a searcher built on 4, 6, 12 or 40 (thorough 130) points and then on one of 9 variations of them (any one cell moved, two rows or all inner ones exchanged, reversed, one row repeated, negated, sorted, the first or last row dropped), in 1 to 3 dimensions: answers for the second only, near each of its rows and far away", |c| {
        let s = c.of(&[S::Brute, S::Kd(1), S::Kd(3), S::KdDefault, S::Ball(1), S::Ball(3), S::BallDefault]);
        let n = c.of(&[4usize, 6, 12, c.tier(40, 130)]);
        let dims = c.range(1, 3);
        let pat = c.pick(2);
        let a: Rows = (0..n).map(|i| (0..dims).map(|j| if pat == 0 { i as f64 * 1.25 - j as f64 } else { ((i * i * 31 + j * 17 + i * 7 * (j + 1)) % 101) as f64 * 0.37 - 5.0 }).collect()).collect();
        let mut b = a.clone();
        match c.pick(9) {
            0 => { let at = c.pick(n.min(12)); let at = if n <= 12 { at } else { at * n / 12 }; let j = c.pick(dims); b[at][j] += c.of(&[0.4, -3.0, 500.0]); }
            1 => { let at = c.pick(n.min(12) - 1); b.swap(at, n - 1 - at / 2); }
            2 => b[1..n - 1].reverse(),
            3 => b.reverse(),
            4 => { let (f, t) = (c.of(&[0, n / 2, n - 1]), c.of(&[0, 1, n / 2, n - 2, n - 1])); b[t] = a[f].clone(); }
            5 => for r in b[1..n - 1].iter_mut() { for x in r.iter_mut() { *x = -*x; } },
            6 => { b.sort_by(|x, y| y.partial_cmp(x).unwrap()); b[0] = a[0].clone(); b[n - 1] = a[n - 1].clone(); }
            7 => { b.remove(0); }
            _ => { b.pop(); }
        }
        let mut t = make(s);
        c.note(format!("{:?} built on {:?} then {:?}", s, a, b));
        t.build(from_rows(&a, dims));
        check_search("first", &t, &a, &a[n / 2], n)?;
        t.build(from_rows(&b, dims));
        c.ops(2 + b.len() as u64 * 2);
        for (i, r) in b.iter().enumerate() {
            if n > 40 && i % 7 > 1 { continue; }
            let q: Vec<f64> = r.iter().map(|x| x + 0.1).collect();
            for k in [1, 3] { c.saw(&check_search("rebuilt", &t, &b, &q, k)?); }
        }
        for q in [vec![-400.0; dims], vec![400.0; dims]] { check_search("rebuilt", &t, &b, &q, 2)?; check_search("rebuilt", &t, &b, &q, b.len())?; }
        Ok(())
    });
    p.add("bad-requests", "k = 0 and query points of another dimension: an error, never a panic or a result", |c| {
        let s = c.of(&ALL);
        let n = c.range(1, 4);
        let dims = c.range(1, 3);
        let mut a = make(s);
        let rows: Rows = (0..n).map(|i| (0..dims).map(|j| (i * (j + 1)) as f64).collect()).collect();
        a.build(from_rows(&rows, dims));
        let k = c.range(0, 2);
        let q = vec![0.5; c.range(0, 4)];
        if k > 0 && q.len() == dims { return Ok(()); }
        c.note(format!("{:?} {:?} query {:?} k {}", s, rows, q, k));
        c.key(if k == 0 { "k-zero" } else { "query-dimension" });
        c.op();
        let r = guard(|| a.search(&q, k))?;
        ensure!(r.is_err(), "{:?} on {} columns: search for {} near {:?} gave {:?}", s, dims, k, q, r);
        Ok(())
    });
    p
}

/// Labels that are most frequent in some choice of the k nearest.
fn allowed(rows: &Rows, labels: &[usize], q: &[f64], k: usize) -> Vec<usize> {
    let ds: Vec<f64> = rows.iter().map(|r| d2(r, q).sqrt()).collect();
    let mut s = ds.clone();
    s.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let kth = s[k - 1];
    let sure: Vec<usize> = (0..rows.len()).filter(|&i| ds[i] < kth && !close(ds[i], kth, 1e-9)).collect();
    let tied: Vec<usize> = (0..rows.len()).filter(|&i| close(ds[i], kth, 1e-9)).collect();
    let mut out = vec![];
    for pickd in subsets(tied.len(), k - sure.len()) {
        let mut cnt = std::collections::BTreeMap::new();
        for &i in sure.iter().chain(pickd.iter().map(|x| &tied[*x])) { *cnt.entry(labels[i]).or_insert(0) += 1; }
        let m = *cnt.values().max().unwrap();
        out.extend(cnt.iter().filter(|x| *x.1 == m).map(|x| *x.0));
    }
    out.sort();
    out.dedup();
    out
}
fn classify<T: KNearestSearch>(c: &Ch, mut m: KNNClassifier<T>, k: usize, rows: &Rows, labels: &[usize], qs: &Rows) -> R {
    let dims = rows[0].len();
    c.ops(1 + qs.len() as u64);
    let tr = m.train(&from_rows(rows, dims), &Vector::new(labels.to_vec()));
    if k > rows.len() {
        ensure!(tr.is_err() && err_kind(&tr) == "InvalidData", "{} rows accepted for k = {}: {}", rows.len(), k, err_kind(&tr));
        return Ok(());
    }
    tr.map_err(|e| format!("train failed: {}", e))?;
    let out = m.predict(&from_rows(qs, dims)).map_err(|e| format!("predict failed: {}", e))?;
    ensure!(out.size() == qs.len(), "{} labels for {} inputs", out.size(), qs.len());
    c.saw(out.data());
    for (q, &l) in qs.iter().zip(out.data()) {
        let al = allowed(rows, labels, q, k);
        ensure!(al.contains(&l), "k = {}, data {:?} labelled {:?}: {:?} is classified {}, the most frequent of the nearest are {:?}", k, rows, labels, q, l, al);
    }
    Ok(())
}
pub fn classifier() -> Property {
    let mut p = Property::new("C15");
    p.add("line", "every sequence of 1..=5 points over 3 positions x every labelling over {3, 0, 7} x every k <= n + 1 x 4 searchers x 5 queries at once: the label is a most frequent one among the k nearest", |c| {
        let n = c.range(1, c.tier(4, 5));
        let rows: Rows = c.vec_of(n, &[0.0, 1.0, 2.5]).into_iter().map(|x| vec![x]).collect();
        let l = c.vec_of(n, &[3usize, 0, 7]);
        let k = c.range(1, n + 1);
        let qs: Rows = [-1.0, 0.2, 0.9, 1.75, 6.0].iter().map(|x| vec![*x]).collect();
        c.note(format!("{:?} {:?} k {}", rows, l, k));
        match c.pick(4) {
            0 => classify(c, KNNClassifier::new(k), k, &rows, &l, &qs),
            1 => classify(c, KNNClassifier::new_specified(k, KDTree::new(2)), k, &rows, &l, &qs),
            2 => classify(c, KNNClassifier::new_specified(k, BallTree::new(2)), k, &rows, &l, &qs),
            _ => classify(c, KNNClassifier::new_specified(k, BruteForce::new()), k, &rows, &l, &qs),
        }
    });
    p.add("labels", "every labelling of 1..=5 rows by three labels that differ in a single bit (bit 0 to 63), or by the largest values there are: the label is a most frequent one among the k nearest", |c| {
        let bits = c.of(&[(0usize, 1usize), (7, 8), (8, 9), (15, 16), (16, 8), (31, 32), (32, 16), (32, 33), (48, 32), (52, 53), (53, 54), (62, 63), (63, 32), (64, 64)]);
        let low = c.of(&[0usize, 1, 255]);
        let labels = if bits.0 == 64 { [usize::max_value(), usize::max_value() - 1, low] } else { [low ^ (1 << bits.0), low, low ^ (1 << bits.1)] };
        let n = c.range(1, c.tier(4, 5));
        let rows: Rows = (0..n).map(|i| vec![i as f64]).collect();
        let l = c.vec_of(n, &labels);
        let k = c.range(1, n);
        let qs: Rows = [-1.0, 1.7, 8.0].iter().map(|x| vec![*x]).collect();
        c.note(format!("{:?} {:?} k {}", rows, l, k));
        if c.bool() { classify(c, KNNClassifier::new(k), k, &rows, &l, &qs) } else { classify(c, KNNClassifier::new_specified(k, BruteForce::new()), k, &rows, &l, &qs) }
    });
    p.add("patterns", "patterned sets of 5..=60 points in 2 dimensions, k in {1, 2, 3, 5, default 5, 8}", |c| {
        let n = c.range(8, 60);
        let rows: Rows = (0..n).map(|i| vec![((i * 7) % 13) as f64 + 0.01 * i as f64, ((i * 5) % 11) as f64 - 0.003 * (i * i) as f64]).collect();
        let l: Vec<usize> = (0..n).map(|i| (i * i / 3) % 4).collect();
        let qs: Rows = (0..8).map(|i| vec![i as f64 * 2.0 - 1.0, ((i * 3) % 7) as f64]).collect();
        let k = c.of(&[1usize, 2, 3, 5, 8, 0]);
        match c.pick(3) {
            _ if k == 0 => classify(c, KNNClassifier::default(), 5, &rows, &l, &qs),
            0 => classify(c, KNNClassifier::new_specified(k, KDTree::new(4)), k, &rows, &l, &qs),
            1 => classify(c, KNNClassifier::new_specified(k, BallTree::new(4)), k, &rows, &l, &qs),
            _ => classify(c, KNNClassifier::new_specified(k, BruteForce::new()), k, &rows, &l, &qs),
        }
    });
    p.add("votes", "20 to 300 rows with repeated positions, 2 to 40 labels up to 10^18, k up to n: the same", |c| {
        let n = c.of(&[20usize, 33, 64, 65, 100, 129, 257, 300]);
        let labs = c.of(&[2usize, 3, 7, 20, 40]);
        let mul = c.of(&[1usize, 1000, 100_000_000_000_000_000]);
        let rows: Rows = (0..n).map(|i| vec![((i * 7) % 13) as f64 + 0.01 * (i / 3) as f64]).collect();
        let l: Vec<usize> = (0..n).map(|i| ((i * i / 3 + i / 7) % labs) * mul).collect();
        let k = c.of(&[1usize, 9, 16, 20, 33, n / 2, n - 1, n]);
        if k > n { return Ok(()); }
        let mut qs: Rows = vec![];
        // no ties among the distances
        for x in [-1.03, 3.517, 5.0021, 40.0] { if !rows.iter().any(|a| rows.iter().any(|b| a != b && ((a[0] - x).abs() - (b[0] - x).abs()).abs() < 1e-7)) { qs.push(vec![x]); } }
        if c.bool() { classify(c, KNNClassifier::new(k), k, &rows, &l, &qs) } else { classify(c, KNNClassifier::new_specified(k, BallTree::new(3)), k, &rows, &l, &qs) }
    });
    p.add("vast", "1000 to 5000 rows, 40 to 1000 labels, k to 1025: the same", |c| {
        let (n, labs) = c.of(&[(1000usize, 300usize), (1500, 1000), (5000, 40)]);
        let rows: Rows = (0..n).map(|i| vec![((i * 7) % 113) as f64 + 0.001 * (i / 3) as f64]).collect();
        let l: Vec<usize> = (0..n).map(|i| (i * i / 3 + i / 7) % labs + 3).collect();
        let k = c.of(&[1usize, 65, 300, 1000, 1025]);
        if k > n { return Ok(()); }
        let mut qs: Rows = vec![];
        for x in [-1.03f64, 31.51731, 5.00021, 140.0] { let mut d: Vec<f64> = rows.iter().map(|r| (r[0] - x).abs()).collect(); d.sort_by(|a, b| a.partial_cmp(b).unwrap()); if k == n || d[k] - d[k - 1] > 1e-9 { qs.push(vec![x]); } }
        if c.bool() { classify(c, KNNClassifier::new(k), k, &rows, &l, &qs) } else { classify(c, KNNClassifier::new_specified(k, BallTree::new(3)), k, &rows, &l, &qs) }
    });
    p.add("landslides", "one label with 100, 255 to 258 or 65536 of the k = n neighbours and another with 1 to 300: the former", |c| {
        let many = c.of(&[100usize, 255, 256, 257, 258, 512, 65536]);
        let few = c.of(&[1usize, 3, 99, 200, 254, 300]);
        if few >= many { return Ok(()); }
        let n = many + few;
        let first = c.bool();
        let winner = c.of(&[0usize, 1]);
        let rows: Rows = (0..n).map(|i| vec![i as f64]).collect();
        let l: Vec<usize> = (0..n).map(|i| if (i < few) == first { 1 - winner } else { winner }).collect();
        let l: Vec<usize> = if first { l } else { (0..n).map(|i| if i < many { winner } else { 1 - winner }).collect() };
        c.note(format!("{} rows labelled {}, {} labelled {}", many, winner, few, 1 - winner));
        c.ops(2);
        let mut m = KNNClassifier::new_specified(n, BruteForce::new());
        m.train(&from_rows(&rows, 1), &Vector::new(l)).map_err(|e| format!("{}", e))?;
        let o = m.predict(&from_rows(&vec![vec![-1.0], vec![n as f64 * 0.5 + 0.25]], 1)).map_err(|e| format!("{}", e))?;
        c.saw(&(many, few, o.data().clone()));
        ensure!(o.data().iter().all(|v| *v == winner), "{} of {} neighbours have label {}, predicted {:?}", many, n, winner, o.data());
        Ok(())
    });
    p.add("histories", "every sequence of up to 4 (thorough 5) trainings on five small sets (same rows with other labels, same labels with other rows, fewer, more, too few rows), by all searchers, each followed by predictions: those of the last successful training", |c| {
        let sets: [(Rows, Vec<usize>); 5] = [
            (vec![vec![0.0], vec![1.0], vec![5.0]], vec![1, 1, 2]),
            (vec![vec![0.0], vec![1.0], vec![5.0]], vec![3, 3, 0]),
            (vec![vec![6.0], vec![4.5], vec![1.0]], vec![1, 1, 2]),
            (vec![vec![0.5], vec![2.0]], vec![9, 9]),
            (vec![vec![0.5]], vec![4]),
        ];
        fn go<S: KNearestSearch>(c: &Ch, mut m: KNNClassifier<S>, sets: &[(Rows, Vec<usize>)]) -> R {
            let mut last: Option<usize> = None;
            for _ in 0..c.range(1, c.tier(4, 5)) {
                let i = c.pick(sets.len());
                c.ops(2);
                c.note(format!("train({})", i));
                let r = m.train(&from_rows(&sets[i].0, 1), &Vector::new(sets[i].1.clone()));
                ensure!(r.is_ok() == (sets[i].0.len() >= 2), "train on {} rows with k = 2: {}", sets[i].0.len(), err_kind(&r));
                if r.is_ok() { last = Some(i); }
                if let Some(i) = last {
                    let q = vec![vec![0.7], vec![5.5], vec![3.1]];
                    let p = m.predict(&from_rows(&q, 1)).map_err(|e| format!("{}", e))?;
                    for (q, l) in q.iter().zip(p.data()) { let al = allowed(&sets[i].0, &sets[i].1, q, 2); ensure!(al.contains(l), "after the last training on {:?} the class near {:?} is {}", sets[i], q, l); }
                }
            }
            Ok(())
        }
        match c.pick(3) {
            0 => go(c, KNNClassifier::new_specified(2, KDTree::default()), &sets),
            1 => go(c, KNNClassifier::new_specified(2, BallTree::new(1)), &sets),
            _ => go(c, KNNClassifier::new_specified(2, BruteForce::new()), &sets),
        }
    });
    p.add("rejects", "untrained use, unequal numbers of rows and labels, k = 0, inputs with another number of columns: an error, never a panic or a result; a failed train leaves the trained state usable", |c| {
        let k = c.range(0, 3);
        let (n, l) = (c.range(1, 4), c.range(0, 4));
        let cols = c.range(1, 3);
        let mut m = KNNClassifier::new(k);
        let q = mat(1, cols, vec![0.5; cols]);
        c.ops(3);
        c.note(format!("k {} rows {} labels {} query columns {}", k, n, l, cols));
        let u = m.predict(&q);
        ensure!(err_kind(&u) == "UntrainedModel", "predict before train: {}", err_kind(&u));
        c.key(if k == 0 { "k-zero" } else if cols != 2 { "query-dimension" } else { "rejects" });
        let tr = guard(|| m.train(&mat(n, 2, (0..2 * n).map(|x| x as f64).collect()), &Vector::new(vec![1usize; l])))?;
        if n != l || n < k { ensure!(tr.is_err(), "accepted"); }
        let pr = guard(|| m.predict(&q))?;
        if tr.is_err() { ensure!(err_kind(&pr) == "UntrainedModel", "predict after a rejected train: {}", err_kind(&pr)); }
        else if k == 0 || cols != 2 { ensure!(pr.is_err(), "gave {:?}", pr.map(|v| v.into_vec())); }
        else { ensure!(pr.map_err(|e| format!("{}", e))?.data() == &vec![1usize], "wrong label"); }
        Ok(())
    });
    p
}
