//! C16 k-means, C17 DBSCAN.
use crate::util::*;
use mce::*;
use rusty_machine::learning::dbscan::DBSCAN;
use rusty_machine::learning::k_means::{Forgy, Initializer, KMeansClassifier, KPlusPlus, RandomPartition};
use rusty_machine::learning::{LearningResult, UnSupModel};

#[derive(Debug)]
struct Fixed(M);
impl Initializer for Fixed {
    fn init_centroids(&self, _: usize, _: &M) -> LearningResult<M> { Ok(self.0.clone()) }
}

/// Indices of all nearest centroids of a point.
fn nearest(cs: &Rows, p: &[f64]) -> Vec<usize> {
    let d: Vec<f64> = cs.iter().map(|x| d2(x, p)).collect();
    let m = d.iter().cloned().fold(f64::INFINITY, f64::min);
    (0..cs.len()).filter(|&i| close(d[i], m, 1e-9)).collect()
}
fn mean_of(rows: &[&Vec<f64>]) -> Vec<f64> {
    (0..rows[0].len()).map(|j| rows.iter().map(|r| r[j]).sum::<f64>() / rows.len() as f64).collect()
}
/// Is `next` the result of one Lloyd step from `cur`, for some way to break ties?
fn lloyd_step(data: &Rows, cur: &Rows, next: &Rows) -> bool {
    let opts: Vec<Vec<usize>> = data.iter().map(|p| nearest(cur, p)).collect();
    let n: usize = opts.iter().map(|o| o.len()).product();
    (0..n).any(|mut code| {
        let asg: Vec<usize> = opts.iter().map(|o| { let v = o[code % o.len()]; code /= o.len(); v }).collect();
        (0..cur.len()).all(|c| {
            let m: Vec<&Vec<f64>> = (0..data.len()).filter(|&i| asg[i] == c).map(|i| &data[i]).collect();
            let want = if m.is_empty() { cur[c].clone() } else { mean_of(&m) };
            want.iter().zip(&next[c]).zip(&data[0]).all(|((w, x), z)| (w - x).abs() <= 1e-9 * (1.0 + (w - z).abs()) + 2e-15 * data.len() as f64 * w.abs())
        })
    })
}
fn cost(data: &Rows, cs: &Rows) -> f64 { data.iter().map(|p| cs.iter().map(|c| d2(c, p)).fold(f64::INFINITY, f64::min)).sum() }

/// Train with 0, 1, 2, ... iterations from fixed initial centroids and compare step by step.
fn lloyd_case(c: &Ch, data: &Rows, init: &Rows, steps: usize) -> R {
    let cols = data[0].len();
    let x = from_rows(data, cols);
    let mut prev: Option<Rows> = None;
    for t in (0..=steps).chain([100]) {
        c.op();
        let mut m = KMeansClassifier::new_specified(init.len(), if t % 2 == 0 { t } else { 57 }, Fixed(from_rows(init, cols)));
        if t % 2 == 1 { m.set_iters(t); }
        ensure!(m.iters() == t && m.k() == init.len(), "{} iterations and {} classes instead of {} and {}", m.iters(), m.k(), t, init.len());
        m.train(&x).map_err(|e| format!("training failed: {}", e))?;
        let cs = match *m.centroids() { Some(ref z) => { shape_is(z, init.len(), cols, "centroids")?; to_rows(z) } None => return Err("no centroids after training".into()) };
        c.saw_f(&cs.concat());
        ensure!(finite(&cs.concat()), "{} iterations on {:?} from {:?}: centroids {:?}", t, data, init, cs);
        match prev {
            None => ensure!(cs == *init, "no iterations: centroids {:?} instead of the initial {:?}", cs, init),
            Some(ref p) => {
                ensure!(cost(data, &cs) <= cost(data, p) + 1e-9 * (1.0 + cost(data, p)), "iteration {}: the cost rises from {} to {}", t, cost(data, p), cost(data, &cs));
                if t != 100 { ensure!(lloyd_step(data, p, &cs), "iteration {} on {:?}: {:?} became {:?}, which is no assign-and-average step", t, data, p, cs); }
                else { ensure!(steps < 6 || lloyd_step(data, &cs, &cs), "after up to 100 iterations on {:?} from {:?}: {:?} is no fixed point", data, init, cs); }
            }
        }
        let mut probes = data.clone();
        for q in [-7.0, 0.3, 1.1, 4.0] { probes.push((0..cols).map(|j| q + j as f64 * 0.7).collect()); }
        let pr = m.predict(&from_rows(&probes, cols)).map_err(|e| format!("predict failed: {}", e))?;
        ensure!(pr.size() == probes.len(), "{} classes for {} inputs", pr.size(), probes.len());
        for (p, k) in probes.iter().zip(pr.data()) { ensure!(nearest(&cs, p).contains(k), "{:?} is put in class {} of {:?}", p, k, cs); }
        prev = Some(cs);
    }
    Ok(())
}

pub fn kmeans() -> Property {
    let mut p = Property::new("C16");
    p.assume("data of moderate magnitude (the stopping rule compares costs absolutely)");
    p.add("lloyd-line", "every 1..=4 (thorough 5) points over 5 positions on a line, every 1..=3 initial centroids out of 4 positions (also equal or far away, so that classes are empty): training for 0, 1, .. 4 iterations is the corresponding number of assign-and-average steps for some breaking of ties; empty classes keep their centroid, cost never rises, predictions are nearest", |c| {
        let n = c.range(1, c.tier(4, 5));
        let k = c.range(1, n.min(3));
        let data: Rows = c.vec_of(n, &[0.0, 1.0, 2.0, 3.5, 9.0]).into_iter().map(|x| vec![x]).collect();
        let init: Rows = c.vec_of(k, &[0.0, 1.0, 5.0, -20.0]).into_iter().map(|x| vec![x]).collect();
        lloyd_case(c, &data, &init, c.tier(3, 4))
    });
    p.add("lloyd-plane", "every 2..=4 points of a 3x2 grid with 2 initial centroids chosen among 4: the same", |c| {
        let n = c.range(2, 4);
        let pt = |i: usize| vec![[0.0, 1.0, 4.0][i % 3], [-1.0, 2.5][i / 3]];
        let data: Rows = (0..n).map(|_| pt(c.pick(6))).collect();
        let init: Rows = (0..2).map(|_| pt(c.pick(4))).collect();
        lloyd_case(c, &data, &init, 4)
    });
    p.add("sizes", "patterned data of 5..=60 (thorough 200) rows in 1..=4 dimensions, 1..=6 classes, 10 iterations: the same, and the 100-iteration result is a fixed point", |c| {
        let n = c.range(7, c.tier(60, 200));
        let dims = c.range(1, 4);
        let k = c.range(1, 6);
        let data: Rows = (0..n).map(|i| (0..dims).map(|j| ((i * (7 + j) + j * j) % 29) as f64 + 0.013 * i as f64 + 0.001 * (i * i % 7) as f64 * j as f64).collect()).collect();
        let init: Rows = (0..k).map(|a| data[(a * n) / k].clone()).collect();
        lloyd_case(c, &data, &init, 10)
    });
    p.add("vast", "patterned data of 300 to 5000 rows, up to 70 dimensions, up to 40 classes, 3 iterations: the same", |c| {
        let (n, dims, k) = c.of(&[(300usize, 2usize, 40usize), (1000, 3, 17), (1025, 1, 5), (5000, 2, 4), (260, 70, 9), (130, 33, 33)]);
        let data: Rows = (0..n).map(|i| (0..dims).map(|j| ((i * (7 + j) + j * j) % 29) as f64 + 0.013 * i as f64 + 0.001 * (i * i % 7) as f64 * j as f64).collect()).collect();
        let init: Rows = (0..k).map(|a| data[(a * n) / k].clone()).collect();
        lloyd_case(c, &data, &init, 3)
    });
    p.add("far", "patterned data of 5..=12 rows in 1..=3 dimensions, moved by -1e3 to 1e9 or scaled by 1e-3 to 1e6, 1..=4 classes: the same", |c| {
        let n = c.range(5, c.tier(12, 40));
        let dims = c.range(1, 3);
        let k = c.range(1, 4);
        let (off, sc) = c.of(&[(-1e3, 1.0), (1e6, 1.0), (-1e8, 1.0), (1e9, 1.0), (0.0, 1e3), (1e7, 1e3), (0.0, 1e6), (0.0, 1e-3), (0.02, 1e-2)]);
        let data: Rows = (0..n).map(|i| (0..dims).map(|j| off + sc * (((i * (7 + j) + j * j) % 11) as f64 + 0.125 * i as f64)).collect()).collect();
        let init: Rows = (0..k).map(|a| data[(a * n) / k].clone()).collect();
        lloyd_case(c, &data, &init, 4)
    });
    p.add("forgy", "n <= 4 (thorough 5) distinct rows, every k, every random outcome of up to k + 3 draws: k distinct rows, every choice of rows equally likely", |c| {
        let n = c.range(1, c.tier(4, 5));
        let k = c.range(1, n);
        let data: Rows = (0..n).map(|i| vec![i as f64, 10.0 * (i * i) as f64]).collect();
        let x = from_rows(&data, 2);
        let d = c.distribution_fuel(Some((k + 3).max(n) as u64), || Forgy.init_centroids(k, &x).map(|m| to_rows(&m)).map_err(|e| format!("{}", e)));
        let mut w = std::collections::BTreeMap::new();
        let exact = d.iter().all(|x| x.2);
        for (r, pr, _) in d {
            let r = r?;
            let mut id: Vec<usize> = r.iter().filter_map(|a| data.iter().position(|b| a == b)).collect();
            ensure!(id.len() == k && r.len() == k, "{} initial centroids of {:?} are {:?}", k, data, r);
            id.sort();
            id.dedup();
            ensure!(id.len() == k, "a row is chosen twice: {:?}", r);
            c.saw(&id);
            *w.entry(id).or_insert(0.0) += pr;
        }
        if exact {
            let t: f64 = w.values().sum();
            let all = subsets(n, k).len();
            ensure!(w.len() == all, "only {} of {} choices are reachable", w.len(), all);
            for (id, pr) in &w { ensure!((pr / t - 1.0 / all as f64).abs() < 1e-9, "rows {:?} have probability {} instead of 1/{}", id, pr / t, all); }
        }
        Ok(())
    });
    p.add("slow", "points along a line with all initial centroids at one end, so that hundreds of iterations are needed (8 to 24 classes; also with a far pair that makes up nearly all of the cost): around 15 numbers of iterations up to 200 (thorough 300) one iteration more is one assign-and-average step more", |c| {
        let (n, k) = c.of(&[(200usize, 8usize), (600, 16), (1000, 20), (600, 24)]);
        let t = c.of(&[28usize, 29, 30, 31, 48, 49, 50, 62, 63, 64, 98, 99, 100, 127, 128, 149, 150, 199, 200, 255, 256, 299]);
        let heavy = c.of(&[0.0, 1e3, 1e4]);
        if !c.thorough() && (t > 200 || (n == 1000 && t % 5 != 0) || (heavy > 0.0 && t % 10 != 0)) { return Ok(()); }
        let mut data: Rows = (0..n).map(|i| vec![i as f64 + 0.3 * ((i * 7919 % 101) as f64 / 101.0 - 0.5)]).collect();
        let mut first = data[..k].to_vec();
        // a pair far away with a centroid of its own, which makes up nearly all of the cost
        if heavy > 0.0 { data.push(vec![1e7 - heavy]); data.push(vec![1e7 + heavy]); first.push(vec![1e7]); }
        let k = first.len();
        let x = from_rows(&data, 1);
        let init = from_rows(&first, 1);
        let run = |t: usize| -> Result<Rows, String> {
            c.ops(t as u64);
            let mut m = KMeansClassifier::new_specified(k, t, Fixed(init.clone()));
            m.train(&x).map_err(|e| format!("training failed: {}", e))?;
            Ok(to_rows(m.centroids().as_ref().ok_or("no centroids")?))
        };
        c.note(format!("{} points on a line, {} classes from the left end, {} iterations", n, k, t));
        let (a, b) = (run(t)?, run(t + 1)?);
        c.saw_f(&b.concat());
        c.outcome(&(close_all(&a.concat(), &b.concat(), 1e-12)));
        ensure!(lloyd_step(&data, &a, &b), "iteration {}: {:?} became {:?}, which is no assign-and-average step", t + 1, a, b);
        Ok(())
    });
    p.add("forgy, many", "2..=70 distinct rows, 1 to all of them chosen, four default streams, up to one deviation from them: distinct rows of the data", |c| {
        let n = c.of(&[2usize, 9, 12, 17, 24, 33, 40, 70]);
        let ks: Vec<usize> = [1usize, 2, 7, 8, 9, 10, 12, 16, 17, 20, 30, 33, 40, 50, 64, 65, 70].iter().cloned().filter(|k| *k <= n).collect();
        let k = c.of(&ks);
        let def = c.of(&[Default_::Cycle, Default_::Zero, Default_::Max, Default_::Half]);
        let data: Rows = (0..n).map(|i| vec![i as f64, 10.0 * (i * i) as f64]).collect();
        let x = from_rows(&data, 2);
        c.note(format!("{} of {} rows, {:?}", k, n, def));
        c.ops(k as u64);
        let edge = |a: usize, m: usize| m <= 10 || a <= 9 || a + 1 >= m || a == m / 2;
        c.deviations_where(def, if def == Default_::Cycle { 1 } else { 0 }, |i, l, a, m| edge(i, l) && edge(a as usize, m as usize), || Forgy.init_centroids(k, &x).map(|m| to_rows(&m)).map_err(|e| format!("{}", e)), |r, _, _| {
            let r = r?;
            ensure!(r.len() == k, "{} centroids for k = {}", r.len(), k);
            let mut seen = vec![false; n];
            for v in &r { let i = v[0] as usize; ensure!(i < n && *v == data[i] && !seen[i], "{} of {} rows: {:?} is no row or chosen twice", k, n, v); seen[i] = true; }
            Ok(())
        }).map(|_| ())
    });
    p.add("random-partition, many", "5..=300 rows (each with a column of its own, so that the memberships can be read off), 2..=17 classes, four default streams: a partition of all rows into non-empty classes; among every 16 rows beyond the k-th at least one changes its class with the draws", |c| {
        let (n, k) = c.of(&[(5usize, 2usize), (20, 3), (33, 16), (66, 2), (100, 17), (130, 5), (300, 2), (300, 7)]);
        let x = mat(n, n, (0..n * n).map(|i| if i / n == i % n { 1.0 } else { 0.0 }).collect());
        c.note(format!("{} rows in {} classes", n, k));
        let mut all: Vec<Vec<usize>> = vec![];
        for def in [Default_::Zero, Default_::Max, Default_::Half, Default_::Cycle] {
            c.ops(n as u64);
            c.deviations(def, 0, || RandomPartition.init_centroids(k, &x).map(|m| to_rows(&m)).map_err(|e| format!("{}", e)), |r| {
                let r = r?;
                ensure!(r.len() == k, "{} centroids for k = {}", r.len(), k);
                let mut class = vec![k; n];
                for (a, row) in r.iter().enumerate() {
                    let id: Vec<usize> = (0..n).filter(|i| row[*i] != 0.0).collect();
                    ensure!(!id.is_empty(), "class {} is empty", a);
                    for &i in &id { ensure!(class[i] == k, "row {} is in two classes", i); ensure_close!(row[i], 1.0 / id.len() as f64, 1e-12, "share of row {} in class {}", i, a); class[i] = a; }
                }
                ensure!(!class.contains(&k), "a row is in no class: {:?}", class);
                all.push(class);
                Ok(())
            })?;
        }
        let fixed: Vec<bool> = (0..n).map(|i| all.iter().all(|a| a[i] == all[0][i])).collect();
        if n > 16 + k { for at in k..=n - 16 { ensure!(fixed[at..at + 16].iter().any(|f| !f), "rows {} to {} of {} are in the same classes whatever is drawn", at, at + 15, n); } }
        Ok(())
    });
    p.add("plus-plus, many", "5..=60 distinct rows, 2..=12 classes, four default streams for all but the last class, every one of 64 evenly spaced draws for that: distinct rows of the data, the last in proportion to the squared distance from the nearest of the others", |c| {
        let (n, k) = c.of(&[(5usize, 2usize), (9, 5), (12, 12), (20, 3), (33, 9), (60, 2), (60, 6), (60, 12)]);
        let def = c.of(&[Default_::Zero, Default_::Max, Default_::Half, Default_::Cycle]);
        let data: Rows = (0..n).map(|i| vec![((i * 17) % 61) as f64 + if i % 3 == 0 { 40.0 } else { 0.0 }, ((i * 7) % 13) as f64]).collect();
        let x = from_rows(&data, 2);
        let mut a = rand::mc::Alphabet::default();
        a.unit = (0..64).map(|i| (i as f64 + 0.5) / 64.0).collect();
        c.set_alphabet(a);
        c.note(format!("k-means++ for {} of {} rows, {:?}", k, n, def));
        c.ops(k as u64);
        let mut ends: Vec<Rows> = vec![];
        let mut draws = 0;
        let runs = c.deviations_where(def, 1, |i, l, _, m| i + 1 == l && m == 64, || KPlusPlus.init_centroids(k, &x).map(|m| to_rows(&m)).map_err(|e| format!("{}", e)), |r, d, _| {
            let r = r?;
            draws = d.map_or(0, |d| d.len());
            ensure!(r.len() == k && r.iter().all(|x| data.contains(x)), "initial centroids {:?} are not {} rows", r, k);
            for i in 0..k { ensure!(!r[..i].contains(&r[i]), "the point {:?} is chosen twice", r[i]); }
            ends.push(r);
            Ok(())
        })?;
        // (shares can be read off where there is one draw per class)
        if runs != 64 || draws != k || ends.iter().any(|e| e[..k - 1] != ends[0][..k - 1]) { return Ok(()); }
        let w: Vec<f64> = data.iter().map(|p| ends[0][..k - 1].iter().map(|q| d2(p, q)).fold(f64::INFINITY, f64::min)).collect();
        let tot: f64 = w.iter().sum();
        for (p, w) in data.iter().zip(&w) {
            let got = ends.iter().filter(|e| e[k - 1] == *p).count() as f64 / 64.0;
            ensure!((got - w / tot).abs() < 1.01 * 2.0 / 64.0, "{:?} after {:?}: share {} of the draws instead of {}", p, &ends[0][..k - 1], got, w / tot);
        }
        c.outcome(&(n, k));
        Ok(())
    });
    p.add("random-partition", "n <= 6 (thorough 8) rows, every k <= 4, every random outcome: centroids are the means of a partition of all rows into non-empty classes, classes equally large on average", |c| {
        let n = c.range(1, c.tier(6, 8));
        let k = c.range(1, n.min(4));
        let data: Rows = (0..n).map(|i| vec![10f64.powi(i as i32), (i * i) as f64]).collect();
        let x = from_rows(&data, 2);
        let mut subs: Vec<(Vec<usize>, Vec<f64>)> = vec![];
        for s in 1..=n { for id in subsets(n, s) { let m = mean_of(&id.iter().map(|i| &data[*i]).collect::<Vec<_>>()); subs.push((id, m)); } }
        let d = c.distribution(|| RandomPartition.init_centroids(k, &x).map(|m| to_rows(&m)).map_err(|e| format!("{}", e)));
        let exact = d.iter().all(|x| x.2);
        let mut size = vec![0.0; k];
        for (r, pr, _) in d {
            let r = r?;
            ensure!(r.len() == k, "{} centroids for k = {}", r.len(), k);
            let mut seen = vec![false; n];
            for (a, row) in r.iter().enumerate() {
                let s = subs.iter().find(|s| close_all(&s.1, row, 1e-12)).ok_or_else(|| format!("centroid {:?} is the mean of no set of rows of {:?}", row, data))?;
                size[a] += pr * s.0.len() as f64;
                for &i in &s.0 { ensure!(!seen[i], "row {} is in two classes", i); seen[i] = true; }
            }
            ensure!(seen.iter().all(|b| *b), "a row is in no class: {:?}", r);
            c.saw_f(&r.concat());
        }
        if exact { for s in &size { ensure!((s - n as f64 / k as f64).abs() < 1e-9, "expected class sizes {:?} for {} rows in {} classes", size, n, k); } }
        Ok(())
    });
    p.add("plus-plus", "every 2..=4 points over 4 positions, k = 2 and 3, every first row, 64 evenly spaced draws for the next: rows of the data; the first uniform, the second proportional to the squared distance from it; too few distinct points are an error", |c| {
        let n = c.range(2, c.tier(4, 5));
        let data: Rows = c.vec_of(n, &[0.0, 1.0, 3.0, -2.5]).into_iter().map(|x| vec![x, 2.0 * x]).collect();
        let k = c.range(2, 3.min(n));
        let x = from_rows(&data, 2);
        let g = if k == 2 { 64 } else { 16 };
        let mut a = rand::mc::Alphabet::default();
        a.unit = (0..g).map(|i| (i as f64 + 0.5) / g as f64).collect();
        c.set_alphabet(a);
        let mut distinct = data.clone();
        distinct.sort_by(|p, q| p.partial_cmp(q).unwrap());
        distinct.dedup();
        c.note(format!("k-means++ for {} of {:?}", k, data));
        let d = c.distribution(|| KPlusPlus.init_centroids(k, &x).map(|m| to_rows(&m)).map_err(|e| err_kind::<()>(&Err(e))));
        let mut count = std::collections::BTreeMap::new();
        let mut first = std::collections::BTreeMap::new();
        for (r, pr, _) in d {
            if distinct.len() < k {
                ensure!(match r { Err(ref e) => e == "InvalidData", Ok(ref r) => r.len() == k && r.iter().all(|x| data.contains(x)) }, "{} of {} distinct points: {:?}", k, distinct.len(), r);
                continue;
            }
            let r = r?;
            ensure!(r.len() == k && r.iter().all(|x| data.contains(x)), "initial centroids {:?} are not {} rows", r, k);
            for i in 0..k { ensure!(!r[..i].contains(&r[i]), "the point {:?} is chosen twice", r[i]); }
            let id = |v: &Vec<f64>| distinct.iter().position(|z| z == v).unwrap();
            *first.entry(id(&r[0])).or_insert(0.0) += pr;
            *count.entry((id(&r[0]), id(&r[1]))).or_insert(0.0) += pr;
            c.saw_f(&r.concat());
        }
        for (i, w) in &first {
            let want = data.iter().filter(|z| **z == distinct[*i]).count() as f64 / n as f64;
            ensure!((w - want).abs() < 1e-9, "first centroid {:?} with probability {} instead of {}", distinct[*i], w, want);
        }
        for i in 0..distinct.len() { for j in 0..distinct.len() { if distinct.len() >= k {
            let tot: f64 = data.iter().map(|z| d2(z, &distinct[i])).sum();
            let mult = data.iter().filter(|z| **z == distinct[j]).count() as f64;
            let want = d2(&distinct[i], &distinct[j]) * mult / tot;
            let got = count.get(&(i, j)).cloned().unwrap_or(0.0) / first[&i];
            ensure!((got - want).abs() < 1.01 * (mult + 1.0) / g as f64, "second centroid {:?} after {:?} with probability {} instead of {}", distinct[j], distinct[i], got, want);
        } } }
        Ok(())
    });
    p.add("plus-plus-edge", "patterned data of 2 to 70 rows in 1..=3 dimensions (five scales, with and without repeated rows), k <= 3 (thorough every size, k <= 4), every first row, the smallest and largest draws for the others: rows of the data, none twice; never a panic", |c| {
        let n = if c.thorough() { c.range(2, 70) } else { c.of(&[2, 3, 5, 8, 9, 12, 17, 31, 70]) };
        let dims = c.range(1, 3);
        let k = c.range(2, c.tier(3, 4).min(n));
        let sc = c.of(&[1.0, 0.1, 1.0 / 3.0, 1e-3, 777.7]);
        let rep = c.bool();
        let data: Rows = (0..n).map(|i| { let i = if rep { i / 2 } else { i }; (0..dims).map(|j| sc * (((i * (7 + j) + j * j) % 71) as f64 + 0.37 * j as f64)).collect() }).collect();
        let mut distinct = data.clone();
        distinct.sort_by(|p, q| p.partial_cmp(q).unwrap());
        distinct.dedup();
        let x = from_rows(&data, dims);
        let mut a = rand::mc::Alphabet::default();
        a.unit = vec![0.0, 1.0 - 2f64.powi(-53), 2f64.powi(-53), 1.0 - 2f64.powi(-52)];
        c.set_alphabet(a);
        c.note(format!("k-means++ for {} of {:?}", k, data));
        for (r, _, _) in c.distribution(|| guard(|| KPlusPlus.init_centroids(k, &x).map(|m| to_rows(&m)).map_err(|e| err_kind::<()>(&Err(e))))) {
            match r? {
                Err(e) => ensure!(distinct.len() < k && e == "InvalidData", "{} of {} distinct points: {}", k, distinct.len(), e),
                Ok(r) => {
                    ensure!(r.len() == k && r.iter().all(|x| data.contains(x)), "initial centroids {:?} are not {} rows", r, k);
                    if distinct.len() >= k { for i in 0..k { ensure!(!r[..i].contains(&r[i]), "the point {:?} is chosen twice", r[i]); } }
                }
            }
        }
        Ok(())
    });
    p.add("whole", "every 2..=4 points over 3 positions, k <= 3, three initialisations, every random outcome (up to k + 2 draws for Forgy): training ends in finite centroids that are a fixed point, or reports too few distinct points", |c| {
        let n = c.range(2, 4);
        let data: Rows = c.vec_of(n, &[0.0, 1.0, 5.0]).into_iter().map(|x| vec![x]).collect();
        let k = c.range(1, 3.min(n));
        let which = c.pick(3);
        let x = from_rows(&data, 1);
        fn go<I: Initializer>(mut m: KMeansClassifier<I>, x: &M) -> Result<Rows, String> {
            m.train(x).map_err(|e| err_kind::<()>(&Err(e)))?;
            Ok(m.centroids().as_ref().map(|z| to_rows(z)).unwrap_or(vec![]))
        }
        c.note(format!("{:?} k {} init {}", data, k, which));
        ensure!(KMeansClassifier::new(k).iters() == 100 && KMeansClassifier::new(k).k() == k, "defaults of a new classifier");
        let out = match which {
            0 => c.distribution_fuel(Some((k + 2).max(n) as u64), || go(KMeansClassifier::new_specified(k, 100, Forgy), &x)),
            1 => c.distribution(|| go(KMeansClassifier::new_specified(k, 100, RandomPartition), &x)),
            _ => c.distribution(|| go(KMeansClassifier::new(k), &x)),
        };
        ensure!(!out.is_empty(), "{:?}: no choice of {} initial centroids within {} draws", data, k, (k + 2).max(n));
        let mut ds: Vec<f64> = data.iter().map(|r| r[0]).collect();
        ds.sort_by(|a, b| a.partial_cmp(b).unwrap());
        ds.dedup();
        for (r, _, _) in out {
            match r {
                Err(e) => ensure!(which == 2 && ds.len() < k && e == "InvalidData", "training fails with {}", e),
                Ok(cs) => {
                    ensure!(cs.len() == k && finite(&cs.concat()), "centroids {:?}", cs);
                    ensure!(lloyd_step(&data, &cs, &cs), "{:?} is no fixed point", cs);
                    c.saw_f(&cs.concat());
                }
            }
        }
        Ok(())
    });
    p.add("rejects", "more classes than rows, no classes, an initialiser of the wrong shape, use before training: an error, never a panic or a result; a rejected train leaves a trained model as it was", |c| {
        let (n, k, bad) = (c.range(1, 3), c.range(0, 4), c.pick(5));
        let x = mat(n, 2, (0..2 * n).map(|i| (i * i) as f64).collect());
        c.note(format!("{} rows, k = {}, case {}", n, k, bad));
        fn go<I: Initializer>(m: KMeansClassifier<I>, x: &M) -> Result<bool, String> {
            let mut m = m;
            ensure!(err_kind(&m.predict(x)) == "UntrainedModel", "predict before training: {}", err_kind(&m.predict(x)));
            let r = guard(|| m.train(x))?;
            if r.is_err() { ensure!(err_kind(&guard(|| m.predict(x))?) == "UntrainedModel", "predict after a rejected first training gives {}", err_kind(&m.predict(x))); }
            Ok(r.is_ok())
        }
        let ok = match bad {
            0 => go(KMeansClassifier::new(k), &x)?,
            1 => go(KMeansClassifier::new_specified(k, 5, RandomPartition), &x)?,
            2 if k <= 1 || k > n => go(KMeansClassifier::new_specified(k, 5, Forgy), &x)?, // others: scenario forgy
            2 => return Ok(()),
            3 => { ensure!(k == 2 || !go(KMeansClassifier::new_specified(k, 5, Fixed(mat(2, 2, vec![0.0, 1.0, 2.0, 3.0]))), &x)?, "2 initial centroids accepted for k = {}", k); return Ok(()) }
            _ => { ensure!(!go(KMeansClassifier::new_specified(k, 5, Fixed(mat(k, 3, vec![0.0; 3 * k]))), &x)?, "initial centroids with 3 columns accepted"); return Ok(()) }
        };
        ensure!(ok == (k >= 1 && k <= n), "k = {} with {} rows: accepted is {}", k, n, ok);
        // a later rejected training
        let mut m = KMeansClassifier::new_specified(2, 5, Fixed(mat(2, 2, vec![0.0, 1.0, 2.0, 3.0])));
        let y = mat(3, 2, vec![0.0, 0.0, 4.0, 4.0, 5.0, 5.0]);
        m.train(&y).map_err(|e| format!("{}", e))?;
        let before = m.centroids().clone();
        let r = m.train(&mat(1, 2, vec![1.0, 1.0]));
        ensure!(r.is_err(), "1 row accepted for 2 classes");
        ensure!(before.map(|z| to_rows(&z)) == m.centroids().clone().map(|z| to_rows(&z)), "a rejected train changed the centroids");
        Ok(())
    });
    p
}

// ------------------------------------------------------------------ DBSCAN
/// Check labels against the definition.
fn dbscan_ok(data: &Rows, eps: f64, minp: usize, lab: &[Option<usize>]) -> R {
    let n = data.len();
    ensure!(lab.len() == n, "{} labels for {} rows", lab.len(), n);
    let near = |i: usize, j: usize| d2(&data[i], &data[j]).sqrt() < eps;
    let core: Vec<bool> = (0..n).map(|i| (0..n).filter(|&j| near(i, j)).count() >= minp).collect();
    // components of the core points
    let mut comp: Vec<Option<usize>> = vec![None; n];
    let mut k = 0;
    for i in 0..n { if core[i] && comp[i].is_none() {
        let mut st = vec![i];
        comp[i] = Some(k);
        while let Some(a) = st.pop() { for b in 0..n { if core[b] && comp[b].is_none() && near(a, b) { comp[b] = Some(k); st.push(b); } } }
        k += 1;
    } }
    let say = || format!("eps {}, min_points {}, data {:?}: labels {:?}", eps, minp, data, lab);
    let mut name: Vec<Option<usize>> = vec![None; k];
    for i in 0..n { if core[i] {
        let l = lab[i].ok_or_else(|| format!("{}: row {} has {} neighbours and no cluster", say(), i, (0..n).filter(|&j| near(i, j)).count()))?;
        let c = comp[i].unwrap();
        match name[c] { None => name[c] = Some(l), Some(m) => ensure!(m == l, "{}: row {} is in another cluster than a row it is connected to", say(), i) }
    } }
    for a in 0..k { for b in 0..a { ensure!(name[a] != name[b], "{}: two unconnected clusters share a number", say()); } }
    for i in 0..n { if !core[i] {
        let own: Vec<Option<usize>> = (0..n).filter(|&j| core[j] && near(i, j)).map(|j| lab[j]).collect();
        if own.is_empty() { ensure!(lab[i].is_none(), "{}: row {} is within eps of no cluster and has one", say(), i); }
        else { ensure!(own.contains(&lab[i]), "{}: row {} is within eps of a cluster's inner points {:?} but labelled {:?}", say(), i, own, lab[i]); }
    } }
    let mut used: Vec<usize> = lab.iter().filter_map(|x| *x).collect();
    used.sort();
    used.dedup();
    ensure!(used == (0..k).collect::<Vec<_>>(), "{}: clusters are numbered {:?}", say(), used);
    Ok(())
}
fn predict_ok(m: &DBSCAN, data: &Rows, eps: f64, lab: &[Option<usize>], q: &Rows) -> R {
    let cols = data[0].len();
    let out = m.predict(&from_rows(q, cols)).map_err(|e| format!("predict failed: {}", e))?;
    ensure!(out.size() == q.len(), "{} predictions for {} rows", out.size(), q.len());
    for (p, o) in q.iter().zip(out.data()) {
        let d: Vec<f64> = data.iter().map(|r| d2(r, p).sqrt()).collect();
        let m = d.iter().cloned().fold(f64::INFINITY, f64::min);
        let mut al: Vec<Option<usize>> = (0..data.len()).filter(|&i| close(d[i], m, 1e-12)).map(|i| lab[i]).collect();
        if close(m, eps, 1e-12) && m != eps { al.push(None); } else if !(m < eps) { al = vec![None]; }
        ensure!(al.contains(o), "{:?} near {:?} labelled {:?} with eps {} is predicted {:?}, the nearest have {:?}", p, data, lab, eps, o, al);
    }
    Ok(())
}
pub fn dbscan() -> Property {
    let mut p = Property::new("C17");
    fn case(c: &Ch, data: &Rows, eps: f64, minp: usize, q: &Rows) -> R {
        let cols = data[0].len();
        c.note(format!("eps {} min {} {:?}", eps, minp, data));
        let mut m = DBSCAN::new(eps, minp);
        m.set_predictive(true);
        c.ops(2);
        m.train(&from_rows(data, cols)).map_err(|e| format!("train failed: {}", e))?;
        let lab = m.clusters().ok_or("no clusters")?.data().clone();
        c.saw(&lab);
        dbscan_ok(data, eps, minp, &lab)?;
        predict_ok(&m, data, eps, &lab, q)
    }
    p.add("line", "every sequence of 1..=6 (thorough 7) points over 6 positions on a line, min_points 0..=4, eps 0.75, 1 (distances equal to eps), 1.5: clusters are exactly the components of inner points plus points within eps of them, everything else is noise; predictions follow the nearest row", |c| {
        let n = c.range(1, c.tier(6, 7));
        let minp = c.range(0, 4);
        let eps = c.of(&[0.75, 1.0, 1.5]);
        let data: Rows = c.vec_of(n, &[0.0, 1.0, 2.0, 2.5, 4.0, 3.25]).into_iter().map(|x| vec![x]).collect();
        let q: Rows = [-0.9, 0.5, 1.4, 2.9, 5.3, 0.0].iter().map(|x| vec![*x]).collect();
        case(c, &data, eps, minp, &q)
    });
    p.add("plane", "every set of 5 of 8 distinct points in the plane in every order, min_points 2..=4, 2 values of eps", |c| {
        let pts = [[0.0, 0.0], [1.0, 0.0], [0.0, 1.0], [1.0, 1.0], [2.2, 1.0], [3.4, 1.2], [3.4, -0.5], [-1.1, -1.1]];
        let minp = c.range(2, 4);
        let eps = c.of(&[1.25, 1.6]);
        let mut data: Rows = vec![];
        let mut left: Vec<usize> = (0..8).collect();
        for _ in 0..5 { let i = c.pick(left.len()); data.push(pts[left.remove(i)].to_vec()); }
        case(c, &data, eps, minp, &vec![vec![0.4, 0.4], vec![2.9, 0.9], vec![9.0, 9.0]])
    });
    p.add("sizes", "patterned data of every size to 80 (thorough 250): chains, blobs with bridges and noise, min_points 1..=6", |c| {
        let n = c.range(1, c.tier(80, 250));
        let pat = c.pick(4);
        let data: Rows = (0..n).map(|i| match pat {
            0 => vec![(i * 37 % n.max(1)) as f64 * 0.9, 0.0],
            1 => vec![((i * 7) % 13) as f64, ((i * 5) % 11) as f64],
            2 => vec![(i / 10) as f64 * 3.0 + ((i * 3) % 10) as f64 * 0.11, ((i * i) % 7) as f64 * 0.2],
            _ => vec![(i as f64).sqrt() * 2.0, ((i * 13) % 17) as f64 * 0.5],
        }).collect();
        case(c, &data, c.of(&[0.5, 1.0, 2.1]), c.range(1, 6), &vec![vec![0.1, 0.1], vec![3.0, 1.0], vec![-50.0, 0.0]])
    });
    p.add("dense", "8 to 1100 rows: repeated points, everything within eps, hubs with many neighbours not near each other, rings; min_points 1 to 200: the same", |c| {
        let n = c.of(&[8usize, 31, 33, 49, 50, 51, 52, 53, 64, 65, 66, 100, 101, 102, 127, 128, 129, 130, 200, 256, 257, 258, 300, 1100]);
        let pat = c.pick(5);
        let data: Rows = (0..n).map(|i| { let a = i as f64 * 2.399963; match pat {
            0 => vec![3.0, 4.0],
            1 => vec![(i * 37 % n) as f64 * 0.001, 0.5],
            2 => if i == n / 2 { vec![0.0, 0.0] } else { vec![0.9 * a.cos(), 0.9 * a.sin()] },
            3 => vec![(i % 3) as f64 * 5.0, (i % 2) as f64 * 0.25],
            _ => vec![(i as f64 / n as f64).sqrt() * 6.0 * a.cos(), (i as f64 / n as f64).sqrt() * 6.0 * a.sin()],
        } }).collect();
        case(c, &data, c.of(&[0.3, 1.0, 3.0]), c.of(&[1usize, 2, 5, 20, 50, 51, 200]), &vec![vec![0.1, 0.1], vec![3.0, 4.1], vec![-50.0, 0.0]])
    });
    p.add("histories", "every sequence of up to 5 operations out of: train on one of three data sets, switch prediction on or off, predict: clusters and predictions are always those of the last training (or an error)", |c| {
        let sets: [Rows; 3] = [vec![vec![0.0], vec![0.2], vec![5.0]], vec![vec![5.0], vec![5.1], vec![9.0], vec![9.2], vec![0.0]], vec![vec![7.0]]];
        let q: Rows = [0.1, 5.0, 9.1, 7.0].iter().map(|x| vec![*x]).collect();
        let mut m = DBSCAN::new(0.5, 2);
        let (mut last, mut kept, mut predictive): (Option<usize>, Option<usize>, bool) = (None, None, false);
        let len = c.range(1, c.tier(5, 6));
        for _ in 0..len {
            c.op();
            match c.pick(6) {
                i @ 0..=2 => { c.note(format!("train({})", i)); m.train(&from_rows(&sets[i], 1)).map_err(|e| format!("{}", e))?; last = Some(i); kept = if predictive { Some(i) } else { None }; }
                3 => { c.note("set_predictive(true)"); m.set_predictive(true); predictive = true; }
                4 => { c.note("set_predictive(false)"); m.set_predictive(false); predictive = false; }
                _ => {
                    c.note("predict");
                    let lab = m.clusters().map(|v| v.data().clone());
                    if predictive && kept.is_some() { predict_ok(&m, &sets[kept.unwrap()], 0.5, &lab.unwrap(), &q)?; }
                    else {
                        let r = guard(|| m.predict(&from_rows(&q, 1)))?;
                        ensure!(err_kind(&r) == if predictive { "UntrainedModel" } else { "InvalidState" }, "predict without kept data gives {:?}", r.map(|v| v.into_vec()).map_err(|e| format!("{}", e)));
                    }
                }
            }
            match (last, m.clusters()) {
                (None, None) => {}
                (Some(i), Some(l)) => dbscan_ok(&sets[i], 0.5, 2, l.data())?,
                (a, b) => return Err(format!("last trained {:?}, clusters {:?}", a, b)),
            }
        }
        Ok(())
    });
    p.add("dimensions", "2..=65 columns, 5 rows: every choice of the coordinate in which each row differs from the first and of the size of the difference (below, at and above eps alone and only together): the same", |c| {
        let cols = c.of(&[2usize, 3, 4, 5, 8, 12, 13, 16, 17, 33, 65]);
        let eps = 1.0;
        let mut data: Rows = vec![vec![0.0; cols]];
        for i in 1..4 {
            let mut r = data[0].clone();
            let (at, size) = (c.of(&[0, cols / 2, cols - 1]), c.of(&[0.6, 0.8, 1.0]));
            r[at] += size;
            if i > 1 { r[(at + 1) % cols] -= c.of(&[0.0, 0.6]); }
            data.push(r);
        }
        data.push(vec![0.7 * eps; cols]);
        let q = vec![vec![0.45; cols], data[3].iter().map(|x| x * 1.5).collect(), vec![-0.01; cols]];
        case(c, &data, eps, c.range(2, 4), &q)
    });
    p.add("units", "lines, blobs and rings measured in units of 1e-6 to 1e6 and moved to 1e3 units from the origin, eps in the same units: the same", |c| {
        let n = c.of(&[5usize, 9, 24, 60]);
        let pat = c.pick(3);
        let unit = 2f64.powi(c.of(&[-40, -20, -7, 7, 20, 40]));
        let off = c.of(&[0.0, 1024.0, -1024.0]);
        let data: Rows = (0..n).map(|i| { let a = i as f64 * 2.399963; match pat {
            0 => vec![(i * 7 % n) as f64 * 0.75 + off, off],
            1 => vec![(i % 3) as f64 * 5.0 + off, (i / 3) as f64 * 0.5 + off],
            _ => vec![2.0 * a.cos() + off, 2.0 * a.sin() - off],
        } }).map(|r| r.into_iter().map(|v| v * unit).collect()).collect();
        let q: Rows = [[0.1, 0.1], [3.0, 0.4], [-50.0, 0.0]].iter().map(|r| vec![(r[0] + off) * unit, (r[1] + off) * unit]).collect();
        case(c, &data, c.of(&[0.6, 1.0, 2.5]) * unit, c.of(&[1usize, 2, 4]), &q)
    });
    p.add("chains", "chains of 100 to 3000 points that each only reach the next (thorough 10000), in both orders, within a thread of 256 kB: one cluster, whatever its length", |c| {
        let n = c.of(if c.thorough() { &[100usize, 1000, 3000, 10000] } else { &[100usize, 1000, 3000] });
        let back = c.bool();
        c.note(format!("{} points, reversed {}", n, back));
        c.op();
        let h = std::thread::Builder::new().stack_size(256 << 10).spawn(move || {
            let x = M::new(n, 1, (0..n).map(|i| if back { n - i } else { i } as f64).collect::<Vec<_>>());
            let mut m = DBSCAN::new(1.5, 2);
            m.train(&x).map(|_| m.clusters().unwrap().data().clone()).map_err(|e| format!("{}", e))
        }).unwrap();
        let lab = h.join().map_err(|_| "train panicked")??;
        c.saw(&lab);
        ensure!(lab.len() == n && lab.iter().all(|l| *l == Some(0)), "a chain of {} points is split: {:?}", n, lab.iter().enumerate().find(|l| *l.1 != Some(0)));
        Ok(())
    });
    p.add("parameters", "eps of every sign: non-positive is rejected by the constructor; the default is eps 0.5, min_points 5", |c| {
        let eps = c.of(&[-1.0, 0.0, -0.0, 1e-9, 2.0, f64::NAN]);
        c.op();
        ensure!(guard(|| DBSCAN::new(eps, 2)).is_ok() == (eps > 0.0), "DBSCAN::new({})", eps);
        let n = c.range(1, 7);
        let step = c.of(&[0.1, 0.3, 0.6]);
        let data: Rows = (0..n).map(|i| vec![i as f64 * step]).collect();
        let mut m = DBSCAN::default();
        m.train(&from_rows(&data, 1)).map_err(|e| format!("{}", e))?;
        dbscan_ok(&data, 0.5, 5, m.clusters().ok_or("no clusters")?.data())
    });
    p
}
