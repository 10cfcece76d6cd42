//! C31 principal component analysis.
use crate::util::*;
use mce::*;
use rusty_machine::learning::pca::PCA;
use rusty_machine::learning::UnSupModel;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind { Default, New(usize, bool) }
fn fresh(k: Kind) -> PCA { match k { Kind::Default => PCA::default(), Kind::New(n, c) => PCA::new(n, c) } }
/// Is the training rejected?
fn bad(k: Kind, x: &Rows) -> bool { match k { Kind::Default => false, Kind::New(n, _) => n > x[0].len() || n > x.len() && x[0].len() > x.len() } }

/// Checks components and predictions; components are the columns (rows for data with more columns than rows).
fn check(c: &Ch, m: &PCA, kind: Kind, x: &Rows, q: &Rows) -> R {
    let (n, d) = (x.len(), x[0].len());
    let center = match kind { Kind::Default => true, Kind::New(_, c) => c };
    let want_k = match kind { Kind::Default => n.min(d), Kind::New(k, _) => k };
    let mid: Vec<f64> = (0..d).map(|j| if center { x.iter().map(|r| r[j]).sum::<f64>() / n as f64 } else { 0.0 }).collect();
    let xc: Rows = x.iter().map(|r| r.iter().zip(&mid).map(|(a, b)| a - b).collect()).collect();
    let s = rmul(&rt(&xc), &xc);
    let (ev, _) = eigen(&s);
    let comp = m.components().map_err(|e| format!("components: {}", e))?;
    let mut cols = to_rows(comp);
    if !(d > n && comp.cols() == d && comp.rows() != d) { cols = rt(&cols); }
    ensure!(cols.len() == want_k && cols.iter().all(|v| v.len() == d), "components of shape {}x{} for {}x{} data, {} wanted", comp.rows(), comp.cols(), n, d, want_k);
    let big = ev[0].max(1e-300);
    for (i, v) in cols.iter().enumerate() {
        ensure!((dot(v, v) - 1.0).abs() < 1e-7, "component {} has length {}", i, dot(v, v).sqrt());
        for w in &cols[..i] { if ev[i] > 1e-10 * big { ensure!(dot(v, w).abs() < 1e-6, "components {:?} and {:?} are not orthogonal", w, v); } }
        let sv: Vec<f64> = s.iter().map(|r| dot(r, v)).collect();
        for j in 0..d { ensure!((sv[j] - ev[i] * v[j]).abs() <= 1e-6 * big, "component {} {:?} is not the direction of scatter {}", i, v, ev[i]); }
    }
    let p = m.predict(&from_rows(q, d)).map_err(|e| format!("predict: {}", e))?;
    shape_is(&p, q.len(), want_k, "prediction")?;
    for (r, g) in q.iter().zip(to_rows(&p)) {
        let r: Vec<f64> = r.iter().zip(&mid).map(|(a, b)| a - b).collect();
        let w: Vec<f64> = cols.iter().map(|v| dot(v, &r)).collect();
        let near = 1e-8 * big.sqrt().min(1.0);
        ensure!(w.iter().zip(&g).all(|(a, b)| (a - b).abs() <= near + 1e-8 * dot(&r, &r).sqrt().max(mid.iter().fold(0.0f64, |s, v| s.max(v.abs())) * 1e-6)), "{:?} is mapped to {:?}, expected {:?}", r, g, w);
    }
    c.saw_f(p.data());
    Ok(())
}
fn case(c: &Ch, kind: Kind, x: &Rows) -> R {
    c.note(format!("{:?} on {:?}", kind, x));
    c.ops(3);
    let d = x[0].len();
    let q: Rows = (0..3).map(|i| (0..d).map(|j| ((i * 3 + j * 2) % 5) as f64 - 1.5).collect()).chain(x.iter().cloned()).collect();
    let mut m = fresh(kind);
    ensure!(m.components().is_err() && m.predict(&from_rows(&q, d)).is_err(), "an untrained model answers");
    let r = m.train(&from_rows(x, d));
    if bad(kind, x) {
        ensure!(r.is_err(), "more components than the data have are accepted");
        ensure!(m.components().is_err() && m.predict(&from_rows(&q, d)).is_err(), "a model after a failed training answers");
        return Ok(());
    }
    r.map_err(|e| format!("train: {}", e))?;
    for w in 1..=d + 1 { if w != d { ensure!(m.predict(&mat(1, w, vec![1.0; w])).is_err(), "{} columns are accepted by a model for {}", w, d); } }
    check(c, &m, kind, x, &q)
}
fn kind(c: &Ch, max: usize) -> Kind { if c.bool() { Kind::Default } else { Kind::New(c.range(1, max), c.bool()) } }
pub fn pca() -> Property {
    let mut p = Property::new("C31");
    p.assume("a component is determined up to its sign, components of equal variance up to rotation");
    p.add("all", "all data of 1..=4x1, 1..=4x2 (thorough 5x2), 1..=2x3 (3x3), 1..=2x4 over 3 values (4 for one column), default or every number of components to columns + 1, centred or not: orthonormal eigenvectors of the scatter by descending variance, rows mapped to their coordinates", |c| {
        let (n, d) = c.of(c.tier(&[(1usize, 1usize), (2, 1), (3, 1), (4, 1), (1, 2), (2, 2), (3, 2), (4, 2), (1, 3), (2, 3), (1, 4), (2, 4)][..], &[(1, 1), (2, 1), (3, 1), (4, 1), (5, 1), (1, 2), (2, 2), (3, 2), (4, 2), (5, 2), (1, 3), (2, 3), (3, 3), (1, 4), (2, 4)][..]));
        let k = kind(c, d + 1);
        let x: Rows = (0..n).map(|_| c.vec_of(d, if d == 1 { &[0.0, 1.0, -2.0, 0.3][..] } else { &[0.0, 1.0, -2.0][..] })).collect();
        case(c, k, &x)
    });
    p.add("sizes", "patterned data of 1..=25 rows and 1..=7 columns, also wide, constant and far from zero", |c| {
        let (n, d) = (c.range(1, 25), c.range(1, 7));
        let k = kind(c, d + 1);
        let shift = c.of(&[0.0, 40.0]);
        let rank1 = c.bool();
        let x: Rows = (0..n).map(|i| (0..d).map(|j| shift + if rank1 { (j + 1) as f64 * ((i * 5) % 7) as f64 } else { ((i * i * 3 + i * j * 7 + j * 5) % 17) as f64 * 0.5 }).collect()).collect();
        case(c, k, &x)
    });
    p.add("units", "patterned data of 2..=1100 rows or 1..=30 columns in units from 1e-9 to 1e9, up to 1e5 units away from zero: the same", |c| {
        let (n, d) = c.of(&[(3usize, 2usize), (8, 4), (5, 9), (40, 12), (100, 3), (300, 2), (64, 1), (17, 6), (1100, 3), (50, 30)]);
        let k = kind(c, d + 1);
        let u = c.of(&[1.0, 1e-9, 1e-3, 1e4, 1e9]);
        let off = c.of(&[0.0, 1e3, -1e5]);
        let x: Rows = (0..n).map(|i| (0..d).map(|j| u * (off * if j % 2 == 0 { 1.0 } else { -0.5 } + ((i * i * 3 + i * j * 7 + j * 5) % 17) as f64 * 0.5)).collect()).collect();
        case(c, k, &x)
    });
    p.add("histories", "every history of up to 4 (5) operations out of: train on 4 data sets of different size and width (two of them wide, one rejected), predict with 2 or 3 columns: a model answers as a fresh one trained on the last accepted data, rejected trainings change nothing", |c| {
        let len = c.range(1, c.tier(4, 5));
        let k = c.of(&[Kind::Default, Kind::New(2, true), Kind::New(2, false), Kind::New(1, true)]);
        let ops: Vec<usize> = (0..len).map(|_| c.pick(6)).collect();
        c.note(format!("{:?} {:?}", k, ops));
        c.ops(len as u64);
        let sets: [Rows; 4] = [
            vec![vec![1.0, 2.0], vec![3.0, -1.0], vec![0.0, 0.5]],
            vec![vec![1.0, 2.0, 0.0], vec![-1.0, 5.0, 2.0]],
            vec![vec![1.0, 2.0, 0.0], vec![-1.0, 5.0, 2.0], vec![0.0, 1.0, 1.0], vec![9.0, 1.0, 0.0]],
            vec![vec![7.0, 2.0, 4.0]],
        ];
        let mut m = fresh(k);
        let mut now: Option<usize> = None;
        for op in &ops {
            if *op < 4 {
                let r = m.train(&from_rows(&sets[*op], sets[*op][0].len()));
                ensure!(r.is_err() == bad(k, &sets[*op]), "training on set {} gives {}", op, err_kind(&r));
                if r.is_ok() { now = Some(*op); }
                continue;
            }
            let d = op - 2;
            let q: Rows = vec![vec![0.5, -1.0, 2.0][..d].to_vec(), vec![4.0, 0.0, 1.0][..d].to_vec()];
            match now {
                Some(s) if sets[s][0].len() == d => {
                    check(c, &m, k, &sets[s], &q)?;
                    let mut f = fresh(k);
                    f.train(&from_rows(&sets[s], d)).map_err(|e| format!("{}", e))?;
                    let (a, b) = (m.predict(&from_rows(&q, d)).map_err(|e| format!("{}", e))?, f.predict(&from_rows(&q, d)).map_err(|e| format!("{}", e))?);
                    ensure!(close_all(a.data(), b.data(), 1e-9), "predictions {:?} after a history, {:?} of a fresh model", a.data(), b.data());
                }
                Some(_) => ensure!(m.predict(&from_rows(&q, d)).is_err(), "{} columns accepted after training on {:?}", d, now),
                None => ensure!(m.predict(&from_rows(&q, d)).is_err() && m.components().is_err(), "an untrained model answers"),
            }
        }
        Ok(())
    });
    p
}
