//! C36 the data sets that come with the crate.
use crate::util::*;
use mce::*;
use rusty_machine::datasets::{iris, trees};
use rusty_machine::learning::lin_reg::LinRegressor;
use rusty_machine::learning::naive_bayes::{Gaussian, NaiveBayes};
use rusty_machine::learning::SupModel;
use rusty_machine::prelude::*;

/// Fisher's iris data as the UCI repository has them (sepal length and width, petal length and width; 50 rows a species).
const IRIS: [[f64; 4]; 150] = [
    [5.1, 3.5, 1.4, 0.2], [4.9, 3.0, 1.4, 0.2], [4.7, 3.2, 1.3, 0.2], [4.6, 3.1, 1.5, 0.2], [5.0, 3.6, 1.4, 0.2], [5.4, 3.9, 1.7, 0.4],
    [4.6, 3.4, 1.4, 0.3], [5.0, 3.4, 1.5, 0.2], [4.4, 2.9, 1.4, 0.2], [4.9, 3.1, 1.5, 0.1], [5.4, 3.7, 1.5, 0.2], [4.8, 3.4, 1.6, 0.2],
    [4.8, 3.0, 1.4, 0.1], [4.3, 3.0, 1.1, 0.1], [5.8, 4.0, 1.2, 0.2], [5.7, 4.4, 1.5, 0.4], [5.4, 3.9, 1.3, 0.4], [5.1, 3.5, 1.4, 0.3],
    [5.7, 3.8, 1.7, 0.3], [5.1, 3.8, 1.5, 0.3], [5.4, 3.4, 1.7, 0.2], [5.1, 3.7, 1.5, 0.4], [4.6, 3.6, 1.0, 0.2], [5.1, 3.3, 1.7, 0.5],
    [4.8, 3.4, 1.9, 0.2], [5.0, 3.0, 1.6, 0.2], [5.0, 3.4, 1.6, 0.4], [5.2, 3.5, 1.5, 0.2], [5.2, 3.4, 1.4, 0.2], [4.7, 3.2, 1.6, 0.2],
    [4.8, 3.1, 1.6, 0.2], [5.4, 3.4, 1.5, 0.4], [5.2, 4.1, 1.5, 0.1], [5.5, 4.2, 1.4, 0.2], [4.9, 3.1, 1.5, 0.1], [5.0, 3.2, 1.2, 0.2],
    [5.5, 3.5, 1.3, 0.2], [4.9, 3.1, 1.5, 0.1], [4.4, 3.0, 1.3, 0.2], [5.1, 3.4, 1.5, 0.2], [5.0, 3.5, 1.3, 0.3], [4.5, 2.3, 1.3, 0.3],
    [4.4, 3.2, 1.3, 0.2], [5.0, 3.5, 1.6, 0.6], [5.1, 3.8, 1.9, 0.4], [4.8, 3.0, 1.4, 0.3], [5.1, 3.8, 1.6, 0.2], [4.6, 3.2, 1.4, 0.2],
    [5.3, 3.7, 1.5, 0.2], [5.0, 3.3, 1.4, 0.2], [7.0, 3.2, 4.7, 1.4], [6.4, 3.2, 4.5, 1.5], [6.9, 3.1, 4.9, 1.5], [5.5, 2.3, 4.0, 1.3],
    [6.5, 2.8, 4.6, 1.5], [5.7, 2.8, 4.5, 1.3], [6.3, 3.3, 4.7, 1.6], [4.9, 2.4, 3.3, 1.0], [6.6, 2.9, 4.6, 1.3], [5.2, 2.7, 3.9, 1.4],
    [5.0, 2.0, 3.5, 1.0], [5.9, 3.0, 4.2, 1.5], [6.0, 2.2, 4.0, 1.0], [6.1, 2.9, 4.7, 1.4], [5.6, 2.9, 3.6, 1.3], [6.7, 3.1, 4.4, 1.4],
    [5.6, 3.0, 4.5, 1.5], [5.8, 2.7, 4.1, 1.0], [6.2, 2.2, 4.5, 1.5], [5.6, 2.5, 3.9, 1.1], [5.9, 3.2, 4.8, 1.8], [6.1, 2.8, 4.0, 1.3],
    [6.3, 2.5, 4.9, 1.5], [6.1, 2.8, 4.7, 1.2], [6.4, 2.9, 4.3, 1.3], [6.6, 3.0, 4.4, 1.4], [6.8, 2.8, 4.8, 1.4], [6.7, 3.0, 5.0, 1.7],
    [6.0, 2.9, 4.5, 1.5], [5.7, 2.6, 3.5, 1.0], [5.5, 2.4, 3.8, 1.1], [5.5, 2.4, 3.7, 1.0], [5.8, 2.7, 3.9, 1.2], [6.0, 2.7, 5.1, 1.6],
    [5.4, 3.0, 4.5, 1.5], [6.0, 3.4, 4.5, 1.6], [6.7, 3.1, 4.7, 1.5], [6.3, 2.3, 4.4, 1.3], [5.6, 3.0, 4.1, 1.3], [5.5, 2.5, 4.0, 1.3],
    [5.5, 2.6, 4.4, 1.2], [6.1, 3.0, 4.6, 1.4], [5.8, 2.6, 4.0, 1.2], [5.0, 2.3, 3.3, 1.0], [5.6, 2.7, 4.2, 1.3], [5.7, 3.0, 4.2, 1.2],
    [5.7, 2.9, 4.2, 1.3], [6.2, 2.9, 4.3, 1.3], [5.1, 2.5, 3.0, 1.1], [5.7, 2.8, 4.1, 1.3], [6.3, 3.3, 6.0, 2.5], [5.8, 2.7, 5.1, 1.9],
    [7.1, 3.0, 5.9, 2.1], [6.3, 2.9, 5.6, 1.8], [6.5, 3.0, 5.8, 2.2], [7.6, 3.0, 6.6, 2.1], [4.9, 2.5, 4.5, 1.7], [7.3, 2.9, 6.3, 1.8],
    [6.7, 2.5, 5.8, 1.8], [7.2, 3.6, 6.1, 2.5], [6.5, 3.2, 5.1, 2.0], [6.4, 2.7, 5.3, 1.9], [6.8, 3.0, 5.5, 2.1], [5.7, 2.5, 5.0, 2.0],
    [5.8, 2.8, 5.1, 2.4], [6.4, 3.2, 5.3, 2.3], [6.5, 3.0, 5.5, 1.8], [7.7, 3.8, 6.7, 2.2], [7.7, 2.6, 6.9, 2.3], [6.0, 2.2, 5.0, 1.5],
    [6.9, 3.2, 5.7, 2.3], [5.6, 2.8, 4.9, 2.0], [7.7, 2.8, 6.7, 2.0], [6.3, 2.7, 4.9, 1.8], [6.7, 3.3, 5.7, 2.1], [7.2, 3.2, 6.0, 1.8],
    [6.2, 2.8, 4.8, 1.8], [6.1, 3.0, 4.9, 1.8], [6.4, 2.8, 5.6, 2.1], [7.2, 3.0, 5.8, 1.6], [7.4, 2.8, 6.1, 1.9], [7.9, 3.8, 6.4, 2.0],
    [6.4, 2.8, 5.6, 2.2], [6.3, 2.8, 5.1, 1.5], [6.1, 2.6, 5.6, 1.4], [7.7, 3.0, 6.1, 2.3], [6.3, 3.4, 5.6, 2.4], [6.4, 3.1, 5.5, 1.8],
    [6.0, 3.0, 4.8, 1.8], [6.9, 3.1, 5.4, 2.1], [6.7, 3.1, 5.6, 2.4], [6.9, 3.1, 5.1, 2.3], [5.8, 2.7, 5.1, 1.9], [6.8, 3.2, 5.9, 2.3],
    [6.7, 3.3, 5.7, 2.5], [6.7, 3.0, 5.2, 2.3], [6.3, 2.5, 5.0, 1.9], [6.5, 3.0, 5.2, 2.0], [6.2, 3.4, 5.4, 2.3], [5.9, 3.0, 5.1, 1.8],
];
/// The 31 black cherry trees of the Minitab handbook: diameter, height, volume.
const TREES: [[f64; 3]; 31] = [
    [8.3, 70.0, 10.3], [8.6, 65.0, 10.3], [8.8, 63.0, 10.2], [10.5, 72.0, 16.4], [10.7, 81.0, 18.8], [10.8, 83.0, 19.7],
    [11.0, 66.0, 15.6], [11.0, 75.0, 18.2], [11.1, 80.0, 22.6], [11.2, 75.0, 19.9], [11.3, 79.0, 24.2], [11.4, 76.0, 21.0],
    [11.4, 76.0, 21.4], [11.7, 69.0, 21.3], [12.0, 75.0, 19.1], [12.9, 74.0, 22.2], [12.9, 85.0, 33.8], [13.3, 86.0, 27.4],
    [13.7, 71.0, 25.7], [13.8, 64.0, 24.9], [14.0, 78.0, 34.5], [14.2, 80.0, 31.7], [14.5, 74.0, 36.3], [16.0, 72.0, 38.3],
    [16.3, 77.0, 42.6], [17.3, 81.0, 55.4], [17.5, 82.0, 55.7], [17.9, 80.0, 58.3], [18.0, 80.0, 51.5], [18.0, 80.0, 51.0],
    [20.6, 87.0, 77.0],
];
fn near(a: f64, b: f64, digits: i32) -> bool { (a - b).abs() <= 0.5001 * 10f64.powi(-digits) }

/// Loads one of the two and compares every value.
fn same(which: usize) -> R {
    if which == 0 {
        let d = iris::load();
        shape_is(d.data(), 150, 4, "iris")?;
        ensure!(d.target().size() == 150, "{} iris targets", d.target().size());
        for i in 0..150 { for j in 0..4 { ensure!(d.data()[[i, j]] == IRIS[i][j], "iris row {} column {} is {}, published {}", i, j, d.data()[[i, j]], IRIS[i][j]); } ensure!(d.target()[i] == i / 50, "iris row {} has class {}", i, d.target()[i]); }
    } else {
        let d = trees::load();
        shape_is(d.data(), 31, 2, "trees")?;
        ensure!(d.target().size() == 31, "{} tree targets", d.target().size());
        for i in 0..31 { for j in 0..2 { ensure!(d.data()[[i, j]] == TREES[i][j], "tree {} column {} is {}, published {}", i, j, d.data()[[i, j]], TREES[i][j]); } ensure!(d.target()[i] == TREES[i][2], "tree {} has volume {}", i, d.target()[i]); }
    }
    Ok(())
}
pub fn published() -> Property {
    let mut p = Property::new("C36");
    p.assume("the copies in the check are the published data: their means and deviations per species, and the regression of volume on diameter and height, are the published ones");
    p.add("cells", "every cell and target of both data sets equals the published one", |c| { let w = c.pick(2); c.note(format!("set {}", w)); c.op(); c.saw_f(&[w as f64]); same(w) });
    p.add("histories", "every history of up to 5 operations out of: load either set, change a clone of it, train a model on it: the next load gives the published data again, clones are independent", |c| {
        let len = c.range(1, c.tier(5, 6));
        let (mut i, mut t) = (iris::load(), trees::load());
        for _ in 0..len {
            c.op();
            match c.pick(6) {
                0 => { c.note("load iris"); i = iris::load(); }
                1 => { c.note("load trees"); t = trees::load(); }
                2 => { c.note("change clones of the iris data"); let k = i.clone(); let mut m = k.data().clone(); for v in m.mut_data() { *v += 1.0; } let mut y = k.target().clone(); y[3] = 7; ensure!(k.target()[3] == 0, "the target follows its clone"); }
                3 => { c.note("change clones of the tree data"); let k = t.clone(); let mut m = k.data().clone(); m.mut_data()[5] = 0.0; let mut y = k.target().clone(); y[0] = 0.0; ensure!(k.data().data()[5] == TREES[2][1], "the data follow their clone"); }
                4 => { c.note("train on trees"); LinRegressor::default().train(t.data(), t.target()).map_err(|e| format!("{}", e))?; }
                _ => { c.note("train on iris"); let y = Vector::new(i.target().data().iter().map(|v| *v as f64).collect::<Vec<f64>>()); LinRegressor::default().train(i.data(), &y).map_err(|e| format!("{}", e))?; }
            }
            same(0)?;
            same(1)?;
            for r in 0..150 { ensure!((0..4).all(|j| i.data()[[r, j]] == IRIS[r][j]) && i.target()[r] == r / 50, "iris row {} changed", r); }
            for r in 0..31 { ensure!((0..2).all(|j| t.data()[[r, j]] == TREES[r][j]) && t.target()[r] == TREES[r][2], "tree {} changed", r); }
            c.saw_f(&[i.data()[[0, 0]], t.data()[[0, 0]], 0.0]);
        }
        Ok(())
    });
    p.add("results", "published results on the data: means and deviations of each species, coefficients of volume on diameter and height, 144 of 150 flowers right under Gaussian naive Bayes", |c| {
        c.op();
        match c.pick(3) {
            0 => {
                let d = iris::load();
                let want = [[5.006, 3.418, 1.464, 0.244, 0.3525, 0.3810, 0.1735, 0.1072], [5.936, 2.770, 4.260, 1.326, 0.5162, 0.3138, 0.4699, 0.1978], [6.588, 2.974, 5.552, 2.026, 0.6359, 0.3225, 0.5519, 0.2747]];
                for s in 0..3 { for j in 0..4 {
                    let v: Vec<f64> = (0..150).filter(|i| d.target()[*i] == s).map(|i| d.data()[[i, j]]).collect();
                    let m = v.iter().sum::<f64>() / 50.0;
                    let sd = (v.iter().map(|x| (x - m) * (x - m)).sum::<f64>() / 49.0).sqrt();
                    ensure!(v.len() == 50 && near(m, want[s][j], 3) && near(sd, want[s][4 + j], 4), "species {} column {}: {} rows of mean {} and deviation {}, published {} and {}", s, j, v.len(), m, sd, want[s][j], want[s][4 + j]);
                } }
            }
            1 => {
                let d = trees::load();
                let mut m = LinRegressor::default();
                m.train(d.data(), d.target()).map_err(|e| format!("{}", e))?;
                let b = m.parameters().ok_or("no parameters")?;
                ensure!(near(b[0], -57.9877, 4) && near(b[1], 4.7082, 4) && near(b[2], 0.3393, 4), "coefficients {:?}, published -57.9877, 4.7082, 0.3393", b);
            }
            _ => {
                let d = iris::load();
                let y = mat(150, 3, (0..450).map(|i| (d.target()[i / 3] == i % 3) as u8 as f64).collect());
                let mut m = NaiveBayes::<Gaussian>::new();
                m.train(d.data(), &y).map_err(|e| format!("{}", e))?;
                let o = m.predict(d.data()).map_err(|e| format!("{}", e))?;
                let right = (0..150).filter(|i| o[[*i, d.target()[*i]]] == 1.0).count();
                ensure!(right == 144, "{} of 150 right, published 144", right);
            }
        }
        Ok(())
    });
    p
}
