//! C34 wrong data and untrained use, C35 retraining and pure prediction: all models.
use crate::bayes::one_hot;
use crate::util::*;
use mce::*;
use rusty_machine::learning::dbscan::DBSCAN;
use rusty_machine::learning::error::Error;
use rusty_machine::learning::glm::{self, GenLinearModel};
use rusty_machine::learning::gmm::{CovOption, GaussianMixtureModel};
use rusty_machine::learning::gp::{ConstMean, GaussianProcess};
use rusty_machine::learning::k_means::{Forgy, KMeansClassifier, KPlusPlus, RandomPartition};
use rusty_machine::learning::knn::{BallTree, BruteForce, KDTree, KNNClassifier};
use rusty_machine::learning::lin_reg::LinRegressor;
use rusty_machine::learning::logistic_reg::LogisticRegressor;
use rusty_machine::learning::naive_bayes::{Bernoulli, Gaussian, Multinomial, NaiveBayes};
use rusty_machine::learning::nnet::net_layer::Linear as LinLayer;
use rusty_machine::learning::nnet::{BCECriterion, MSECriterion, NeuralNet};
use rusty_machine::learning::optim::fmincg::ConjugateGD;
use rusty_machine::learning::optim::grad_desc::{GradientDesc, StochasticGD};
use rusty_machine::learning::pca::PCA;
use rusty_machine::learning::svm::SVM;
use rusty_machine::learning::toolkit::activ_fn::{Sigmoid, Tanh};
use rusty_machine::learning::toolkit::kernel::{Exponential, Linear, SquaredExp};
use rusty_machine::learning::{SupModel, UnSupModel};

type V = Vector<f64>;
/// A model with labels 0 and 1; predictions are numbers per row (none: NaN).
trait Model {
    fn train(&mut self, x: &M, y: &[usize]) -> Result<(), Error>;
    fn predict(&self, q: &M) -> Result<Rows, Error>;
}
struct Vec1<T>(T);
impl<T: SupModel<M, V>> Model for Vec1<T> {
    fn train(&mut self, x: &M, y: &[usize]) -> Result<(), Error> { self.0.train(x, &Vector::new(y.iter().map(|v| *v as f64).collect::<Vec<_>>())) }
    fn predict(&self, q: &M) -> Result<Rows, Error> { self.0.predict(q).map(|v| v.into_vec().into_iter().map(|x| vec![x]).collect()) }
}
struct Signed<T>(T);
impl<T: SupModel<M, V>> Model for Signed<T> {
    fn train(&mut self, x: &M, y: &[usize]) -> Result<(), Error> { self.0.train(x, &Vector::new(y.iter().map(|v| *v as f64 * 2.0 - 1.0).collect::<Vec<_>>())) }
    fn predict(&self, q: &M) -> Result<Rows, Error> { self.0.predict(q).map(|v| v.into_vec().into_iter().map(|x| vec![x]).collect()) }
}
struct Class<T>(T);
impl<T: SupModel<M, Vector<usize>>> Model for Class<T> {
    fn train(&mut self, x: &M, y: &[usize]) -> Result<(), Error> { self.0.train(x, &Vector::new(y.to_vec())) }
    fn predict(&self, q: &M) -> Result<Rows, Error> { self.0.predict(q).map(|v| v.into_vec().into_iter().map(|x| vec![x as f64]).collect()) }
}
struct Hot<T>(T);
impl<T: SupModel<M, M>> Model for Hot<T> {
    fn train(&mut self, x: &M, y: &[usize]) -> Result<(), Error> { self.0.train(x, &one_hot(y, 2)) }
    fn predict(&self, q: &M) -> Result<Rows, Error> { self.0.predict(q).map(|m| to_rows(&m)) }
}
struct Un<T>(T);
impl<T: UnSupModel<M, M>> Model for Un<T> {
    fn train(&mut self, x: &M, _: &[usize]) -> Result<(), Error> { self.0.train(x) }
    fn predict(&self, q: &M) -> Result<Rows, Error> { self.0.predict(q).map(|m| to_rows(&m)) }
}
struct Cluster<T>(T);
impl<T: UnSupModel<M, Vector<usize>>> Model for Cluster<T> {
    fn train(&mut self, x: &M, _: &[usize]) -> Result<(), Error> { self.0.train(x) }
    fn predict(&self, q: &M) -> Result<Rows, Error> { self.0.predict(q).map(|v| v.into_vec().into_iter().map(|x| vec![x as f64]).collect()) }
}
struct Maybe<T>(T);
impl<T: UnSupModel<M, Vector<Option<usize>>>> Model for Maybe<T> {
    fn train(&mut self, x: &M, _: &[usize]) -> Result<(), Error> { self.0.train(x) }
    fn predict(&self, q: &M) -> Result<Rows, Error> { self.0.predict(q).map(|v| v.into_vec().into_iter().map(|x| vec![x.map_or(-1.0, |x| x as f64)]).collect()) }
}
struct ByGd(LinRegressor);
impl Model for ByGd {
    fn train(&mut self, x: &M, y: &[usize]) -> Result<(), Error> { self.0.train_with_optimization(x, &Vector::new(y.iter().map(|v| *v as f64).collect::<Vec<_>>())); Ok(()) }
    fn predict(&self, q: &M) -> Result<Rows, Error> { self.0.predict(q).map(|v| v.into_vec().into_iter().map(|x| vec![x]).collect()) }
}
const NAMES: [&str; 32] = ["LinRegressor", "LogisticRegressor", "GLM Normal", "GLM Bernoulli", "GLM Poisson", "SVM linear", "SVM squared exponential", "GaussianProcess", "NaiveBayes Gaussian", "NaiveBayes Bernoulli", "NaiveBayes Multinomial",
    "KNN kd-tree", "KNN ball-tree", "KNN brute force", "KMeans k-means++", "KMeans Forgy", "KMeans random partition", "DBSCAN", "GMM full", "GMM regularized", "GMM diagonal", "PCA", "PCA 1 component", "PCA uncentred", "KNN default", "NeuralNet", "LinRegressor by optimisation", "LogisticRegressor by conjugate gradients", "NeuralNet with two layers", "GaussianProcess exponential", "SVM long", "PCA 2 components uncentred"];
const SUPERVISED: usize = 14;
fn supervised(i: usize) -> bool { i < SUPERVISED || (24..=30).contains(&i) }
fn net(i: usize) -> bool { i == 25 || i == 28 }
fn make(i: usize) -> Box<dyn Model> {
    match i {
        0 => Box::new(Vec1(LinRegressor::default())),
        1 => Box::new(Vec1(LogisticRegressor::new(GradientDesc::new(0.1, 20)))),
        2 => Box::new(Vec1(GenLinearModel::new(glm::Normal))),
        3 => Box::new(Vec1(GenLinearModel::new(glm::Bernoulli))),
        24 => Box::new(Class(KNNClassifier::default())),
        4 => Box::new(Vec1(GenLinearModel::new(glm::Poisson))),
        5 => Box::new(Signed({ let mut s = SVM::new(Linear::default(), 0.3); s.optim_iters = 8; s })),
        6 => Box::new(Signed({ let mut s = SVM::new(SquaredExp::default(), 0.3); s.optim_iters = 8; s })),
        7 => Box::new(Vec1(GaussianProcess::new(SquaredExp::default(), ConstMean::default(), 0.1))),
        8 => Box::new(Hot(NaiveBayes::<Gaussian>::new())),
        9 => Box::new(Hot(NaiveBayes::<Bernoulli>::new())),
        10 => Box::new(Hot(NaiveBayes::<Multinomial>::new())),
        11 => Box::new(Class(KNNClassifier::new_specified(2, KDTree::new(1)))),
        12 => Box::new(Class(KNNClassifier::new_specified(2, BallTree::new(1)))),
        13 => Box::new(Class(KNNClassifier::new_specified(1, BruteForce::new()))),
        14 => Box::new(Cluster(KMeansClassifier::new_specified(2, 5, KPlusPlus))),
        15 => Box::new(Cluster(KMeansClassifier::new_specified(2, 5, Forgy))),
        16 => Box::new(Cluster(KMeansClassifier::new_specified(2, 5, RandomPartition))),
        17 => Box::new(Maybe({ let mut d = DBSCAN::new(1.3, 2); d.set_predictive(true); d })),
        18 => Box::new(Un({ let mut g = GaussianMixtureModel::new(2); g.set_max_iters(4); g.cov_option = CovOption::Regularized(0.5); g })),
        19 => Box::new(Un({ let mut g = GaussianMixtureModel::new(1); g.set_max_iters(2); g.cov_option = CovOption::Full; g })),
        20 => Box::new(Un({ let mut g = GaussianMixtureModel::new(2); g.set_max_iters(1); g.cov_option = CovOption::Diagonal; g })),
        21 => Box::new(Un(PCA::default())),
        22 => Box::new(Un(PCA::new(1, true))),
        23 => Box::new(Un(PCA::new(1, false))),
        26 => Box::new(ByGd(LinRegressor::default())),
        27 => Box::new(Vec1(LogisticRegressor::new(ConjugateGD { iters: 5, ..Default::default() }))),
        28 => Box::new(Hot(NeuralNet::mlp(&[2, 5, 2], BCECriterion::default(), StochasticGD::new(0.1, 0.1, 2), Sigmoid))),
        29 => Box::new(Vec1(GaussianProcess::new(Exponential::default(), ConstMean::default(), 0.2))),
        30 => Box::new(Signed({ let mut s = SVM::new(SquaredExp::default(), 0.3); s.optim_iters = 100; s })),
        31 => Box::new(Un(PCA::new(2, false))),
        _ => Box::new(Hot({ let mut n = NeuralNet::new(MSECriterion::default(), GradientDesc::new(0.05, 3)); n.add(Box::new(LinLayer::new(2, 2))).add(Box::new(Tanh)); n })),
    }
}
fn show_rows(r: &Result<Result<Rows, Error>, String>) -> String { match r { Ok(Ok(r)) => format!("{:?}", r), Ok(Err(e)) => format!("error {:?}", e.kind()), Err(p) => format!("panic {}", p) } }
fn table(n: usize, d: usize) -> M { mat(n, d, (0..n * d).map(|i| [0.0, 1.0, 1.0, 3.0, 2.0, 0.0, 5.0, 1.0][(i * 5 + i / 3) % 8]).collect()) }
fn labels(n: usize) -> Vec<usize> { (0..n).map(|i| (i * 2 + i / 2) % 2).collect() }

pub fn wrong_data() -> Property {
    let mut p = Property::new("C34");
    p.assume("an error and a panic both count as rejection here; where only an error is right, the property of the model says so");
    p.add("untrained", "30 model set-ups: predicting 1..=3 rows of 1..=3 columns, or up to 1000 rows or 70 columns, without training is an error", |c| {
        let i = c.pick(NAMES.len());
        if net(i) { return Ok(()); }
        let (n, d) = if c.bool() { (c.range(1, 3), c.range(1, 3)) } else { c.of(&[(1usize, 70usize), (5, 5), (64, 2), (33, 17), (256, 1), (1000, 3)]) };
        c.note(format!("{} {}x{}", NAMES[i], n, d));
        c.op();
        let m = make(i);
        let r = guard(|| m.predict(&table(n, d)));
        c.saw(&(i, show_rows(&r)));
        ensure!(matches!(r, Ok(Err(_))), "an untrained model gives {}", show_rows(&r));
        Ok(())
    });
    p.add("targets", "20 supervised set-ups: training on 1..=4 rows of 1..=2 columns with any other number of targets 0..=6 is rejected and leaves an untrained model untrained and a trained one as it was", |c| {
        let i = c.pick(NAMES.len());
        if !supervised(i) { return Ok(()); }
        let (n, d) = (c.range(1, 4), if net(i) { 2 } else { c.range(1, 2) });
        let t = c.range(0, 6);
        if t == n { return Ok(()); }
        let before = c.bool();
        let def = c.of(&[Default_::Zero, Default_::Max, Default_::Half, Default_::Cycle]);
        c.note(format!("{} {} rows of {} columns, {} targets, trained before {}", NAMES[i], n, d, t, before));
        c.ops(3);
        let mut res = Ok(());
        let seen = std::cell::RefCell::new(vec![]);
        c.deviations(def, 0, || -> R {
            let mut m = make(i);
            let q = table(2, d);
            if before { let y = [0, 1, 1, 0]; if guard(|| m.train(&table(4, d), &y)).map_or(true, |r| r.is_err()) { return Ok(()); } }
            let p = guard(|| m.predict(&q));
            let r = guard(|| m.train(&table(n, d), &labels(t)));
            ensure!(!matches!(r, Ok(Ok(()))), "{} targets for {} rows are accepted", t, n);
            // a panic may leave anything behind
            if r.is_err() { return Ok(()); }
            let p2 = guard(|| m.predict(&q));
            seen.borrow_mut().push(show_rows(&p2));
            ensure!(show_rows(&p) == show_rows(&p2), "answers {} before and {} after the rejected training", show_rows(&p), show_rows(&p2));
            Ok(())
        }, |r| { res = r; Ok(()) })?;
        for s in seen.into_inner() { c.saw(&(i, s)); }
        res
    });
    p.add("columns", "32 set-ups: after training on 4 or 5 rows of 1..=3 columns, predicting 1..=2 rows with another number of columns 1..=4 is rejected", |c| {
        let i = c.pick(NAMES.len());
        let (n, d) = (c.range(4, 5), if net(i) { 2 } else { c.range(1, 3) });
        let w = c.range(1, 4);
        let qn = c.range(1, 2);
        if w == d { return Ok(()); }
        let def = c.of(&[Default_::Zero, Default_::Max, Default_::Half, Default_::Cycle]);
        c.note(format!("{} trained on {}x{}, predicts {}x{}", NAMES[i], n, d, qn, w));
        c.ops(2);
        let mut res = Ok(());
        let seen = std::cell::RefCell::new(vec![]);
        c.deviations(def, 0, || -> R {
            let mut m = make(i);
            if guard(|| m.train(&table(n, d), &labels(n))).map_or(true, |r| r.is_err()) { return Ok(()); }
            let r = guard(|| m.predict(&table(qn, w)));
            seen.borrow_mut().push(format!("{} {}", d, show_rows(&r)));
            // nothing but a debug assertion would stop it
            if i == 17 { ensure!(matches!(r, Ok(Err(_))), "a model for {} columns answers rows of {} columns with {}", d, w, show_rows(&r)); }
            ensure!(!matches!(r, Ok(Ok(_))), "a model for {} columns maps rows of {} columns to {}", d, w, show_rows(&r));
            Ok(())
        }, |r| { res = r; Ok(()) })?;
        for s in seen.into_inner() { c.saw(&(i, s)); }
        res
    });
    p.add("larger", "32 set-ups, 12 to 300 rows of 2 to 20 columns: wrong numbers of targets (0, 1, n/2, n-1, n+1, 2n, one per cell) are rejected without changing the model, then wrong numbers of columns (1 to 64 more, also with as many cells as fit) in batches of 1 to 300 rows are rejected, and the right number still gets the same answers", |c| {
        let i = c.pick(NAMES.len());
        let (n, d) = c.of(if net(i) { &[(12usize, 2usize), (65, 2), (300, 2)][..] } else { &[(12, 4), (65, 2), (40, 20), (300, 3)] });
        let t = c.of(&[0, 1, n / 2, n - 1, n + 1, 2 * n, n * d]);
        let (w, qn) = c.of(&[(d - 1, 3), (d + 1, 3), (d * 2, 1), (d + 64, 2), (1, d), (d - 1, 300), (d / 2, 2), (d * 3, 65)]);
        if w == d || w == 0 { return Ok(()); }
        let def = c.of(&[Default_::Zero, Default_::Cycle]);
        c.note(format!("{} trained on {}x{}, then with {} targets, predicts {}x{}", NAMES[i], n, d, t, qn, w));
        c.ops(4);
        let mut res = Ok(());
        let seen = std::cell::RefCell::new(vec![]);
        c.deviations(def, 0, || -> R {
            let mut m = make(i);
            let x = mat(n, d, (0..n * d).map(|k| ((k * 37 + k / d * 11 + k * k / 7) % 19) as f64 * 0.25).collect());
            let q = table(7, d);
            if guard(|| m.train(&x, &labels(n))).map_or(true, |r| r.is_err()) { return Ok(()); }
            let before = show_rows(&guard(|| m.predict(&q)));
            if supervised(i) && t != n {
                let r = guard(|| m.train(&x, &labels(t)));
                ensure!(!matches!(r, Ok(Ok(()))), "{} targets for {} rows are accepted", t, n);
                if r.is_err() { m = make(i); restart_random(); m.train(&x, &labels(n)).map_err(|e| format!("{}", e))?; }
            }
            let after = show_rows(&guard(|| m.predict(&q)));
            if !net(i) && i != 17 { ensure!(before == after, "answers {} before and {} after the rejected training", before, after); }
            let r = guard(|| m.predict(&table(qn, w)));
            seen.borrow_mut().push(after.clone());
            if i == 17 { ensure!(matches!(r, Ok(Err(_))), "a model for {} columns answers rows of {} columns", d, w); }
            ensure!(!matches!(r, Ok(Ok(_))), "a model for {} columns maps rows of {} columns to {}", d, w, show_rows(&r));
            let last = show_rows(&guard(|| m.predict(&q)));
            ensure!(last == after, "answers {} before and {} after the rejected query", after, last);
            Ok(())
        }, |r| { res = r; Ok(()) })?;
        for s in seen.into_inner() { c.saw(&(i, s)); }
        res
    });
    p.add("errors", "errors of every kind and from every linear algebra error: they keep their kind and show the message they were made with", |c| {
        use rusty_machine::learning::error::ErrorKind as K;
        use rulinalg::error::{Error as LE, ErrorKind as LK};
        let msg = c.of(&["", "x", "Number of rows differ", "ends with a newline\n", "{} %s \u{e9}"]);
        c.op();
        let i = c.pick(12);
        let (e, want) = match i {
            0 => (Error::new(K::InvalidParameters, msg), "InvalidParameters"),
            1 => (Error::new(K::InvalidData, msg), "InvalidData"),
            2 => (Error::new(K::InvalidState, msg.to_string()), "InvalidState"),
            3 => (Error::new(K::UntrainedModel, msg), "UntrainedModel"),
            4 => (Error::new(K::LinearAlgebra, Box::<dyn std::error::Error + Send + Sync>::from(msg)), "LinearAlgebra"),
            5 => (Error::new(K::InvalidData, Error::new(K::InvalidState, msg)), "InvalidData"),
            6 => (Error::new_untrained(), "UntrainedModel"),
            j => (Error::from(LE::new([LK::InvalidArg, LK::InvalidState, LK::DecompFailure, LK::AlgebraFailure, LK::DivByZero][j - 7], msg)), "LinearAlgebra"),
        };
        c.note(format!("{} {:?}", i, msg));
        ensure!(format!("{:?}", e.kind()) == want, "kind {:?}, expected {}", e.kind(), want);
        let shown = format!("{}", e);
        if i == 6 { ensure!(!shown.is_empty(), "no message"); } else { ensure!(shown == msg, "shows {:?}, made with {:?}", shown, msg); }
        fn sendable<T: Send + Sync>(_: &T) {}
        sendable(&e);
        c.saw(&(i, shown));
        Ok(())
    });
    p
}

fn sets(j: usize) -> (M, Vec<usize>) {
    match j {
        0 => (mat(4, 2, vec![0.0, 1.0, 1.0, 0.0, 3.0, 2.0, 2.0, 5.0]), vec![0, 0, 1, 1]),
        1 => (mat(6, 2, vec![4.0, 0.0, 4.0, 1.0, 0.0, 0.0, 1.0, 1.0, 0.0, 2.0, 2.0, 0.0]), vec![1, 0, 0, 1, 1, 0]),
        2 => (mat(5, 3, vec![1.0, 0.0, 2.0, 0.0, 1.0, 0.0, 3.0, 1.0, 1.0, 2.0, 2.0, 5.0, 0.0, 0.0, 1.0]), vec![1, 0, 1, 1, 0]),
        3 => (mat(3, 1, vec![0.0, 1.0, 5.0]), vec![0, 1, 0]),
        _ => (mat(1, 2, vec![2.0, 2.0]), vec![1]),
    }
}
fn query(d: usize) -> M { mat(4, d, (0..4 * d).map(|i| [0.0, 2.0, 1.0, 4.0, 1.0][(i * 3 + i / 4) % 5]).collect()) }
pub fn retraining() -> Property {
    let mut p = Property::new("C35");
    p.assume("neural networks, which continue from their weights by design, are left out of the comparison with a fresh model; after a panicking training nothing is expected");
    p.add("retrain", "30 set-ups x every history of up to 3 (thorough 4) trainings on 5 data sets (different sizes, widths, labellings, a single row) or with wrong targets, four default random choices: answers after the history equal those of a fresh model trained on the last accepted data only", |c| {
        let i = c.pick(32);
        if net(i) { return Ok(()); }
        let len = c.range(1, c.tier(3, 4));
        let ops: Vec<usize> = (0..len).map(|_| c.pick(if supervised(i) { 6 } else { 5 })).collect();
        let def = c.of(&[Default_::Zero, Default_::Max, Default_::Half, Default_::Cycle]);
        c.note(format!("{} {:?} {:?}", NAMES[i], ops, def));
        c.ops(len as u64 + 2);
        let mut res = Ok(());
        let seen = std::cell::RefCell::new(vec![]);
        c.deviations(def, 0, || -> R {
            let mut m = make(i);
            let mut now = None;
            for op in &ops {
                let (x, y) = if *op == 5 { (sets(0).0, vec![1]) } else { sets(*op) };
                restart_random();
                match guard(|| m.train(&x, &y)) { Err(_) => return Ok(()), Ok(Ok(())) => now = Some(*op), Ok(Err(_)) => {} }
            }
            let d = now.map_or(2, |s| sets(s).0.cols());
            let got = guard(|| m.predict(&query(d)));
            let mut f = make(i);
            if let Some(s) = now { let (x, y) = sets(s); restart_random(); f.train(&x, &y).map_err(|e| format!("a fresh model rejects set {}: {}", s, e))?; }
            let want = guard(|| f.predict(&query(d)));
            let ok = match (&got, &want) { (Ok(Ok(a)), Ok(Ok(b))) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| close_all(a, b, 1e-9)), (Ok(Err(a)), Ok(Err(b))) => format!("{:?}", a.kind()) == format!("{:?}", b.kind()), (Err(_), Err(_)) => true, _ => false };
            ensure!(ok, "{} after the history, {} of a fresh model", show_rows(&got), show_rows(&want));
            seen.borrow_mut().push(show_rows(&got));
            Ok(())
        }, |r| { res = r; Ok(()) })?;
        for s in seen.into_inner() { c.saw(&(i, s)); }
        res
    });
    p.add("pure", "32 set-ups trained on 4 data sets: every sequence of 1..=3 out of 4 query rows, predicted together, twice, and row by row in any order, gives the same answer per row", |c| {
        let i = c.pick(32);
        let s = c.pick(5);
        let (x, y) = sets(s);
        let d = x.cols();
        if net(i) && d != 2 { return Ok(()); }
        let n = c.range(1, 3);
        let pick: Vec<usize> = (0..n).map(|_| c.pick(4)).collect();
        let def = c.of(&[Default_::Zero, Default_::Max, Default_::Half, Default_::Cycle]);
        c.note(format!("{} set {} rows {:?}", NAMES[i], s, pick));
        c.ops(6 + n as u64);
        let all = to_rows(&query(d));
        let mut res = Ok(());
        let seen = std::cell::RefCell::new(vec![]);
        c.deviations(def, 0, || -> R {
            let mut m = make(i);
            if guard(|| m.train(&x, &y)).map_or(true, |r| r.is_err()) { return Ok(()); }
            let f = |idx: &[usize]| -> Result<Rows, String> { m.predict(&from_rows(&idx.iter().map(|k| all[*k].clone()).collect::<Rows>(), d)).map_err(|e| format!("{:?}", e.kind())) };
            let base: Vec<Result<Rows, String>> = (0..4).map(|k| f(&[k])).collect();
            for _ in 0..2 {
                let got = f(&pick);
                if pick.iter().any(|k| base[*k].is_err()) { ensure!(got.is_err(), "rows {:?} give {:?}, some of them alone fail", pick, got); continue; }
                seen.borrow_mut().push(format!("{:?}", got));
                let got = got.map_err(|e| format!("rows that have answers alone give {} together", e))?;
                ensure!(got.len() == n, "{} answers for {} rows", got.len(), n);
                for (k, g) in pick.iter().zip(&got) { let b = &base[*k].as_ref().unwrap()[0]; ensure!(close_all(b, g, 1e-9), "row {} gives {:?} among {:?} and {:?} alone", k, g, pick, b); }
            }
            Ok(())
        }, |r| { res = r; Ok(()) })?;
        for s in seen.into_inner() { c.saw(&(i, s)); }
        res
    });
    p.add("two models", "32 set-ups, two models trained on data that agree except for one thing (a mirrored, shifted or scaled column, swapped columns, one cell, flipped labels, reversed rows), asked in turn for 1 to 40 rows, then trained on each other's data: each answers as it does when it is the only one", |c| {
        let i = c.pick(32);
        let n = c.of(&[6usize, 12, 40]);
        let what = c.pick(10);
        let rows = c.of(&[1usize, 4, 9, 40]);
        let d = 2;
        let (xa, ya) = (big(n, d, 1), big_labels(n, 1));
        let (mut xb, mut yb) = (xa.clone(), ya.clone());
        for r in 0..n { match what {
            0 => xb[[r, 1]] = 3.0 - xb[[r, 1]],
            1 => xb[[r, 0]] = 3.0 - xb[[r, 0]],
            2 => xb[[r, 1]] += 1.25,
            3 => xb[[r, 1]] *= 2.5,
            4 => { let t = xb[[r, 0]]; xb[[r, 0]] = xb[[r, 1]]; xb[[r, 1]] = t; }
            5 => if r == n / 2 { xb[[r, 1]] += 9.0 },
            6 => if r + 1 == n { xb[[r, 0]] -= 5.0 },
            7 => yb[r] = 1 - yb[r],
            8 => if r == n / 3 { yb[r] = 1 - yb[r] },
            _ => for j in 0..d { xb[[r, j]] = xa[[n - 1 - r, j]]; },
        } }
        if what == 9 { yb.reverse(); }
        c.note(format!("{} {} rows, change {}, {} queries", NAMES[i], n, what, rows));
        c.ops(12);
        let q = big(rows, d, 5);
        let mut res = Ok(());
        let seen = std::cell::RefCell::new(vec![]);
        c.deviations(Default_::Cycle, 0, || -> R {
            let train = |x: &M, y: &[usize]| -> Result<_, String> { let mut m = make(i); restart_random(); guard(|| m.train(x, y))?.map_err(|e| format!("{:?}", e.kind()))?; Ok(m) };
            // other rows in between make sure that each answers from nothing but its own training
            let ask = |m: &dyn Model, q: &M| -> Result<Rows, String> { guard(|| m.predict(q))?.map_err(|e| format!("{:?}", e.kind())) };
            let (mut a, mut b) = match (train(&xa, &ya), train(&xb, &yb)) { (Ok(a), Ok(b)) => (a, b), _ => return Ok(()) };
            let alone: Vec<Result<Rows, String>> = [&a, &b].iter().map(|m| { let mut all = vec![]; for r in to_rows(&q) { all.extend(ask(&***m, &from_rows(&[r], d))?); } Ok(all) }).collect();
            let same = |g: &Result<Rows, String>, w: &Result<Rows, String>| match (g, w) { (Ok(g), Ok(w)) => g.len() == w.len() && g.iter().zip(w).all(|(g, w)| close_all(g, w, 1e-9)), (Err(_), Err(_)) => true, _ => false };
            for t in 0..4 {
                let (g, w) = if t % 2 == 0 { (ask(&*a, &q), &alone[0]) } else { (ask(&*b, &q), &alone[1]) };
                ensure!(same(&g, w), "asked in turn, model {} gives {:?}, its rows alone {:?}", t % 2, g, w);
            }
            if !net(i) {
                restart_random();
                guard(|| a.train(&xb, &yb))?.map_err(|e| format!("training a on the data of b: {:?}", e.kind()))?;
                restart_random();
                guard(|| b.train(&xa, &ya))?.map_err(|e| format!("training b on the data of a: {:?}", e.kind()))?;
                for t in 0..4 {
                    let (g, w) = if t % 2 == 0 { (ask(&*a, &q), &alone[1]) } else { (ask(&*b, &q), &alone[0]) };
                    ensure!(same(&g, w), "after exchanging data model {} gives {:?}, expected {:?}", t % 2, g, w);
                }
            }
            seen.borrow_mut().push(format!("{:?}", alone));
            Ok(())
        }, |r| { res = r; Ok(()) })?;
        for s in seen.into_inner() { c.saw(&(i, s)); }
        res
    });
    p
}

/// Patterned rows, hardly two of them equal.
fn big(n: usize, d: usize, seed: usize) -> M {
    mat(n, d, (0..n * d).map(|i| { let (r, j) = (i / d + 1, i % d + 1); ((r * r * (3 + j) + r * (11 * j + seed) + seed * 7) % 1009) as f64 / 1009.0 * 3.0 + ((r + seed) % 2) as f64 * 0.7 }).collect())
}
fn big_labels(n: usize, seed: usize) -> Vec<usize> { (0..n).map(|i| ((i + seed) % 2 + (i * i + seed) % 7 / 5) % 2).collect() }
/// Answers of a batch of any size are those of the rows alone, and training again on data of any size forgets the earlier data.
pub fn in_bulk(p: &mut Property, models: &'static [usize]) {
    p.add("batches", "every set-up of the model trained on 12 (thorough 130) rows: in batches of 1..=4097 rows each row gets the answer it gets alone, twice", move |c| {
        let i = c.of(models);
        let n = c.of(&[2usize, 31, 100, 257, 513, 600, 1025, 4097]);
        let m0 = c.tier(12, 130);
        let d = 2;
        let (x, y) = (big(m0, d, 1), big_labels(m0, 1));
        c.note(format!("{} batch of {}", NAMES[i], n));
        c.ops(n as u64 + 2);
        let mut q = to_rows(&big(n, d, 5));
        for k in 0..n { if k % 3 == 1 { for v in q[k].iter_mut() { *v = -*v; } } else if k % 5 == 4 { q[k][0] *= -0.5; } }
        let mut res = Ok(());
        let seen = std::cell::RefCell::new(vec![]);
        c.deviations(Default_::Cycle, 0, || -> R {
            let mut m = make(i);
            m.train(&x, &y).map_err(|e| format!("train: {:?}", e.kind()))?;
            for _ in 0..2 {
                let all = m.predict(&from_rows(&q, d)).map_err(|e| format!("predict: {:?}", e.kind()))?;
                ensure!(all.len() == n, "{} answers for {} rows", all.len(), n);
                // all rows of small batches, those of the ends and every third in between of larger ones
                for k in (0..n).filter(|k| n < 300 || *k < 20 || *k + 20 > n || k % 64 < 2 || k % 37 == 0) {
                    let one = m.predict(&from_rows(&q[k..k + 1], d)).map_err(|e| format!("predict: {:?}", e.kind()))?;
                    ensure!(one.len() == 1 && close_all(&one[0], &all[k], 1e-9), "row {} of {} gives {:?}, alone {:?}", k, n, all[k], one);
                }
                seen.borrow_mut().push(format!("{:?}", all[n - 1]));
            }
            Ok(())
        }, |r| { res = r; Ok(()) })?;
        for s in seen.into_inner() { c.saw(&(i, s)); }
        res
    });
    p.add("trained again", "every set-up of the model (but neural networks) trained on 2..=300 rows and then on other 2..=300 rows of the same or another number of columns, with and without predicting in between: it answers as a fresh model trained on the second data", move |c| {
        let i = c.of(models);
        if net(i) { return Ok(()); }
        let (a, b) = (c.of(&[3usize, 9, 17, 40, 130, 300]), c.of(&[3usize, 9, 17, 40, 130, 300]));
        let (da, db) = (c.range(1, 2), 2);
        let between = c.bool();
        c.note(format!("{} {} rows of {}, then {} of {}", NAMES[i], a, da, b, db));
        c.ops(4);
        let q = big(7, db, 5);
        let mut res = Ok(());
        let seen = std::cell::RefCell::new(vec![]);
        c.deviations(Default_::Cycle, 0, || -> R {
            let mut m = make(i);
            if guard(|| m.train(&big(a, da, 2), &big_labels(a, 2))).map_or(true, |r| r.is_err()) { return Ok(()); }
            if between { let _ = guard(|| m.predict(&big(7, da, 5))); }
            restart_random();
            let r = guard(|| m.train(&big(b, db, 3), &big_labels(b, 3)))?.map_err(|e| format!("{:?}", e.kind()));
            let mut f = make(i);
            restart_random();
            let w = guard(|| f.train(&big(b, db, 3), &big_labels(b, 3)))?.map_err(|e| format!("{:?}", e.kind()));
            ensure!(r == w, "training again gives {:?}, training afresh {:?}", r, w);
            if w.is_err() { return Ok(()); }
            let (g, w) = (m.predict(&q).map_err(|e| format!("{:?}", e.kind()))?, f.predict(&q).map_err(|e| format!("{:?}", e.kind()))?);
            ensure!(g.len() == w.len() && g.iter().zip(&w).all(|(a, b)| close_all(a, b, 1e-9)), "trained again: {:?}, fresh: {:?}", g, w);
            seen.borrow_mut().push(format!("{:?}", g));
            Ok(())
        }, |r| { res = r; Ok(()) })?;
        for s in seen.into_inner() { c.saw(&(i, s)); }
        res
    });
}
