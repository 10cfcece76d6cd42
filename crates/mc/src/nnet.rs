//! Neural networks: C24 gradients and layout, C25 training.
use crate::util::*;
use mce::*;
use rusty_machine::learning::error::Error;
use rusty_machine::learning::nnet::net_layer::{self, NetLayer};
use rusty_machine::learning::nnet::{BCECriterion, BaseNeuralNet, Criterion, MSECriterion, NeuralNet};
use rusty_machine::learning::optim::fmincg::ConjugateGD;
use rusty_machine::learning::optim::grad_desc::{AdaGrad, GradientDesc, RMSProp, StochasticGD};
use rusty_machine::learning::optim::{OptimAlgorithm, Optimizable};
use rusty_machine::linalg::MatrixSlice;
use rusty_machine::learning::toolkit::activ_fn;
use rusty_machine::learning::toolkit::cost_fn::{CrossEntropyError, MeanSqError};
use rusty_machine::learning::toolkit::regularization::Regularization;
use rusty_machine::learning::SupModel;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Layer { Lin(usize, usize), Nob(usize, usize), Sig, Tanh, Id, Exp }
use self::Layer::*;
impl Layer {
    fn make(self) -> Box<dyn NetLayer> { match self { Lin(a, b) => Box::new(net_layer::Linear::new(a, b)), Nob(a, b) => Box::new(net_layer::Linear::without_bias(a, b)), Sig => Box::new(activ_fn::Sigmoid), Tanh => Box::new(activ_fn::Tanh), Id => Box::new(activ_fn::Linear), Exp => Box::new(activ_fn::Exp) } }
    fn shape(self) -> (usize, usize) { match self { Lin(a, b) => (a + 1, b), Nob(a, b) => (a, b), _ => (0, 0) } }
    fn params(self) -> usize { self.shape().0 * self.shape().1 }
}
/// A number with the derivatives with respect to every weight.
#[derive(Clone, Debug)]
struct D { v: f64, d: Vec<f64> }
impl D {
    fn c(v: f64, n: usize) -> D { D { v, d: vec![0.0; n] } }
    fn map(&self, v: f64, k: f64) -> D { D { v, d: self.d.iter().map(|x| x * k).collect() } }
    fn add_mul(&mut self, a: &D, b: &D) { self.v += a.v * b.v; for i in 0..self.d.len() { self.d[i] += a.v * b.d[i] + a.d[i] * b.v; } }
}
fn forward(arch: &[Layer], w: &[f64], x: &[f64]) -> Vec<D> {
    let n = w.len();
    let wd: Vec<D> = (0..n).map(|i| { let mut d = D::c(w[i], n); d.d[i] = 1.0; d }).collect();
    let mut a: Vec<D> = x.iter().map(|v| D::c(*v, n)).collect();
    let mut at = 0;
    for l in arch {
        a = match *l {
            Lin(_, o) | Nob(_, o) => {
                let mut inp = a;
                if let Lin(..) = *l { inp.insert(0, D::c(1.0, n)); }
                (0..o).map(|j| { let mut s = D::c(0.0, n); for (i, v) in inp.iter().enumerate() { s.add_mul(v, &wd[at + i * o + j]); } s }).collect()
            }
            Sig => a.iter().map(|x| { let y = 1.0 / (1.0 + (-x.v).exp()); x.map(y, y * (1.0 - y)) }).collect(),
            Tanh => a.iter().map(|x| { let y = x.v.tanh(); x.map(y, 1.0 - y * y) }).collect(),
            Id => a,
            Exp => a.iter().map(|x| x.map(x.v.exp(), x.v.exp())).collect(),
        };
        at += l.params();
    }
    a
}
/// Cost of one row and its derivatives; None outside the domain of the cross entropy.
fn row_cost(bce: bool, arch: &[Layer], w: &[f64], x: &[f64], t: &[f64]) -> Option<(f64, Vec<f64>)> {
    let o = forward(arch, w, x);
    let (mut c, mut g) = (0.0, vec![0.0; w.len()]);
    for (o, t) in o.iter().zip(t) {
        let k = if bce {
            if !(o.v > 1e-9 && o.v < 1.0 - 1e-9) { return None; }
            c -= t * o.v.ln() + (1.0 - t) * (1.0 - o.v).ln();
            (o.v - t) / (o.v * (1.0 - o.v))
        } else { c += 0.5 * (o.v - t) * (o.v - t); o.v - t };
        for i in 0..g.len() { g[i] += k * o.d[i]; }
    }
    Some((c, g))
}
fn width(arch: &[Layer]) -> (usize, usize) {
    let mut first = None;
    let mut last = 0;
    for l in arch { if let Lin(a, b) | Nob(a, b) = *l { if first.is_none() { first = Some(a); } last = b; } }
    (first.unwrap_or(2), if first.is_some() { last } else { 2 })
}
fn total(arch: &[Layer]) -> usize { arch.iter().map(|l| l.params()).sum() }
/// An optimizer that evaluates the model at some points and returns a fixed answer; later calls may delegate.
#[derive(Clone)]
struct Spy { answer: Vec<f64>, points: Rows, starts: Rc<RefCell<Rows>>, data: Rc<RefCell<Vec<(Rows, Rows)>>>, grads: Rc<RefCell<Vec<(f64, Vec<f64>)>>> }
impl Spy { fn new(answer: Vec<f64>, points: Rows) -> Spy { Spy { answer, points, starts: Rc::default(), data: Rc::default(), grads: Rc::default() } } }
impl<C: Criterion> OptimAlgorithm<BaseNeuralNet<C>> for Spy {
    fn optimize(&self, m: &BaseNeuralNet<C>, start: &[f64], x: &M, t: &M) -> Vec<f64> {
        self.starts.borrow_mut().push(start.to_vec());
        self.data.borrow_mut().push((to_rows(x), to_rows(t)));
        *self.grads.borrow_mut() = self.points.iter().map(|p| Optimizable::compute_grad(m, p, x, t)).collect();
        self.answer.clone()
    }
}
fn weights_point(n: usize, which: usize) -> Vec<f64> {
    (0..n).map(|i| match which { 0 => ((i * 7 + 3) % 11) as f64 * 0.17 - 0.8, 1 => if i % 3 == 0 { 0.9 } else { -0.35 * (1 + i % 2) as f64 }, 2 => ((i * i + 1) % 5) as f64 * 0.4 - 0.7, _ => 0.0 }).collect()
}
fn rows_point(n: usize, k: usize, s: usize) -> Rows { (0..n).map(|i| (0..k).map(|j| ((i * 5 + j * 3 + s) % 7) as f64 * 0.35 - 0.9).collect()).collect() }
fn targets_point(n: usize, k: usize, bce: bool) -> Rows { (0..n).map(|i| (0..k).map(|j| if bce { ((i + j) % 2) as f64 * 0.9 + if j == 1 { 0.05 } else { 0.0 } } else { ((i * 3 + j * 2) % 5) as f64 * 0.6 - 1.0 }).collect()).collect() }

fn with_regul(r: usize) -> Regularization<f64> { match r { 0 => Regularization::None, 1 => Regularization::L1(0.3), 2 => Regularization::L2(0.7), _ => Regularization::ElasticNet(0.2, 0.5) } }
/// Gradient of the regularisation, by its definition.
fn reg_grad(r: usize, w: &[f64]) -> Vec<f64> {
    let n = w.len() as f64;
    let s = |x: f64| if x > 0.0 { 1.0 } else if x < 0.0 { -1.0 } else { 0.0 };
    w.iter().map(|x| match r { 0 => 0.0, 1 => 0.3 * s(*x) / (2.0 * n), 2 => 0.7 * x / n, _ => 0.2 * s(*x) / (2.0 * n) + 0.5 * x / n }).collect()
}
enum Net { B(NeuralNet<BCECriterion, Spy>), E(NeuralNet<MSECriterion, Spy>) }
impl Net {
    fn new(bce: bool, r: usize, arch: &[Layer], spy: Spy, one_by_one: bool) -> Net {
        macro_rules! build { ($c:expr) => {{ let mut n = NeuralNet::new($c, spy); if one_by_one { for l in arch { n.add(l.make()); } } else { n.add_layers(arch.iter().map(|l| l.make())); } n }} }
        if bce { Net::B(build!(if r == 0 { BCECriterion::default() } else { BCECriterion::new(with_regul(r)) })) } else { Net::E(build!(if r == 0 { MSECriterion::default() } else { MSECriterion::new(with_regul(r)) })) }
    }
    fn train(&mut self, x: &M, t: &M) -> Result<(), Error> { match *self { Net::B(ref mut n) => n.train(x, t), Net::E(ref mut n) => n.train(x, t) } }
    fn predict(&self, x: &M) -> Result<M, Error> { match *self { Net::B(ref n) => n.predict(x), Net::E(ref n) => n.predict(x) } }
    fn weights(&self, i: usize) -> (usize, usize, Vec<f64>) { let s = match *self { Net::B(ref n) => n.get_net_weights(i), Net::E(ref n) => n.get_net_weights(i) }; (s.rows(), s.cols(), s.iter().cloned().collect()) }
}
fn check_weights(n: &Net, arch: &[Layer], w: &[f64]) -> R {
    let mut at = 0;
    for (i, l) in arch.iter().enumerate() {
        let (r, c, v) = n.weights(i);
        ensure!((r, c) == l.shape(), "layer {} of {:?} has weights of shape {}x{}", i, arch, r, c);
        ensure!(v == w[at..at + l.params()], "layer {} has weights {:?} instead of {:?}", i, v, &w[at..at + l.params()]);
        at += l.params();
    }
    Ok(())
}
fn check_predict(n: &Net, arch: &[Layer], w: &[f64], x: &Rows) -> R {
    let (k, o) = width(arch);
    let p = n.predict(&from_rows(x, k)).map_err(|e| format!("predict: {}", e))?;
    let o = if arch.is_empty() { k } else { o };
    shape_is(&p, x.len(), o, "output")?;
    for (r, g) in x.iter().zip(to_rows(&p)) {
        let want: Vec<f64> = forward(arch, w, r).iter().map(|d| d.v).collect();
        ensure!(close_all(&want, &g, 1e-9), "output {:?} for {:?}, expected {:?} (weights {:?})", g, r, want, w);
    }
    Ok(())
}
fn net_case(c: &Ch, bce: bool, reg: usize, arch: &[Layer], pts: Rows, x: &Rows, t: &Rows, one: bool) -> R {
    let (k, o) = width(arch);
    let n = total(arch);
    c.note(format!("{:?} bce {} regularisation {} x {:?} t {:?}", arch, bce, reg, x, t));
    c.ops(2 + pts.len() as u64);
    let spy = Spy::new(pts[0].clone(), pts.clone());
    let (sx, st) = (from_rows(x, k), from_rows(t, o));
    let mut done = None;
    c.deviations(Default_::Zero, 0, || {
        let mut net = Net::new(bce, reg, arch, spy.clone(), one);
        let start: Vec<f64> = (0..arch.len()).flat_map(|i| net.weights(i).2).collect();
        ensure!(start.len() == n && finite(&start), "initial weights {:?}", start);
        check_weights(&net, arch, &start)?;
        check_predict(&net, arch, &start, x)?;
        net.train(&sx, &st).map_err(|e| format!("train: {}", e))?;
        ensure!(spy.starts.borrow().last() == Some(&start), "training starts from {:?} instead of {:?}", spy.starts.borrow().last(), start);
        ensure!(spy.data.borrow().last() == Some(&(x.clone(), t.clone())), "the optimizer was given other data");
        Ok(net)
    }, |r: Result<Net, String>| { done = Some(r?); Ok(()) })?;
    let net = done.unwrap();
    check_weights(&net, arch, &pts[0])?;
    check_predict(&net, arch, &pts[0], x)?;
    for (w, (cost, g)) in pts.iter().zip(spy.grads.borrow().iter()) {
        ensure!(g.len() == n, "{} gradient entries for {} weights", g.len(), n);
        let rows: Option<Vec<_>> = x.iter().zip(t).map(|(x, t)| row_cost(bce, arch, w, x, t)).collect();
        let rows = match rows { Some(r) => r, None => continue };
        let want = rows.iter().map(|r| r.0).sum::<f64>() / x.len() as f64;
        if reg == 0 { ensure_close!(*cost, want, 1e-8, "cost at {:?}", w); }
        else { ensure_close!(*cost, want + with_regul(reg).reg_cost(mat(n, 1, w.clone()).as_slice()), 1e-8, "cost with regularisation at {:?}", w); }
        let rg = reg_grad(reg, w);
        let scale = rows.iter().flat_map(|r| r.1.iter()).fold(1.0f64, |a, b| a.max(b.abs()));
        for i in 0..n {
            let wg = rows.iter().map(|r| r.1[i]).sum::<f64>() + rg[i];
            // the regularisation of a zero weight may take any subgradient
            if w[i] == 0.0 && (reg == 1 || reg == 3) { ensure!((g[i] - wg).abs() <= 0.3 + 1e-8 * scale, "gradient {} for weight {}", g[i], i); continue; }
            ensure!((g[i] - wg).abs() <= 1e-8 * scale, "derivative {} of the cost by weight {} at {:?}, expected {}", g[i], i, w, wg);
        }
        c.saw_f(g);
    }
    Ok(())
}
/// All networks of at most `depth` layers whose layers fit together.
fn archs(depth: usize, sizes: usize) -> Vec<Vec<Layer>> {
    let mut out = vec![vec![]];
    let mut cur: Vec<(Vec<Layer>, Option<usize>)> = vec![(vec![], None)];
    for _ in 0..depth {
        let mut next = vec![];
        for (a, w) in &cur {
            for l in [Sig, Tanh, Id, Exp] { let mut b = a.clone(); b.push(l); next.push((b, *w)); }
            for i in 1..=sizes { for o in 1..=sizes { if w.map_or(a.is_empty(), |w| w == i) { for l in [Lin(i, o), Nob(i, o)] { let mut b = a.clone(); b.push(l); next.push((b, Some(o))); } } } }
        }
        out.extend(next.iter().map(|x| x.0.clone()));
        cur = next;
    }
    out.retain(|a| a.iter().filter(|l| **l == Exp).count() <= 1);
    out
}
pub fn gradients() -> Property {
    let mut p = Property::new("C24");
    p.assume("the gradient of a batch is the sum over its rows of the derivative of each row's cost plus the regularisation once (the convention of the cost functions); the cost is the mean over the rows plus the regularisation");
    let all: Vec<Vec<Layer>> = archs(4, 2);
    p.add("architectures", "every network of up to 4 layers out of linear (with and without bias, 1 or 2 wide), sigmoid, tanh, identity, exponential that fits together, 4 regularisations, both criteria, 1..=3 rows, 3 weight vectors: layout, outputs, cost and gradient equal an independent forward-mode differentiation", move |c| {
        let arch = c.of(&all);
        let bce = c.bool();
        let reg = if total(&arch) == 0 { 0 } else { c.pick(4) };
        let n = c.range(1, 3);
        let (k, o) = width(&arch);
        if bce && !matches!(arch.last(), Some(Sig)) { return Ok(()); }
        let w = total(&arch);
        net_case(c, bce, reg, &arch, vec![weights_point(w, 0), weights_point(w, 1), weights_point(w, 2)], &rows_point(n, k, 0), &targets_point(n, o, bce), n != 2)
    });
    p.add("grid", "10 small networks with up to 5 weights: every weight vector over 4 values (also zero), 2 inputs over 3 values, 2 targets, both criteria", |c| {
        let a = c.of(&[vec![Lin(1, 1)], vec![Lin(1, 1), Sig], vec![Lin(1, 1), Tanh], vec![Nob(2, 1), Sig], vec![Nob(1, 2), Sig], vec![Nob(1, 1), Tanh, Lin(1, 1)], vec![Lin(1, 1), Sig, Nob(1, 1), Sig], vec![Lin(1, 1), Sig, Lin(1, 1), Sig], vec![Nob(1, 2), Tanh, Nob(2, 1)], vec![Nob(2, 2)]]);
        let bce = c.bool();
        if bce && a.last() != Some(&Sig) { return Ok(()); }
        let (k, o) = width(&a);
        let w = c.vec_of(total(&a), &[0.0, 1.0, -0.5, 2.5]);
        let x = vec![c.vec_of(k, &[0.0, 1.0, -1.5])];
        let t = vec![c.vec_of(o, if bce { &[0.0, 1.0] } else { &[0.5, -1.0] })];
        net_case(c, bce, 0, &a, vec![w], &x, &t, true)
    });
    p.add("mlp", "perceptrons from a list of layer sizes: every list of 2..=4 sizes 1..=3, deeper and wider patterns to 7 layers and 9 neurons, 4 activations, default constructor: weights of layer 2i are (size+1) x next size, outputs are those of the documented layers", |c| {
        let big = c.bool();
        let sizes: Vec<usize> = if big { c.of(&[vec![9, 7], vec![5, 9, 2], vec![2, 8, 8, 3], vec![3, 3, 3, 3, 3, 3, 3], vec![4, 1, 6, 1, 2]]) } else { let n = c.range(2, 4); (0..n).map(|_| c.range(1, 3)).collect() };
        let act = c.pick(5);
        let l = [Sig, Tanh, Id, Exp, Sig][act];
        let arch: Vec<Layer> = sizes.windows(2).flat_map(|s| vec![Lin(s[0], s[1]), l]).collect();
        if l == Exp && arch.len() > 4 { return Ok(()); }
        let w = total(&arch);
        c.note(format!("sizes {:?} activation {:?}", sizes, l));
        c.ops(3);
        let pts = vec![weights_point(w, 0), weights_point(w, 1)];
        let spy = Spy::new(pts[0].clone(), pts.clone());
        let x = rows_point(3, sizes[0], 1);
        let t = targets_point(3, *sizes.last().unwrap(), false);
        let mut res = Ok(());
        c.deviations(Default_::Max, 0, || -> R {
            if act == 4 {
                let net = NeuralNet::default(&sizes);
                for i in 0..arch.len() { let s = net.get_net_weights(i); ensure!((s.rows(), s.cols()) == arch[i].shape(), "default network: layer {} has weights of shape {}x{}", i, s.rows(), s.cols()); }
                let start: Vec<f64> = (0..arch.len()).flat_map(|i| net.get_net_weights(i).iter().cloned().collect::<Vec<_>>()).collect();
                let out = net.predict(&from_rows(&x, sizes[0])).map_err(|e| format!("{}", e))?;
                for (r, g) in x.iter().zip(to_rows(&out)) { let want: Vec<f64> = forward(&arch, &start, r).iter().map(|d| d.v).collect(); ensure!(close_all(&want, &g, 1e-9), "default network: output {:?}, expected {:?}", g, want); }
                return Ok(());
            }
            let mut net = Net::E(match act { 0 => NeuralNet::mlp(&sizes, MSECriterion::default(), spy.clone(), activ_fn::Sigmoid), 1 => NeuralNet::mlp(&sizes, MSECriterion::default(), spy.clone(), activ_fn::Tanh), 2 => NeuralNet::mlp(&sizes, MSECriterion::default(), spy.clone(), activ_fn::Linear), _ => NeuralNet::mlp(&sizes, MSECriterion::default(), spy.clone(), activ_fn::Exp) });
            net.train(&from_rows(&x, sizes[0]), &from_rows(&t, *sizes.last().unwrap())).map_err(|e| format!("{}", e))?;
            check_weights(&net, &arch, &pts[0])?;
            check_predict(&net, &arch, &pts[0], &x)?;
            for (w, (_, g)) in pts.iter().zip(spy.grads.borrow().iter()) {
                let rows: Vec<_> = x.iter().zip(&t).map(|(x, t)| row_cost(false, &arch, w, x, t).unwrap()).collect();
                let want: Vec<f64> = (0..w.len()).map(|i| rows.iter().map(|r| r.1[i]).sum()).collect();
                let scale = want.iter().fold(1.0f64, |a, b| a.max(b.abs()));
                ensure!(finite(&want) && want.iter().zip(g).all(|(a, b)| (a - b).abs() <= 1e-8 * scale), "gradient {:?}, expected {:?}", g, want);
            }
            Ok(())
        }, |r| { res = r; Ok(()) })?;
        res
    });
    p.add("wide", "layers of up to 70 neurons, 1..=1100 rows, up to 42 layers, weights from 1e-6 to 40 times the usual (sigmoids saturate), inputs in units from 1e-5 to 1e4, both criteria, 4 regularisations: the same", |c| {
        let (arch, n) = c.of(&[
            (vec![Lin(17, 33), Sig, Lin(33, 5), Sig], 3usize),
            (vec![Nob(65, 4), Tanh, Lin(4, 2), Sig], 9),
            (vec![Lin(3, 64), Tanh, Nob(64, 1), Sig], 2),
            (vec![Lin(2, 3), Sig], 130),
            (vec![Lin(4, 4), Tanh, Lin(4, 3), Sig], 64),
            (vec![Lin(2, 2), Sig, Lin(2, 2), Tanh, Nob(2, 2), Sig, Lin(2, 3), Tanh, Lin(3, 2), Id, Nob(2, 1), Sig], 7),
            (vec![Lin(3, 21), Tanh, Nob(21, 25), Sig, Lin(25, 2), Sig], 2),
            (vec![Lin(1, 3), Id, Lin(3, 70), Sig, Nob(70, 2), Sig], 2),
            (vec![Lin(2, 5), Tanh, Lin(5, 3), Sig], 300),
            (vec![Lin(1, 2), Id, Lin(2, 2), Sig], 1100),
            ((0..13).flat_map(|i| if i % 2 == 0 { vec![Lin(1, 2), Tanh] } else { vec![Nob(2, 1), Id] }).chain(vec![Lin(2, 1), Sig]).collect(), 3),
            ((0..20).flat_map(|i| vec![Lin(1, 1), if i % 4 == 3 { Tanh } else { Id }]).chain(vec![Lin(1, 1), Sig]).collect(), 3),
        ]);
        let bce = c.bool();
        let reg = c.pick(4);
        let f = c.of(&[1.0, 1e-6, 0.1, 40.0]);
        let u = c.of(&[1.0, 1e-5, 1e4]);
        let (k, o) = width(&arch);
        let w = total(&arch);
        let pts: Rows = (0..2).map(|i| weights_point(w, i).into_iter().map(|v| v * f).collect()).collect();
        let x: Rows = rows_point(n, k, 0).into_iter().map(|r| r.into_iter().map(|v| v * u).collect()).collect();
        net_case(c, bce, reg, &arch, pts, &x, &targets_point(n, o, bce), true)
    });
    p.add("initial", "1x1 .. 3x3 linear layers with and without bias, every normal draw out of 3 for layers of up to 4 weights: each initial weight is an own normal draw times the same positive factor, about sqrt(2 / (inputs + outputs)); the mean is zero", |c| {
        let (i, o) = (c.range(1, 3), c.range(1, 3));
        let bias = c.bool();
        let n = (i + bias as usize) * o;
        let l: Box<dyn NetLayer> = if bias { Box::new(net_layer::Linear::new(i, o)) } else { Box::new(net_layer::Linear::without_bias(i, o)) };
        c.op();
        ensure!(l.num_params() == n && l.param_shape() == (i + bias as usize, o), "shape {:?}", l.param_shape());
        if n > 6 { return Ok(()); }
        let f = (2.0 / (i + bias as usize + o) as f64).sqrt();
        let g = (2.0 / (i + o) as f64).sqrt();
        let out = c.distribution(|| l.default_params());
        for (w, _, _) in &out {
            ensure!(w.len() == n, "{} weights", w.len());
            let ok = |f: f64| w.iter().all(|x| [0.0, 1.0, -1.5].iter().any(|z| close(*x, z * f, 1e-9)));
            ensure!(ok(f) || ok(g), "initial weights {:?} of a {}x{} layer", w, i, o);
        }
        let distinct: std::collections::HashSet<Vec<u64>> = out.iter().map(|x| x.0.iter().map(|v| v.to_bits()).collect()).collect();
        ensure!(distinct.len() == 3usize.pow(n as u32), "{} different weight vectors out of {}", distinct.len(), 3usize.pow(n as u32));
        Ok(())
    });
    p.add("initial, wide", "13 layers of up to 1000 inputs or outputs with and without bias, two default streams of normal draws, alone and in a network: each initial weight is a draw times the same factor sqrt(2 / (inputs + outputs)), and not all draws are the same", |c| {
        let (i, o) = c.of(&[(1usize, 1usize), (4, 3), (10, 10), (3, 64), (64, 64), (65, 1), (1, 130), (100, 30), (128, 129), (300, 200), (400, 400), (1000, 3), (3, 1000)]);
        let bias = c.bool();
        let net = c.bool();
        let n = (i + bias as usize) * o;
        let def = c.of(&[Default_::Cycle, Default_::Max]);
        c.note(format!("{}x{} bias {} in a network {} {:?}", i, o, bias, net, def));
        let fs = [(2.0 / (i + bias as usize + o) as f64).sqrt(), (2.0 / (i + o) as f64).sqrt()];
        let mut res = Ok(());
        c.ops(n as u64);
        c.deviations(def, 0, || -> R {
            let ws: Vec<f64> = if net {
                let arch = [if bias { Lin(i, o) } else { Nob(i, o) }, Sig];
                Net::new(false, 0, &arch, Spy::new(vec![], vec![]), true).weights(0).2
            } else if bias { net_layer::Linear::new(i, o).default_params() } else { net_layer::Linear::without_bias(i, o).default_params() };
            ensure!(ws.len() == n, "{} weights of a {}x{} layer", ws.len(), i, o);
            let ok = |f: f64| ws.iter().all(|x| [0.0, 1.0, -1.5].iter().any(|z| close(*x, z * f, 1e-9 * f)));
            ensure!(fs.iter().any(|f| ok(*f)), "initial weights {:?}... of a {}x{} layer are no draws times {}", &ws[..n.min(5)], i, o, fs[1]);
            ensure!(def != Default_::Cycle || n < 6 || ws.iter().any(|x| *x != ws[0]), "all {} initial weights are {}", n, ws[0]);
            Ok(())
        }, |r| { res = r; Ok(()) })?;
        res
    });
    p.add("rejects", "networks whose layers do not fit together, inputs of another width (1..=3 layers): prediction is an error, never a panic or a result", |c| {
        let n = c.range(1, 3);
        let arch: Vec<Layer> = (0..n).map(|_| { let l = c.pick(3); if l == 2 { Sig } else { let (a, b) = (c.range(1, 2), c.range(1, 2)); if l == 0 { Lin(a, b) } else { Nob(a, b) } } }).collect();
        let k = c.range(1, 3);
        c.note(format!("{:?} with {} columns", arch, k));
        c.op();
        let mut w = Some(k);
        for l in &arch { if let Lin(a, b) | Nob(a, b) = *l { w = if w == Some(a) { Some(b) } else { None }; } }
        let mut res = Ok(());
        c.deviations(Default_::Max, 0, || -> R {
            let net = Net::new(false, 0, &arch, Spy::new(vec![], vec![]), true);
            let r = guard(|| net.predict(&from_rows(&rows_point(2, k, 0), k)))?;
            match w { None => ensure!(r.is_err(), "a result of shape {:?}", r.map(|m| (m.rows(), m.cols()))), Some(w) => { let m = r.map_err(|e| format!("{}", e))?; shape_is(&m, 2, w, "output")?; } }
            Ok(())
        }, |r| { res = r; Ok(()) })?;
        res
    });
    p
}

// --------------------------------------------------------------------- C25
/// Records the targets of every gradient evaluation.
#[derive(Clone)]
struct Watch { bce: bool, reg: usize, seen: Rc<RefCell<Vec<Rows>>> }
impl Criterion for Watch {
    type Cost = MeanSqError;
    fn cost(&self, o: &M, t: &M) -> f64 { use rusty_machine::learning::toolkit::cost_fn::CostFunc; if self.bce { CrossEntropyError::cost(o, t) } else { MeanSqError::cost(o, t) } }
    fn cost_grad(&self, o: &M, t: &M) -> M { use rusty_machine::learning::toolkit::cost_fn::CostFunc; self.seen.borrow_mut().push(to_rows(t)); if self.bce { CrossEntropyError::grad_cost(o, t) } else { MeanSqError::grad_cost(o, t) } }
    fn regularization(&self) -> Regularization<f64> { with_regul(self.reg) }
}
/// A layer that starts with given weights, so that building the network draws no random numbers.
#[derive(Debug)]
struct Fixed { inner: Box<dyn NetLayer>, start: Vec<f64> }
impl NetLayer for Fixed {
    fn forward(&self, i: &M, p: MatrixSlice<f64>) -> Result<M, Error> { self.inner.forward(i, p) }
    fn back_input(&self, g: &M, i: &M, o: &M, p: MatrixSlice<f64>) -> M { self.inner.back_input(g, i, o, p) }
    fn back_params(&self, g: &M, i: &M, o: &M, p: MatrixSlice<f64>) -> M { self.inner.back_params(g, i, o, p) }
    fn default_params(&self) -> Vec<f64> { self.start.clone() }
    fn param_shape(&self) -> (usize, usize) { self.inner.param_shape() }
}
fn fixed(arch: &[Layer], w: &[f64]) -> Vec<Box<dyn NetLayer>> {
    let mut at = 0;
    arch.iter().map(|l| { let s = w[at..at + l.params()].to_vec(); at += l.params(); Box::new(Fixed { inner: l.make(), start: s }) as Box<dyn NetLayer> }).collect()
}
#[derive(Clone, Copy, Debug)]
enum Alg { Gd(f64), Sgd(f64, f64), Ada(f64, f64), Rms(f64, f64, f64) }
fn grads(bce: bool, reg: usize, arch: &[Layer], w: &[f64], x: &[Vec<f64>], t: &[Vec<f64>]) -> Option<Vec<f64>> {
    let mut g = reg_grad(reg, w);
    for (x, t) in x.iter().zip(t) { let r = row_cost(bce, arch, w, x, t)?; for i in 0..g.len() { g[i] += r.1[i]; } }
    Some(g)
}
/// Weights after following `order` (row indices; one batch per step for gradient descent).
fn follow(alg: Alg, bce: bool, reg: usize, arch: &[Layer], start: &[f64], x: &Rows, t: &Rows, order: &[usize], steps: usize) -> Option<Vec<f64>> {
    let mut w = start.to_vec();
    let mut v = vec![0.0; w.len()];
    if let Alg::Gd(a) = alg { for _ in 0..steps { let g = grads(bce, reg, arch, &w, x, t)?; for i in 0..w.len() { w[i] -= a * g[i]; } } return Some(w); }
    for &k in order {
        let g = grads(bce, reg, arch, &w, &x[k..k + 1], &t[k..k + 1])?;
        for j in 0..w.len() { match alg {
            Alg::Sgd(a, mu) => { let old = v[j]; v[j] = mu * g[j] + a * old; w[j] -= (1.0 + a) * v[j] - a * old; }
            Alg::Ada(a, tau) => { v[j] += g[j] * g[j]; w[j] -= a * g[j] / (tau + v[j].sqrt()); }
            Alg::Rms(l, r, e) => { v[j] = r * v[j] + (1.0 - r) * g[j] * g[j]; w[j] -= l * g[j] / (v[j] + e).sqrt(); }
            Alg::Gd(_) => unreachable!(),
        } }
    }
    Some(w)
}
fn train_case(c: &Ch, alg: Alg, passes: usize, bce: bool, reg: usize, arch: &[Layer], x: &Rows, t: &Rows, all: bool) -> R {
    let (k, o) = width(arch);
    let w0 = weights_point(total(arch), 0);
    let (mx, mt) = (from_rows(x, k), from_rows(t, o));
    c.note(format!("{:?} {} passes bce {} regularisation {} {:?} x {:?} t {:?}", alg, passes, bce, reg, arch, x, t));
    let seen: Rc<RefCell<Vec<Rows>>> = Rc::default();
    let run = || -> Result<(Vec<f64>, Vec<f64>), String> {
        let crit = Watch { bce, reg, seen: seen.clone() };
        macro_rules! go { ($a:expr) => {{
            let mut n = NeuralNet::new(crit, $a);
            n.add_layers(fixed(arch, &w0));
            seen.borrow_mut().clear();
            n.train(&mx, &mt).map_err(|e| format!("{}", e))?;
            let w: Vec<f64> = (0..arch.len()).flat_map(|i| n.get_net_weights(i).iter().cloned().collect::<Vec<_>>()).collect();
            let p = n.predict(&mx).map_err(|e| format!("{}", e))?;
            (w, p.into_vec())
        }} }
        Ok(match alg { Alg::Gd(a) => go!(GradientDesc::new(a, passes)), Alg::Sgd(a, m) => go!(StochasticGD::new(a, m, passes)), Alg::Ada(a, b) => go!(AdaGrad::new(a, b, passes)), Alg::Rms(a, b, e) => go!(RMSProp::new(a, b, e, passes)) })
    };
    let check = |r: Result<(Vec<f64>, Vec<f64>), String>| -> R {
        let (w, p) = r?;
        let s = seen.borrow();
        let order: Vec<usize> = if let Alg::Gd(_) = alg { vec![] } else { s.iter().map(|r| t.iter().position(|y| *y == r[0]).unwrap_or(99)).collect() };
        ensure!(order.iter().all(|i| *i < x.len()), "a step used targets {:?}", s);
        if !order.is_empty() {
            ensure!(order.len() % x.len() == 0, "{} steps in passes over {} rows", order.len(), x.len());
            for pass in order.chunks(x.len()) { let mut p = pass.to_vec(); p.sort(); ensure!(p.iter().cloned().eq(0..x.len()), "a pass over the rows used {:?}", pass); }
        } else { ensure!(s.iter().all(|r| r.len() == x.len()), "a step of gradient descent used {} of {} rows", s.iter().map(|r| r.len()).min().unwrap_or(0), x.len()); }
        let want = match follow(alg, bce, reg, arch, &w0, x, t, &order, s.len()) { Some(w) => w, None => return Ok(()) };
        if want.iter().any(|v| !v.is_finite() || v.abs() > 1e3) { return Ok(()); }
        ensure!(close_all(&want, &w, 1e-6), "weights {:?} after {} steps in order {:?}, expected {:?}", w, s.len(), order, want);
        let out: Vec<f64> = x.iter().flat_map(|r| forward(arch, &w, r).into_iter().map(|d| d.v).collect::<Vec<_>>()).collect();
        ensure!(close_all(&out, &p, 1e-9), "predictions {:?} with the trained weights, expected {:?}", p, out);
        c.saw_f(&w);
        Ok(())
    };
    if all { for (r, _, _) in c.distribution(|| check(run())) { r?; } Ok(()) }
    else { for d in [Default_::Zero, Default_::Half] { c.deviations(d, 0, || check(run()), |r| r)?; } Ok(()) }
}
pub fn training() -> Property {
    let mut p = Property::new("C25");
    p.assume("targets of the rows are distinct, so that the order of the steps can be read off; weights are compared while they stay below 1e3");
    p.add("descent", "4 optimizers with 2 settings, 7 networks, both criteria, 4 regularisations, 1..=3 rows, 1 or 2 passes, every random row order: training follows the update along the derivative of the cost, starting from the current weights, and prediction uses the result", |c| {
        let alg = c.of(&[Alg::Gd(0.1), Alg::Gd(0.7), Alg::Sgd(0.1, 0.1), Alg::Sgd(0.9, 0.05), Alg::Ada(1.0, 3.0), Alg::Ada(0.3, 0.5), Alg::Rms(0.01, 0.9, 1e-5), Alg::Rms(0.2, 0.5, 1e-2)]);
        let arch = c.of(&[vec![Lin(1, 1), Sig], vec![Lin(2, 1), Sig], vec![Lin(1, 2), Tanh, Lin(2, 1), Sig], vec![Nob(2, 2), Sig, Lin(2, 2), Sig], vec![Lin(2, 1)], vec![Lin(1, 2), Tanh, Nob(2, 1)], vec![Lin(1, 1), Exp]]);
        let bce = c.bool();
        if bce && arch.last() != Some(&Sig) { return Ok(()); }
        let reg = c.pick(4);
        let n = c.range(1, 3);
        let passes = c.range(1, 2);
        let (k, o) = width(&arch);
        let t: Rows = (0..n).map(|i| (0..o).map(|j| if j == 0 { [0.0, 1.0, 0.5][i] } else { 0.25 * i as f64 }).collect()).collect();
        train_case(c, alg, passes, bce, reg, &arch, &rows_point(n, k, 0), &t, true)
    });
    p.add("sizes", "the default network and bigger ones, 10..=40 rows, 3..=20 passes, two default row orders", |c| {
        let alg = c.of(&[Alg::Gd(0.02), Alg::Sgd(0.1, 0.1), Alg::Ada(0.5, 1.0), Alg::Rms(0.01, 0.9, 1e-5)]);
        let arch = c.of(&[vec![Lin(3, 5), Sig, Lin(5, 2), Sig], vec![Lin(4, 3), Tanh, Lin(3, 3), Tanh, Lin(3, 1)], vec![Nob(6, 7), Sig, Nob(7, 3), Sig]]);
        let n = c.of(&[10usize, 17, 40]);
        let passes = c.of(&[3usize, 20]);
        let (k, o) = width(&arch);
        let t: Rows = (0..n).map(|i| (0..o).map(|j| if j == 0 { (i + 1) as f64 / (n + 2) as f64 } else { ((i * 3 + j) % 4) as f64 / 4.0 }).collect()).collect();
        train_case(c, alg, passes, arch.last() == Some(&Sig), 0, &arch, &rows_point(n, k, 0), &t, false)
    });
    p.add("long", "4 optimizers on wider networks (to 20 neurons) and more rows (to 150), 1..=60 passes, big and small steps, both criteria, regularised or not: the same", |c| {
        let alg = c.of(&[Alg::Gd(0.003), Alg::Sgd(0.1, 0.02), Alg::Ada(0.5, 1.0), Alg::Rms(0.005, 0.9, 1e-5), Alg::Gd(1e-7), Alg::Sgd(0.5, 1e-7)]);
        let (arch, n, passes) = c.of(&[(vec![Lin(3, 20), Tanh, Lin(20, 1), Sig], 8usize, 12usize), (vec![Lin(2, 2), Sig], 150, 3), (vec![Lin(2, 3), Tanh, Lin(3, 1), Sig], 6, 60), (vec![Nob(16, 4), Sig, Lin(4, 2), Sig], 33, 2)]);
        let bce = c.bool();
        let reg = c.of(&[0usize, 2]);
        let (k, o) = width(&arch);
        let t: Rows = (0..n).map(|i| (0..o).map(|j| if j == 0 { (i + 1) as f64 / (n + 2) as f64 } else { ((i * 3 + j) % 4) as f64 / 4.0 }).collect()).collect();
        train_case(c, alg, passes, bce, reg, &arch, &rows_point(n, k, 0), &t, false)
    });
    p.add("vast", "4 optimizers, 3 networks, 500 to 5000 rows, 1 or 2 passes, both criteria: the same, and every pass uses every row once", |c| {
        let alg = c.of(&[Alg::Gd(1e-5), Alg::Sgd(0.1, 0.002), Alg::Ada(0.5, 1.0), Alg::Rms(0.001, 0.9, 1e-5)]);
        let arch = c.of(&[vec![Lin(2, 1), Sig], vec![Lin(1, 2), Tanh, Lin(2, 1), Sig], vec![Nob(2, 2), Sig]]);
        let n = c.of(&[500usize, 1025, 1030, 2100, 5000]);
        let passes = c.range(1, 2);
        let bce = c.bool();
        let (k, o) = width(&arch);
        let t: Rows = (0..n).map(|i| (0..o).map(|j| if j == 0 { ((i * 7919 % n) + 1) as f64 / (n + 2) as f64 } else { ((i * 3 + j) % 4) as f64 / 4.0 }).collect()).collect();
        train_case(c, alg, passes, bce, 0, &arch, &rows_point(n, k, 0), &t, false)
    });
    p.add("saturated", "sigmoid networks on features up to 1e5 with 0/1 targets, 4 optimizers, both criteria, regularised or not, 2..=40 rows, several row orders: outputs may saturate, but weights and predictions never become NaN and predictions are probabilities", |c| {
        let u = c.of(&[1.0, 40.0, 1e3, 1e5]);
        let (sizes, n) = c.of(&[(vec![2usize, 1usize], 2usize), (vec![1, 1], 5), (vec![2, 3, 1], 4), (vec![4, 6, 2], 40)]);
        let bce = c.bool();
        let reg = if c.bool() { Regularization::L2(0.1) } else { Regularization::None };
        let (k, o) = (sizes[0], sizes[sizes.len() - 1]);
        let x = from_rows(&rows_point(n, k, 0).into_iter().map(|r| r.into_iter().map(|v| v * u).collect()).collect::<Rows>(), k);
        let y = mat(n, o, (0..n * o).map(|i| ((i * 11 + 3) % 5 < 2) as u8 as f64).collect());
        let alg = c.pick(4);
        c.note(format!("{:?} on {}x{} unit {} optimizer {}", sizes, n, k, u, alg));
        let dflt = c.of(&[Default_::Zero, Default_::Max, Default_::Cycle]);
        fn run<T: Criterion>(cr: T, sizes: &[usize], alg: usize, x: &M, y: &M) -> Result<(Rows, Rows), String> {
            fn go<T: Criterion, A: OptimAlgorithm<BaseNeuralNet<T>>>(cr: T, sizes: &[usize], a: A, x: &M, y: &M) -> Result<(Rows, Rows), String> {
                let mut m = NeuralNet::mlp(sizes, cr, a, activ_fn::Sigmoid);
                m.train(x, y).map_err(|e| format!("train: {}", e))?;
                let w = (0..sizes.len() - 1).map(|i| m.get_net_weights(2 * i).iter().cloned().collect()).collect();
                Ok((w, to_rows(&m.predict(x).map_err(|e| format!("predict: {}", e))?)))
            }
            match alg {
                0 => go(cr, sizes, GradientDesc::new(0.3, 30), x, y),
                1 => go(cr, sizes, StochasticGD::new(0.1, 0.1, 8), x, y),
                2 => go(cr, sizes, AdaGrad::new(1.0, 3.0, 8), x, y),
                _ => go(cr, sizes, RMSProp::new(0.01, 0.9, 1e-5, 8), x, y),
            }
        }
        c.op();
        let mut last = vec![];
        c.deviations(dflt, 0, || if bce { run(BCECriterion::new(reg), &sizes, alg, &x, &y) } else { run(MSECriterion::new(reg), &sizes, alg, &x, &y) }, |r| {
            let (w, p) = r?;
            ensure!(finite(&w.concat()), "weights {:?}", w);
            ensure!(p.concat().iter().all(|p| *p >= 0.0 && *p <= 1.0), "predictions {:?}", p);
            last = p.concat();
            Ok(())
        })?;
        c.saw_f(&last);
        Ok(())
    });
    p.add("conjugate", "conjugate gradients on one row (where cost and gradient have the same scale), 5 networks, 4 starts: the cost at the result is no higher than at the start", |c| {
        let arch = c.of(&[vec![Lin(1, 1), Sig], vec![Lin(2, 2), Sig], vec![Lin(1, 2), Tanh, Lin(2, 1), Sig], vec![Nob(2, 2), Sig, Lin(2, 2), Sig], vec![Lin(2, 1)]]);
        let (k, o) = width(&arch);
        let w0 = weights_point(total(&arch), c.pick(4));
        let bce = c.bool();
        if bce && arch.last() != Some(&Sig) { return Ok(()); }
        let (x, t) = (rows_point(1, k, c.pick(3)), targets_point(1, o, bce));
        c.note(format!("{:?} bce {} start {:?} x {:?} t {:?}", arch, bce, w0, x, t));
        c.op();
        let mut res = Ok(());
        c.deviations(Default_::Zero, 0, || -> R {
            let mut n = NeuralNet::new(Watch { bce, reg: 0, seen: Rc::default() }, ConjugateGD { iters: 20, ..ConjugateGD::default() });
            n.add_layers(fixed(&arch, &w0));
            let (mx, mt) = (from_rows(&x, k), from_rows(&t, o));
            n.train(&mx, &mt).map_err(|e| format!("{}", e))?;
            let w: Vec<f64> = (0..arch.len()).flat_map(|i| n.get_net_weights(i).iter().cloned().collect::<Vec<_>>()).collect();
            if let (Some(a), Some(b)) = (row_cost(bce, &arch, &w0, &x[0], &t[0]), row_cost(bce, &arch, &w, &x[0], &t[0])) { ensure!(b.0 <= a.0 + 1e-9, "cost rises from {} to {}", a.0, b.0); let slope = a.1.iter().map(|g| g * g).sum::<f64>().sqrt(); if slope > 1e-3 { ensure!(b.0 < a.0, "cost {} after training, {} before", b.0, a.0); } if arch.len() == 1 { ensure!(b.0 < 1e-6, "cost {} of a linear network after training", b.0); } }
            Ok(())
        }, |r| { res = r; Ok(()) })?;
        res
    });
    p.add("histories", "a network trained up to 3 times on one of two data sets by gradient descent, with layers added in between or not: each training continues from the current weights, added layers keep the weights of the earlier ones", |c| {
        let steps = c.range(1, 3);
        let mut res = Ok(());
        let ops: Vec<usize> = (0..steps).map(|_| c.pick(3)).collect();
        c.note(format!("{:?}", ops));
        c.ops(steps as u64);
        c.deviations(Default_::Max, 0, || -> R {
            let mut n = NeuralNet::new(MSECriterion::default(), GradientDesc::new(0.05, 4));
            let mut arch = vec![Lin(2, 2), Tanh];
            for l in &arch { n.add(l.make()); }
            let get = |n: &NeuralNet<MSECriterion, GradientDesc>, k: usize| -> Vec<f64> { (0..k).flat_map(|i| n.get_net_weights(i).iter().cloned().collect::<Vec<_>>()).collect() };
            for op in &ops {
                let before = get(&n, arch.len());
                if *op == 2 {
                    n.add(Nob(2, 2).make());
                    n.add(Sig.make());
                    arch.extend(&[Nob(2, 2), Sig]);
                    let after = get(&n, arch.len());
                    ensure!(after.len() == before.len() + 4 && after[..before.len()] == before[..], "weights {:?} after adding a layer, {:?} before", after, before);
                    continue;
                }
                let (x, t) = (rows_point(3, 2, *op), targets_point(3, 2, *op == 1));
                n.train(&from_rows(&x, 2), &from_rows(&t, 2)).map_err(|e| format!("{}", e))?;
                let want = follow(Alg::Gd(0.05), false, 0, &arch, &before, &x, &t, &[], 4).unwrap();
                ensure!(close_all(&want, &get(&n, arch.len()), 1e-9), "weights {:?}, expected {:?}", get(&n, arch.len()), want);
            }
            Ok(())
        }, |r| { res = r; Ok(()) })?;
        res
    });
    p
}
