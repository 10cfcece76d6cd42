//! Model-checking seam: while a source is installed on this thread, every draw
//! made through an environment generator (`thread_rng()`, `random()`,
//! `StdRng::new()`, `OsRng`) is a choice point answered by the source.

use std::cell::RefCell;

/// What is being drawn.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    /// A uniform integer out of `n`: all outcomes are offered.
    Int,
    /// A float in [0,1): offered from the configured alphabet.
    Unit,
    /// A standard normal draw: offered from the configured alphabet.
    Normal,
    /// An Exp(1) draw: offered from the configured alphabet.
    Exp1,
    /// So many raw bits: offered from the configured alphabet.
    Raw(u8),
}

/// Alphabets for draws that cannot be enumerated completely.
#[derive(Clone, Debug)]
pub struct Alphabet {
    /// values in [0,1)
    pub unit: Vec<f64>,
    /// standard normal values
    pub normal: Vec<f64>,
    /// Exp(1) values
    pub exp1: Vec<f64>,
    /// raw words
    pub raw: Vec<u64>,
}

impl Default for Alphabet {
    fn default() -> Alphabet {
        Alphabet {
            unit: vec![0.0, 0.25, 0.5, 0.75, 0.9999999],
            normal: vec![0.0, 1.0, -1.5],
            exp1: vec![0.5, 1.0, 2.0],
            raw: vec![0x9E37_79B9_7F4A_7C15, 1, 0xFFFF_FFFF_FFFF_FFF0, 0x7000_0000_7000_0003],
        }
    }
}

struct State { alpha: Alphabet, src: Box<dyn FnMut(Kind, u64) -> u64> }

thread_local!(static STATE: RefCell<Option<State>> = RefCell::new(None));

/// Install a source. `src(kind, n)` must return a value below `n`.
pub fn install(alpha: Alphabet, src: Box<dyn FnMut(Kind, u64) -> u64>) {
    STATE.with(|s| *s.borrow_mut() = Some(State { alpha, src }));
}

/// Remove the source.
pub fn uninstall() { STATE.with(|s| *s.borrow_mut() = None); }

/// Replace the alphabets of the installed source.
pub fn set_alphabet(a: Alphabet) {
    STATE.with(|s| if let Some(ref mut st) = *s.borrow_mut() { st.alpha = a; });
}

/// Is a source installed on this thread?
pub fn active() -> bool { STATE.with(|s| s.borrow().is_some()) }

fn ask(k: Kind, n: u64) -> u64 {
    STATE.with(|s| {
        let mut b = s.borrow_mut();
        let st = b.as_mut().expect("rand::mc: no source");
        let v = (st.src)(k, n);
        assert!(v < n, "rand::mc: answer out of range");
        v
    })
}

fn pick<T: Copy>(k: Kind, f: fn(&Alphabet) -> &Vec<T>) -> T {
    let n = STATE.with(|s| f(&s.borrow().as_ref().expect("no source").alpha).len());
    let i = ask(k, n as u64) as usize;
    STATE.with(|s| f(&s.borrow().as_ref().unwrap().alpha)[i])
}

/// Uniform integer below `n`.
pub fn int(n: u64) -> u64 { ask(Kind::Int, n) }
fn a_unit(a: &Alphabet) -> &Vec<f64> { &a.unit }
fn a_normal(a: &Alphabet) -> &Vec<f64> { &a.normal }
fn a_exp1(a: &Alphabet) -> &Vec<f64> { &a.exp1 }
fn a_raw(a: &Alphabet) -> &Vec<u64> { &a.raw }
/// Float in [0,1).
pub fn unit() -> f64 { pick(Kind::Unit, a_unit) }
/// Standard normal draw.
pub fn normal() -> f64 { pick(Kind::Normal, a_normal) }
/// Exp(1) draw.
pub fn exp1() -> f64 { pick(Kind::Exp1, a_exp1) }
/// Raw 64 bits.
pub fn raw() -> u64 { raw_bits(64) }
/// Raw bits.
pub fn raw_bits(bits: u8) -> u64 { pick(Kind::Raw(bits), a_raw) }
