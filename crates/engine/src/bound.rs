//! Bounds on the probabilities of outcomes, from the draws of a few executions.
use crate::*;
use std::collections::BTreeMap;

pub fn hash<T: std::hash::Hash>(v: &T) -> u64 { use std::hash::Hasher; let mut h = std::collections::hash_map::DefaultHasher::new(); v.hash(&mut h); h.finish() }

/// Exponents of the primes in a product of numbers.
pub struct Factors(BTreeMap<u32, i64>);
impl Factors {
    pub fn new() -> Factors { Factors(BTreeMap::new()) }
    pub fn times(&mut self, mut x: u32, k: i64) {
        let mut p = 2;
        while x > 1 { if p * p > x { p = x; } while x % p == 0 { x /= p; *self.0.entry(p).or_insert(0) += k; } p += 1; }
    }
    fn ln(&self) -> f64 { self.0.iter().map(|(p, k)| (*p as f64).ln() * *k as f64).sum() }
}
/// An execution has the probability one over the product of its draws' alternatives; it cannot exceed that
/// of the result it leads to. When all executions draw from the same numbers of alternatives, the probability
/// of a result is a multiple of that of an execution.
pub struct Bound { results: Factors, drawn: Option<Vec<u32>>, same: bool, ln: f64, coarse: bool }
impl Bound {
    pub fn new(results: Factors) -> Bound { Bound { ln: results.ln(), results, drawn: None, same: true, coarse: false } }
    /// Also count whole words of up to 24 bits as that many alternatives. Only sound where the executions seen include
    /// the smallest and the largest value of every word, so that rejection of either would show as a difference.
    pub fn coarse(mut self) -> Bound { self.coarse = true; self }
    pub fn see(&mut self, what: &dyn Fn() -> String, drawn: Option<&[u32]>) -> R {
        let d = match drawn { Some(d) => d, None => { self.same = false; return Ok(()); } };
        match self.drawn {
            None => { self.same = d.iter().all(|x| x & BITS == 0 || self.coarse && x & !BITS <= 24); self.drawn = Some(d.to_vec()) }
            Some(ref e) => { if e[..] == *d { return Ok(()); } self.same = false; }
        }
        let ln: f64 = d.iter().map(|x| if x & BITS == 0 { (*x as f64).ln() } else { (*x & !BITS) as f64 * std::f64::consts::LN_2 }).sum();
        ensure!(ln >= self.ln - 1e-6 * (1.0 + self.ln), "{}: one outcome has probability e^-{:.3}, more than its share e^-{:.3}", what(), ln, self.ln);
        Ok(())
    }
    pub fn end(self, what: &dyn Fn() -> String) -> Result<bool, String> {
        let d = match (self.same, self.drawn) { (true, Some(d)) => d, _ => return Ok(false) };
        let mut f = Factors::new();
        for x in &d { if x & BITS == 0 { f.times(*x, 1) } else { f.times(2, (x & !BITS) as i64) } }
        let ln = f.ln();
        for (p, k) in self.results.0 { f.times(p, -k); }
        ensure!(f.0.values().all(|k| *k >= 0), "{}: the draws have {:?} alternatives, whose product is no multiple of the number of results: they cannot be equally likely", what(), &d[..d.len().min(40)]);
        Ok((ln - self.ln).abs() < 1e-6 * (1.0 + ln))
    }
}
pub fn factorial(n: usize) -> Factors { let mut f = Factors::new(); for i in 2..=n { f.times(i as u32, 1); } f }
pub fn choices(n: usize, k: usize) -> Factors { let mut f = factorial(n); for i in 2..=k { f.times(i as u32, -1); } for i in 2..=n - k { f.times(i as u32, -1); } f }

