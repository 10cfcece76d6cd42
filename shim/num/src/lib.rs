//! Stand-in for `num` 0.1 with default features off: num 0.1 re-exports
//! num-traits (and num-integer / num-iter), so this does the same.
pub use num_traits::*;
/// `num::traits`
pub mod traits {
    pub use num_traits::*;
}
/// Iterator over `start..stop` (num-iter).
pub fn range<T: Copy + PartialOrd + One + std::ops::Add<T, Output = T>>(start: T, stop: T) -> Range<T> {
    Range { at: start, stop }
}
/// See `range`.
#[derive(Clone, Debug)]
pub struct Range<T> { at: T, stop: T }
impl<T: Copy + PartialOrd + One + std::ops::Add<T, Output = T>> Iterator for Range<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.at < self.stop { let r = self.at; self.at = self.at + T::one(); Some(r) } else { None }
    }
}
/// num-integer subset.
pub trait Integer: Num + PartialOrd + Ord + Eq + Copy {
    fn div_floor(&self, o: &Self) -> Self;
    fn mod_floor(&self, o: &Self) -> Self;
    fn is_even(&self) -> bool;
    fn is_odd(&self) -> bool { !self.is_even() }
    fn div_rem(&self, o: &Self) -> (Self, Self) { (*self / *o, *self % *o) }
    fn gcd(&self, o: &Self) -> Self {
        let (mut a, mut b) = (*self, *o);
        while b != Self::zero() { let t = a % b; a = b; b = t; }
        a
    }
    fn lcm(&self, o: &Self) -> Self { *self / self.gcd(o) * *o }
}
macro_rules! int { ($($t:ty)*) => {$(impl Integer for $t {
    fn div_floor(&self, o: &$t) -> $t { let q = *self / *o; if (*self % *o != 0) && ((*self ^ *o) as i128) < 0 { q - 1 } else { q } }
    fn mod_floor(&self, o: &$t) -> $t { *self - self.div_floor(o) * *o }
    fn is_even(&self) -> bool { *self % 2 == 0 }
})*} }
int!(i8 i16 i32 i64 isize u8 u16 u32 u64 usize);
/// `num::integer`
pub mod integer { pub use super::Integer; }
