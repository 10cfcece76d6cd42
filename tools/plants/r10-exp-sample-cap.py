PROP='C06'
NEEDS='a unit exponential draw above 30 (one in 10^13)'
BREAKS='samples are capped at thirty means'
EDITS=[('src/stats/dist/exponential.rs', '        n / self.lambda', '        n.min(30.0) / self.lambda')]
DEMO=r'''
extern crate rusty_machine;
extern crate rand;
use rand::distributions::IndependentSample;
struct Top(u32);
impl rand::Rng for Top { fn next_u32(&mut self) -> u32 { self.next_u64() as u32 } fn next_u64(&mut self) -> u64 { self.0 += 1; if self.0 <= 6 { 0xffff_ffff_ffff_ff00 } else { 0x7fff_ffff_ffff_ff12 } } }
struct Zig(u32);
impl rand::Rng for Zig { fn next_u32(&mut self) -> u32 { self.next_u64() as u32 } fn next_u64(&mut self) -> u64 { self.0 += 1; if self.0 % 2 == 1 { !0xff } else { 1 } } }
fn main() { let e = rusty_machine::stats::dist::Exponential::new(1.0); let x = e.ind_sample(&mut Zig(0)); let y = { let rand::distributions::exponential::Exp1(y) = rand::Rng::gen(&mut Zig(0)); y }; assert!(x == y, "{} {}", x, y); assert!(y > 30.0, "demo draws {}", y); let _ = Top(0); }
'''
