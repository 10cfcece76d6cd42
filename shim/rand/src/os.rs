//! Operating-system randomness (cut down: /dev/urandom only).
use std::fs::File;
use std::io::{self, Read};
use Rng;

/// A random number generator that reads /dev/urandom.
#[derive(Debug)]
pub struct OsRng(File);

impl OsRng {
    /// Create a new `OsRng`.
    pub fn new() -> io::Result<OsRng> { Ok(OsRng(File::open("/dev/urandom")?)) }
}

impl Rng for OsRng {
    fn next_u32(&mut self) -> u32 {
        if ::mc::active() { return ::mc::raw() as u32; }
        let mut b = [0u8; 4];
        self.0.read_exact(&mut b).unwrap();
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        if ::mc::active() { return ::mc::raw(); }
        let mut b = [0u8; 8];
        self.0.read_exact(&mut b).unwrap();
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, v: &mut [u8]) { self.0.read_exact(v).unwrap(); }
    fn __mc(&self) -> bool { ::mc::active() }
}
