//! Global allocator that poisons fresh and freed memory, so that reading
//! uninitialised or released memory gives a deterministic wrong answer.
use std::alloc::{GlobalAlloc, Layout, System};

pub struct Poison;

const LIM: usize = 1 << 14;

unsafe impl GlobalAlloc for Poison {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() { std::ptr::write_bytes(p, 0xA5, l.size().min(LIM)); }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        std::ptr::write_bytes(p, 0x5A, l.size().min(LIM));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() && n > l.size() { std::ptr::write_bytes(q.add(l.size()), 0xA5, (n - l.size()).min(LIM)); }
        q
    }
}
