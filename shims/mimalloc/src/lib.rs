//! Stand-in: forwards to the system allocator.
use std::alloc::{GlobalAlloc, Layout, System};
pub struct MiMalloc;
unsafe impl GlobalAlloc for MiMalloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { System.realloc(p, l, n) }
}
