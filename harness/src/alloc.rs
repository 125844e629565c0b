//! An allocator that counts, while asked to, how many bytes are in use.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicIsize, Ordering::Relaxed};

pub struct Counting;

static ON: AtomicBool = AtomicBool::new(false);
static IN_USE: AtomicIsize = AtomicIsize::new(0);

fn note(by: isize) {
    if ON.load(Relaxed) {
        IN_USE.fetch_add(by, Relaxed);
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}

/// Counts from here on until it is dropped.
pub struct Count(());
impl Count {
    pub fn start() -> Count {
        IN_USE.store(0, Relaxed);
        ON.store(true, Relaxed);
        Count(())
    }
    /// Bytes taken and not given back since the start.
    pub fn in_use(&self) -> isize {
        IN_USE.load(Relaxed)
    }
}
impl Drop for Count {
    fn drop(&mut self) {
        ON.store(false, Relaxed);
    }
}
