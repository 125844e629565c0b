//! What the addon holds: reported to the driver as `verifLive()`.
use crate::sys::*;
use crate::values::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::ptr::{null, null_mut};
use std::sync::atomic::{AtomicIsize, Ordering::Relaxed};

struct Counting;
static IN_USE: AtomicIsize = AtomicIsize::new(0);

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        IN_USE.fetch_add(l.size() as isize, Relaxed);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        IN_USE.fetch_add(l.size() as isize, Relaxed);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        IN_USE.fetch_sub(l.size() as isize, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        IN_USE.fetch_add(n as isize - l.size() as isize, Relaxed);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOCATOR: Counting = Counting;

extern "C" fn live(e: napi_env, _info: napi_callback_info) -> napi_value {
    let [dbs, values, iters] = rocksdb::verif::live();
    let bytes = IN_USE.load(Relaxed) as i64;
    let mut out = null_mut();
    unsafe {
        sure(napi_create_array_with_length(e, 4, &mut out));
        for (i, n) in [dbs, values, iters, bytes].iter().enumerate() {
            let mut v = null_mut();
            sure(napi_create_double(e, *n as f64, &mut v));
            sure(napi_set_element(e, out, i as u32, v));
        }
    }
    out
}
pub fn export(exports: napi_value) {
    let (mut f, mut name) = (null_mut(), null_mut());
    unsafe {
        sure(napi_create_function(env(), null(), 0, live, null_mut(), &mut f));
        sure(napi_create_string_utf8(env(), b"verifLive".as_ptr() as *const _, 9, &mut name));
        sure(napi_set_property(env(), exports, name, f));
    }
}
