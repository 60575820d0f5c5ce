//! Runs one harness natively, against the real crate, with recorded inputs and a recorded schedule.
//!
//!   replay ENTRY params inputs sched      (comma-separated; sched is t:n,t:n,...; - for an empty list)

use std::alloc::{GlobalAlloc, Layout};
use std::panic::{catch_unwind, AssertUnwindSafe};

extern "C" {
    fn rt_alloc(size: usize, align: usize, zero: i32) -> *mut u8;
    fn rt_free(p: *mut u8, size: usize, align: usize);
    fn rt_list(which: i32, v: u64, w: u64);
    fn rt_begin();
    fn rt_end() -> i32;
    fn rt_fail(kind: *const u8);
}

struct Rt;
unsafe impl GlobalAlloc for Rt {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { rt_alloc(l.size(), l.align(), 0) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { rt_alloc(l.size(), l.align(), 1) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { rt_free(p, l.size(), l.align()) }
}
#[global_allocator]
static A: Rt = Rt;

/// Calls f(p); 1 if it panicked.
#[no_mangle]
pub extern "C" fn rs_call(f: extern "C-unwind" fn(*mut u8), p: *mut u8) -> u32 { catch_unwind(AssertUnwindSafe(|| f(p))).is_err() as u32 }
#[no_mangle]
pub extern "C-unwind" fn __sym_try(f: extern "C-unwind" fn(*mut u8), p: *mut u8) -> u32 { rs_call(f, p) }
#[no_mangle]
pub extern "C-unwind" fn __sym_panic() -> ! { std::panic::resume_unwind(Box::new(())) }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let list = |i: usize| -> Vec<String> { match a.get(i).map(|s| s.as_str()) { None | Some("-") | Some("") => vec![], Some(s) => s.split(',').map(|x| x.to_string()).collect() } };
    unsafe {
        for x in list(2) { rt_list(0, x.parse().unwrap(), 0); }
        for x in list(3) { rt_list(1, x.parse().unwrap(), 0); }
        for x in list(4) { let (t, n) = x.split_once(':').unwrap(); rt_list(2, t.parse().unwrap(), n.parse().unwrap()); }
    }
    let e = match harness::ENTRIES.iter().chain(harness_fmt::ENTRIES).find(|e| Some(e.0) == a.get(1).map(|s| s.as_str())) { Some(e) => e.1, None => { eprintln!("no such entry"); std::process::exit(2) } };
    std::panic::set_hook(Box::new(|_| {}));
    // The panic machinery sets itself up the first time it is used.
    let _ = catch_unwind(|| panic!("warm up {}", 1));
    unsafe { rt_begin(); }
    let r = catch_unwind(AssertUnwindSafe(|| e()));
    unsafe {
        if r.is_err() { rt_fail(b"panic\0".as_ptr()); }
        std::process::exit(rt_end());
    }
}
