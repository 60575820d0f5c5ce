//! The interface to the symbolic executor (or to the native replayer).

extern "C" {
    /// An arbitrary value in lo..=hi.
    pub fn __sym_range(lo: u64, hi: u64) -> u64;
    pub fn __sym_assume(c: bool);
    pub fn __sym_assert(c: bool, id: u32);
    /// Marks that this point was reached (checked for vacuity).
    pub fn __sym_cover(id: u32);
    /// Labels the path; violations carry the labels of their path.
    pub fn __sym_tag(id: u32);
    /// Memory for n items; item i starts with the word start + i.
    pub fn __sym_vec(n: u64, size: u64, align: u64, start: u64) -> *mut u8;
    pub fn __sym_concrete(x: u64) -> u64;
    pub fn __sym_drop(v: u64);
    pub fn __sym_zdrop();
    /// None of the items lo..lo+len has been dropped.
    pub fn __sym_undropped(lo: u64, len: u64) -> bool;
    pub fn __sym_dropped_total() -> u64;
    pub fn __sym_live_heap() -> u64;
    pub fn __sym_freed(p: *const u8) -> bool;
    pub fn __sym_log(v: u64);
    pub fn __sym_param(i: u64) -> u64;
    pub fn __sym_spawn(f: extern "C-unwind" fn(*mut u8), p: *mut u8) -> u32;
    pub fn __sym_join(t: u32);
}
extern "C-unwind" {
    pub fn __sym_panic() -> !;
    /// Runs f(p); 1 if it panicked.
    pub fn __sym_try(f: extern "C-unwind" fn(*mut u8), p: *mut u8) -> u32;
}

pub fn range(lo: u64, hi: u64) -> u64 { unsafe { __sym_range(lo, hi) } }
/// A choice among k alternatives; every one is explored.
pub fn pick(k: u64) -> u64 { unsafe { __sym_concrete(__sym_range(0, k - 1)) } }
pub fn concrete(x: u64) -> u64 { unsafe { __sym_concrete(x) } }
pub fn assume(c: bool) { unsafe { __sym_assume(c) } }
pub fn check(c: bool, id: u32) { unsafe { __sym_assert(c, id) } }
pub fn cover(id: u32) { unsafe { __sym_cover(id) } }
pub fn tag(id: u32) { unsafe { __sym_tag(id) } }
pub fn param(i: u64) -> u64 { unsafe { __sym_param(i) } }
pub fn log(v: u64) { unsafe { __sym_log(v) } }
pub fn undropped(lo: u64, len: u64) -> bool { unsafe { __sym_undropped(lo, len) } }
pub fn dropped_total() -> u64 { unsafe { __sym_dropped_total() } }
pub fn live_heap() -> u64 { unsafe { __sym_live_heap() } }

/// Run a closure, reporting whether it panicked.
pub fn try_run<F: FnOnce()>(f: F) -> bool {
    extern "C-unwind" fn tramp<F: FnOnce()>(p: *mut u8) { let f = unsafe { (*(p as *mut Option<F>)).take() }; if let Some(f) = f { f() } }
    let mut o = Some(f);
    unsafe { __sym_try(tramp::<F>, &mut o as *mut Option<F> as *mut u8) == 1 }
}

/// What an item of a slice under test can do.
pub trait It: Sized + 'static {
    const ZST: bool;
    /// Carries a value that may be changed.
    const VAL: bool = false;
    /// The identity this item was made with.
    fn id(&self) -> u64;
    fn val(&self) -> u64 { 0 }
    fn set(&mut self, _v: u64) {}
    /// Items 0 to n of vector k.
    fn make(n: u64, k: u64) -> Vec<Self> {
        unsafe {
            let p = __sym_vec(n, core::mem::size_of::<Self>() as u64, core::mem::align_of::<Self>() as u64, start(k));
            let mut v = Vec::from_raw_parts(p as *mut Self, n as usize, n as usize);
            if Self::VAL { let mut i = 0; while i < v.len() { core::ptr::write((&mut v[i] as *mut Self as *mut u64).add(1), 500 + i as u64); i += 1; } }
            v
        }
    }
}

/// An 8-byte item that is its own identity.
#[repr(transparent)]
pub struct Item(pub u64);
impl Drop for Item { fn drop(&mut self) { unsafe { __sym_drop(self.0) } } }
impl It for Item { const ZST: bool = false; fn id(&self) -> u64 { self.0 } }

/// A zero-size item with a destructor.
pub struct Zst;
impl Drop for Zst { fn drop(&mut self) { unsafe { __sym_zdrop() } } }
impl It for Zst { const ZST: bool = true; fn id(&self) -> u64 { 0 } }

/// A 16-byte item: an identity and a value that may be changed. Its destructor writes to it.
#[repr(C)]
pub struct Pair { pub id: u64, pub val: u64 }
impl Drop for Pair { fn drop(&mut self) { unsafe { __sym_drop(self.id); core::ptr::write(&mut self.val, 7) } } }
impl It for Pair {
    const ZST: bool = false;
    const VAL: bool = true;
    fn id(&self) -> u64 { self.id }
    fn val(&self) -> u64 { self.val }
    fn set(&mut self, v: u64) { self.val = v }
}

/// The identity of the first item of vector k (1-based).
pub const fn start(k: u64) -> u64 { k << 56 }

pub fn make_vec<T: It>(n: u64, k: u64) -> Vec<T> { T::make(n, k) }

/// A single byte (for short slices).
pub struct Byte(u8);
impl Drop for Byte { fn drop(&mut self) { unsafe { __sym_drop(self.id()) } } }
impl It for Byte {
    const ZST: bool = false;
    fn id(&self) -> u64 { start(1) + self.0 as u64 }
}

/// An item whose size is no power of two.
#[repr(C)]
pub struct Odd { id: u64, val: u64, rest: [u8; 5] }
/// An item with a large alignment.
#[repr(C, align(64))]
pub struct Wide { id: u64, val: u64 }
macro_rules! other {
    ($t:ident) => {
        impl Drop for $t { fn drop(&mut self) { unsafe { __sym_drop(self.id); core::ptr::write(&mut self.val, 7) } } }
        impl It for $t {
            const ZST: bool = false;
            const VAL: bool = true;
            fn id(&self) -> u64 { self.id }
            fn val(&self) -> u64 { self.val }
            fn set(&mut self, v: u64) { self.val = v }
        }
    };
}
other!(Odd);
other!(Wide);

/// A zero-size item with a large alignment.
#[repr(align(64))]
pub struct ZWide;
impl Drop for ZWide { fn drop(&mut self) { unsafe { __sym_zdrop() } } }
impl It for ZWide {
    const ZST: bool = true;
    fn id(&self) -> u64 { 0 }
}
