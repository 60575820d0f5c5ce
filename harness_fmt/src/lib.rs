//! Debug output of every handle and iterator type, against that of the slice it shows.
//!
//! Without the standard library, so that core's formatting code can be compiled to IR along with it.
//!
//! Parameters: 0 groups, 1 largest length plus one, 2 mask of types.
#![no_std]
#![feature(formatting_options)]
#![allow(clippy::all, improper_ctypes, dead_code)]

extern crate alloc;
use alloc::vec::Vec;
use core::fmt::{self, Debug, Formatter, FormattingOptions, Sign, Write};

extern "C" {
    fn __sym_range(lo: u64, hi: u64) -> u64;
    fn __sym_assert(c: bool, id: u32);
    fn __sym_cover(id: u32);
    fn __sym_concrete(x: u64) -> u64;
    fn __sym_log(v: u64);
    fn __sym_param(i: u64) -> u64;
    fn __sym_live_heap() -> u64;
}
fn range(lo: u64, hi: u64) -> u64 { unsafe { __sym_range(lo, hi) } }
fn pick(k: u64) -> u64 { unsafe { __sym_concrete(__sym_range(0, k - 1)) } }
fn log(v: u64) { unsafe { __sym_log(v) } }
fn cover(id: u32) { unsafe { __sym_cover(id) } }
fn param(i: u64) -> u64 { unsafe { __sym_param(i) } }
const GROUP: u64 = 16;
fn chk(k: u32, c: bool) { if param(0) >> GROUP & 1 == 1 { unsafe { __sym_assert(c, GROUP as u32 * 100 + k) } } }
fn pick_of(mask: u64) -> u64 {
    let mut c = pick(mask.count_ones() as u64);
    let mut i = 0;
    loop { if mask >> i & 1 == 1 { if c == 0 { return i; } c -= 1; } i += 1; }
}

const CAP: usize = 640;
/// Records what is written, and fails once it is full.
struct Sink { buf: [u8; CAP], n: usize, room: usize, full: bool }
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let b = s.as_bytes();
        if self.full || b.len() > self.room - self.n { self.full = true; return Err(fmt::Error); }
        let mut i = 0;
        while i < b.len() { if self.n < CAP { self.buf[self.n] = b[i]; } self.n += 1; i += 1; }
        Ok(())
    }
}

/// An item that shows its value and the options it is formatted with, and fails if told to.
pub struct D { v: u8, err: bool }
impl Debug for D {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        if self.err { return Err(fmt::Error); }
        let w = match f.width() { None => 0, Some(w) => 1 + w };
        let p = match f.precision() { None => 0, Some(p) => 1 + p };
        let o = f.sign_plus() as u8 + 2 * f.sign_minus() as u8 + 4 * f.alternate() as u8 + 8 * f.sign_aware_zero_pad() as u8;
        let s = [self.v, (w & 63) as u8, (w >> 6 & 63) as u8, (w >> 12) as u8, (p & 63) as u8, (p >> 6 & 63) as u8, (p >> 12) as u8, o + 64];
        f.write_str(unsafe { core::str::from_utf8_unchecked(&s) })
    }
}

fn same(a: &Sink, b: &Sink, ra: fmt::Result, rb: fmt::Result) {
    // Errors come back, whatever they are; in how many pieces the text is written does not matter.
    chk(1, ra.is_ok() == rb.is_ok());
    chk(2, a.n == b.n || a.full);
    chk(3, a.full == b.full);
    let mut i = 0;
    let mut h = 0u64;
    while i < a.n && i < b.n && i < CAP { chk(4, a.buf[i] == b.buf[i]); h = h.wrapping_mul(31).wrapping_add(a.buf[i] as u64); i += 1; }
    log(a.n as u64);
    log(h);
    if ra.is_ok() { cover(1601); } else { cover(1602); }
    if a.n > 8 { cover(1603); }
}

fn against<A: Debug, B: Fn(&mut Formatter<'_>) -> fmt::Result>(a: &A, b: B, pads: bool) {
    let mut o = FormattingOptions::new();
    if pick(2) == 1 { o.alternate(true); }
    // Numbers are padded as the options say, in a loop; anything else passes them on.
    match pick(if pads { 4 } else { 3 }) {
        0 => {}
        1 => { o.sign(Some(Sign::Plus)); o.sign_aware_zero_pad(true); if pads { o.width(Some(3)); } else { o.width(Some(range(0, 65535) as u16)); } }
        2 => { if !pads { o.precision(Some(range(0, 65535) as u16)); } o.sign(Some(Sign::Minus)); }
        _ => { o.fill('*'); o.width(Some(5)); o.debug_as_hex(Some(fmt::DebugAsHex::Upper)); }
    }
    let room = match pick(5) { 0 => CAP, 1 => 0, 2 => 5, 3 => 20, _ => 50 };
    let mut x = Sink { buf: [0; CAP], n: 0, room, full: false };
    let mut y = Sink { buf: [0; CAP], n: 0, room, full: false };
    let ra = { let mut f = o.create_formatter(&mut x); a.fmt(&mut f) };
    let rb = { let mut f = o.create_formatter(&mut y); b(&mut f) };
    same(&x, &y, ra, rb);
}

fn tuple<'a>(name: &'a str, s: &'a [D]) -> impl Fn(&mut Formatter<'_>) -> fmt::Result + 'a { move |f| f.debug_tuple(name).field(&s).finish() }
fn parts<'a>(name: &'a str, k: usize, s: &'a [D]) -> impl Fn(&mut Formatter<'_>) -> fmt::Result + 'a { move |f| f.debug_struct(name).field("remaining_parts", &k).field("remaining_items", &s).finish() }

macro_rules! family {
    ($name:ident, $m:ident, $S:ident, $M:ident, $P:ident, $MP:ident, $MI:ident) => {
        #[no_mangle]
        pub extern "C-unwind" fn $name() {
            use rc_slice::$m::*;
            let n = pick(param(1));
            let bad = pick(n + 1);
            let mk = || { let mut v = Vec::with_capacity(n as usize); let mut i = 0; while i < n { v.push(D { v: range(97, 122) as u8, err: bad == i && pick(2) == 1 }); i += 1; } v };
            let show = |s: &[D]| -> *const [D] { s };
            match pick_of(param(2)) {
                0 => { let s = $S::from_vec(mk()); let h = match pick(3) { 0 => s.clone(), 1 => $S::clone_left(&s), _ => $S::clone_right(&s) }; against(&h, |f: &mut Formatter<'_>| Debug::fmt(&h[..], f), false); }
                1 => { let mut m = $M::from_vec(mk()); if pick(2) == 1 { let l = $M::split_off_left(&mut m); against(&l, |f: &mut Formatter<'_>| Debug::fmt(&l[..], f), false); } against(&m, |f: &mut Formatter<'_>| Debug::fmt(&m[..], f), false); }
                2 => { let mut it = $M::from_vec(mk()).into_iter(); if pick(2) == 1 { it.next_back(); } if pick(2) == 1 { it.next(); } let s = show(it.as_slice()); against(&it, tuple(stringify!($MI), unsafe { &*s }), false); }
                3 => {
                    let s = $S::from_vec(mk());
                    let k = 1usize << pick(3);
                    let mut p = $S::split_into_parts(s, k);
                    let t = pick(3) as usize;
                    let mut j = 0;
                    while j < t { if j == 1 { p.next_back(); } else { p.next(); } j += 1; }
                    let s = show(p.as_slice());
                    against(&p, parts(stringify!($P), p.len(), unsafe { &*s }), true);
                }
                _ => {
                    let m = $M::from_vec(mk());
                    let k = 1usize << pick(3);
                    let mut p = $M::split_into_parts(m, k);
                    let t = pick(3) as usize;
                    let mut j = 0;
                    while j < t { if j == 1 { p.next_back(); } else { p.next(); } j += 1; }
                    let s = show(p.as_slice());
                    against(&p, parts(stringify!($MP), p.len(), unsafe { &*s }), true);
                }
            }
            chk(5, unsafe { __sym_live_heap() } == 0);
            cover(100);
        }
    };
}

family!(h_rc_debug, rc, RcSlice, RcSliceMut, RcSliceParts, RcSliceMutParts, RcSliceMutIter);
family!(h_arc_debug, arc, ArcSlice, ArcSliceMut, ArcSliceParts, ArcSliceMutParts, ArcSliceMutIter);

pub const ENTRIES: &[(&str, extern "C-unwind" fn())] = &[("h_rc_debug", h_rc_debug), ("h_arc_debug", h_arc_debug)];
