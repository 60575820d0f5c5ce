//! Threads that share one slice, each with a handle of its own.
//!
//! Parameters: 0 groups, 1 threads, 2 number of items, 3 mask of operations, 4 operations per thread,
//! 5 mask of handle kinds, 6 which combinations (0 but for the known findings,
//! 1 or 2 only those), 7 mask of who keeps the whole (1 nobody, 2 the spawning thread), 8 mask of operations
//! of the first thread (0: the same).

use crate::parts::pick_of;
use crate::sym::*;
use crate::world::*;
use rc_slice::arc::{ArcSlice, ArcSliceMut, WeakSlice};

type S = ArcSlice<Pair>;
type M = ArcSliceMut<Pair>;
type W = WeakSlice<Pair>;

const MAXJ: usize = 3;

pub const DROP: u64 = 0;
pub const CLONE: u64 = 1;
pub const LEFT: u64 = 2;
pub const RIGHT: u64 = 3;
pub const SPLITL: u64 = 4;
pub const WEAK: u64 = 5;
pub const GETMUT: u64 = 6;
pub const INTOMUT: u64 = 7;
pub const READ: u64 = 8;
pub const PARTS: u64 = 9;
pub const DOWNGRADE: u64 = 10;
pub const RENEW: u64 = 11;
pub const UPGRADE: u64 = 12;
pub const WCLONE: u64 = 13;
pub const WDROP: u64 = 14;
pub const REVIVE: u64 = 15;
pub const GOLEFT: u64 = 16;
pub const GORIGHT: u64 = 17;

struct Job { s: Option<S>, m: Option<M>, w: Option<W>, st: u64, len: u64, n: u64, ops: [u64; 3], held: bool, excl: bool }

fn read(s: &[Pair], st: u64, len: u64) {
    chk(G_CONC, 1, s.len() as u64 == len);
    let mut i = 0;
    while i < s.len() { chk(G_CONC, 2, s[i].id == start(1) + st + i as u64 && s[i].val >= 500); i += 1; }
}

impl Job {
    fn op(&mut self, op: u64) {
        let (st, len) = (self.st, self.len);
        match op {
            DROP => { self.s = None; }
            CLONE => if let Some(s) = &self.s { let c = s.clone(); read(&c, st, len); drop(c); }
            LEFT => if let Some(s) = &self.s { let c = S::clone_left(s); read(&c, st, len / 2); drop(c); }
            RIGHT => if let Some(s) = &self.s { let c = S::clone_right(s); read(&c, st + len / 2, len - len / 2); drop(c); }
            SPLITL => if let Some(s) = &mut self.s {
                let l = S::split_off_left(s);
                read(&l, st, len / 2);
                self.st = st + len / 2;
                self.len = len - len / 2;
                read(s, self.st, self.len);
                drop(l);
            }
            WEAK => if let Some(s) = &self.s {
                let w = S::downgrade(s);
                let u = w.upgrade();
                chk(G_CONC, 10, u.is_some());
                if let Some(u) = u { read(&u, st, len); }
            }
            GETMUT => if let Some(s) = &mut self.s {
                if let Some(x) = S::get_mut(s) {
                    self.excl = true;
                    let mut i = 0;
                    while i < x.len() { x[i].val += 1000; i += 1; }
                    cover(1501);
                } else { cover(1502); }
            }
            INTOMUT | RENEW => if let Some(s) = self.s.take() {
                match S::into_mut(s) {
                    Ok(mut m) => {
                        self.excl = true;
                        read(&m, st, len);
                        let mut i = 0;
                        while i < m.len() { m[i].val += 2000; i += 1; }
                        cover(1503);
                        if op == RENEW { self.s = Some(M::into_immut(m)); } else { self.m = Some(m); }
                    }
                    Err(s) => { read(&s, st, len); self.s = Some(s); cover(1504); }
                }
            }
            READ => if let Some(s) = &self.s { read(s, st, len); }
            PARTS => if let Some(s) = self.s.take() {
                let mut it = S::split_into_parts(s, 2);
                if let Some(l) = it.next() { read(&l, st, len / 2); }
                self.s = it.next();
                self.st = st + len / 2;
                self.len = len - len / 2;
            }
            DOWNGRADE => if let Some(s) = self.s.take() { self.w = Some(S::downgrade(&s)); }
            UPGRADE | REVIVE => if let Some(w) = &self.w {
                match w.upgrade() {
                    Some(s) => { read(&s, st, len); cover(1401); if op == REVIVE { self.s = Some(s); self.w = None; } }
                    None => { chk(G_CONC, 11, !self.held); cover(1402); }
                }
            }
            WCLONE => if let Some(w) = &self.w { let c = w.clone(); if let Some(s) = c.upgrade() { read(&s, st, len); } else { chk(G_CONC, 12, !self.held); } }
            WDROP => { self.w = None; }
            GOLEFT => if let Some(s) = &mut self.s { *s = S::clone_left(s); self.len = len / 2; read(s, st, self.len); }
            GORIGHT => if let Some(s) = &mut self.s { *s = S::clone_right(s); self.st = st + len / 2; self.len = len - len / 2; read(s, self.st, self.len); }
            _ => {}
        }
    }
    fn go(&mut self) {
        let mut i = 0;
        while i < 3 { if self.ops[i] < 18 { self.op(self.ops[i]); } i += 1; }
        if let Some(s) = &self.s { read(s, self.st, self.len); }
        if let Some(m) = &self.m { read(m, self.st, self.len); }
        self.s = None;
        self.m = None;
        self.w = None;
    }
}

extern "C-unwind" fn body(p: *mut u8) { unsafe { (*(p as *mut Job)).go() } }

const S_OPS: u64 = 0x30fff;
const W_OPS: u64 = 0x0f000;

/// What a thread does that the known findings are about.
#[derive(Clone, Copy)]
struct Does {
    /// The depths at which it may upgrade a weak handle, ask for exclusive access, call get_mut of a handle whose guard may be new.
    up: u64, ex: u64, anew: u64,
}
fn does(kind: u64, ops: &[u64; 3]) -> Does {
    let mut d = Does { up: 0, ex: 0, anew: 0 };
    let mut depth = if kind % 3 == 0 { 1 } else { 2 };
    let mut new = false;
    let mut i = 0;
    while i < 3 {
        match ops[i] {
            UPGRADE | WCLONE => d.up |= depth,
            REVIVE => { d.up |= depth; new = true; }
            GETMUT => { d.ex |= depth; if new { d.anew |= depth; } }
            INTOMUT | RENEW => d.ex |= depth,
            SPLITL | PARTS | GOLEFT | GORIGHT => { depth *= 2; new = true; }
            _ => {}
        }
        i += 1;
    }
    d
}

pub fn conc() {
    let n = param(2);
    let t = param(1) as usize;
    let root = S::from_vec(make_vec::<Pair>(n, 1));
    let keep = pick_of(param(7)) == 1;
    let mut jobs: [Job; MAXJ] = core::array::from_fn(|_| Job { s: None, m: None, w: None, st: 0, len: 0, n, ops: [99; 3], held: keep, excl: false });
    let mut kinds = [0u64; MAXJ];
    let mut codes = [0u64; MAXJ];
    let mut i = 0;
    while i < t {
        // Kind: 0 to 2 shared, 3 to 5 weak; of the whole, the left half, the right half.
        let k = pick_of(param(5));
        kinds[i] = k;
        let h = match k % 3 { 0 => root.clone(), 1 => S::clone_left(&root), _ => S::clone_right(&root) };
        jobs[i].st = if k % 3 == 2 { n / 2 } else { 0 };
        jobs[i].len = match k % 3 { 0 => n, 1 => n / 2, _ => n - n / 2 };
        if k < 3 { jobs[i].s = Some(h); } else { jobs[i].w = Some(S::downgrade(&h)); drop(h); }
        // What it does first decides what it can do next.
        let mut weak = k >= 3;
        let mut j = 0;
        let all = if i == 0 && param(8) != 0 { param(8) } else { param(3) };
        codes[i] = k;
        while j < param(4) as usize {
            let m = all & if weak { W_OPS } else { S_OPS };
            if m == 0 { return; }
            let o = pick_of(m);
            jobs[i].ops[j] = o;
            codes[i] = codes[i] * 32 + o;
            if o == DOWNGRADE { weak = true; } else if o == REVIVE { weak = false; }
            j += 1;
        }
        i += 1;
    }
    // Threads are alike: one order of them is enough.
    let mut i = 1;
    while i < t { if param(8) == 0 && codes[i - 1] > codes[i] { return; } if param(8) != 0 && i > 1 && codes[i - 1] > codes[i] { return; } i += 1; }
    // The known findings: exclusive access to a slice races with the upgrade of a weak handle to a part of
    // it (1); get_mut through a revived handle, while another thread has a weak handle from before (2).
    let mut known = 0;
    let mut a = 0;
    while a < t {
        let mut b = 0;
        while b < t {
            if a != b && !keep {
                let (x, y) = (does(kinds[a], &jobs[a].ops), does(kinds[b], &jobs[b].ops));
                if x.ex != 0 && y.up >= 2 * (x.ex & x.ex.wrapping_neg()) { known = 1; }
                if known == 0 && x.anew & y.up != 0 { known = 2; }
            }
            b += 1;
        }
        a += 1;
    }
    if known != param(6) { return; }
    let mut i = 0;
    while i < t { log(kinds[i]); log(jobs[i].ops[0]); log(jobs[i].ops[1]); log(jobs[i].ops[2]); i += 1; }
    let mut root = if keep { Some(root) } else { drop(root); None };
    let p = jobs.as_mut_ptr();
    let mut ids = [0u32; MAXJ];
    let mut i = 0;
    while i < t { ids[i] = unsafe { __sym_spawn(body, p.add(i) as *mut u8) }; i += 1; }
    if let Some(r) = &root { read(r, 0, n); }
    let mut i = 0;
    while i < t { unsafe { __sym_join(ids[i]); } i += 1; }
    if let Some(r) = &mut root {
        let mut i = 0;
        while i < t { chk(G_EXCL, 1, !jobs[i].excl || jobs[i].len == 0); i += 1; }
        chk(G_CONC, 3, dropped_total() == 0);
        // Everybody else is gone: what they did leaves no trace.
        chk(G_EXCL, 2, S::get_mut(r).is_some());
        read(r, 0, n);
        cover(1403);
    }
    if let Some(r) = root {
        match S::into_mut(r) { Ok(m) => read(&m, 0, n), Err(r) => { chk(G_EXCL, 3, false); read(&r, 0, n); } }
    }
    chk(G_CONC, 4, dropped_total() == n);
    chk(G_CONC, 5, live_heap() == 0);
    cover(100);
}
