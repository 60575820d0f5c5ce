//! Iterators that give the items of a unique handle away, and are split at arbitrary points.
//!
//! Parameters: 0 groups, 1 number of operations, 2 length mode, 3 where the handle comes from (mask), 4 residue bits,
//! 5 mask of operations.

use crate::fam::Fam;
use crate::parts::pick_of;
use crate::sym::*;
use crate::world::*;

const G: u64 = G_ITER;
const MAXI: usize = 4;

struct Pool<T: It, F: Fam<T>> { it: [Option<F::MIter>; MAXI], a: [u64; MAXI], b: [u64; MAXI], base: *const T, keep: Option<T>, kept: u64, dropped: u64, ver: u64 }

impl<T: It, F: Fam<T>> Pool<T, F> {
    fn check(&mut self) {
        let mut i = 0;
        while i < MAXI {
            let len = self.b[i].wrapping_sub(self.a[i]);
            if let Some(it) = &mut self.it[i] {
                chk(G, 1, it.len() as u64 == len);
                let (lo, hi) = it.size_hint();
                chk(G, 2, lo as u64 == len);
                chk(G, 3, hi == Some(lo));
                let e = if T::ZST { 0 } else { (self.base as usize).wrapping_add((self.a[i] as usize).wrapping_mul(core::mem::size_of::<T>())) };
                let s = F::it_slice(it);
                chk(G, 4, s.len() as u64 == len);
                if !T::ZST { chk(G, 5, (len == 0) | (s.as_ptr() as usize == e)); }
                let s = F::it_mut_slice(it);
                if T::VAL { let mut j = 0; while j < s.len() { chk(G, 23, s[j].id() == start(1) + self.a[i] + j as u64); s[j].set(1000 * self.ver + self.a[i] + j as u64); j += 1; } }
                chk(G, 6, s.len() as u64 == len);
                if !T::ZST { chk(G, 7, (len == 0) | (s.as_ptr() as usize == e)); }
                if !T::ZST { chk(G, 8, undropped(start(1).wrapping_add(self.a[i]), len)); }
            }
            i += 1;
        }
        self.ver += 1;
        chk(G, 9, dropped_total() == self.dropped);
        if let Some(k) = &self.keep { if !T::ZST { chk(G, 10, k.id() == self.kept); chk(G, 11, undropped(k.id(), 1)); } }
    }
    fn free(&self) -> usize { let mut i = 0; while i < MAXI && self.it[i].is_some() { i += 1; } i }
    fn live(&self) -> usize { let mut c = 0; let mut i = 0; while i < MAXI { if self.it[i].is_some() { c += 1; } i += 1; } c }
    fn got(&mut self, x: Option<T>, empty: bool, pos: u64) {
        chk(G, 12, x.is_none() == empty);
        if let Some(x) = x {
            if !T::ZST { chk(G, 13, x.id() == start(1).wrapping_add(pos)); }
            if T::VAL { chk(G, 24, x.val() == 1000 * (self.ver - 1) + pos); }
            cover(801);
            if self.keep.is_none() { self.kept = x.id(); self.keep = Some(x); } else { drop(x); self.dropped = self.dropped.wrapping_add(1); }
        } else { cover(802); }
    }
    fn step(&mut self) -> bool {
        let live = self.live();
        if live == 0 { return false; }
        let mut c = pick(live as u64);
        let mut i = 0;
        loop { if self.it[i].is_some() { if c == 0 { break; } c -= 1; } i += 1; }
        let ops = if param(5) == 0 { 127 } else { param(5) };
        let op = pick_of(ops);
        log(100 * op + i as u64);
        let len = self.b[i].wrapping_sub(self.a[i]);
        match op {
            0 => {
                let x = if let Some(it) = &mut self.it[i] { it.next() } else { None };
                let empty = len == 0;
                let p = self.a[i];
                if x.is_some() { self.a[i] = self.a[i].wrapping_add(1); }
                self.got(x, empty, p);
            }
            1 => {
                let x = if let Some(it) = &mut self.it[i] { it.next_back() } else { None };
                let empty = len == 0;
                if x.is_some() { self.b[i] = self.b[i].wrapping_sub(1); }
                let p = self.b[i];
                self.got(x, empty, p);
            }
            2 | 3 => {
                let at = range(0, u64::MAX);
                let j = self.free();
                if j == MAXI { return false; }
                let mut r = None;
                let p = if let Some(it) = &mut self.it[i] { let r = &mut r; try_run(|| { *r = Some(if op == 2 { F::it_from(it, at as usize) } else { F::it_to(it, at as usize) }); }) } else { false };
                chk(G, 14, p == (at > len));
                if p { cover(803); } else {
                    cover(804);
                    self.it[j] = r;
                    let mid = self.a[i].wrapping_add(at);
                    if op == 2 { self.a[j] = mid; self.b[j] = self.b[i]; self.b[i] = mid; } else { self.a[j] = self.a[i]; self.b[j] = mid; self.a[i] = mid; }
                }
            }
            4 => { self.it[i] = None; self.dropped = self.dropped.wrapping_add(len); }
            7 | 8 => {
                // Skip some; all of them at once only where there are few.
                let k = match pick(if T::VAL { 4 } else { 3 }) { 3 => u64::MAX, k => k };
                let x = if let Some(it) = &mut self.it[i] { if op == 7 { it.nth(k as usize) } else { it.nth_back(k as usize) } } else { None };
                let empty = len <= k;
                let skip = if empty { len } else { k };
                self.dropped = self.dropped.wrapping_add(skip);
                if op == 7 { self.a[i] = self.a[i].wrapping_add(skip); } else { self.b[i] = self.b[i].wrapping_sub(skip); }
                let p = if op == 7 { self.a[i] } else { self.b[i].wrapping_sub(1) };
                if x.is_some() { if op == 7 { self.a[i] = p.wrapping_add(1); } else { self.b[i] = p; } }
                self.got(x, empty, p);
                cover(805);
            }
            9 | 10 => {
                let (a, b, ver) = (self.a[i], self.b[i], self.ver);
                let mut q = if op == 9 { a } else { b };
                let mut see = |x: T, p: u64| { if !T::ZST { chk(G, 25, x.id() == start(1).wrapping_add(p)); } if T::VAL { chk(G, 26, x.val() == 1000 * (ver - 1) + p); } };
                if let Some(it) = self.it[i].take() {
                    if op == 9 { it.fold((), |_, x| { see(x, q); q += 1; }); chk(G, 27, q == b); } else { it.rfold((), |_, x| { q -= 1; see(x, q); }); chk(G, 27, q == a); }
                }
                self.dropped = self.dropped.wrapping_add(len);
                cover(806);
            }
            11 => {
                let x = if let Some(it) = self.it[i].take() { it.last() } else { None };
                if x.is_some() { self.dropped = self.dropped.wrapping_add(len - 1); }
                let p = self.b[i].wrapping_sub(1);
                self.got(x, len == 0, p);
            }
            5 => { if let Some(it) = self.it[i].take() { chk(G, 15, it.count() as u64 == len); } self.dropped = self.dropped.wrapping_add(len); }
            _ => return false,
        }
        true
    }
}

pub fn iter<T: It, F: Fam<T>>() {
    let n = pick_n::<T>(param(2));
    let v: Vec<T> = make_vec(n, 1);
    let base = v.as_ptr();
    let mut m = F::m_from_vec(v);
    let mut p = Pool::<T, F> { it: [const { None }; MAXI], a: [0; MAXI], b: [0; MAXI], base, keep: None, kept: 0, dropped: 0, ver: 0 };
    let mut rest = None;
    let h = n / 2;
    // The whole slice, one half of it, or a slice that was shared before.
    match pick_of(if param(3) == 0 { 15 } else { param(3) }) {
        0 => { p.it[0] = Some(F::m_into_iter(m)); p.b[0] = n; }
        1 => { let l = F::m_split_off_left(&mut m); p.it[0] = Some(F::m_into_iter(l)); p.b[0] = h; rest = Some((m, h, n - h)); }
        2 => { let r = F::m_split_off_right(&mut m); p.it[0] = Some(F::m_into_iter(r)); p.a[0] = h; p.b[0] = n; rest = Some((m, 0, h)); }
        _ => {
            let s = F::into_immut(m);
            let w = F::downgrade(&s);
            drop(F::clone_left(&s));
            if let Ok(m) = F::into_mut(s) { p.it[0] = Some(F::m_into_iter(m)); p.b[0] = n; chk(G, 16, F::upgrade(&w).is_none()); }
        }
    }
    p.check();
    let mut k = param(1);
    while k > 0 && p.step() { p.check(); k -= 1; }
    if let Some((m, st, len)) = rest {
        chk(G, 17, m.len() as u64 == len);
        if !T::ZST { chk(G, 18, undropped(start(1).wrapping_add(st), len)); if m.len() > 0 { chk(G, 19, m[0].id() == start(1).wrapping_add(st)); } }
        drop(m);
        p.dropped = p.dropped.wrapping_add(len);
        p.check();
    }
    let rev = pick(2) == 1;
    let mut i = 0;
    while i < MAXI {
        let j = if rev { MAXI - 1 - i } else { i };
        if p.it[j].is_some() { p.it[j] = None; p.dropped = p.dropped.wrapping_add(p.b[j].wrapping_sub(p.a[j])); p.check(); }
        i += 1;
    }
    // An item that was given away outlives the slice.
    if !T::ZST { chk(G, 20, dropped_total() == n - p.keep.is_some() as u64); }
    p.keep = None;
    chk(G, 21, dropped_total() == n);
    // (A caught panic leaves its payload to the panic machinery.)
    chk(G, 22, live_heap() == 0);
    cover(100);
}
