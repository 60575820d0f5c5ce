//! Conversions from and to vectors, boxed slices and iterators, and the copying of unique handles.
//!
//! Parameters: 0 groups, 1 largest length + 1, 2 largest excess capacity + 1.

use crate::fam::Fam;
use crate::sym::*;
use crate::world::*;
use core::convert::TryFrom;
use core::iter::FromIterator;

const G: u64 = G_CONV;

static mut NEXT: u64 = 0;
static mut LEFT: u64 = 0;

impl Clone for Pair {
    fn clone(&self) -> Pair {
        unsafe {
            if LEFT == 0 { __sym_panic(); }
            LEFT -= 1;
            let i = NEXT;
            NEXT = i + 1;
            Pair { id: start(2) + i, val: self.val }
        }
    }
}

/// A source of items that promises as little about its length as parameter h says.
struct Src { v: Vec<Pair>, h: u64 }
impl Iterator for Src {
    type Item = Pair;
    fn next(&mut self) -> Option<Pair> { if self.v.len() == 0 { None } else { Some(self.v.remove(0)) } }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.v.len();
        match self.h { 0 => (n, Some(n)), 1 => (0, None), _ => (n / 2, Some(n + 3)) }
    }
}

fn check_items(k: u32, s: &[Pair], vec: u64, n: u64) {
    chk(G, k, s.len() as u64 == n);
    let mut i = 0;
    while i < s.len() { chk(G, k + 1, s[i].id == start(vec) + i as u64); chk(G, k + 2, s[i].val == 500 + i as u64); i += 1; }
}

pub fn conv<F: Fam<Pair>>()
where
    F::S: From<Vec<Pair>> + From<Box<[Pair]>> + From<F::M> + FromIterator<Pair>,
    F::M: From<Vec<Pair>> + From<Box<[Pair]>> + TryFrom<F::S, Error = F::S> + FromIterator<Pair>,
{
    let n = pick(param(1));
    let extra = pick(param(2)) as usize;
    // A vector with room to spare, holding the items of vector 1.
    let mk = || { let mut v = Vec::with_capacity(n as usize + extra); let mut src: Vec<Pair> = make_vec(n, 1); while src.len() > 0 { let x = src.remove(0); v.push(x); } v };
    let how = pick(11);
    log(how);
    match how {
        0 => { let s = F::from_vec(mk()); check_items(1, &s, 1, n); }
        1 => { let s = F::from_box(mk().into_boxed_slice()); check_items(1, &s, 1, n); }
        2 => { let s: F::S = From::<Vec<Pair>>::from(mk()); check_items(1, &s, 1, n); }
        3 => { let s: F::S = From::<Box<[Pair]>>::from(mk().into_boxed_slice()); check_items(1, &s, 1, n); }
        4 => { let s: F::S = Src { v: mk(), h: pick(3) }.collect(); check_items(1, &s, 1, n); }
        5 => { let s = F::m_from_vec(mk()); check_items(1, &s, 1, n); }
        6 => { let s = F::m_from_box(mk().into_boxed_slice()); check_items(1, &s, 1, n); }
        7 => { let s: F::M = From::<Vec<Pair>>::from(mk()); check_items(1, &s, 1, n); }
        8 => { let s: F::M = From::<Box<[Pair]>>::from(mk().into_boxed_slice()); check_items(1, &s, 1, n); }
        9 => { let s: F::M = Src { v: mk(), h: pick(3) }.collect(); check_items(1, &s, 1, n); }
        _ => {
            // There and back again, and refused while shared.
            let m = F::m_from_vec(mk());
            let p = m.as_ptr();
            let s: F::S = From::<F::M>::from(m);
            check_items(1, &s, 1, n);
            chk(G, 10, s.as_ptr() == p);
            let other = s.clone();
            match <F::M as TryFrom<F::S>>::try_from(s) {
                Ok(_) => chk(G, 11, n == 0),
                Err(s) => {
                    check_items(1, &s, 1, n);
                    drop(other);
                    match <F::M as TryFrom<F::S>>::try_from(s) {
                        Ok(m) => { check_items(1, &m, 1, n); chk(G, 12, m.as_ptr() == p); cover(1201); }
                        Err(_) => chk(G, 13, n == 0),
                    }
                }
            }
        }
    }
    chk(G, 20, dropped_total() == n);
    chk(G, 21, live_heap() == 0);
    cover(100);
}

/// A copy of a unique handle, and copying that stops half way.
pub fn deep<F: Fam<Pair>>() {
    let n = pick(param(1));
    let mut m = F::m_from_vec(make_vec(n, 1));
    // The copied part: everything, or one half.
    let part = pick(3);
    let (mut st, mut len) = (0, n);
    let rest = match part { 1 => { len = n / 2; Some(F::m_split_off_right(&mut m)) } 2 => { st = n / 2; len = n - st; Some(F::m_split_off_left(&mut m)) } _ => None };
    let fail = pick(len + 1);
    let stops = fail < len;
    // The copies are the items of vector 2.
    let copies = if stops { fail } else { len };
    let mut v: Vec<Pair> = make_vec(copies, 2);
    unsafe { v.set_len(0); }
    drop(v);
    unsafe { NEXT = 0; LEFT = copies; }
    let mut c = None;
    let p = { let (c, m) = (&mut c, &m); try_run(move || { *c = Some(F::m_clone(m)); }) };
    chk(G, 30, p == stops);
    let check = |s: &[Pair], vec: u64, a: u64, k: u32, v0: u64| {
        chk(G, k, s.len() as u64 == len);
        let mut i = 0;
        while i < s.len() { chk(G, k + 1, s[i].id == start(vec) + a + i as u64); chk(G, k + 2, s[i].val == v0 + i as u64); i += 1; }
    };
    check(&m, 1, st, 31, 500 + st);
    if p {
        chk(G, 40, dropped_total() == copies);
        cover(1202);
    } else if let Some(c) = &mut c {
        check(c, 2, 0, 34, 500 + st);
        chk(G, 41, dropped_total() == 0);
        let mut i = 0;
        while i < c.len() { c[i].val = 900 + i as u64; i += 1; }
        check(&m, 1, st, 31, 500 + st);
        let mut i = 0;
        while i < m.len() { m[i].val = 700 + i as u64; i += 1; }
        check(c, 2, 0, 34, 900);
        cover(1203);
    }
    if pick(2) == 0 { drop(m); chk(G, 42, undropped(start(2), if p { 0 } else { len })); drop(c); } else { drop(c); chk(G, 43, undropped(start(1) + st, len)); drop(m); }
    drop(rest);
    chk(G, 44, dropped_total() == n + copies);
    chk(G, 45, live_heap() == 0);
    cover(100);
}
