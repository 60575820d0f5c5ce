//! Comparison, hashing and borrowing: a handle behaves as the plain slice it shows.
//!
//! Parameters: 0 groups, 1 largest length + 1, 2 number of values, 3 mask of handle types.

use crate::parts::pick_of;
use crate::sym::*;
use crate::world::*;
use core::borrow::{Borrow, BorrowMut};
use core::cmp::Ordering;
use core::hash::{Hash, Hasher};
use rc_slice::arc::{ArcSlice, ArcSliceMut};
use rc_slice::rc::{RcSlice, RcSliceMut};

const G: u64 = G_CMP;

/// Partially ordered: the value 0 is comparable to nothing, not even itself.
#[derive(Clone, Copy)]
pub struct P(u64);
impl PartialEq for P { fn eq(&self, o: &P) -> bool { self.0 == o.0 && self.0 != 0 } }
impl PartialOrd for P {
    fn partial_cmp(&self, o: &P) -> Option<Ordering> {
        if self.0 == 0 || o.0 == 0 { None } else if self.0 < o.0 { Some(Ordering::Less) } else if self.0 > o.0 { Some(Ordering::Greater) } else { Some(Ordering::Equal) }
    }
}
/// Totally ordered, downwards; hashed.
#[derive(Clone, Copy)]
pub struct O(u64);
impl PartialEq for O { fn eq(&self, o: &O) -> bool { self.0 == o.0 } }
impl Eq for O {}
impl PartialOrd for O { fn partial_cmp(&self, o: &O) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for O { fn cmp(&self, o: &O) -> Ordering { if self.0 > o.0 { Ordering::Less } else if self.0 < o.0 { Ordering::Greater } else { Ordering::Equal } } }
impl Hash for O { fn hash<H: Hasher>(&self, h: &mut H) { h.write_u64(self.0) } }
/// Comparable to O, in one direction only.
#[derive(Clone, Copy)]
pub struct X(u64);
impl PartialEq<X> for O { fn eq(&self, o: &X) -> bool { self.0 == o.0 + 1 } }

/// Remembers what it is fed.
pub struct Rec { v: [u64; 16], n: usize }
impl Rec {
    fn new() -> Rec { Rec { v: [0; 16], n: 0 } }
    fn put(&mut self, x: u64) { if self.n < 16 { self.v[self.n] = x; } self.n += 1; }
    fn same(&self, o: &Rec) -> bool {
        let mut r = self.n == o.n;
        let mut i = 0;
        while i < 16 { r &= self.v[i] == o.v[i]; i += 1; }
        r
    }
}
impl Hasher for Rec {
    fn finish(&self) -> u64 { self.n as u64 }
    fn write(&mut self, b: &[u8]) { self.put(1 << 32 | b.len() as u64); let mut i = 0; while i < b.len() { self.put(b[i] as u64); i += 1; } }
    fn write_u8(&mut self, x: u8) { self.put(2 << 32); self.put(x as u64) }
    fn write_u64(&mut self, x: u64) { self.put(3 << 32); self.put(x) }
    fn write_usize(&mut self, x: usize) { self.put(4 << 32); self.put(x as u64) }
}

fn contents<V: Copy>(f: fn(u64) -> V) -> ([V; 4], usize) {
    let n = pick(param(1)) as usize;
    let mut a = [f(1); 4];
    let mut i = 0;
    while i < n { a[i] = f(range(0, param(2) - 1)); i += 1; }
    (a, n)
}
fn vec_of<V: Copy>(a: &[V]) -> Vec<V> { let mut v = Vec::with_capacity(a.len()); let mut i = 0; while i < a.len() { v.push(a[i]); i += 1; } v }
fn same_slice<V>(a: &[V], b: &[V]) -> bool { (a.as_ptr() == b.as_ptr()) & (a.len() == b.len()) }

macro_rules! of_type {
    ($name:ident, $S:ident, $left:expr, $mutable:expr) => {
        fn $name() {
            // Partial order and equality, with values that are not equal to themselves.
            let (a, n) = contents(P);
            let (b, m) = contents(P);
            match pick(4) {
                0 => {
                    let (x, y) = ($S::from_vec(vec_of(&a[..n])), $S::from_vec(vec_of(&b[..m])));
                    let (s, t) = (&a[..n], &b[..m]);
                    chk(G, 1, (x == y) == (s == t));
                    chk(G, 2, (x != y) == (s != t));
                    chk(G, 3, x.partial_cmp(&y) == s.partial_cmp(t));
                    chk(G, 4, (x < y) == (s < t));
                    chk(G, 5, (x <= y) == (s <= t));
                    chk(G, 6, (x > y) == (s > t));
                    chk(G, 7, (x >= y) == (s >= t));
                    // A handle compared with itself.
                    chk(G, 8, (x == x) == (s == s));
                    chk(G, 30, x.partial_cmp(&x) == s.partial_cmp(s));
                    cover(1101);
                }
                1 => {
                    // A half, with a value that may be incomparable, against the whole of the other.
                    let x = $left(&mut $S::from_vec(vec_of(&a[..n])));
                    let y = $S::from_vec(vec_of(&b[..m]));
                    let (s, t) = (&a[..n / 2], &b[..m]);
                    chk(G, 9, (x == y) == (s == t));
                    chk(G, 10, (y == x) == (t == s));
                    chk(G, 11, (x != y) == (s != t));
                    chk(G, 12, x.partial_cmp(&y) == s.partial_cmp(t));
                    chk(G, 13, y.partial_cmp(&x) == t.partial_cmp(s));
                    cover(1102);
                }
                2 => {
                    let f = |a: &[P; 4], n: usize| { let mut v = Vec::with_capacity(n); let mut i = 0; while i < n { v.push(O(a[i].0)); i += 1; } v };
                    let g = |a: &[P; 4], n: usize| { let mut v = Vec::with_capacity(n); let mut i = 0; while i < n { v.push(X(a[i].0)); i += 1; } v };
                    let (u, w, z) = (f(&a, n), f(&b, m), g(&b, m));
                    let (mut x, y, q) = ($S::from_vec(f(&a, n)), $S::from_vec(f(&b, m)), $S::from_vec(g(&b, m)));
                    chk(G, 14, x.cmp(&y) == u[..].cmp(&w[..]));
                    chk(G, 15, y.cmp(&x) == w[..].cmp(&u[..]));
                    chk(G, 16, (x == y) == (u[..] == w[..]));
                    chk(G, 17, (x.cmp(&y) == Ordering::Equal) == (x == y));
                    chk(G, 18, x.partial_cmp(&y) == Some(x.cmp(&y)));
                    chk(G, 19, (x == q) == (u[..] == z[..]));
                    chk(G, 20, (x != q) == (u[..] != z[..]));
                    let (mut h, mut k, mut j) = (Rec::new(), Rec::new(), Rec::new());
                    x.hash(&mut h);
                    u[..].hash(&mut k);
                    y.hash(&mut j);
                    chk(G, 21, h.same(&k));
                    // Equal handles hash alike, wherever they came from.
                    if x == y { chk(G, 22, h.same(&j)); cover(1103); }
                    let l = $left(&mut x);
                    let (mut h, mut k) = (Rec::new(), Rec::new());
                    l.hash(&mut h);
                    u[..n / 2].hash(&mut k);
                    chk(G, 23, h.same(&k));
                    chk(G, 24, l.cmp(&y) == u[..n / 2].cmp(&w[..]));
                    cover(1104);
                }
                _ => {
                    let mut x = $S::from_vec(vec_of(&a[..n]));
                    let l = $left(&mut x);
                    for s in [&x, &l] {
                        chk(G, 25, same_slice::<P>(s.as_ref(), s));
                        chk(G, 26, same_slice::<P>(Borrow::<[P]>::borrow(s), s));
                    }
                    if $mutable { cover(1105); }
                    cover(1106);
                }
            }
        }
    };
}
of_type!(rc_s, RcSlice, |x: &mut RcSlice<_>| RcSlice::clone_left(x), false);
of_type!(rc_m, RcSliceMut, RcSliceMut::split_off_left, true);
of_type!(arc_s, ArcSlice, |x: &mut ArcSlice<_>| ArcSlice::clone_left(x), false);
of_type!(arc_m, ArcSliceMut, ArcSliceMut::split_off_left, true);

macro_rules! borrow_mut {
    ($S:ident) => {{
        let (a, n) = contents(O);
        let mut x = $S::from_vec(vec_of(&a[..n]));
        let (p, l) = (x.as_ptr(), x.len());
        { let s: &mut [O] = x.as_mut(); chk(G, 27, s.as_ptr() == p && s.len() == l); if l > 0 { s[0] = O(77); } }
        { let s: &mut [O] = x.borrow_mut(); chk(G, 28, s.as_ptr() == p && s.len() == l); if l > 0 { chk(G, 29, s[0].0 == 77); } }
        cover(1107);
    }};
}

pub fn cmp() {
    match pick_of(param(3)) {
        0 => rc_s(),
        1 => rc_m(),
        2 => arc_s(),
        3 => arc_m(),
        4 => borrow_mut!(RcSliceMut),
        _ => borrow_mut!(ArcSliceMut),
    }
    chk(G, 40, live_heap() == 0);
    cover(100);
}
