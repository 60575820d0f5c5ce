//! The reference model: which handle covers which range, and what that implies.
//!
//! A node is a subslice reached by repeated halving of the original slice. It is
//! identified by its path, so two handles overlap only if one node is the other's
//! ancestor (or the same). A tree is a family of handles that descend, by cloning,
//! halving or upgrading, from one handle; converting to a unique handle and back
//! starts a new tree, to which older weak handles do not belong.

use crate::fam::Fam;
use crate::sym::*;

pub const MAXN: usize = 40;
pub const MAXS: usize = 10;
pub const NONE: usize = 255;
pub const MAXV: usize = 8;

// Groups of assertions: the hundreds of an assertion id name the property it belongs to.
pub const G_DROP: u64 = 1;
pub const G_VIEW: u64 = 2;
pub const G_GETMUT: u64 = 3;
pub const G_INTOMUT: u64 = 4;
pub const G_WEAK: u64 = 5;
pub const G_PARTS: u64 = 6;
pub const G_MPARTS: u64 = 7;
pub const G_ITER: u64 = 8;
pub const G_UNIQUE: u64 = 9;
pub const G_ALLOC: u64 = 10;
pub const G_CMP: u64 = 11;
pub const G_CONV: u64 = 12;
pub const G_PANIC: u64 = 13;
pub const G_CONC: u64 = 14;
pub const G_EXCL: u64 = 15;

/// Assertions of group g are checked in this run (parameter 0 is a bit set of groups).
pub fn on(g: u64) -> bool { param(0) >> g & 1 == 1 }
pub fn chk(g: u64, k: u32, c: bool) { if on(g) { check(c, g as u32 * 100 + k) } }

#[derive(Clone, Copy)]
pub struct Node { pub parent: usize, pub l: usize, pub r: usize, pub start: u64, pub len: u64 }

pub enum H<T: It, F: Fam<T>> { No, S(F::S), W(F::W), M(F::M) }

pub struct Slot<T: It, F: Fam<T>> { pub h: H<T, F>, pub node: usize, pub tree: usize, pub stale: bool }

pub struct World<T: It, F: Fam<T>> {
    pub n: u64,
    pub k: u64,
    pub base: *const T,
    pub nodes: [Node; MAXN],
    pub nn: usize,
    pub slots: [Slot<T, F>; MAXS],
    /// Slots in use are below this index.
    pub ns: usize,
    pub trees: usize,
    /// What the items that carry a value hold.
    pub vals: [u64; MAXV],
    pub writes: u64,
}

impl<T: It, F: Fam<T>> Slot<T, F> {
    pub const EMPTY: Self = Slot { h: H::No, node: 0, tree: 0, stale: false };
    pub fn is_s(&self) -> bool { matches!(self.h, H::S(_)) }
    pub fn is_w(&self) -> bool { matches!(self.h, H::W(_)) }
    pub fn is_m(&self) -> bool { matches!(self.h, H::M(_)) }
    pub fn is_no(&self) -> bool { matches!(self.h, H::No) }
    pub fn owner(&self) -> bool { matches!(self.h, H::S(_) | H::M(_)) }
    pub fn take(&mut self) -> H<T, F> { core::mem::replace(&mut self.h, H::No) }
}

/// The length of the slice under test: mode 0 = any (up to the address space), m = 0..m-1.
pub fn pick_n<T: It>(mode: u64) -> u64 {
    if mode > 0 { return concrete(range(0, mode - 1)); }
    // Any length, as a multiple of 2^B plus a residue: halving up to B times is linear in the multiple.
    let b = param(4);
    let q = range(0, if T::ZST { u64::MAX >> b } else { (1 << (55 - b)) - 1 });
    q * (1 << b) + pick(1 << b)
}

impl<T: It, F: Fam<T>> World<T, F> {
    /// A world without handles, over n items; returns the vector that holds them.
    pub fn new(n: u64, k: u64) -> (Self, Vec<T>) {
        let v: Vec<T> = make_vec(n, k);
        let root = Node { parent: NONE, l: NONE, r: NONE, start: 0, len: n };
        let w = World { n, k, base: v.as_ptr(), nodes: [root; MAXN], nn: 1, slots: [const { Slot::EMPTY }; MAXS], ns: 0, trees: 1, vals: core::array::from_fn(|i| 500 + i as u64), writes: 0 };
        (w, v)
    }
    pub fn put(&mut self, h: H<T, F>, node: usize, tree: usize) -> usize {
        let mut i = 0;
        while i < self.ns && !self.slots[i].is_no() { i += 1; }
        if i == self.ns { self.ns += 1; }
        self.slots[i] = Slot { h, node, tree, stale: false };
        i
    }
    /// The node of the left or right half, whatever its length.
    pub fn half(&mut self, x: usize, left: bool) -> usize {
        let c = if left { self.nodes[x].l } else { self.nodes[x].r };
        if c != NONE { return c; }
        let p = self.nodes[x];
        let i = self.nn;
        self.nn += 1;
        let h = p.len / 2;
        self.nodes[i] = if left { Node { parent: x, l: NONE, r: NONE, start: p.start, len: h } } else { Node { parent: x, l: NONE, r: NONE, start: p.start + h, len: p.len - h } };
        if left { self.nodes[x].l = i } else { self.nodes[x].r = i }
        i
    }
    /// The node a shared handle on the left or right half refers to: halving a slice too
    /// short to be divided gives the same subslice again.
    pub fn child(&mut self, x: usize, left: bool) -> usize {
        let len = self.nodes[x].len;
        if left && len == 0 || !left && len <= 1 { x } else { self.half(x, left) }
    }
    pub fn anc(&self, a: usize, mut x: usize) -> bool {
        // a is x or an ancestor of x.
        while x != NONE { if x == a { return true; } x = self.nodes[x].parent; }
        false
    }
    pub fn related(&self, a: usize, b: usize) -> bool { self.anc(a, b) || self.anc(b, a) }
    /// The two nodes share at least one item.
    pub fn overlap(&self, a: usize, b: usize) -> bool {
        if self.anc(a, b) { self.nodes[b].len > 0 } else if self.anc(b, a) { self.nodes[a].len > 0 } else { false }
    }
    /// How many items below this node some owner covers.
    pub fn cover(&self, x: usize) -> u64 {
        let mut i = 0;
        while i < self.ns { if self.slots[i].owner() && self.slots[i].node == x { return self.nodes[x].len; } i += 1; }
        let mut s = 0u64;
        if self.nodes[x].l != NONE { s = s.wrapping_add(self.cover(self.nodes[x].l)); }
        if self.nodes[x].r != NONE { s = s.wrapping_add(self.cover(self.nodes[x].r)); }
        s
    }
    pub fn owners(&self) -> usize {
        let mut c = 0;
        let mut i = 0;
        while i < self.ns { if self.slots[i].owner() { c += 1; } i += 1; }
        c
    }
    /// A weak handle can be upgraded while a shared handle of its tree to its slice, or to a
    /// slice that contains it by halving, exists.
    pub fn upgradable(&self, i: usize) -> bool {
        let mut j = 0;
        while j < self.ns {
            if self.slots[j].is_s() && self.slots[j].tree == self.slots[i].tree && self.anc(self.slots[j].node, self.slots[i].node) { return true; }
            j += 1;
        }
        false
    }
    /// Bookkeeping after each operation, for the known finding about get_mut of the Arc family.
    pub fn age(&mut self) {
        let mut i = 0;
        while i < self.ns {
            if self.slots[i].is_w() && !self.slots[i].stale {
                let mut held = false;
                let mut j = 0;
                while j < self.ns {
                    if self.slots[j].is_s() && self.slots[j].tree == self.slots[i].tree && self.anc(self.slots[i].node, self.slots[j].node) { held = true; }
                    j += 1;
                }
                if !held { self.slots[i].stale = true; }
            }
            i += 1;
        }
    }

    // ---- checks

    /// Exactly the items nobody owns any more have been dropped.
    pub fn check_drops(&self) {
        if !on(G_DROP) { return; }
        let mut i = 0;
        if !T::ZST {
            while i < self.ns {
                if self.slots[i].owner() { let x = &self.nodes[self.slots[i].node]; chk(G_DROP, 1, undropped(start(self.k).wrapping_add(x.start), x.len)); }
                i += 1;
            }
        }
        chk(G_DROP, 2, dropped_total() == self.n.wrapping_sub(self.cover(0)));
    }
    pub fn check_slice(&self, g: u64, s: &[T], st: u64, len: u64) {
        chk(g, 1, s.len() as u64 == len);
        if !T::ZST {
            let e = unsafe { (self.base as *const u8).add((st as usize).wrapping_mul(core::mem::size_of::<T>())) };
            // An empty slice may start anywhere.
            chk(g, 2, (len == 0) | (s.as_ptr() as usize == e as usize));
        }
        chk(g, 3, s.as_ptr() as usize % core::mem::align_of::<T>() == 0 && !s.as_ptr().is_null());
    }
    /// Every handle shows its range of the original items, where they always were.
    pub fn check_views(&self) {
        if !on(G_VIEW) { return; }
        let mut i = 0;
        while i < self.ns {
            let x = &self.nodes[self.slots[i].node];
            match &self.slots[i].h {
                H::S(s) => self.check_items(s, x),
                H::M(m) => self.check_items(m, x),
                _ => {}
            }
            i += 1;
        }
    }
    fn check_items(&self, s: &[T], x: &Node) {
        self.check_slice(G_VIEW, s, x.start, x.len);
        if !T::ZST && s.len() > 0 {
            chk(G_VIEW, 4, s[0].id() == start(self.k) + x.start);
            chk(G_VIEW, 5, s[s.len() - 1].id() == start(self.k) + x.start + (x.len - 1));
        }
        if T::VAL {
            let mut i = 0;
            while i < s.len() {
                chk(G_VIEW, 6, s[i].val() == self.vals[x.start as usize + i]);
                chk(G_VIEW, 7, s[i].id() == start(self.k) + x.start + i as u64);
                i += 1;
            }
        }
    }
    /// Write through handle i, if it gives exclusive access.
    pub fn op_write(&mut self, i: usize) {
        let x = self.nodes[self.slots[i].node];
        self.writes += 1000;
        let w = self.writes;
        let m: Option<&mut [T]> = match &mut self.slots[i].h { H::S(s) => F::get_mut(s), H::M(m) => Some(m), _ => None };
        if let Some(m) = m {
            let mut j = 0;
            while j < m.len() { m[j].set(w + j as u64); self.vals[x.start as usize + j] = w + j as u64; j += 1; }
            cover(201);
        } else { cover(202); }
    }
    /// get_mut succeeds exactly when nothing else can reach the items.
    pub fn probe_get_mut(&mut self, i: usize) {
        let (node, tree) = (self.slots[i].node, self.slots[i].tree);
        let (mut strong, mut weak, mut weak_known, mut rel) = (false, false, false, false);
        let mut j = 0;
        while j < self.ns {
            if j != i && !self.slots[j].is_no() && self.related(self.slots[j].node, node) {
                let o = &self.slots[j];
                if o.owner() { rel = true; if self.overlap(o.node, node) { strong = true; } }
                if o.is_w() && self.upgradable(j) {
                    rel = true;
                    if self.overlap(o.node, node) {
                        if o.node == node && !o.stale { weak = true; } else { weak_known = true; }
                    }
                }
                // A weak handle that cannot be upgraded any more may or may not stand in the way,
                // as for the standard library's Rc::get_mut.
                if o.is_w() { rel = true; }
            }
            j += 1;
        }
        let _ = tree;
        let x = self.nodes[node];
        if let H::S(s) = &mut self.slots[i].h {
            let p = s.as_ptr();
            match F::get_mut(s) {
                Some(m) => {
                    chk(G_GETMUT, 1, !strong);
                    chk(G_GETMUT, 2, !weak);
                    // Listed as a known finding for the Arc family.
                    if F::ARC { if !strong && !weak { chk(G_GETMUT, 50, !weak_known); } } else { chk(G_GETMUT, 3, !weak_known); }
                    chk(G_GETMUT, 4, m.len() as u64 == x.len);
                    chk(G_GETMUT, 5, T::ZST | (m.as_ptr() == p));
                    cover(301);
                }
                None => { chk(G_GETMUT, 6, rel); cover(302); }
            }
        }
    }
    pub fn probe_all_get_mut(&mut self) {
        if !on(G_GETMUT) { return; }
        let mut i = 0;
        while i < self.ns { if self.slots[i].is_s() { self.probe_get_mut(i); } i += 1; }
    }
    /// into_mut succeeds exactly when no other shared handle overlaps, and otherwise gives the handle back.
    pub fn op_into_mut(&mut self, i: usize) {
        let (node, tree) = (self.slots[i].node, self.slots[i].tree);
        let (mut overlap, mut rel) = (false, false);
        let mut j = 0;
        while j < self.ns {
            if j != i && self.slots[j].owner() && self.related(self.slots[j].node, node) { rel = true; if self.overlap(self.slots[j].node, node) { overlap = true; } }
            j += 1;
        }
        let x = self.nodes[node];
        if let H::S(s) = self.slots[i].take() {
            match F::into_mut(s) {
                Ok(m) => {
                    chk(G_INTOMUT, 1, !overlap);
                    self.check_slice_at(G_INTOMUT, 10, &m, x.start, x.len);
                    cover(401);
                    self.slots[i].h = H::M(m);
                    self.slots[i].tree = self.trees;
                    self.trees += 1;
                }
                Err(s) => {
                    chk(G_INTOMUT, 2, rel);
                    self.check_slice_at(G_INTOMUT, 20, &s, x.start, x.len);
                    cover(402);
                    self.slots[i].h = H::S(s);
                    self.slots[i].tree = tree;
                }
            }
        }
    }
    pub fn check_slice_at(&self, g: u64, k: u32, s: &[T], st: u64, len: u64) {
        chk(g, k + 1, s.len() as u64 == len);
        if !T::ZST {
            let e = unsafe { (self.base as *const u8).add((st as usize).wrapping_mul(core::mem::size_of::<T>())) };
            chk(g, k + 2, (len == 0) | (s.as_ptr() as usize == e as usize));
        }
    }
    /// Upgrade weak handle i; the new shared handle goes into a slot of its own.
    pub fn op_upgrade(&mut self, i: usize) {
        let can = self.upgradable(i);
        let (node, tree) = (self.slots[i].node, self.slots[i].tree);
        let up = if let H::W(w) = &self.slots[i].h { F::upgrade(w) } else { None };
        match up {
            Some(s) => {
                chk(G_WEAK, 1, can);
                let x = self.nodes[node];
                self.check_slice_at(G_WEAK, 10, &s, x.start, x.len);
                cover(501);
                self.put(H::S(s), node, tree);
            }
            None => { chk(G_WEAK, 2, !can); cover(502); }
        }
    }
    pub fn probe_all_upgrade(&mut self) {
        if !on(G_WEAK) { return; }
        let ns = self.ns;
        let mut i = 0;
        while i < ns {
            if self.slots[i].is_w() {
                let can = self.upgradable(i);
                let x = self.nodes[self.slots[i].node];
                let up = if let H::W(w) = &self.slots[i].h { F::upgrade(w) } else { None };
                chk(G_WEAK, 3, up.is_some() == can);
                if let Some(s) = up { self.check_slice_at(G_WEAK, 30, &s, x.start, x.len); cover(501); } else { cover(502); }
            }
            i += 1;
        }
    }
    /// Drop every handle that is left, checking the ledger after each; then nothing may be left.
    pub fn teardown(&mut self, rev: bool) {
        let mut c = 0;
        while c < self.ns {
            let i = if rev { self.ns - 1 - c } else { c };
            if !self.slots[i].is_no() {
                drop(self.slots[i].take());
                self.check_drops();
                self.check_alloc();
            }
            c += 1;
        }
        chk(G_DROP, 3, dropped_total() == self.n);
        chk(G_ALLOC, 1, live_heap() == 0);
        cover(100);
    }
    /// The memory of the slice is there while any item is owned, and gone once nothing owns a part of it.
    pub fn check_alloc(&self) {
        if !on(G_ALLOC) || T::ZST { return; }
        if self.n > 0 {
            let f = unsafe { __sym_freed(self.base as *const u8) };
            if self.owners() == 0 { chk(G_ALLOC, 2, f); } else { chk(G_ALLOC, 3, !f | (self.cover(0) == 0)); }
        }
    }
}
