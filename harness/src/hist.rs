//! Arbitrary histories of operations over a pool of handles.
//!
//! Parameters: 0 assertion groups, 1 number of operations, 2 length mode, 3 operation set.

use crate::fam::Fam;
use crate::sym::*;
use crate::world::*;

const OP_CLONE: u64 = 1;
const OP_LEFT: u64 = 2;
const OP_RIGHT: u64 = 4;
const OP_DROP: u64 = 8;
const OP_WEAK: u64 = 16;
const OP_INTOMUT: u64 = 32;
const OP_SPLITL: u64 = 64;
const OP_SPLITR: u64 = 128;
const OP_UPGRADE: u64 = 256;
const OP_WCLONE: u64 = 512;
const OP_MSPLITL: u64 = 1024;
const OP_MSPLITR: u64 = 2048;
const OP_IMMUT: u64 = 4096;
const OP_WRITE: u64 = 8192;
const OP_GETMUT: u64 = 16384;
const S_OPS: u64 = OP_CLONE | OP_LEFT | OP_RIGHT | OP_DROP | OP_WEAK | OP_INTOMUT | OP_SPLITL | OP_SPLITR | OP_WRITE | OP_GETMUT;
const W_OPS: u64 = OP_UPGRADE | OP_WCLONE | OP_DROP;
const M_OPS: u64 = OP_MSPLITL | OP_MSPLITR | OP_IMMUT | OP_DROP | OP_WRITE;

impl<T: It, F: Fam<T>> World<T, F> {
    fn ops_of(&self, i: usize) -> u64 {
        let o = match self.slots[i].h { H::No => 0, H::S(_) => S_OPS, H::W(_) => W_OPS, H::M(_) => M_OPS };
        o & param(3)
    }
    pub fn apply(&mut self, i: usize, op: u64) {
        let (node, tree) = (self.slots[i].node, self.slots[i].tree);
        match op {
            OP_DROP => { drop(self.slots[i].take()); }
            OP_CLONE => { let h = if let H::S(s) = &self.slots[i].h { H::S(s.clone()) } else { H::No }; self.put(h, node, tree); }
            OP_WCLONE => { let h = if let H::W(s) = &self.slots[i].h { H::W(s.clone()) } else { H::No }; let st = self.slots[i].stale; let j = self.put(h, node, tree); self.slots[j].stale = st; }
            OP_LEFT => { let h = if let H::S(s) = &self.slots[i].h { H::S(F::clone_left(s)) } else { H::No }; let c = self.child(node, true); self.put(h, c, tree); }
            OP_RIGHT => { let h = if let H::S(s) = &self.slots[i].h { H::S(F::clone_right(s)) } else { H::No }; let c = self.child(node, false); self.put(h, c, tree); }
            OP_SPLITL => {
                let h = if let H::S(s) = &mut self.slots[i].h { H::S(F::split_off_left(s)) } else { H::No };
                let (l, r) = (self.child(node, true), self.child(node, false));
                self.slots[i].node = r;
                self.put(h, l, tree);
            }
            OP_SPLITR => {
                let h = if let H::S(s) = &mut self.slots[i].h { H::S(F::split_off_right(s)) } else { H::No };
                let (l, r) = (self.child(node, true), self.child(node, false));
                self.slots[i].node = l;
                self.put(h, r, tree);
            }
            OP_WEAK => { let h = if let H::S(s) = &self.slots[i].h { H::W(F::downgrade(s)) } else { H::No }; self.put(h, node, tree); }
            OP_UPGRADE => self.op_upgrade(i),
            OP_INTOMUT => self.op_into_mut(i),
            OP_GETMUT => self.probe_get_mut(i),
            OP_WRITE => { if T::VAL { self.op_write(i); self.check_views(); } }
            OP_IMMUT => {
                if let H::M(m) = self.slots[i].take() {
                    let s = F::into_immut(m);
                    let x = self.nodes[node];
                    self.check_slice_at(G_UNIQUE, 10, &s, x.start, x.len);
                    cover(901);
                    self.slots[i].h = H::S(s);
                }
            }
            OP_MSPLITL => {
                let h = if let H::M(m) = &mut self.slots[i].h { H::M(F::m_split_off_left(m)) } else { H::No };
                let (l, r) = (self.half(node, true), self.half(node, false));
                self.slots[i].node = r;
                let j = self.put(h, l, tree);
                self.check_unique(i, j);
            }
            OP_MSPLITR => {
                let h = if let H::M(m) = &mut self.slots[i].h { H::M(F::m_split_off_right(m)) } else { H::No };
                let (l, r) = (self.half(node, true), self.half(node, false));
                self.slots[i].node = l;
                let j = self.put(h, r, tree);
                self.check_unique(i, j);
            }
            _ => {}
        }
        self.age();
    }
    fn check_unique(&mut self, i: usize, j: usize) {
        cover(902);
        // Unique handles start trees of their own.
        self.slots[j].tree = self.trees;
        self.trees += 1;
        if !on(G_UNIQUE) { return; }
        for q in [i, j] {
            let x = self.nodes[self.slots[q].node];
            if let H::M(m) = &self.slots[q].h { self.check_slice_at(G_UNIQUE, 20, m, x.start, x.len); }
        }
    }
    /// One arbitrary operation on an arbitrary handle; false when the history ends here.
    pub fn step(&mut self) -> bool {
        let mut total = 0u64;
        let mut i = 0;
        while i < self.ns { total += self.ops_of(i).count_ones() as u64; i += 1; }
        if self.ns >= MAXS - 1 { return false; }
        let mut c = pick(total + 1);
        if c == total { return false; }
        i = 0;
        loop {
            let mut o = self.ops_of(i);
            let k = o.count_ones() as u64;
            if c < k {
                while c > 0 { o &= o - 1; c -= 1; }
                let op = o & o.wrapping_neg();
                log(1000 + op * 16 + i as u64);
                self.apply(i, op);
                return true;
            }
            c -= k;
            i += 1;
        }
    }
    pub fn finish(&mut self) {
        self.check_views();
        self.check_drops();
        self.check_alloc();
        self.probe_all_get_mut();
        self.probe_all_upgrade();
        log(dropped_total());
        let rev = pick(2) == 1;
        self.teardown(rev);
    }
}

pub fn hist<T: It, F: Fam<T>>() {
    let n = pick_n::<T>(param(2));
    let (mut w, v) = World::<T, F>::new(n, 1);
    w.put(H::S(F::from_vec(v)), 0, 0);
    let mut k = param(1);
    while k > 0 && w.step() { k -= 1; }
    w.finish();
}

/// A configuration of handles built directly, then a short history.
/// Parameter 1 is the length of the history, 5 the number of handles, 6 the mask of kinds
/// (7 nodes down to depth 2; shared, then weak).
pub fn cfg<T: It, F: Fam<T>>() {
    let n = pick_n::<T>(param(2));
    let (mut w, v) = World::<T, F>::new(n, 1);
    let root = F::from_vec(v);
    w.put(H::S(root.clone()), 0, 0);
    let mut m = param(5);
    while m > 0 {
        let c = crate::parts::pick_of(param(6));
        log(2000 + c);
        let (mut h, mut node) = (root.clone(), 0);
        // Node 1 + (path): 0 the whole, 1 L, 2 R, 3 LL, 4 LR, 5 RL, 6 RR.
        let path: &[bool] = match c % 7 { 0 => &[], 1 => &[true], 2 => &[false], 3 => &[true, true], 4 => &[true, false], 5 => &[false, true], _ => &[false, false] };
        let mut i = 0;
        while i < path.len() {
            h = if path[i] { F::clone_left(&h) } else { F::clone_right(&h) };
            node = w.child(node, path[i]);
            i += 1;
        }
        if c < 7 { w.put(H::S(h), node, 0); } else { w.put(H::W(F::downgrade(&h)), node, 0); drop(h); }
        w.age();
        m -= 1;
    }
    drop(root);
    if pick(2) == 1 { log(2100); w.apply(0, OP_DROP); }
    let mut k = param(1);
    while k > 0 && w.step() { k -= 1; }
    w.finish();
}

/// A chain of nodes, one half of another, with or without a handle on each, then a short history.
/// Parameter 1 is the length of the history, 5 the mask of kinds of handles (none, shared, weak), 6 the depth,
/// 7 the mask of paths (always left, always right, alternating, that the other way round).
pub fn deepnode<T: It, F: Fam<T>>() {
    let n = pick_n::<T>(param(2));
    let (mut w, v) = World::<T, F>::new(n, 1);
    let mut h = F::from_vec(v);
    let mut node = 0;
    let p = crate::parts::pick_of(param(7));
    log(p);
    let mut i = 0;
    loop {
        let last = i == param(6);
        let k = crate::parts::pick_of(if last && param(5) & 6 != 0 { param(5) & 6 } else { param(5) });
        log(k);
        if k == 1 { w.put(H::S(h.clone()), node, 0); } else if k == 2 { w.put(H::W(F::downgrade(&h)), node, 0); }
        if last { break; }
        let left = match p { 0 => true, 1 => false, 2 => i % 2 == 0, _ => i % 2 == 1 };
        h = if left { F::clone_left(&h) } else { F::clone_right(&h) };
        node = w.child(node, left);
        i += 1;
    }
    drop(h);
    w.age();
    let mut k = param(1);
    while k > 0 && w.step() { k -= 1; }
    w.finish();
}
