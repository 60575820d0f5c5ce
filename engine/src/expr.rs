//! Hash-consed bit-vector expressions with a linear normal form.

use std::collections::{BTreeMap, HashMap};

pub type Id = u32;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op { Mul, UDiv, URem, SDiv, SRem, Shl, LShr, AShr, And, Or, Xor }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Cmp { Eq, Ult, Ule, Slt, Sle }

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum N {
    Const(u64),
    /// Symbolic input number `id` with inclusive unsigned range.
    Var(u32, u64, u64),
    Lin(Box<[(Id, u64)]>, u64),
    Bin(Op, Id, Id),
    Not(Id),
    Cmp(Cmp, Id, Id),
    Ite(Id, Id, Id),
    Zext(Id),
    Sext(Id),
    Trunc(Id),
}

pub type Mask = [u64; 4];

pub struct Node { pub n: N, pub w: u8, pub lo: u64, pub hi: u64, pub mask: Mask }

pub struct Cx {
    pub nodes: Vec<Node>,
    map: HashMap<(N, u8), Id>,
    stamp: Vec<u32>,
    val: Vec<u64>,
    cur: u32,
}

pub fn maskw(w: u8) -> u64 { if w >= 64 { !0 } else { (1u64 << w) - 1 } }
pub fn sx(v: u64, w: u8) -> i64 { if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) } }

static mut CX: Option<Cx> = None;
#[allow(static_mut_refs)]
pub fn cx() -> &'static mut Cx {
    // Single-threaded per process.
    unsafe { CX.get_or_insert_with(|| Cx { nodes: vec![], map: HashMap::new(), stamp: vec![], val: vec![], cur: 0 }) }
}

pub fn or_mask(a: &Mask, b: &Mask) -> Mask { [a[0] | b[0], a[1] | b[1], a[2] | b[2], a[3] | b[3]] }
pub fn hit(a: &Mask, b: &Mask) -> bool { (a[0] & b[0]) | (a[1] & b[1]) | (a[2] & b[2]) | (a[3] & b[3]) != 0 }

impl Cx {
    fn intern(&mut self, n: N, w: u8) -> Id {
        if let Some(&i) = self.map.get(&(n.clone(), w)) { return i; }
        let mut mask = [0u64; 4];
        let m = maskw(w);
        let (mut lo, mut hi) = (0u64, m);
        match &n {
            N::Const(c) => { lo = *c; hi = *c; }
            N::Var(v, l, h) => { mask[(*v / 64) as usize & 3] |= 1 << (v % 64); lo = *l; hi = *h; }
            N::Lin(ts, c) => {
                for (t, _) in ts.iter() { mask = or_mask(&mask, &self.nodes[*t as usize].mask); }
                if let Some((l, h)) = self.lin_exact(ts, *c, w) { lo = l; hi = h; }
            }
            N::Bin(op, a, b) => {
                mask = or_mask(&self.nodes[*a as usize].mask, &self.nodes[*b as usize].mask);
                let (al, ah) = (self.nodes[*a as usize].lo, self.nodes[*a as usize].hi);
                let (bl, bh) = (self.nodes[*b as usize].lo, self.nodes[*b as usize].hi);
                match op {
                    Op::LShr => { if bh < w as u64 { lo = al >> bh; hi = ah >> bl; } }
                    Op::And => { hi = ah.min(bh); lo = 0; }
                    Op::Or => { lo = al.max(bl); let mx = ah | bh; let bits = 64 - mx.leading_zeros(); hi = if bits >= 64 { !0 } else { (1u64 << bits) - 1 } & m; }
                    Op::Xor => { let mx = ah | bh; let bits = 64 - mx.leading_zeros(); hi = if bits >= 64 { !0 } else { (1u64 << bits) - 1 } & m; }
                    Op::UDiv => { if bl > 0 { lo = al / bh; hi = ah / bl; } }
                    Op::URem => { if bl > 0 { lo = 0; hi = ah.min(bh - 1); } }
                    _ => {}
                }
            }
            N::Not(a) | N::Trunc(a) => {
                mask = self.nodes[*a as usize].mask;
                if let N::Trunc(_) = &n { let (l, h) = (self.nodes[*a as usize].lo, self.nodes[*a as usize].hi); if h <= m { lo = l; hi = h; } }
            }
            N::Zext(a) => { mask = self.nodes[*a as usize].mask; lo = self.nodes[*a as usize].lo; hi = self.nodes[*a as usize].hi; }
            N::Sext(a) => { mask = self.nodes[*a as usize].mask; }
            N::Cmp(_, a, b) => mask = or_mask(&self.nodes[*a as usize].mask, &self.nodes[*b as usize].mask),
            N::Ite(c, a, b) => {
                mask = or_mask(&or_mask(&self.nodes[*a as usize].mask, &self.nodes[*b as usize].mask), &self.nodes[*c as usize].mask);
                lo = self.nodes[*a as usize].lo.min(self.nodes[*b as usize].lo);
                hi = self.nodes[*a as usize].hi.max(self.nodes[*b as usize].hi);
            }
        }
        let id = self.nodes.len() as Id;
        self.nodes.push(Node { n: n.clone(), w, lo, hi, mask });
        self.stamp.push(0);
        self.val.push(0);
        self.map.insert((n, w), id);
        id
    }
    /// The exact integer range of a linear form, when it cannot wrap.
    fn lin_exact(&self, ts: &[(Id, u64)], c: u64, w: u8) -> Option<(u64, u64)> {
        let mut lo = sx(c, w) as i128;
        let mut hi = lo;
        for (t, k) in ts {
            let k = sx(*k, w) as i128;
            let (l, h) = (self.nodes[*t as usize].lo as i128, self.nodes[*t as usize].hi as i128);
            let (a, b) = (k.checked_mul(l)?, k.checked_mul(h)?);
            lo = lo.checked_add(a.min(b))?;
            hi = hi.checked_add(a.max(b))?;
        }
        if lo >= 0 && hi <= maskw(w) as i128 { return Some((lo as u64, hi as u64)); }
        // The constant may be meant as unsigned.
        let adj = c as i128 - sx(c, w) as i128;
        let (lo, hi) = (lo + adj, hi + adj);
        if lo >= 0 && hi <= maskw(w) as i128 { Some((lo as u64, hi as u64)) } else { None }
    }
    /// The constant of an exact linear form as an integer.
    fn int_const(&self, ts: &[(Id, u64)], c: u64, w: u8) -> i128 {
        let mut lo = sx(c, w) as i128;
        let mut hi = lo;
        for (t, k) in ts {
            let k = sx(*k, w) as i128;
            let (l, h) = (self.nodes[*t as usize].lo as i128, self.nodes[*t as usize].hi as i128);
            lo += (k * l).min(k * h);
            hi += (k * l).max(k * h);
        }
        if lo >= 0 && hi <= maskw(w) as i128 { sx(c, w) as i128 } else { c as i128 }
    }
    /// The value as an integer linear form, when it cannot wrap.
    fn int_form(&self, a: Id) -> Option<(Vec<(Id, i128)>, i128)> {
        match &self.nodes[a as usize].n {
            N::Const(c) => Some((vec![], *c as i128)),
            N::Lin(ts, c) => {
                let w = self.w(a);
                self.lin_exact(ts, *c, w)?;
                Some((ts.iter().map(|(t, k)| (*t, sx(*k, w) as i128)).collect(), self.int_const(ts, *c, w)))
            }
            _ => Some((vec![(a, 1)], 0)),
        }
    }
    /// Decide or normalise a comparison of two values that cannot wrap: P >= N with nothing in common.
    fn int_cmp(&mut self, op: Cmp, a: Id, b: Id) -> Option<Result<Id, (Id, Id)>> {
        let w = self.w(a);
        let (ta, ca) = self.int_form(a)?;
        let (tb, cb) = self.int_form(b)?;
        let mut d: BTreeMap<Id, i128> = BTreeMap::new();
        for (t, k) in tb { *d.entry(t).or_insert(0) += k; }
        for (t, k) in ta { *d.entry(t).or_insert(0) -= k; }
        d.retain(|_, k| *k != 0);
        let mut c = cb - ca - if op == Cmp::Ult { 1 } else { 0 };
        let mut g: i128 = 0;
        for k in d.values() { let (mut x, mut y) = (g, k.abs()); while y != 0 { let t = x % y; x = y; y = t; } g = x; }
        if op == Cmp::Eq {
            if g == 0 { return Some(Ok(self.c((c == 0) as u64, 1))); }
            if c % g != 0 { return Some(Ok(self.c(0, 1))); }
            c /= g;
        } else {
            if g == 0 { return Some(Ok(self.c((c >= 0) as u64, 1))); }
            c = c.div_euclid(g);
        }
        let (mut lo, mut hi) = (c, c);
        for (t, k) in d.iter_mut() {
            *k /= g;
            let (l, h) = (self.nodes[*t as usize].lo as i128, self.nodes[*t as usize].hi as i128);
            let (x, y) = ((*k).checked_mul(l)?, (*k).checked_mul(h)?);
            lo = lo.checked_add(x.min(y))?;
            hi = hi.checked_add(x.max(y))?;
        }
        if op == Cmp::Eq { if lo > 0 || hi < 0 { return Some(Ok(self.c(0, 1))); } } else {
            if lo >= 0 { return Some(Ok(self.c(1, 1))); }
            if hi < 0 { return Some(Ok(self.c(0, 1))); }
        }
        let mx = maskw(w) as i128;
        let (mut p, mut n) = (vec![], vec![]);
        let (mut ps, mut ns) = (c.max(0), (-c).max(0));
        for (t, k) in &d {
            let h = self.nodes[*t as usize].hi as i128;
            if *k > 0 { ps = ps.checked_add(k.checked_mul(h)?)?; p.push((*t, *k as u64)); } else { ns = ns.checked_add((-k).checked_mul(h)?)?; n.push((*t, (-k) as u64)); }
        }
        if ps > mx || ns > mx { return None; }
        // For Eq, keep one orientation.
        let flip = op == Cmp::Eq && *d.values().next().unwrap() > 0;
        let (pl, nl) = (self.mk_lin(p, c.max(0) as u64, w), self.mk_lin(n, (-c).max(0) as u64, w));
        Some(Err(if flip { (pl, nl) } else { (nl, pl) }))
    }
    pub fn w(&self, a: Id) -> u8 { self.nodes[a as usize].w }
    pub fn konst(&self, a: Id) -> Option<u64> { if let N::Const(c) = self.nodes[a as usize].n { Some(c) } else { None } }
    pub fn c(&mut self, v: u64, w: u8) -> Id { self.intern(N::Const(v & maskw(w)), w) }
    pub fn var(&mut self, id: u32, w: u8, lo: u64, hi: u64) -> Id {
        if lo == hi { return self.c(lo, w); }
        self.intern(N::Var(id, lo, hi), w)
    }

    fn lin_of(&self, a: Id) -> (Vec<(Id, u64)>, u64) {
        match &self.nodes[a as usize].n {
            N::Const(c) => (vec![], *c),
            N::Lin(t, c) => (t.to_vec(), *c),
            _ => (vec![(a, 1)], 0),
        }
    }
    fn mk_lin(&mut self, mut ts: Vec<(Id, u64)>, c: u64, w: u8) -> Id {
        let m = maskw(w);
        ts.sort_unstable();
        let mut out: Vec<(Id, u64)> = Vec::with_capacity(ts.len());
        for (t, k) in ts {
            match out.last_mut() { Some(l) if l.0 == t => l.1 = l.1.wrapping_add(k) & m, _ => out.push((t, k & m)) }
        }
        out.retain(|x| x.1 != 0);
        let c = c & m;
        if out.is_empty() { return self.c(c, w); }
        if out.len() == 1 && out[0].1 == 1 && c == 0 { return out[0].0; }
        self.intern(N::Lin(out.into_boxed_slice(), c), w)
    }
    pub fn lin_parts(&self, a: Id) -> (Vec<(Id, u64)>, u64) { self.lin_of(a) }
    pub fn add(&mut self, a: Id, b: Id) -> Id { assert_eq!(self.w(a), self.w(b), "operand widths");
        let w = self.w(a);
        if w == 1 { return self.xor(a, b); }
        let (mut ta, ca) = self.lin_of(a);
        let (tb, cb) = self.lin_of(b);
        ta.extend(tb);
        self.mk_lin(ta, ca.wrapping_add(cb), w)
    }
    pub fn mulc(&mut self, a: Id, k: u64) -> Id {
        let w = self.w(a);
        let (ta, ca) = self.lin_of(a);
        self.mk_lin(ta.into_iter().map(|(t, c)| (t, c.wrapping_mul(k))).collect(), ca.wrapping_mul(k), w)
    }
    pub fn sub(&mut self, a: Id, b: Id) -> Id { assert_eq!(self.w(a), self.w(b), "operand widths");
        if self.w(a) == 1 { return self.xor(a, b); }
        let nb = self.mulc(b, !0);
        self.add(a, nb)
    }
    pub fn not(&mut self, a: Id) -> Id {
        let w = self.w(a);
        debug_assert!(w == 1);
        match self.nodes[a as usize].n.clone() {
            N::Const(c) => self.c(c ^ 1, 1),
            N::Not(x) => x,
            N::Cmp(Cmp::Ult, x, y) => self.cmp(Cmp::Ule, y, x),
            N::Cmp(Cmp::Ule, x, y) => self.cmp(Cmp::Ult, y, x),
            N::Cmp(Cmp::Slt, x, y) => self.cmp(Cmp::Sle, y, x),
            N::Cmp(Cmp::Sle, x, y) => self.cmp(Cmp::Slt, y, x),
            _ => self.intern(N::Not(a), w),
        }
    }
    pub fn xor(&mut self, a: Id, b: Id) -> Id { self.bin(Op::Xor, a, b) }
    pub fn and(&mut self, a: Id, b: Id) -> Id { self.bin(Op::And, a, b) }
    pub fn or(&mut self, a: Id, b: Id) -> Id { self.bin(Op::Or, a, b) }

    fn trailing(&self, a: Id) -> u32 {
        // A lower bound on the number of trailing zero bits.
        match &self.nodes[a as usize].n {
            N::Const(0) => 64,
            N::Const(c) => c.trailing_zeros(),
            N::Lin(ts, c) => ts.iter().map(|(t, k)| (k.trailing_zeros() + self.trailing(*t)).min(64)).min().unwrap_or(64).min(if *c == 0 { 64 } else { c.trailing_zeros() }),
            _ => 0,
        }
    }

    pub fn bin(&mut self, op: Op, mut a: Id, mut b: Id) -> Id { assert_eq!(self.w(a), self.w(b), "operand widths");
        let w = self.w(a);
        let m = maskw(w);
        if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) {
            let v = eval_bin(op, x, y, w);
            return self.c(v, w);
        }
        if matches!(op, Op::Mul | Op::And | Op::Or | Op::Xor) && (self.konst(a).is_some() || (self.konst(b).is_none() && a > b)) { std::mem::swap(&mut a, &mut b); }
        let kb = self.konst(b);
        match (op, kb) {
            (Op::Mul, Some(k)) if w > 1 => return self.mulc(a, k),
            (Op::Shl, Some(k)) if k < w as u64 && w > 1 => return self.mulc(a, 1u64 << k),
            (Op::Shl, Some(k)) | (Op::LShr, Some(k)) if k >= w as u64 => return self.c(0, w),
            (Op::UDiv, Some(k)) if k.is_power_of_two() => { let s = self.c(k.trailing_zeros() as u64, w); return self.bin(Op::LShr, a, s); }
            (Op::URem, Some(k)) if k.is_power_of_two() => { let s = self.c(k - 1, w); return self.bin(Op::And, a, s); }
            (Op::LShr, Some(0)) => return a,
            (Op::LShr, Some(k)) => {
                if self.nodes[a as usize].hi >> k == 0 { return self.c(0, w); }
                if let N::Lin(ts, c) = self.nodes[a as usize].n.clone() {
                    // Exact division of a non-wrapping linear form.
                    let d = 1u64 << k;
                    if self.lin_exact(&ts, c, w).is_some() {
                        // floor((d*A + r)/d) = A + floor(r/d), with 0 <= r: split every coefficient.
                        let di = d as i128;
                        let cc = self.int_const(&ts, c, w);
                        let mut keep: Vec<(Id, u64)> = vec![];
                        let mut rest: Vec<(Id, u64)> = vec![];
                        for (t, q) in ts.iter() {
                            let q = sx(*q, w) as i128;
                            let (hi, lo) = (q.div_euclid(di), q.rem_euclid(di));
                            if hi != 0 { keep.push((*t, hi as u64)); }
                            if lo != 0 { rest.push((*t, lo as u64)); }
                        }
                        let (ch, cl) = (cc.div_euclid(di), cc.rem_euclid(di));
                        if (!keep.is_empty() || ch != 0) && self.lin_exact(&rest, cl as u64, w).is_some() {
                            let r = self.mk_lin(rest, cl as u64, w);
                            let r = self.bin(Op::LShr, r, b);
                            let q = self.mk_lin(keep, ch as u64, w);
                            return self.add(q, r);
                        }
                    }
                }
                if let N::Bin(Op::LShr, x, s) = self.nodes[a as usize].n {
                    if let Some(j) = self.konst(s) { let t = self.c(j + k, w); return self.bin(Op::LShr, x, t); }
                }
            }
            (Op::And, Some(k)) => {
                if k == 0 { return b; }
                if k == m { return a; }
                if (k & (k + 1)) == 0 {
                    if self.nodes[a as usize].hi <= k { return a; }
                    let bits = 64 - k.leading_zeros();
                    if self.trailing(a) >= bits { return self.c(0, w); }
                    if let N::Lin(ts, c) = self.nodes[a as usize].n.clone() {
                        // Drop multiples of 2^bits.
                        let kept: Vec<_> = ts.iter().cloned().filter(|(t, q)| q.trailing_zeros() + self.trailing(*t) < bits).collect();
                        if kept.len() < ts.len() || c & !k != 0 {
                            let l = self.mk_lin(kept, c & k, w);
                            return self.bin(Op::And, l, b);
                        }
                    }
                }
            }
            (Op::Or, Some(0)) | (Op::Xor, Some(0)) => return a,
            (Op::Or, Some(k)) if k == m => return b,
            (Op::Xor, Some(1)) if w == 1 => return self.not(a),
            _ => {}
        }
        if a == b {
            match op { Op::And | Op::Or => return a, Op::Xor => return self.c(0, w), _ => {} }
        }
        self.intern(N::Bin(op, a, b), w)
    }

    pub fn cmp(&mut self, op: Cmp, mut a: Id, mut b: Id) -> Id { assert_eq!(self.w(a), self.w(b), "operand widths");
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) {
            let v = eval_cmp(op, x, y, w);
            return self.c(v as u64, 1);
        }
        if a == b { return self.c(matches!(op, Cmp::Eq | Cmp::Ule | Cmp::Sle) as u64, 1); }
        let (al, ah, bl, bh) = { let (x, y) = (&self.nodes[a as usize], &self.nodes[b as usize]); (x.lo, x.hi, y.lo, y.hi) };
        match op {
            Cmp::Eq => {
                if ah < bl || bh < al { return self.c(0, 1); }
                if w == 1 {
                    if let Some(k) = self.konst(b) { return if k == 1 { a } else { self.not(a) }; }
                    if let Some(k) = self.konst(a) { return if k == 1 { b } else { self.not(b) }; }
                }
                if self.konst(a).is_some() { std::mem::swap(&mut a, &mut b); }
                if let Some(k) = self.konst(b) {
                    match self.nodes[a as usize].n.clone() {
                        N::Ite(c, x, y) => {
                            let (ex, ey) = (self.cmp(Cmp::Eq, x, b), self.cmp(Cmp::Eq, y, b));
                            return self.ite(c, ex, ey);
                        }
                        N::Zext(x) => {
                            let wx = self.w(x);
                            if k > maskw(wx) { return self.c(0, 1); }
                            let kk = self.c(k, wx);
                            return self.cmp(Cmp::Eq, x, kk);
                        }
                        N::Lin(ts, c) if ts.len() == 1 && c != 0 && ts[0].1 == 1 => {
                            let kk = self.c(k.wrapping_sub(c), w);
                            return self.cmp(Cmp::Eq, ts[0].0, kk);
                        }
                        _ => {}
                    }
                } else {
                    let d = self.sub(a, b);
                    if let Some(k) = self.konst(d) { return self.c((k == 0) as u64, 1); }
                    if a > b { std::mem::swap(&mut a, &mut b); }
                }
            }
            Cmp::Ult => {
                if ah < bl { return self.c(1, 1); }
                if al >= bh { return self.c(0, 1); }
            }
            Cmp::Ule => {
                if ah <= bl { return self.c(1, 1); }
                if al > bh { return self.c(0, 1); }
            }
            Cmp::Slt | Cmp::Sle => {
                let half = 1u64 << (w - 1);
                if ah < half && bh < half { return self.cmp(if op == Cmp::Slt { Cmp::Ult } else { Cmp::Ule }, a, b); }
            }
        }
        let (mut op, mut a, mut b) = (op, a, b);
        if w > 1 && matches!(op, Cmp::Eq | Cmp::Ult | Cmp::Ule) {
            match self.int_cmp(op, a, b) {
                Some(Ok(r)) => return r,
                Some(Err((x, y))) => {
                    if op == Cmp::Ult { op = Cmp::Ule; }
                    a = x;
                    b = y;
                    // x <= 0, 1 <= x and b = 1 for a bit b in terms of "= 0".
                    if op == Cmp::Ule && self.konst(b) == Some(0) { let z = self.c(0, w); return self.eq0(a, z); }
                    if op == Cmp::Ule && self.konst(a) == Some(1) { let z = self.c(0, w); let e = self.eq0(b, z); return self.not(e); }
                    if op == Cmp::Eq {
                        if self.konst(a).is_some() { std::mem::swap(&mut a, &mut b); }
                        if let Some(k) = self.konst(b) {
                            if k == 0 { return self.eq0(a, b); }
                            if k == 1 && self.nodes[a as usize].hi == 1 { let z = self.c(0, w); let e = self.eq0(a, z); return self.not(e); }
                        }
                    }
                }
                None => {}
            }
        }
        self.intern(N::Cmp(op, a, b), 1)
    }
    /// a = 0: for a sum of non-negative terms, every term is 0.
    fn eq0(&mut self, a: Id, z: Id) -> Id { self.intern(N::Cmp(Cmp::Eq, a, z), 1) }
    pub fn ite(&mut self, c: Id, a: Id, b: Id) -> Id { assert_eq!(self.w(a), self.w(b), "operand widths");
        if let Some(k) = self.konst(c) { return if k == 1 { a } else { b }; }
        if a == b { return a; }
        if let N::Not(x) = self.nodes[c as usize].n { return self.ite(x, b, a); }
        let w = self.w(a);
        if w == 1 {
            match (self.konst(a), self.konst(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => { let n = self.not(c); return self.and(n, b); }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => { let n = self.not(c); return self.or(n, a); }
                _ => {}
            }
        }
        self.intern(N::Ite(c, a, b), w)
    }
    pub fn zext(&mut self, a: Id, w: u8) -> Id {
        let wa = self.w(a);
        if wa == w { return a; }
        if let Some(k) = self.konst(a) { return self.c(k, w); }
        if let N::Zext(x) = self.nodes[a as usize].n { return self.zext(x, w); }
        self.intern(N::Zext(a), w)
    }
    pub fn sext(&mut self, a: Id, w: u8) -> Id {
        let wa = self.w(a);
        if wa == w { return a; }
        if let Some(k) = self.konst(a) { return self.c(sx(k, wa) as u64, w); }
        if self.nodes[a as usize].hi < 1 << (wa - 1) { return self.zext(a, w); }
        self.intern(N::Sext(a), w)
    }
    pub fn trunc(&mut self, a: Id, w: u8) -> Id {
        if self.w(a) == w { return a; }
        if let Some(k) = self.konst(a) { return self.c(k, w); }
        match self.nodes[a as usize].n.clone() {
            N::Zext(x) | N::Sext(x) => {
                let wx = self.w(x);
                if wx == w { return x; }
                if wx > w { return self.trunc(x, w); }
                if let N::Zext(_) = self.nodes[a as usize].n { return self.zext(x, w); }
            }
            N::Ite(c, x, y) if self.konst(x).is_some() && self.konst(y).is_some() => {
                let (p, q) = (self.trunc(x, w), self.trunc(y, w));
                return self.ite(c, p, q);
            }
            N::Trunc(x) => return self.trunc(x, w),
            N::Bin(Op::And, x, k) if w > 1 || true => {
                if let Some(kk) = self.konst(k) { if kk & maskw(w) == maskw(w) { return self.trunc(x, w); } }
            }
            _ => {}
        }
        self.intern(N::Trunc(a), w)
    }

    pub fn eval_begin(&mut self) { self.cur += 1; }
    /// Evaluate under `m`; call `eval_begin` first whenever the model changes.
    pub fn eval(&mut self, a: Id, m: &dyn Fn(u32, u64, u64) -> u64) -> u64 {
        if self.stamp[a as usize] == self.cur { return self.val[a as usize]; }
        let w = self.nodes[a as usize].w;
        let n = self.nodes[a as usize].n.clone();
        let v = match n {
            N::Const(c) => c,
            N::Var(i, l, h) => m(i, l, h),
            N::Lin(ts, c) => { let mut s = c; for (t, k) in ts.iter() { s = s.wrapping_add(self.eval(*t, m).wrapping_mul(*k)); } s & maskw(w) }
            N::Bin(op, x, y) => { let (p, q) = (self.eval(x, m), self.eval(y, m)); eval_bin(op, p, q, w) }
            N::Not(x) => self.eval(x, m) ^ 1,
            N::Cmp(op, x, y) => { let wx = self.nodes[x as usize].w; let (p, q) = (self.eval(x, m), self.eval(y, m)); eval_cmp(op, p, q, wx) as u64 }
            N::Ite(c, x, y) => if self.eval(c, m) == 1 { self.eval(x, m) } else { self.eval(y, m) },
            N::Zext(x) => self.eval(x, m),
            N::Sext(x) => { let wx = self.nodes[x as usize].w; sx(self.eval(x, m), wx) as u64 & maskw(w) }
            N::Trunc(x) => self.eval(x, m) & maskw(w),
        };
        self.stamp[a as usize] = self.cur;
        self.val[a as usize] = v;
        v
    }

    /// SMT-LIB2 text, for cross-checking with another solver.
    pub fn smt2(&self, a: Id, decls: &mut std::collections::BTreeMap<u32, u8>) -> String {
        let w = self.w(a);
        let n = &self.nodes[a as usize];
        match &n.n {
            N::Const(c) => if w == 1 { if *c == 1 { "true".into() } else { "false".into() } } else { format!("(_ bv{} {})", c, w) },
            N::Var(i, _, _) => { decls.insert(*i, w); format!("v{}", i) }
            N::Lin(ts, c) => {
                let mut s = format!("(_ bv{} {})", c, w);
                for (t, k) in ts.iter() { s = format!("(bvadd {} (bvmul (_ bv{} {}) {}))", s, k, w, self.smt2(*t, decls)); }
                s
            }
            N::Bin(op, x, y) => {
                let (p, q) = (self.smt2(*x, decls), self.smt2(*y, decls));
                let o = if w == 1 { match op { Op::And => "and", Op::Or => "or", Op::Xor => "xor", _ => "?" } } else {
                    match op { Op::Mul => "bvmul", Op::UDiv => "bvudiv", Op::URem => "bvurem", Op::SDiv => "bvsdiv", Op::SRem => "bvsrem", Op::Shl => "bvshl", Op::LShr => "bvlshr", Op::AShr => "bvashr", Op::And => "bvand", Op::Or => "bvor", Op::Xor => "bvxor" } };
                format!("({} {} {})", o, p, q)
            }
            N::Not(x) => format!("(not {})", self.smt2(*x, decls)),
            N::Cmp(op, x, y) => { let o = match op { Cmp::Eq => "=", Cmp::Ult => "bvult", Cmp::Ule => "bvule", Cmp::Slt => "bvslt", Cmp::Sle => "bvsle" }; format!("({} {} {})", o, self.smt2(*x, decls), self.smt2(*y, decls)) }
            N::Ite(c, x, y) => format!("(ite {} {} {})", self.smt2(*c, decls), self.smt2(*x, decls), self.smt2(*y, decls)),
            N::Zext(x) => { let wx = self.w(*x); if wx == 1 { format!("(ite {} (_ bv1 {}) (_ bv0 {}))", self.smt2(*x, decls), w, w) } else { format!("((_ zero_extend {}) {})", w - wx, self.smt2(*x, decls)) } }
            N::Sext(x) => { let wx = self.w(*x); if wx == 1 { format!("(ite {} (_ bv{} {}) (_ bv0 {}))", self.smt2(*x, decls), maskw(w), w, w) } else { format!("((_ sign_extend {}) {})", w - wx, self.smt2(*x, decls)) } }
            N::Trunc(x) => { if w == 1 { format!("(= ((_ extract 0 0) {}) #b1)", self.smt2(*x, decls)) } else { format!("((_ extract {} 0) {})", w - 1, self.smt2(*x, decls)) } }
        }
    }
}

pub fn eval_bin(op: Op, x: u64, y: u64, w: u8) -> u64 {
    let m = maskw(w);
    let r = match op {
        Op::Mul => x.wrapping_mul(y),
        Op::UDiv => if y == 0 { m } else { x / y },
        Op::URem => if y == 0 { x } else { x % y },
        Op::SDiv => { let (a, b) = (sx(x, w), sx(y, w)); if b == 0 { if a < 0 { 1 } else { m } } else { a.wrapping_div(b) as u64 } }
        Op::SRem => { let (a, b) = (sx(x, w), sx(y, w)); if b == 0 { x } else { a.wrapping_rem(b) as u64 } }
        Op::Shl => if y >= w as u64 { 0 } else { x << y },
        Op::LShr => if y >= w as u64 { 0 } else { x >> y },
        Op::AShr => { let s = if y >= w as u64 { w as u64 - 1 } else { y }; (sx(x, w) >> s) as u64 }
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
    };
    r & m
}
pub fn eval_cmp(op: Cmp, x: u64, y: u64, w: u8) -> bool {
    match op { Cmp::Eq => x == y, Cmp::Ult => x < y, Cmp::Ule => x <= y, Cmp::Slt => sx(x, w) < sx(y, w), Cmp::Sle => sx(x, w) <= sx(y, w) }
}
