//! z3 (libz3, C API) as the deciding procedure, with a query cache.

use crate::expr::{cx, Cmp, Id, N, Op};
use std::collections::HashMap;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::rc::Rc;

type Z = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> Z;
    fn Z3_set_param_value(c: Z, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: Z) -> Z;
    fn Z3_set_error_handler(c: Z, h: Option<extern "C" fn(Z, c_int)>);

    fn Z3_mk_int_symbol(c: Z, i: c_int) -> Z;
    fn Z3_mk_bv_sort(c: Z, w: c_uint) -> Z;
    fn Z3_mk_bool_sort(c: Z) -> Z;
    fn Z3_mk_int_sort(c: Z) -> Z;
    fn Z3_mk_numeral(c: Z, s: *const c_char, t: Z) -> Z;
    fn Z3_mk_fresh_const(c: Z, p: *const c_char, t: Z) -> Z;
    fn Z3_mk_add(c: Z, n: c_uint, a: *const Z) -> Z;
    fn Z3_mk_mul(c: Z, n: c_uint, a: *const Z) -> Z;
    fn Z3_mk_lt(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_le(c: Z, a: Z, b: Z) -> Z;
    fn Z3_inc_ref(c: Z, a: Z);
    fn Z3_mk_const(c: Z, s: Z, t: Z) -> Z;
    fn Z3_mk_unsigned_int64(c: Z, v: u64, t: Z) -> Z;
    fn Z3_mk_true(c: Z) -> Z;
    fn Z3_mk_false(c: Z) -> Z;
    fn Z3_mk_not(c: Z, a: Z) -> Z;
    fn Z3_mk_eq(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_ite(c: Z, a: Z, b: Z, d: Z) -> Z;
    fn Z3_mk_xor(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_and(c: Z, n: c_uint, a: *const Z) -> Z;
    fn Z3_mk_or(c: Z, n: c_uint, a: *const Z) -> Z;
    fn Z3_mk_bvadd(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsub(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvmul(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvudiv(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvurem(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsdiv(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsrem(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvshl(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvlshr(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvashr(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvand(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvor(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvxor(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvult(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvule(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvslt(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsle(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_zero_ext(c: Z, i: c_uint, a: Z) -> Z;
    fn Z3_mk_sign_ext(c: Z, i: c_uint, a: Z) -> Z;
    fn Z3_mk_extract(c: Z, hi: c_uint, lo: c_uint, a: Z) -> Z;
    fn Z3_mk_solver_for_logic(c: Z, s: Z) -> Z;
    fn Z3_mk_simple_solver(c: Z) -> Z;
    fn Z3_mk_string_symbol(c: Z, s: *const c_char) -> Z;
    fn Z3_solver_inc_ref(c: Z, s: Z);
    fn Z3_solver_reset(c: Z, s: Z);
    fn Z3_solver_assert(c: Z, s: Z, a: Z);
    fn Z3_solver_check(c: Z, s: Z) -> c_int;
    fn Z3_solver_get_model(c: Z, s: Z) -> Z;
    fn Z3_model_inc_ref(c: Z, m: Z);
    fn Z3_model_dec_ref(c: Z, m: Z);
    fn Z3_model_eval(c: Z, m: Z, t: Z, completion: bool, v: *mut Z) -> bool;
    fn Z3_get_numeral_uint64(c: Z, v: Z, u: *mut u64) -> bool;
    fn Z3_get_bool_value(c: Z, a: Z) -> c_int;
    fn Z3_get_error_code(c: Z) -> c_int;
    fn Z3_mk_params(c: Z) -> Z;
    fn Z3_params_inc_ref(c: Z, p: Z);
    fn Z3_params_set_uint(c: Z, p: Z, k: Z, v: c_uint);
    fn Z3_solver_set_params(c: Z, s: Z, p: Z);
}

extern "C" fn on_err(_: Z, _: c_int) {}

pub enum Ans { Sat(Rc<Vec<(u32, u64)>>), Unsat, Unknown }

#[derive(Default, Clone)]
pub struct Stats { pub queries: u64, pub solver_calls: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub solver_us: u64, pub max_us: u64 }

pub struct Smt {
    c: Z,
    s: Z,
    asts: Vec<Z>,
    /// The same decision over integers (machine words as integers with explicit wrapping): tried first.
    si: Z,
    iasts: HashMap<Id, Option<Z>>,
    side: HashMap<Id, Vec<Z>>,
    pub lia: u64,
    cache: HashMap<Box<[Id]>, Option<Rc<Vec<(u32, u64)>>>>,
    pub st: Stats,
    /// Keep the text of every k-th solver call (for a second solver).
    pub sample_every: u64,
    pub samples: Vec<(String, bool)>,
}

fn cs(s: &str) -> std::ffi::CString { std::ffi::CString::new(s).unwrap() }

impl Smt {
    pub fn new(timeout_ms: u32) -> Smt {
        unsafe {
            let cfg = Z3_mk_config();
            Z3_set_param_value(cfg, cs("model").as_ptr(), cs("true").as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, cs("QF_BV").as_ptr()));
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, cs("rlimit").as_ptr()), timeout_ms.saturating_mul(2000));
            Z3_solver_set_params(c, s, p);
            let si = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, si);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, cs("rlimit").as_ptr()), 4_000_000);
            Z3_solver_set_params(c, si, p);
            Smt { c, s, si, iasts: HashMap::new(), side: HashMap::new(), lia: 0, asts: vec![], cache: HashMap::new(), st: Stats::default(), sample_every: 0, samples: vec![] }
        }
    }
    pub fn cache_len(&self) -> usize { self.cache.len() }
    fn ast(&mut self, a: Id) -> Z {
        if self.asts.len() <= a as usize { self.asts.resize(cx().nodes.len().max(a as usize + 1), std::ptr::null_mut()); }
        if !self.asts[a as usize].is_null() { return self.asts[a as usize]; }
        let w = cx().w(a);
        let n = cx().nodes[a as usize].n.clone();
        let c = self.c;
        let z = unsafe {
            match n {
                N::Const(k) => if w == 1 { if k == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) } } else { Z3_mk_unsigned_int64(c, k, Z3_mk_bv_sort(c, w as c_uint)) },
                N::Var(i, ..) => { let s = if w == 1 { Z3_mk_bool_sort(c) } else { Z3_mk_bv_sort(c, w as c_uint) }; Z3_mk_const(c, Z3_mk_int_symbol(c, i as c_int), s) }
                N::Lin(ts, k) => {
                    let srt = Z3_mk_bv_sort(c, w as c_uint);
                    let mut acc: Option<Z> = if k != 0 { Some(Z3_mk_unsigned_int64(c, k, srt)) } else { None };
                    let m = crate::expr::maskw(w);
                    let mut negs = vec![];
                    for (t, q) in ts.iter() {
                        let x = self.ast(*t);
                        let neg = *q > m / 2;
                        let q = if neg { q.wrapping_neg() & m } else { *q };
                        let term = if q == 1 { x } else { Z3_mk_bvmul(c, Z3_mk_unsigned_int64(c, q, srt), x) };
                        if neg { negs.push(term); } else { acc = Some(match acc { None => term, Some(y) => Z3_mk_bvadd(c, y, term) }); }
                    }
                    let mut acc = acc.unwrap_or_else(|| Z3_mk_unsigned_int64(c, 0, srt));
                    for t in negs { acc = Z3_mk_bvsub(c, acc, t); }
                    acc
                }
                N::Bin(op, x, y) => {
                    let (p, q) = (self.ast(x), self.ast(y));
                    if w == 1 {
                        let v = [p, q];
                        match op { Op::And => Z3_mk_and(c, 2, v.as_ptr()), Op::Or => Z3_mk_or(c, 2, v.as_ptr()), Op::Xor => Z3_mk_xor(c, p, q), _ => panic!("bool op {:?}", op) }
                    } else {
                        match op {
                            Op::Mul => Z3_mk_bvmul(c, p, q), Op::UDiv => Z3_mk_bvudiv(c, p, q), Op::URem => Z3_mk_bvurem(c, p, q),
                            Op::SDiv => Z3_mk_bvsdiv(c, p, q), Op::SRem => Z3_mk_bvsrem(c, p, q), Op::Shl => Z3_mk_bvshl(c, p, q),
                            Op::LShr => Z3_mk_bvlshr(c, p, q), Op::AShr => Z3_mk_bvashr(c, p, q), Op::And => Z3_mk_bvand(c, p, q),
                            Op::Or => Z3_mk_bvor(c, p, q), Op::Xor => Z3_mk_bvxor(c, p, q),
                        }
                    }
                }
                N::Not(x) => { let p = self.ast(x); Z3_mk_not(c, p) }
                N::Cmp(op, x, y) => {
                    let (p, q) = (self.ast(x), self.ast(y));
                    match op { Cmp::Eq => Z3_mk_eq(c, p, q), Cmp::Ult => Z3_mk_bvult(c, p, q), Cmp::Ule => Z3_mk_bvule(c, p, q), Cmp::Slt => Z3_mk_bvslt(c, p, q), Cmp::Sle => Z3_mk_bvsle(c, p, q) }
                }
                N::Ite(k, x, y) => { let (k, p, q) = (self.ast(k), self.ast(x), self.ast(y)); Z3_mk_ite(c, k, p, q) }
                N::Zext(x) => {
                    let wx = cx().w(x);
                    let p = self.ast(x);
                    if wx == 1 { let s = Z3_mk_bv_sort(c, w as c_uint); Z3_mk_ite(c, p, Z3_mk_unsigned_int64(c, 1, s), Z3_mk_unsigned_int64(c, 0, s)) } else { Z3_mk_zero_ext(c, (w - wx) as c_uint, p) }
                }
                N::Sext(x) => {
                    let wx = cx().w(x);
                    let p = self.ast(x);
                    if wx == 1 { let s = Z3_mk_bv_sort(c, w as c_uint); Z3_mk_ite(c, p, Z3_mk_unsigned_int64(c, crate::expr::maskw(w), s), Z3_mk_unsigned_int64(c, 0, s)) } else { Z3_mk_sign_ext(c, (w - wx) as c_uint, p) }
                }
                N::Trunc(x) => {
                    let p = self.ast(x);
                    let e = Z3_mk_extract(c, w as c_uint - 1, 0, p);
                    if w == 1 { Z3_mk_eq(c, e, Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1))) } else { e }
                }
            }
        };
        unsafe {
            if z.is_null() || Z3_get_error_code(c) != 0 { panic!("z3 error building {:?}", cx().nodes[a as usize].n); }
            
        }
        if self.asts.len() < cx().nodes.len() { self.asts.resize(cx().nodes.len(), std::ptr::null_mut()); }
        self.asts[a as usize] = z;
        z
    }

    fn num(&self, v: i128) -> Z { unsafe { Z3_mk_numeral(self.c, cs(&v.to_string()).as_ptr(), Z3_mk_int_sort(self.c)) } }
    fn fresh_int(&self) -> Z { unsafe { Z3_mk_fresh_const(self.c, cs("k").as_ptr(), Z3_mk_int_sort(self.c)) } }
    fn isum(&self, a: &[Z]) -> Z { unsafe { if a.len() == 1 { a[0] } else { Z3_mk_add(self.c, a.len() as c_uint, a.as_ptr()) } } }
    fn iscale(&self, k: i128, x: Z) -> Z { if k == 1 { x } else { let v = [self.num(k), x]; unsafe { Z3_mk_mul(self.c, 2, v.as_ptr()) } } }
    /// x = q * m + r with 0 <= r < m: (q, r, what says so).
    fn divmod(&self, x: Z, m: i128) -> (Z, Z, Vec<Z>) {
        let q = self.fresh_int();
        let r = self.isum(&[x, self.iscale(-m, q)]);
        unsafe { (q, r, vec![Z3_mk_le(self.c, self.num(0), r), Z3_mk_lt(self.c, r, self.num(m))]) }
    }
    /// The value of a as an integer (or, for one bit, as a Boolean); None if it is not linear.
    fn int(&mut self, a: Id) -> Option<Z> {
        if let Some(z) = self.iasts.get(&a) { return *z; }
        let mut side = vec![];
        let z = self.int_(a, &mut side);
        unsafe { if let Some(z) = z { Z3_inc_ref(self.c, z); } for &s in &side { Z3_inc_ref(self.c, s); } }
        self.iasts.insert(a, z);
        self.side.insert(a, side);
        z
    }
    fn int_(&mut self, a: Id, side: &mut Vec<Z>) -> Option<Z> {
        let (w, n) = { let x = &cx().nodes[a as usize]; (x.w, x.n.clone()) };
        let c = self.c;
        let full = 1i128 << w;
        let span = |x: Id| { let x = &cx().nodes[x as usize]; (x.lo as i128, x.hi as i128) };
        let signed = |s: &Self, x: Id, z: Z| -> Z {
            let (w, hi) = (cx().w(x), span(x).1);
            let h = 1i128 << (w - 1);
            if hi < h { z } else { unsafe { Z3_mk_ite(c, Z3_mk_lt(c, z, s.num(h)), z, s.isum(&[z, s.num(-(1i128 << w))])) } }
        };
        unsafe {
            Some(match n {
                N::Const(k) => if w == 1 { if k == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) } } else { self.num(k as i128) },
                N::Var(i, lo, hi) => {
                    if w == 1 { Z3_mk_const(c, Z3_mk_int_symbol(c, i as c_int), Z3_mk_bool_sort(c)) } else {
                        let z = Z3_mk_const(c, Z3_mk_int_symbol(c, i as c_int), Z3_mk_int_sort(c));
                        side.push(Z3_mk_le(c, self.num(lo as i128), z));
                        side.push(Z3_mk_le(c, z, self.num(hi as i128)));
                        z
                    }
                }
                N::Lin(ts, k) => {
                    if w == 1 { return None; }
                    let sgn = |q: u64| if q as i128 >= full / 2 { q as i128 - full } else { q as i128 };
                    let mut v = vec![];
                    let k = sgn(k);
                    let (mut lo, mut hi) = (Some(k), Some(k));
                    if k != 0 { v.push(self.num(k)); }
                    for (t, q) in ts.iter() {
                        let z = self.int(*t)?;
                        let q = sgn(*q);
                        let (tl, th) = span(*t);
                        let (p, r) = (q.checked_mul(tl), q.checked_mul(th));
                        let (p, r) = if q < 0 { (r, p) } else { (p, r) };
                        lo = lo.and_then(|x| p.and_then(|y| x.checked_add(y)));
                        hi = hi.and_then(|x| r.and_then(|y| x.checked_add(y)));
                        v.push(self.iscale(q, z));
                    }
                    let sum = self.isum(&v);
                    match (lo, hi) {
                        (Some(l), Some(h)) if l >= 0 && h < full => sum,
                        (l, h) => {
                            let (q, r, s) = self.divmod(sum, full);
                            side.extend(s);
                            if let (Some(l), Some(h)) = (l, h) { side.push(Z3_mk_le(c, self.num(l.div_euclid(full)), q)); side.push(Z3_mk_le(c, q, self.num(h.div_euclid(full)))); }
                            r
                        }
                    }
                }
                N::Bin(op, x, y) if w == 1 => {
                    let v = [self.int(x)?, self.int(y)?];
                    match op { Op::And => Z3_mk_and(c, 2, v.as_ptr()), Op::Or => Z3_mk_or(c, 2, v.as_ptr()), Op::Xor => Z3_mk_xor(c, v[0], v[1]), _ => return None }
                }
                N::Bin(op, x, y) => {
                    let (e, k) = match (cx().konst(y), cx().konst(x), op) { (Some(k), _, _) => (x, k), (_, Some(k), Op::And) => (y, k), _ => return None };
                    let z = self.int(e)?;
                    let low = |k: u64| k.checked_add(1).map_or(false, |k1| k1.is_power_of_two());
                    match op {
                        Op::LShr if k < w as u64 => { let (q, _, s) = self.divmod(z, 1i128 << k); side.extend(s); q }
                        Op::UDiv if k > 0 => { let (q, _, s) = self.divmod(z, k as i128); side.extend(s); q }
                        Op::URem if k > 0 => { let (_, r, s) = self.divmod(z, k as i128); side.extend(s); r }
                        Op::And if low(k) => { let (_, r, s) = self.divmod(z, k as i128 + 1); side.extend(s); r }
                        Op::And if low(!k & crate::expr::maskw(w)) => { let m = (!k & crate::expr::maskw(w)) as i128 + 1; let (q, _, s) = self.divmod(z, m); side.extend(s); self.iscale(m, q) }
                        _ => return None,
                    }
                }
                N::Not(x) => { if w != 1 { return None; } let p = self.int(x)?; Z3_mk_not(c, p) }
                N::Cmp(op, x, y) => {
                    let (p, q) = (self.int(x)?, self.int(y)?);
                    if cx().w(x) == 1 { if op != Cmp::Eq { return None; } Z3_mk_eq(c, p, q) } else {
                        match op {
                            Cmp::Eq => Z3_mk_eq(c, p, q), Cmp::Ult => Z3_mk_lt(c, p, q), Cmp::Ule => Z3_mk_le(c, p, q),
                            Cmp::Slt => Z3_mk_lt(c, signed(self, x, p), signed(self, y, q)),
                            Cmp::Sle => Z3_mk_le(c, signed(self, x, p), signed(self, y, q)),
                        }
                    }
                }
                N::Ite(k, x, y) => { let (k, p, q) = (self.int(k)?, self.int(x)?, self.int(y)?); Z3_mk_ite(c, k, p, q) }
                N::Zext(x) => { let p = self.int(x)?; if cx().w(x) == 1 { Z3_mk_ite(c, p, self.num(1), self.num(0)) } else { p } }
                N::Sext(x) => {
                    let p = self.int(x)?;
                    let wx = cx().w(x);
                    if wx == 1 { Z3_mk_ite(c, p, self.num(full - 1), self.num(0)) }
                    else if span(x).1 < 1i128 << (wx - 1) { p }
                    else { Z3_mk_ite(c, Z3_mk_lt(c, p, self.num(1i128 << (wx - 1))), p, self.isum(&[p, self.num(full - (1i128 << wx))])) }
                }
                N::Trunc(x) => {
                    let p = self.int(x)?;
                    if span(x).1 < full && w > 1 { p } else {
                        let (_, r, s) = self.divmod(p, full);
                        side.extend(s);
                        if w == 1 { Z3_mk_eq(c, r, self.num(1)) } else { r }
                    }
                }
            })
        }
    }
    /// The query over integers: Some(Some(model)), Some(None) if there is none, None if not decided.
    fn check_int(&mut self, key: &[Id], seen: &std::collections::HashSet<Id>, vars: &[Id]) -> Option<Option<Rc<Vec<(u32, u64)>>>> {
        let mut f = vec![];
        for &k in key { f.push(self.int(k)?); }
        unsafe {
            Z3_solver_reset(self.c, self.si);
            for z in f { Z3_solver_assert(self.c, self.si, z); }
            for a in seen { if let Some(v) = self.side.get(a) { for &z in v { Z3_solver_assert(self.c, self.si, z); } } }
            match Z3_solver_check(self.c, self.si) {
                -1 => Some(None),
                1 => {
                    let m = Z3_solver_get_model(self.c, self.si);
                    if m.is_null() { return None; }
                    Z3_model_inc_ref(self.c, m);
                    let mut out = vec![];
                    for &v in vars {
                        if let N::Var(i, ..) = cx().nodes[v as usize].n {
                            let z = self.int(v)?;
                            let mut r: Z = std::ptr::null_mut();
                            Z3_model_eval(self.c, m, z, true, &mut r);
                            let mut u = 0u64;
                            if cx().w(v) == 1 { u = (Z3_get_bool_value(self.c, r) == 1) as u64; } else { Z3_get_numeral_uint64(self.c, r, &mut u); }
                            out.push((i, u));
                        }
                    }
                    Z3_model_dec_ref(self.c, m);
                    let mm = out.clone();
                    cx().eval_begin();
                    let g = move |i: u32, lo: u64, _hi: u64| mm.iter().find(|x| x.0 == i).map(|x| x.1).unwrap_or(lo);
                    for &k in key { if cx().eval(k, &g) != 1 { panic!("an integer model does not satisfy the query: {}", self.text(key)); } }
                    Some(Some(Rc::new(out)))
                }
                _ => None,
            }
        }
    }

    /// Decide the conjunction of `key` (sorted, deduplicated boolean expressions).
    pub fn check(&mut self, key: Vec<Id>) -> Ans {
        self.st.queries += 1;
        if let Some(r) = self.cache.get(&key[..]) {
            return match r { Some(m) => Ans::Sat(m.clone()), None => Ans::Unsat };
        }
        self.st.solver_calls += 1;
        let t0 = std::time::Instant::now();
        let r = unsafe {
            Z3_solver_reset(self.c, self.s);
            let mut vars: Vec<Id> = vec![];
            let mut seen = std::collections::HashSet::new();
            let mut stack: Vec<Id> = key.clone();
            while let Some(a) = stack.pop() {
                if !seen.insert(a) { continue; }
                match &cx().nodes[a as usize].n {
                    N::Var(..) => vars.push(a),
                    N::Const(_) => {}
                    N::Lin(ts, _) => stack.extend(ts.iter().map(|t| t.0)),
                    N::Bin(_, x, y) | N::Cmp(_, x, y) => stack.extend([*x, *y]),
                    N::Not(x) | N::Zext(x) | N::Sext(x) | N::Trunc(x) => stack.push(*x),
                    N::Ite(x, y, z) => stack.extend([*x, *y, *z]),
                }
            }
            vars.sort_unstable();
            if let Some(r) = self.check_int(&key, &seen, &vars) { self.lia += 1; Some(r) } else {
            for &k in &key { let z = self.ast(k); Z3_solver_assert(self.c, self.s, z); }
            // Variable ranges are part of the variable's identity.
            for &v in &vars {
                if let N::Var(_, lo, hi) = cx().nodes[v as usize].n {
                    let w = cx().w(v);
                    if w > 1 {
                        let z = self.ast(v);
                        let s = Z3_mk_bv_sort(self.c, w as c_uint);
                        if lo > 0 { Z3_solver_assert(self.c, self.s, Z3_mk_bvule(self.c, Z3_mk_unsigned_int64(self.c, lo, s), z)); }
                        if hi < crate::expr::maskw(w) { Z3_solver_assert(self.c, self.s, Z3_mk_bvule(self.c, z, Z3_mk_unsigned_int64(self.c, hi, s))); }
                    }
                }
            }
            match Z3_solver_check(self.c, self.s) {
                1 => {
                    let m = Z3_solver_get_model(self.c, self.s);
                    if m.is_null() { None } else {
                        Z3_model_inc_ref(self.c, m);
                        let mut out = vec![];
                        for &v in &vars {
                            if let N::Var(i, ..) = cx().nodes[v as usize].n {
                                let z = self.ast(v);
                                let mut r: Z = std::ptr::null_mut();
                                Z3_model_eval(self.c, m, z, true, &mut r);
                                let mut u = 0u64;
                                if cx().w(v) == 1 { u = (Z3_get_bool_value(self.c, r) == 1) as u64; } else { Z3_get_numeral_uint64(self.c, r, &mut u); }
                                out.push((i, u));
                            }
                        }
                        Z3_model_dec_ref(self.c, m);
                        Some(Some(Rc::new(out)))
                    }
                }
                -1 => Some(None),
                _ => None,
            }
            }
        };
        let us = t0.elapsed().as_micros() as u64;
        self.st.solver_us += us;
        self.st.max_us = self.st.max_us.max(us);
        if let Some(r) = &r {
            if self.sample_every > 0 && self.st.solver_calls % self.sample_every == 0 && self.samples.len() < 400 {
                let t = self.text(&key);
                self.samples.push((t, r.is_some()));
            }
        }
        match r {
            Some(Some(m)) => {
                // The model must satisfy the query by our own evaluator too.
                cx().eval_begin();
                let mm = m.clone();
                let f = move |i: u32, lo: u64, _hi: u64| mm.iter().find(|x| x.0 == i).map(|x| x.1).unwrap_or(lo);
                for &k in &key { if cx().eval(k, &f) != 1 { panic!("z3 model does not satisfy the query under the evaluator: {}", self.text(&key)); } }
                self.st.sat += 1;
                self.cache.insert(key.into_boxed_slice(), Some(m.clone()));
                Ans::Sat(m)
            }
            Some(None) => { self.st.unsat += 1; self.cache.insert(key.into_boxed_slice(), None); Ans::Unsat }
            None => { self.st.unknown += 1; Ans::Unknown }
        }
    }
    pub fn text(&self, key: &[Id]) -> String {
        let mut d = std::collections::BTreeMap::new();
        let mut body = String::new();
        let mut ranges = std::collections::BTreeMap::new();
        let mut stack: Vec<Id> = key.to_vec();
        let mut seen = std::collections::HashSet::new();
        while let Some(a) = stack.pop() {
            if !seen.insert(a) { continue; }
            match &cx().nodes[a as usize].n {
                N::Var(i, lo, hi) => { if cx().w(a) > 1 { ranges.insert(*i, (*lo, *hi, cx().w(a))); } }
                N::Const(_) => {}
                N::Lin(ts, _) => stack.extend(ts.iter().map(|t| t.0)),
                N::Bin(_, x, y) | N::Cmp(_, x, y) => stack.extend([*x, *y]),
                N::Not(x) | N::Zext(x) | N::Sext(x) | N::Trunc(x) => stack.push(*x),
                N::Ite(x, y, z) => stack.extend([*x, *y, *z]),
            }
        }
        for &k in key { body += &format!("(assert {})\n", cx().smt2(k, &mut d)); }
        for (i, (lo, hi, w)) in ranges { body += &format!("(assert (bvule (_ bv{} {}) v{}))\n(assert (bvule v{} (_ bv{} {})))\n", lo, w, i, i, hi, w); }
        let mut s = String::new();
        for (i, w) in d { s += &if w == 1 { format!("(declare-const v{} Bool)\n", i) } else { format!("(declare-const v{} (_ BitVec {}))\n", i, w) }; }
        s + &body
    }
}
