//! Symbolic execution of the linked program: memory, unwinding, threads,
//! forking and property checking.

use crate::expr::{cx, hit, maskw, or_mask, sx, Cmp, Id, Mask, N, Op};
use crate::ir::{self, BinOp, Cast, Cst, Edge, Func, Opnd, Ord, Pred, Rmw, Target, Ty, I};
use crate::smt::{Ans, Smt};
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::rc::Rc;
use std::sync::atomic::AtomicU64;

#[derive(Clone, Debug)]
pub enum V { C(u64), E(Id), Undef, Agg(Rc<Vec<V>>) }

pub const FUNC: u64 = 0x0800_0000_0000;
pub const GLOBAL: u64 = 0x1000_0000_0000;
pub const HEAP: u64 = 0x2000_0000_0000;
pub const STACK: u64 = 0x4000_0000_0000;
pub const VIRT: u64 = 1 << 62;
const HSH: u32 = 20;
const SSH: u32 = 16;
const TSH: u32 = 36;
const MAXT: usize = 4;

type Vc = [u32; MAXT];
fn vc_join(a: &mut Vc, b: &Vc) { for i in 0..MAXT { if b[i] > a[i] { a[i] = b[i]; } } }

/// What a thread or a message knows of each atomic location: the number of the latest message it may not go behind.
type View = Rc<Vec<u32>>;
fn view_get(v: &View, l: usize) -> u32 { v.get(l).copied().unwrap_or(0) }
fn view_set(v: &mut View, l: usize, i: u32) { if view_get(v, l) < i { let v = Rc::make_mut(v); if v.len() <= l { v.resize(l + 1, 0); } v[l] = i; } }
fn view_join(a: &mut View, b: &View) {
    if Rc::ptr_eq(a, b) || (0..b.len()).all(|i| view_get(a, i) >= b[i]) { return; }
    let a = Rc::make_mut(a);
    if a.len() < b.len() { a.resize(b.len(), 0); }
    for i in 0..b.len() { if b[i] > a[i] { a[i] = b[i]; } }
}
/// A value written to an atomic location, with what its reader learns by it.
#[derive(Clone)]
struct Msg { val: V, vc: Vc, view: View }
/// An atomic location and all that was written to it, oldest first; numbers start at base.
#[derive(Clone)]
struct ALoc { id: usize, size: u64, base: u32, msgs: Vec<Msg> }

#[derive(Clone, Copy, PartialEq)]
enum Pend { Op { addr: u64, write: bool, sc: bool }, Fence, Any }
fn independent(a: Pend, b: Pend) -> bool {
    match (a, b) {
        (Pend::Any, _) | (_, Pend::Any) | (Pend::Fence, Pend::Fence) => false,
        (Pend::Fence, Pend::Op { sc, .. }) | (Pend::Op { sc, .. }, Pend::Fence) => !sc,
        (Pend::Op { addr: a1, write: w1, sc: s1 }, Pend::Op { addr: a2, write: w2, sc: s2 }) => a1 != a2 || (!w1 && !w2 && !(s1 && s2)),
    }
}

#[derive(Clone, Default)]
struct Shadow { w: Vc, r: Vc, aw: Vc, ar: Vc }

#[derive(Clone)]
pub struct Obj {
    size: u64,
    align: u64,
    live: bool,
    konst: bool,
    /// 0 = uninitialised; 1..=256 = byte+1; otherwise (1<<40)|(expr<<4)|byte index.
    bytes: Vec<u64>,
    shadow: Option<Vec<Shadow>>,
    /// Other threads may know its address.
    esc: bool,
    /// Hash of the content; 0 if not known, 1 if it is not concrete.
    hash: std::cell::Cell<u64>,
}

#[derive(Clone)]
struct Virt { n: Id, esize: u64, align: u64, start: u64, freed: bool, writes: Rc<Vec<(Id, V)>> }

#[derive(Clone)]
struct LedgerVec { start: u64, n: V, zst: bool }

#[derive(Clone)]
struct Frame {
    func: u32, pc: u32, slots: Vec<V>, stack_base: u32, is_try: bool,
    /// Hash of what is live, for a frame below the top; 0 if not known.
    hash: std::cell::Cell<u64>,
}

#[derive(Clone, PartialEq, Debug)]
enum TS { Run, BlockedAddr(u64, u64), Joining(usize), Done }

#[derive(Clone)]
struct Thread {
    frames: Vec<Rc<Frame>>,
    stack: Vec<Rc<Obj>>,
    ts: TS,
    vc: Vc,
    acq: Vc,
    rel: Vc,
    /// Last visible operation, for spin detection: (func, pc, addr, value, repeats).
    last: (u32, u32, u64, u64, u32),
    last_hash: u64,
    ops: u32,
    view: View,
    aview: View,
    rview: View,
    /// Not at an atomic operation yet: it can run on to the next one without a choice.
    fresh: bool,
    nheap: usize,
}

#[derive(Clone)]
pub struct State {
    th: Vec<Thread>,
    cur: usize,
    heap: Vec<Rc<Obj>>,
    globals: Vec<Rc<Obj>>,
    virt: Vec<Virt>,
    lvecs: Vec<LedgerVec>,
    ledger: Vec<(V, V)>,
    zdropped: V,
    sync: Rc<BTreeMap<u64, Vc>>,
    hist: Rc<BTreeMap<u64, ALoc>>,
    scview: View,
    nlocs: usize,
    /// The message the current load is to read.
    force: Option<u32>,
    stale: u32,
    sleep: u8,
    cons: Vec<Id>,
    model: Vec<u64>,
    nvars: u32,
    known: HashMap<Id, u64, Fx>,
    inputs: Vec<V>,
    sched: Vec<(u8, u32)>,
    sched_done: bool,
    preempts: u32,
    log: Vec<V>,
    tags: BTreeSet<u32>,
    forks_at: HashMap<(u32, u32), u32, Fx>,
    steps: u64,
    last_panic: Rc<str>,
    live_heap: i64,
    depth: u32,
}

#[derive(Clone, Default)]
pub struct Fx;
pub struct FxH(u64);
impl std::hash::BuildHasher for Fx { type Hasher = FxH; fn build_hasher(&self) -> FxH { FxH(0) } }
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.write_u64(*x as u64); } }
    fn write_u32(&mut self, v: u32) { self.write_u64(v as u64) }
    fn write_u64(&mut self, v: u64) { self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95); }
}

pub enum Stop { End, Infeasible, Pruned, Merged, Viol, Incomplete(String), Fatal(String), Requeue }
type R<T> = Result<T, Stop>;

pub struct Prog {
    pub funcs: Vec<Func>,
    pub globals: Vec<Obj>,
    pub global_names: Vec<String>,
    pub by_name: HashMap<String, usize>,
}

#[derive(Clone)]
pub struct Violation { pub kind: String, pub msg: String, pub stack: Vec<String>, pub inputs: Vec<u64>, pub sched: Vec<(u8, u32)>, pub tags: Vec<u32>, pub log: Vec<Option<u64>> }

pub struct Cfg {
    pub params: Vec<u64>,
    pub preempt: u32,
    /// All interleavings, one of each class that differs in the order of independent operations only.
    pub por: bool,
    /// How many loads of a path may read a value that is not the latest (as far as the memory model allows).
    pub stale: u32,
    pub loopb: u32,
    pub maxsteps: u64,
    pub maxviol: usize,
    pub deadline: std::time::Instant,
    pub nsamples: usize,
    pub seed: u64,
}

#[derive(Default)]
pub struct Out {
    pub paths: u64,
    pub infeasible: u64,
    pub steps: u64,
    pub forks: u64,
    pub scheds: u64,
    pub pruned: u64,
    pub stales: u64,
    pub merged: u64,
    pub asserts: u64,
    pub atomics: u64,
    pub viols: Vec<Violation>,
    pub nviol: u64,
    pub incomplete: BTreeMap<String, u64>,
    pub fatal: BTreeMap<String, u64>,
    pub covers: BTreeMap<u32, u64>,
    pub funcs: BTreeSet<u32>,
    pub samples: Vec<(Vec<u64>, Vec<(u8, u32)>, Vec<Option<u64>>)>,
    pub max_cons: usize,
    pub syms: u64,
}

// ---------------------------------------------------------------- linking

#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(usize)]
pub enum B {
    Range, Assume, Assert, Cover, Tag, Vec_, Concrete, Drop_, ZDrop, Undropped, DroppedTotal, LiveHeap, Log, Try, Panic, Spawn, Join, Param, Freed,
    Alloc, AllocZ, Dealloc, Realloc, NoOp, Memcpy, Memmove, Memset, Ctpop, Ucmp, Scmp, MulO, UAddO, USubO, SAddO, SSubO, SMulO, UMax, UMin, SMax, SMin, Cttz, Ctlz, Bswap, Bcmp, USubSat, UAddSat,
    Trap, PanicFn, AbortFn, Expect, Abs, SliceDrop, Fshl, Ptrmask, Forget, Unknown,
}

fn builtin_of(name: &str, decl: Option<&ir::Decl>) -> B {
    match name {
        "__sym_range" => return B::Range, "__sym_assume" => return B::Assume, "__sym_assert" => return B::Assert, "__sym_cover" => return B::Cover,
        "__sym_tag" => return B::Tag, "__sym_vec" => return B::Vec_, "__sym_concrete" => return B::Concrete, "__sym_drop" => return B::Drop_, "__sym_zdrop" => return B::ZDrop,
        "__sym_undropped" => return B::Undropped, "__sym_dropped_total" => return B::DroppedTotal, "__sym_live_heap" => return B::LiveHeap,
        "__sym_log" => return B::Log, "__sym_try" => return B::Try, "__sym_panic" => return B::Panic, "__sym_spawn" => return B::Spawn,
        "__sym_join" => return B::Join, "__sym_param" => return B::Param, "__sym_freed" => return B::Freed, "__sym_forget" => return B::Forget,
        "bcmp" | "memcmp" => return B::Bcmp,
        _ => {}
    }
    if let Some(r) = name.strip_prefix("llvm.") {
        let p = |s: &str| r.starts_with(s);
        return if p("memcpy.") { B::Memcpy } else if p("memmove.") { B::Memmove } else if p("memset.") { B::Memset } else if p("ctpop.") { B::Ctpop }
            else if p("ucmp.") { B::Ucmp } else if p("scmp.") { B::Scmp } else if p("umul.with.overflow") { B::MulO } else if p("uadd.with.overflow") { B::UAddO }
            else if p("usub.with.overflow") { B::USubO } else if p("sadd.with.overflow") { B::SAddO } else if p("ssub.with.overflow") { B::SSubO } else if p("smul.with.overflow") { B::SMulO }
            else if p("umax.") { B::UMax } else if p("umin.") { B::UMin } else if p("smax.") { B::SMax } else if p("smin.") { B::SMin }
            else if p("usub.sat") { B::USubSat } else if p("uadd.sat") { B::UAddSat }
            else if p("cttz.") { B::Cttz } else if p("ctlz.") { B::Ctlz } else if p("bswap.") { B::Bswap } else if p("trap") { B::Trap }
            else if p("expect.") { B::Expect } else if p("abs.") { B::Abs } else if p("fshl.") { B::Fshl }
            else if p("x86.sse2.pause") || p("assume") || p("lifetime") || p("dbg") || p("experimental.noalias") || p("prefetch") { B::NoOp } else { B::Unknown };
    }
    if name.contains("___rust_alloc_zeroed") { return B::AllocZ; }
    if name.contains("___rust_alloc") && !name.contains("shim") { return B::Alloc; }
    if name.contains("___rust_dealloc") { return B::Dealloc; }
    if name.contains("___rust_realloc") { return B::Realloc; }
    if name.contains("no_alloc_shim") { return B::NoOp; }
    if name.contains("panic_nounwind") || name.contains("panic_cannot_unwind") || name.contains("panic_in_cleanup") || name.contains("5abort") || name.contains("handle_alloc_error") || name.contains("abort_internal") { return B::AbortFn; }
    if let Some(d) = decl {
        if d.noreturn { return if d.nounwind { B::AbortFn } else { B::PanicFn }; }
    }
    if name.contains("9panicking") || name.contains("12handle_error") || name.contains("17capacity_overflow") || name.contains("18panic_arc_overflow") { return B::PanicFn; }
    B::Unknown
}

fn slice_drop_elem(name: &str) -> Option<&'static str> {
    for pat in ["3ptr9drop_glueS", "3ptr13drop_in_placeS"] {
        if let Some(k) = name.find(pat) {
            let rest = &name[k..];
            if rest.contains("7harness3sym4ItemE") { return Some("Item"); }
            if rest.contains("7harness3sym3ZstE") || rest.contains("7harness3sym5ZWideE") { return Some("Zst"); }
        }
    }
    None
}

pub fn link(mods: Vec<ir::Module>) -> Result<Prog, String> {
    let mut funcs: Vec<Func> = vec![];
    let mut global_decl: Vec<ir::Global> = vec![];
    let mut decls: HashMap<String, ir::Decl> = HashMap::new();
    for m in mods {
        funcs.extend(m.funcs);
        global_decl.extend(m.globals);
        for (k, v) in m.decls { decls.entry(k).or_insert(v); }
    }
    let mut pub_f: HashMap<String, usize> = HashMap::new();
    let mut loc_f: HashMap<(usize, String), usize> = HashMap::new();
    for (i, f) in funcs.iter().enumerate() {
        loc_f.insert((f.module, f.name.clone()), i);
        if !f.internal { pub_f.entry(f.name.clone()).or_insert(i); }
    }
    let mut pub_g: HashMap<String, usize> = HashMap::new();
    let mut loc_g: HashMap<(usize, String), usize> = HashMap::new();
    for (i, g) in global_decl.iter().enumerate() {
        if g.init.is_none() { continue; }
        loc_g.insert((g.module, g.name.clone()), i);
        if !g.internal { pub_g.entry(g.name.clone()).or_insert(i); }
    }
    let fidx = |m: usize, n: &str| loc_f.get(&(m, n.to_string())).or_else(|| pub_f.get(n)).copied();
    let gidx = |m: usize, n: &str| loc_g.get(&(m, n.to_string())).or_else(|| pub_g.get(n)).copied();
    let mut ext: Vec<String> = vec![];
    let mut addr = |m: usize, n: &str| -> u64 {
        if let Some(i) = fidx(m, n) { return FUNC + 16 * i as u64; }
        if let Some(i) = gidx(m, n) { return GLOBAL + ((i as u64) << HSH); }
        let k = match ext.iter().position(|x| x == n) { Some(k) => k, None => { ext.push(n.to_string()); ext.len() - 1 } };
        FUNC + (1 << 36) + 16 * k as u64
    };
    fn cst_v(c: &Cst, ty: &Ty, m: usize, addr: &mut dyn FnMut(usize, &str) -> u64) -> V {
        match c {
            Cst::Int(v) => V::C(*v),
            Cst::Undef => if ty.is_agg() { agg_of(ty, &V::Undef) } else { V::Undef },
            Cst::Zero => if ty.is_agg() { agg_of(ty, &V::C(0)) } else { V::C(0) },
            Cst::Global(g) => V::C(addr(m, g)),
            Cst::Gep(b, o) => match cst_v(b, &Ty::Ptr, m, addr) { V::C(x) => V::C(x.wrapping_add(*o as u64)), v => v },
            Cst::Agg(v) => V::Agg(Rc::new(v.iter().map(|(t, c)| cst_v(c, t, m, addr)).collect())),
            Cst::Bytes(b) => V::Agg(Rc::new(b.iter().map(|x| V::C(*x as u64)).collect())),
            Cst::BadExpr(_) => V::Undef,
        }
    }
    // Globals.
    let mut globals = vec![];
    let mut names = vec![];
    for g in &global_decl {
        let size = g.ty.size();
        let mut o = Obj { size, align: g.align, live: g.init.is_some(), konst: g.is_const, bytes: vec![0; size as usize], shadow: None, esc: true, hash: Default::default() };
        if let Some(c) = &g.init {
            let v = cst_v(c, &g.ty, g.module, &mut addr);
            put_const(&mut o.bytes, 0, &g.ty, &v);
        }
        globals.push(o);
        names.push(g.name.clone());
    }
    let nf = funcs.len();
    let mut by_name = HashMap::new();
    for (n, i) in &pub_f { by_name.insert(n.clone(), *i); }
    for i in 0..nf {
        let m = funcs[i].module;
        let mut code = std::mem::take(&mut funcs[i].code);
        for ins in code.iter_mut() {
            // Resolve direct calls first.
            if let I::Call(c) = ins {
                if let Opnd::Cst(Cst::Global(g), _) = &c.callee {
                    let sd = slice_drop_elem(g);
                    c.target = match (fidx(m, g), sd) {
                        (Some(_), Some(_)) => Target::Builtin(B::SliceDrop as usize, g.as_str().into()),
                        (Some(k), None) => Target::Func(k),
                        (None, _) => Target::Builtin(builtin_of(g, decls.get(g)) as usize, g.as_str().into()),
                    };
                } else { c.target = Target::Indirect; }
            }
            let mut fix = |o: &mut Opnd| { if let Opnd::Cst(c, t) = o { *o = Opnd::Val(cst_v(c, t, m, &mut addr)); } };
            let mut fixe = |e: &mut Edge, fix: &mut dyn FnMut(&mut Opnd)| { let mut v = (*e.copies).clone(); for (_, o) in v.iter_mut() { fix(o); } e.copies = Rc::new(v); };
            match ins {
                I::Bin(_, _, _, a, b, _) | I::Icmp(_, _, _, a, b) => { fix(a); fix(b); }
                I::Cast(_, _, _, _, a, _) | I::Freeze(_, a) | I::Extract(_, a, _) | I::Load(_, _, a, _, _) => fix(a),
                I::Select(_, a, b, c) | I::CmpXchg(_, _, a, b, c, ..) => { fix(a); fix(b); fix(c); }
                I::Store(_, a, b, _, _) | I::Insert(_, _, a, b, _) | I::AtomicRmw(_, _, _, a, b, _) => { fix(a); fix(b); }
                I::Gep(_, a, _, ix, _) => { fix(a); for (o, _, _) in ix.iter_mut() { fix(o); } }
                I::Br(e) => fixe(e, &mut fix),
                I::CondBr(c, a, b) => { fix(c); fixe(a, &mut fix); fixe(b, &mut fix); }
                I::Switch(_, c, cs, d) => { fix(c); for (_, e) in cs.iter_mut() { fixe(e, &mut fix); } fixe(d, &mut fix); }
                I::Ret(Some(a)) => fix(a),
                I::Call(c) => {
                    for a in c.args.iter_mut() { fix(a); }
                    if let Some(e) = &mut c.normal { fixe(e, &mut fix); }
                    if let Some(e) = &mut c.unwind { fixe(e, &mut fix); }
                    if matches!(c.target, Target::Indirect) { fix(&mut c.callee); }
                }
                _ => {}
            }
        }
        funcs[i].code = code;
    }
    Ok(Prog { funcs, globals, global_names: names, by_name })
}

fn agg_of(ty: &Ty, leaf: &V) -> V {
    match ty {
        Ty::Arr(n, t) => V::Agg(Rc::new((0..*n).map(|_| agg_of(t, leaf)).collect())),
        Ty::Struct(_, ts) => V::Agg(Rc::new(ts.iter().map(|t| agg_of(t, leaf)).collect())),
        _ => leaf.clone(),
    }
}
fn put_const(bytes: &mut [u64], off: u64, ty: &Ty, v: &V) {
    match (ty, v) {
        (Ty::Arr(..), V::Agg(vs)) | (Ty::Struct(..), V::Agg(vs)) => for (i, x) in vs.iter().enumerate() { put_const(bytes, off + ty.field_offset(i), &ty.elem(i), x); },
        (_, V::C(c)) => for k in 0..ty.size().min(8) { bytes[(off + k) as usize] = ((c >> (8 * k)) & 255) + 1; },
        _ => {}
    }
}

// ---------------------------------------------------------------- execution

/// Which slots matter from each instruction on, per function.
fn liveness(f: &Func) -> Vec<Vec<u64>> {
    let nw = (f.nslots as usize + 63) / 64;
    let n = f.code.len();
    let mut live = vec![vec![0u64; nw]; n];
    fn u(b: &mut [u64], o: &Opnd) { if let Opnd::Slot(i) = o { b[*i as usize / 64] |= 1 << (i % 64); } }
    fn d(b: &mut [u64], i: u32) { if i != u32::MAX { b[i as usize / 64] &= !(1 << (i % 64)); } }
    loop {
        let mut changed = false;
        for i in (0..n).rev() {
            let mut b = vec![0u64; nw];
            {
                let mut edge = |b: &mut Vec<u64>, e: &Edge| {
                    let mut x = live[e.pc as usize].clone();
                    for (t, _) in e.copies.iter() { d(&mut x, *t); }
                    for (_, o) in e.copies.iter() { u(&mut x, o); }
                    for k in 0..nw { b[k] |= x[k]; }
                };
                let ins = &f.code[i];
                match ins {
                    I::Br(e) => edge(&mut b, e),
                    I::CondBr(_, x, y) => { edge(&mut b, x); edge(&mut b, y); }
                    I::Switch(_, _, cs, e) => { for (_, x) in cs { edge(&mut b, x); } edge(&mut b, e); }
                    I::Call(c) if c.normal.is_some() || c.unwind.is_some() => {
                        if let Some(e) = &c.normal { edge(&mut b, e); }
                        if let Some(e) = &c.unwind { edge(&mut b, e); }
                    }
                    I::Ret(_) | I::Unreachable | I::Resume => {}
                    _ => if i + 1 < n { b.copy_from_slice(&live[i + 1]); },
                }
                match ins {
                    I::Bin(_, t, _, x, y, _) | I::Icmp(_, t, _, x, y) => { d(&mut b, *t); u(&mut b, x); u(&mut b, y); }
                    I::Cast(_, t, _, _, x, _) | I::Freeze(t, x) | I::Extract(t, x, _) | I::Load(t, _, x, _, _) => { d(&mut b, *t); u(&mut b, x); }
                    I::Select(t, x, y, z) | I::CmpXchg(t, _, x, y, z, ..) => { d(&mut b, *t); u(&mut b, x); u(&mut b, y); u(&mut b, z); }
                    I::Alloca(t, ..) | I::LandingPad(t) => d(&mut b, *t),
                    I::Store(_, x, y, _, _) => { u(&mut b, x); u(&mut b, y); }
                    I::Insert(t, _, x, y, _) | I::AtomicRmw(t, _, _, x, y, _) => { d(&mut b, *t); u(&mut b, x); u(&mut b, y); }
                    I::Gep(t, x, _, ix, _) => { d(&mut b, *t); u(&mut b, x); for (o, _, _) in ix { u(&mut b, o); } }
                    I::CondBr(x, ..) | I::Switch(_, x, ..) => u(&mut b, x),
                    I::Ret(Some(x)) => u(&mut b, x),
                    I::Call(c) => { if let Some(t) = c.dst { d(&mut b, t); } u(&mut b, &c.callee); for x in &c.args { u(&mut b, x); } }
                    _ => {}
                }
            }
            if b != live[i] { live[i] = b; changed = true; }
        }
        if !changed { return live; }
    }
}

/// A 128-bit running hash.
struct H2(u64, u64);
impl H2 {
    #[inline]
    fn w(&mut self, v: u64) {
        let a = ((self.0 ^ v) as u128).wrapping_mul(0x9E37_79B9_7F4A_7C15_F39C_C060_5CED_C835);
        self.0 = (a as u64) ^ (a >> 64) as u64;
        self.1 = (self.1.rotate_left(29) ^ v).wrapping_mul(0xD6E8_FEB8_6659_FD93);
    }
    fn end(&self) -> u64 {
        let mut x = self.0 ^ self.1.rotate_left(32).wrapping_mul(0xff51_afd7_ed55_8ccd);
        x ^= x >> 33; x = x.wrapping_mul(0xc4ce_b9fe_1a85_ec53); x ^= x >> 29;
        x
    }
    /// False if the value is not concrete.
    fn v(&mut self, x: &V) -> bool {
        match x { V::C(c) => { self.w(1); self.w(*c); true } V::E(_) => false, V::Undef => { self.w(3); true } V::Agg(l) => { self.w(4 + l.len() as u64); l.iter().all(|y| self.v(y)) } }
    }
}

/// States that were explored already: by the hash of all that is concrete, with the threads that were asleep and
/// who knew of which accesses and messages. A state from which less was known can do all that the others can.
/// The table is in memory that the workers share: slots of (hash, place of the rest), probed in a line.
pub struct Seen { pub on: bool, slots: *const [AtomicU64; 2], mask: u64, arena: *mut u8, top: *const AtomicU64, room: u64 }
impl Seen {
    pub fn new(mb: usize, map: impl Fn(usize) -> *mut u8) -> Seen {
        if mb == 0 { return Seen { on: false, slots: std::ptr::null(), mask: 0, arena: std::ptr::null_mut(), top: std::ptr::null(), room: 0 }; }
        let n = ((mb << 20) / 128).next_power_of_two();
        let a = map(mb << 20);
        Seen { on: true, slots: map(n * 16) as _, mask: n as u64 - 1, arena: a, top: map(4096) as _, room: (mb as u64) << 20 }
    }
    fn check(&mut self, h: u64, sleep: u8, know: Vec<u8>, lag: Vec<u8>) -> bool {
        use std::sync::atomic::Ordering::*;
        let h = h.max(1);
        let mut i = h.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 20;
        let mut probes = 0;
        loop {
            i &= self.mask;
            let s = unsafe { &*self.slots.add(i as usize) };
            let k = s[0].load(Acquire);
            if k == 0 { break; }
            if k == h {
                let at = s[1].load(Acquire);
                if at != 0 {
                    let m = unsafe { std::slice::from_raw_parts(self.arena.add(at as usize), 5) };
                    let (kl, gl) = (m[1] as usize | (m[2] as usize) << 8, m[3] as usize | (m[4] as usize) << 8);
                    let d = unsafe { std::slice::from_raw_parts(self.arena.add(at as usize + 5), kl + gl) };
                    if m[0] & !sleep == 0 && kl == know.len() && gl == lag.len() && d[..kl].iter().zip(&know).all(|(a, b)| a <= b) && d[kl..].iter().zip(&lag).all(|(a, b)| a >= b) { return true; }
                }
            }
            i += 1;
            probes += 1;
            if probes > 4096 { return false; }
        }
        let n = 5 + know.len() + lag.len();
        let top = unsafe { &*self.top };
        if know.len() > 0xffff || lag.len() > 0xffff || top.load(Relaxed) + n as u64 + 64 > self.room { return false; }
        let at = 64 + top.fetch_add(n as u64, Relaxed);
        if at + n as u64 > self.room { return false; }
        unsafe {
            let d = std::slice::from_raw_parts_mut(self.arena.add(at as usize), n);
            d[0] = sleep;
            for (q, l) in [(1, know.len()), (3, lag.len())] { d[q] = l as u8; d[q + 1] = (l >> 8) as u8; }
            d[5..5 + know.len()].copy_from_slice(&know);
            d[5 + know.len()..].copy_from_slice(&lag);
        }
        for _ in 0..4096 {
            let s = unsafe { &*self.slots.add((i & self.mask) as usize) };
            if s[0].load(Relaxed) == 0 && s[0].compare_exchange(0, h, AcqRel, Relaxed).is_ok() { s[1].store(at, Release); return false; }
            i += 1;
        }
        false
    }
}

pub struct Ex {
    pub seen: Seen,
    live: HashMap<u32, Rc<Vec<Vec<u64>>>, Fx>,
    pub p: &'static Prog,
    pub smt: Smt,
    pub cfg: Cfg,
    pub out: Out,
    pub work: Vec<State>,
    forked: bool,
    hole: Rc<Obj>,
}

#[derive(Clone, Copy, PartialEq)]
enum Kind { Heap, Stack(usize), Global }

enum Loc { O(Kind, usize, u64), Virt(usize, Id) }

fn to_id(v: &V, w: u32) -> Id { match v { V::C(c) => cx().c(*c, w as u8), V::E(i) => *i, _ => unreachable!("to_id") } }
fn from_id(i: Id) -> V { match cx().konst(i) { Some(c) => V::C(c), None => V::E(i) } }
fn sized(v: V, w: u32) -> V { match v { V::C(c) => V::C(c & maskw(w as u8)), v => v } }

impl Ex {
    pub fn new(p: &'static Prog, cfg: Cfg, smt: Smt, seen: Seen) -> Ex { Ex { seen, live: HashMap::default(), p, smt, cfg, out: Out::default(), work: vec![], forked: false, hole: Rc::new(Obj { size: 0, align: 1, live: false, konst: false, bytes: vec![], shadow: None, esc: true, hash: Default::default() }) } }

    pub fn initial(&mut self, entry: usize) -> State {
        let globals: Vec<Rc<Obj>> = self.p.globals.iter().map(|g| Rc::new(g.clone())).collect();
        let mut st = State {
            th: vec![], cur: 0, heap: vec![], globals, virt: vec![], lvecs: vec![], ledger: vec![], zdropped: V::C(0), sync: Rc::new(BTreeMap::new()), hist: Default::default(), scview: Default::default(), nlocs: 0, force: None, stale: 0, sleep: 0,
            cons: vec![], model: vec![], nvars: 0, known: HashMap::default(), inputs: vec![], sched: vec![], sched_done: false, preempts: 0, log: vec![], tags: BTreeSet::new(),
            forks_at: HashMap::default(), steps: 0, last_panic: "".into(), live_heap: 0, depth: 0,
        };
        let f = &self.p.funcs[entry];
        st.th.push(Thread { frames: vec![Rc::new(Frame { func: entry as u32, pc: 0, slots: vec![V::Undef; f.nslots as usize], stack_base: 0, is_try: false, hash: Default::default() })], stack: vec![], view: Default::default(), aview: Default::default(), rview: Default::default(), fresh: false, nheap: 0, ts: TS::Run, vc: [1, 0, 0, 0], acq: [0; MAXT], rel: [0; MAXT], last: (0, 0, 0, 0, 0), last_hash: 0, ops: 0 });
        st
    }

    // ---- solver interface

    fn eval_model(&self, st: &State, e: Id) -> u64 {
        cx().eval_begin();
        let m = &st.model;
        cx().eval(e, &|i, lo, _| m.get(i as usize).copied().unwrap_or(lo))
    }
    fn slice(&self, st: &State, cond: Id) -> Vec<Id> {
        let mut mask: Mask = cx().nodes[cond as usize].mask;
        let mut key = vec![cond];
        let mut used = vec![false; st.cons.len()];
        loop {
            let mut ch = false;
            for (i, &c) in st.cons.iter().enumerate() {
                if used[i] { continue; }
                let cm = &cx().nodes[c as usize].mask;
                if hit(cm, &mask) { used[i] = true; mask = or_mask(&mask, cm); key.push(c); ch = true; }
            }
            if !ch { break; }
        }
        key.sort_unstable();
        key.dedup();
        key
    }
    /// Is `cond` satisfiable together with the path condition? Some(model updates) if so.
    fn sat(&mut self, st: &State, cond: Id) -> R<Option<Rc<Vec<(u32, u64)>>>> {
        if let Some(k) = cx().konst(cond) { return Ok(if k == 1 { Some(Rc::new(vec![])) } else { None }); }
        let key = self.slice(st, cond);
        match self.smt.check(key) {
            Ans::Sat(m) => Ok(Some(m)),
            Ans::Unsat => Ok(None),
            Ans::Unknown => Err(Stop::Fatal("solver returned unknown".into())),
        }
    }
    fn apply_model(st: &mut State, m: &[(u32, u64)]) { for (v, x) in m { if (*v as usize) < st.model.len() { st.model[*v as usize] = *x; } } }
    fn add(&mut self, st: &mut State, cond: Id) {
        if cx().konst(cond).is_none() {
            st.cons.push(cond);
            st.known.insert(cond, 1);
            let n = cx().not(cond);
            st.known.insert(n, 0);
            self.out.max_cons = self.out.max_cons.max(st.cons.len());
        }
    }
    fn known(&self, st: &State, cond: Id) -> Option<bool> {
        if let Some(k) = cx().konst(cond) { return Some(k == 1); }
        if let Some(v) = st.known.get(&cond) { return Some(*v == 1); }
        None
    }

    /// Decide a branch condition; forks a sibling that re-executes the current instruction.
    fn branch(&mut self, st: &mut State, cond: Id) -> R<bool> {
        if let Some(b) = self.known(st, cond) { return Ok(b); }
        let cur = self.eval_model(st, cond) == 1;
        let (taken, other) = if cur { (cond, cx().not(cond)) } else { (cx().not(cond), cond) };
        match self.sat(st, other)? {
            Some(m) => {
                let f = st.th[st.cur].frames.last().unwrap();
                let k = (f.func, f.pc);
                let c = st.forks_at.entry(k).or_insert(0);
                *c += 1;
                if *c > self.cfg.loopb { return Err(Stop::Incomplete(format!("more than {} symbolic branches at one instruction of {}", self.cfg.loopb, self.p.funcs[k.0 as usize].name))); }
                let mut o = st.clone();
                o.depth += 1;
                st.depth += 1;
                self.add(&mut o, other);
                Self::apply_model(&mut o, &m);
                self.add(st, taken);
                self.work.push(o);
                self.forked = true;
                self.out.forks += 1;
            }
            None => { st.known.insert(taken, 1); st.known.insert(other, 0); }
        }
        Ok(cur)
    }
    /// `cond` must hold on every value of the path; otherwise a violation.
    fn must(&mut self, st: &mut State, cond: Id, kind: &str, msg: &str) -> R<()> {
        if let Some(b) = self.known(st, cond) {
            if b { return Ok(()); }
            self.violation(st, kind, msg);
            return Err(Stop::Viol);
        }
        let neg = cx().not(cond);
        if let Some(m) = self.sat(st, neg)? {
            let mut o = st.clone();
            self.add(&mut o, neg);
            Self::apply_model(&mut o, &m);
            self.violation(&o, kind, msg);
            match self.sat(st, cond)? {
                Some(m) => { self.add(st, cond); Self::apply_model(st, &m); Ok(()) }
                None => Err(Stop::Viol),
            }
        } else { st.known.insert(cond, 1); st.known.insert(neg, 0); Ok(()) }
    }
    /// Prefer small inputs in a counterexample, so that it can be replayed on a real heap.
    fn shrink(&mut self, st: &mut State) -> R<()> {
        for i in 0..st.inputs.len() {
            if let V::E(x) = st.inputs[i] {
                for bits in [3u32, 5, 8, 12, 16, 20, 24] {
                    let b = cx().c(1u64 << bits, cx().w(x));
                    let c = cx().cmp(Cmp::Ult, x, b);
                    if cx().w(x) < 32 { break; }
                    if let Some(m) = self.sat(st, c)? { self.add(st, c); Self::apply_model(st, &m); break; }
                }
            }
        }
        Ok(())
    }
    /// Force a value to a constant, forking over its feasible values.
    fn concretize(&mut self, st: &mut State, v: &V, w: u32, what: &str) -> R<u64> {
        match v {
            V::C(c) => Ok(*c),
            V::E(e) => {
                let e = *e;
                if let Some(c) = st.known.get(&e) { if w > 1 { return Ok(*c); } }
                if w == 1 { return Ok(self.branch(st, e)? as u64); }
                loop {
                    let c = self.eval_model(st, e);
                    let k = cx().c(c, w as u8);
                    let eq = cx().cmp(Cmp::Eq, e, k);
                    if self.branch(st, eq)? { st.known.insert(e, c); return Ok(c); }
                }
            }
            _ => { self.violation(st, "uninit", &format!("use of an uninitialised value as {}", what)); Err(Stop::Viol) }
        }
    }

    fn stack_names(&self, st: &State) -> Vec<String> {
        let mut v = vec![];
        for f in st.th[st.cur].frames.iter().rev().take(14) {
            let fu = &self.p.funcs[f.func as usize];
            v.push(format!("{}:{}", fu.name, fu.block_of.get(f.pc as usize).map(|b| fu.block_names[*b as usize].as_str()).unwrap_or("?")));
        }
        v
    }
    fn inputs_of(&self, st: &State) -> Vec<u64> {
        st.inputs.iter().map(|v| match v { V::C(c) => *c, V::E(e) => self.eval_model(st, *e), _ => 0 }).collect()
    }
    fn log_of(&self, st: &State) -> Vec<Option<u64>> {
        st.log.iter().map(|v| match v { V::C(c) => Some(*c), V::E(e) => Some(self.eval_model(st, *e)), _ => None }).collect()
    }
    fn violation(&mut self, st: &State, kind: &str, msg: &str) {
        self.out.nviol += 1;
        let stack = self.stack_names(st);
        let same = self.out.viols.iter().filter(|v| v.kind == kind && v.msg == msg && v.tags.iter().copied().collect::<BTreeSet<_>>() == st.tags).count();
        if same >= 4 || self.out.viols.len() >= self.cfg.maxviol * 8 { return; }
        let mut o = st.clone();
        let _ = self.shrink(&mut o);
        let st = &o;
        let v = Violation { kind: kind.into(), msg: msg.into(), stack, inputs: self.inputs_of(st), sched: self.sched_of(st), tags: st.tags.iter().copied().collect(), log: self.log_of(st) };
        self.out.viols.push(v);
    }
    fn sched_of(&self, st: &State) -> Vec<(u8, u32)> { st.sched.clone() }

    // ---- memory

    fn obj<'a>(&self, st: &'a State, k: Kind, i: usize) -> &'a Rc<Obj> { match k { Kind::Heap => &st.heap[i], Kind::Stack(t) => &st.th[t].stack[i], Kind::Global => &st.globals[i] } }
    fn obj_mut<'a>(&self, st: &'a mut State, k: Kind, i: usize) -> &'a mut Obj { let o = self.obj_sh(st, k, i); o.hash.set(0); o }
    /// For changes to the shadow only.
    fn obj_sh<'a>(&self, st: &'a mut State, k: Kind, i: usize) -> &'a mut Obj { Rc::make_mut(match k { Kind::Heap => &mut st.heap[i], Kind::Stack(t) => &mut st.th[t].stack[i], Kind::Global => &mut st.globals[i] }) }
    /// Other threads may now come by this pointer, and by all that can be reached from there.
    fn publish(&self, st: &mut State, v: &V) {
        let a = match v { V::C(a) => *a, _ => return };
        let (k, i) = if a >= HEAP && a < STACK { (Kind::Heap, ((a - HEAP) >> HSH) as usize) } else if a >= STACK && a < STACK + ((MAXT as u64) << TSH) { let t = ((a - STACK) >> TSH) as usize; (Kind::Stack(t), (((a - STACK) & ((1 << TSH) - 1)) >> SSH) as usize) } else { return };
        let o = match k { Kind::Heap => st.heap.get(i), Kind::Stack(t) => st.th.get(t).and_then(|t| t.stack.get(i)), _ => None };
        let o = match o { Some(o) if !o.esc => o, _ => return };
        let words: Vec<V> = (0..o.bytes.len() / 8).map(|w| Self::get_bytes(&o.bytes[8 * w..8 * w + 8])).collect();
        self.obj_sh(st, k, i).esc = true;
        for w in &words { self.publish(st, w); }
    }
    /// Publish what was just written to n bytes at off, if others can see it there.
    fn publish_at(&self, st: &mut State, k: Kind, i: usize, off: u64, n: u64) {
        if !self.mt(st) || !self.obj(st, k, i).esc { return; }
        let o = self.obj(st, k, i);
        let words: Vec<V> = ((off / 8) as usize..((off + n + 7) / 8) as usize).filter(|w| 8 * w + 8 <= o.bytes.len()).map(|w| Self::get_bytes(&o.bytes[8 * w..8 * w + 8])).collect();
        for w in &words { self.publish(st, w); }
    }
    /// Is this something no other thread can know of?
    fn private(&self, st: &State, p: &V) -> bool {
        match p {
            V::C(a) if *a >= HEAP && *a < STACK => st.heap.get(((a - HEAP) >> HSH) as usize).map_or(false, |o| !o.esc),
            V::C(a) if *a >= STACK && *a < STACK + ((MAXT as u64) << TSH) => st.th.get(((a - STACK) >> TSH) as usize).and_then(|t| t.stack.get((((a - STACK) & ((1 << TSH) - 1)) >> SSH) as usize)).map_or(false, |o| !o.esc),
            _ => false,
        }
    }

    /// Which virtual object does a symbolic address belong to?
    fn virt_of(&self, e: Id) -> Option<(usize, Id)> {
        let (_, c) = cx().lin_parts(e);
        let v = (c.wrapping_sub(VIRT).wrapping_add(1 << 58)) >> 59;
        let base = VIRT + (v << 59);
        if c < VIRT.wrapping_sub(1 << 58) || v > 3 { return None; }
        let b = cx().c(base, 64);
        Some((v as usize, cx().sub(e, b)))
    }

    fn resolve(&mut self, st: &mut State, p: &V, size: u64, write: bool) -> R<Loc> {
        let a = match p {
            V::C(a) => *a,
            V::E(e) => {
                let e = *e;
                if let Some((v, off)) = self.virt_of(e) {
                    if v < st.virt.len() { return self.check_virt(st, v, off, size, write).map(|_| Loc::Virt(v, off)); }
                }
                let c = self.concretize(st, p, 64, "an address")?;
                return self.resolve(st, &V::C(c), size, write);
            }
            _ => { self.violation(st, "uninit", "dereference of an uninitialised pointer"); return Err(Stop::Viol); }
        };
        let act = if write { "write" } else { "read" };
        let (k, i, off) = if a >= VIRT {
            let v = ((a - VIRT) >> 59) as usize;
            if v < st.virt.len() { let off = cx().c(a - VIRT - ((v as u64) << 59), 64); self.check_virt(st, v, off, size, write)?; return Ok(Loc::Virt(v, off)); }
            self.violation(st, "memory", &format!("{} through a wild pointer", act));
            return Err(Stop::Viol);
        } else if a >= STACK {
            let t = ((a - STACK) >> TSH) as usize;
            let i = (((a - STACK) & ((1 << TSH) - 1)) >> SSH) as usize;
            if t >= st.th.len() || i >= st.th[t].stack.len() { self.violation(st, "memory", &format!("{} of a dead stack slot", act)); return Err(Stop::Viol); }
            (Kind::Stack(t), i, a & ((1 << SSH) - 1))
        } else if a >= HEAP {
            let i = ((a - HEAP) >> HSH) as usize;
            if i >= st.heap.len() { self.violation(st, "memory", &format!("{} through a wild pointer", act)); return Err(Stop::Viol); }
            (Kind::Heap, i, a & ((1 << HSH) - 1))
        } else if a >= GLOBAL {
            let i = ((a - GLOBAL) >> HSH) as usize;
            if i >= st.globals.len() { self.violation(st, "memory", &format!("{} through a wild pointer", act)); return Err(Stop::Viol); }
            (Kind::Global, i, a & ((1 << HSH) - 1))
        } else {
            self.violation(st, "memory", &format!("{} through a null or dangling pointer", act));
            return Err(Stop::Viol);
        };
        let o = self.obj(st, k, i);
        if !o.live { self.violation(st, "use-after-free", &format!("{} of freed memory", act)); return Err(Stop::Viol); }
        if off + size > o.size { self.violation(st, "memory", &format!("out-of-bounds {}", act)); return Err(Stop::Viol); }
        if write && o.konst { self.violation(st, "memory", "write to constant memory"); return Err(Stop::Viol); }
        Ok(Loc::O(k, i, off))
    }
    fn check_virt(&mut self, st: &mut State, v: usize, off: Id, size: u64, write: bool) -> R<()> {
        if st.virt[v].freed { self.violation(st, "use-after-free", if write { "write to the freed slice allocation" } else { "read of the freed slice allocation" }); return Err(Stop::Viol); }
        let total = cx().mulc(st.virt[v].n, st.virt[v].esize);
        // off <= total - size, as unsigned, with total >= size.
        let s = cx().c(size, 64);
        let end = cx().add(off, s);
        let c1 = cx().cmp(Cmp::Ule, end, total);
        let c2 = cx().cmp(Cmp::Ult, off, total);
        let c = cx().and(c1, c2);
        self.must(st, c, "memory", if write { "out-of-bounds write to the slice allocation" } else { "out-of-bounds read of the slice allocation" })
    }

    fn get_bytes(b: &[u64]) -> V {
        // Reassemble an integer from byte cells.
        let n = b.len();
        if b[0] >= 1 << 40 {
            let e = ((b[0] >> 4) & 0xffff_ffff) as Id;
            let w = cx().w(e) as usize;
            if b[0] & 15 == 0 && (w + 7) / 8 == n && b.iter().enumerate().all(|(i, x)| *x == b[0] + i as u64) { return V::E(e); }
        }
        let mut c = 0u64;
        let mut allc = true;
        let mut undef = 0;
        for (i, x) in b.iter().enumerate() {
            if *x == 0 { undef += 1; } else if *x <= 256 { c |= (*x - 1) << (8 * i); } else { allc = false; }
        }
        if undef == n { return V::Undef; }
        if allc { return V::C(c); }
        let w = (8 * n) as u8;
        let mut acc = cx().c(c, w);
        let mut i = 0;
        while i < n {
            if b[i] > 256 {
                let e = ((b[i] >> 4) & 0xffff_ffff) as Id;
                let we = cx().w(e);
                // Longest run of consecutive bytes of e.
                let j0 = b[i] & 15;
                let mut k = i + 1;
                while k < n && b[k] == b[i] + (k - i) as u64 { k += 1; }
                let run = ((k - i) * 8) as u8;
                let we8 = (we + 7) / 8 * 8;
                let ee = if we < we8 { cx().zext(e, we8) } else { e };
                let sh = cx().c(8 * j0, we8);
                let mut part = cx().bin(Op::LShr, ee, sh);
                if run < we8 { part = cx().trunc(part, run); }
                if run < w { part = cx().zext(part, w); }
                let sh = cx().c(8 * i as u64, w);
                let part = cx().bin(Op::Shl, part, sh);
                acc = cx().bin(Op::Or, acc, part);
                i = k;
            } else { i += 1; }
        }
        from_id(acc)
    }
    fn put_bytes(b: &mut [u64], v: &V) {
        match v {
            V::C(c) => for (i, x) in b.iter_mut().enumerate() { *x = ((c >> (8 * i)) & 255) + 1; },
            V::E(e) => for (i, x) in b.iter_mut().enumerate() { *x = (1 << 40) | ((*e as u64) << 4) | i as u64; },
            _ => for x in b.iter_mut() { *x = 0; },
        }
    }

    fn mt(&self, st: &State) -> bool { st.th.len() > 1 }
    /// Can a load still read a value that is not the latest?
    fn lax(&self, st: &State) -> bool { st.stale < self.cfg.stale }

    fn race(&mut self, st: &mut State, k: Kind, i: usize, off: u64, size: u64, write: bool, atomic: bool) -> R<()> {
        if !self.mt(st) || size == 0 { return Ok(()); }
        if matches!(k, Kind::Global) && st.globals[i].konst { return Ok(()); }
        let t = st.cur;
        let vc = st.th[t].vc;
        let o = self.obj_sh(st, k, i);
        let nw = (o.size as usize + 7) / 8;
        let sh = o.shadow.get_or_insert_with(|| vec![Shadow::default(); nw.max(1)]);
        let mut bad = false;
        let le = |a: &Vc| (0..MAXT).all(|j| j == t || a[j] <= vc[j]);
        for w in (off / 8) as usize..=((off + size - 1) / 8) as usize {
            let s = &mut sh[w];
            match (write, atomic) {
                (false, false) => { bad |= !(le(&s.w) && le(&s.aw)); s.r[t] = vc[t]; }
                (true, false) => { bad |= !(le(&s.w) && le(&s.r) && le(&s.aw) && le(&s.ar)); s.w[t] = vc[t]; }
                (false, true) => { bad |= !le(&s.w); s.ar[t] = vc[t]; }
                (true, true) => { bad |= !(le(&s.w) && le(&s.r)); s.aw[t] = vc[t]; }
            }
        }
        if bad { self.violation(st, "data-race", &format!("unsynchronised {}{}", if atomic { "atomic " } else { "" }, if write { "write" } else { "read" })); return Err(Stop::Viol); }
        Ok(())
    }

    fn load_scalar(&mut self, st: &mut State, p: &V, ty: &Ty, atomic: bool) -> R<V> {
        let size = ty.size();
        if ty.width() > 64 { return Err(Stop::Fatal(format!("load of {} bits", ty.width()))); }
        let v = match self.resolve(st, p, size, false)? {
            Loc::O(k, i, off) => {
                self.race(st, k, i, off, size, false, atomic)?;
                let o = self.obj(st, k, i);
                Self::get_bytes(&o.bytes[off as usize..(off + size) as usize])
            }
            Loc::Virt(v, off) => self.load_virt(st, v, off, size)?,
        };
        // i1 and other sub-byte integers.
        let w = ty.width();
        Ok(match v { V::C(c) => V::C(c & maskw(w as u8)), V::E(e) => { let we = cx().w(e) as u32; if we > w { from_id(cx().trunc(e, w as u8)) } else if we < w { from_id(cx().zext(e, w as u8)) } else { V::E(e) } } v => v })
    }
    fn load_virt(&mut self, st: &mut State, v: usize, off: Id, size: u64) -> R<V> {
        let o = st.virt[v].clone();
        if o.esize != 8 || size != 8 { return Err(Stop::Fatal(format!("{}-byte read of a symbolic-size slice of {}-byte items", size, o.esize))); }
        for (wo, wv) in o.writes.iter().rev() {
            let eq = cx().cmp(Cmp::Eq, *wo, off);
            if self.branch(st, eq)? { return Ok(wv.clone()); }
        }
        let idx = div8(off);
        let s = cx().c(o.start, 64);
        Ok(from_id(cx().add(idx, s)))
    }
    fn load(&mut self, st: &mut State, p: &V, ty: &Ty) -> R<V> {
        match ty {
            Ty::Arr(..) | Ty::Struct(..) => {
                let n = match ty { Ty::Arr(n, _) => *n as usize, Ty::Struct(_, t) => t.len(), _ => 0 };
                let mut v = vec![];
                for i in 0..n { let q = self.padd(p, ty.field_offset(i)); v.push(self.load(st, &q, &ty.elem(i))?); }
                Ok(V::Agg(Rc::new(v)))
            }
            _ if ty.width() == 128 => {
                let q = self.padd(p, 8);
                Ok(V::Agg(Rc::new(vec![self.load_scalar(st, p, &Ty::Int(64), false)?, self.load_scalar(st, &q, &Ty::Int(64), false)?])))
            }
            _ => self.load_scalar(st, p, ty, false),
        }
    }
    fn padd(&self, p: &V, o: u64) -> V {
        match p { V::C(a) => V::C(a.wrapping_add(o)), V::E(e) => { let c = cx().c(o, 64); from_id(cx().add(*e, c)) } v => v.clone() }
    }
    fn store_scalar(&mut self, st: &mut State, p: &V, ty: &Ty, v: &V, atomic: bool) -> R<()> {
        let size = ty.size();
        if ty.width() > 64 { return Err(Stop::Fatal(format!("store of {} bits", ty.width()))); }
        match self.resolve(st, p, size, true)? {
            Loc::O(k, i, off) => {
                self.race(st, k, i, off, size, true, atomic)?;
                if !atomic { self.clobber(st, k, i, off, size); }
                let v = match v { V::E(e) if (cx().w(*e) as u64) < 8 * size => from_id(cx().zext(*e, 8 * size as u8)), v => v.clone() };
                let o = self.obj_mut(st, k, i);
                Self::put_bytes(&mut o.bytes[off as usize..(off + size) as usize], &v);
                self.publish_at(st, k, i, off, size);
            }
            Loc::Virt(vi, off) => {
                if st.virt[vi].esize != 8 || size != 8 { return Err(Stop::Fatal("unsupported write to a symbolic-size slice".into())); }
                let mut w = (*st.virt[vi].writes).clone();
                w.push((off, v.clone()));
                st.virt[vi].writes = Rc::new(w);
            }
        }
        Ok(())
    }
    fn store(&mut self, st: &mut State, p: &V, ty: &Ty, v: &V) -> R<()> {
        match ty {
            Ty::Arr(..) | Ty::Struct(..) => {
                let n = match ty { Ty::Arr(n, _) => *n as usize, Ty::Struct(_, t) => t.len(), _ => 0 };
                for i in 0..n {
                    let e = match v { V::Agg(x) => x[i].clone(), _ => V::Undef };
                    let q = self.padd(p, ty.field_offset(i));
                    self.store(st, &q, &ty.elem(i), &e)?;
                }
                Ok(())
            }
            _ if ty.width() == 128 => {
                let q = self.padd(p, 8);
                let (a, b) = match v { V::Agg(x) if x.len() == 2 => (x[0].clone(), x[1].clone()), V::Undef => (V::Undef, V::Undef), _ => return Err(Stop::Fatal("store of an unsupported wide integer".into())) };
                self.store_scalar(st, p, &Ty::Int(64), &a, false)?;
                self.store_scalar(st, &q, &Ty::Int(64), &b, false)
            }
            _ => self.store_scalar(st, p, ty, v, false),
        }
    }
    fn memcpy(&mut self, st: &mut State, d: &V, s: &V, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        let sl = self.resolve(st, s, n, false)?;
        let dl = self.resolve(st, d, n, true)?;
        let bytes: Vec<u64> = match sl {
            Loc::O(k, i, off) => { self.race(st, k, i, off, n, false, false)?; self.obj(st, k, i).bytes[off as usize..(off + n) as usize].to_vec() }
            Loc::Virt(v, off) => {
                if n % 8 != 0 || n > 64 { return Err(Stop::Fatal("memcpy from a symbolic-size slice".into())); }
                let mut b = vec![0u64; n as usize];
                for j in 0..n / 8 { let o = { let c = cx().c(8 * j, 64); cx().add(off, c) }; let x = self.load_virt(st, v, o, 8)?; Self::put_bytes(&mut b[8 * j as usize..8 * j as usize + 8], &x); }
                b
            }
        };
        match dl {
            Loc::O(k, i, off) => { self.race(st, k, i, off, n, true, false)?; self.clobber(st, k, i, off, n); self.obj_mut(st, k, i).bytes[off as usize..(off + n) as usize].copy_from_slice(&bytes); self.publish_at(st, k, i, off, n); }
            Loc::Virt(v, off) => {
                if n % 8 != 0 || n > 64 { return Err(Stop::Fatal("memcpy to a symbolic-size slice".into())); }
                let mut w = (*st.virt[v].writes).clone();
                for j in 0..n / 8 { let o = { let c = cx().c(8 * j, 64); cx().add(off, c) }; w.push((o, Self::get_bytes(&bytes[8 * j as usize..8 * j as usize + 8]))); }
                st.virt[v].writes = Rc::new(w);
            }
        }
        Ok(())
    }
    fn alloc(&mut self, st: &mut State, size: u64, align: u64, zero: bool) -> R<u64> {
        if size >= (1 << HSH) - 64 { return Err(Stop::Incomplete(format!("allocation of {} bytes", size))); }
        // Threads number their allocations independently of each other.
        let i = st.th[st.cur].nheap * MAXT + st.cur;
        st.th[st.cur].nheap += 1;
        let a = HEAP + ((i as u64) << HSH);
        while st.heap.len() <= i { st.heap.push(self.hole.clone()); }
        let esc = !self.mt(st);
        st.heap[i] = Rc::new(Obj { size, align, live: true, konst: false, bytes: vec![if zero { 1 } else { 0 }; size as usize], shadow: None, esc, hash: Default::default() });
        st.live_heap += 1;
        Ok(a)
    }
    fn dealloc(&mut self, st: &mut State, p: &V, size: &V, align: u64) -> R<()> {
        let virt = match p { V::E(e) => self.virt_of(*e), V::C(a) if *a >= VIRT => { let e = cx().c(*a, 64); self.virt_of(e) } _ => None };
        if let Some((v, off)) = virt {
            if v >= st.virt.len() { self.violation(st, "memory", "free of a wild pointer"); return Err(Stop::Viol); }
            let z = cx().c(0, 64);
            let c = cx().cmp(Cmp::Eq, off, z);
            self.must(st, c, "memory", "free of a pointer that is not the start of the slice allocation")?;
            if st.virt[v].freed { self.violation(st, "double-free", "double free of the slice allocation"); return Err(Stop::Viol); }
            let total = cx().mulc(st.virt[v].n, st.virt[v].esize);
            let sz = to_id(size, 64);
            let c = cx().cmp(Cmp::Eq, sz, total);
            self.must(st, c, "memory", "free of the slice allocation with the wrong size")?;
            if align != st.virt[v].align { self.violation(st, "memory", "free of the slice allocation with the wrong alignment"); return Err(Stop::Viol); }
            st.virt[v].freed = true;
            st.live_heap -= 1;
            return Ok(());
        }
        let a = self.concretize(st, p, 64, "a pointer to free")?;
        let size = self.concretize(st, size, 64, "an allocation size")?;
        if a < HEAP || a >= STACK || (a & ((1 << HSH) - 1)) != 0 || ((a - HEAP) >> HSH) as usize >= st.heap.len() { self.violation(st, "memory", "free of a pointer that is not an allocation"); return Err(Stop::Viol); }
        let i = ((a - HEAP) >> HSH) as usize;
        if !st.heap[i].live { self.violation(st, "double-free", "double free"); return Err(Stop::Viol); }
        if st.heap[i].size != size || st.heap[i].align != align { let m = format!("free with layout ({},{}) of an allocation made with ({},{})", size, align, st.heap[i].size, st.heap[i].align); self.violation(st, "memory", &m); return Err(Stop::Viol); }
        self.race(st, Kind::Heap, i, 0, size, true, false)?;
        self.clobber(st, Kind::Heap, i, 0, size);
        if !st.sync.is_empty() { let a = HEAP + ((i as u64) << HSH); let l: Vec<u64> = st.sync.range(a..a + size.max(1)).map(|x| *x.0).collect(); for x in l { Rc::make_mut(&mut st.sync).remove(&x); } }
        let o = Rc::make_mut(&mut st.heap[i]);
        o.hash.set(0);
        o.live = false;
        o.bytes = vec![];
        o.shadow = None;
        st.live_heap -= 1;
        Ok(())
    }

    // ---- control

    fn val(&self, f: &Frame, o: &Opnd) -> V {
        match o { Opnd::Slot(s) => f.slots[*s as usize].clone(), Opnd::Val(v) => v.clone(), Opnd::Cst(..) => V::Undef }
    }
    fn goto(&self, st: &mut State, e: &Edge) {
        let t = st.cur;
        let f = Rc::make_mut(st.th[t].frames.last_mut().unwrap());
        if e.copies.len() == 1 {
            let v = match &e.copies[0].1 { Opnd::Slot(s) => f.slots[*s as usize].clone(), Opnd::Val(v) => v.clone(), _ => V::Undef };
            f.slots[e.copies[0].0 as usize] = v;
        } else if !e.copies.is_empty() {
            let vs: Vec<V> = e.copies.iter().map(|(_, o)| match o { Opnd::Slot(s) => f.slots[*s as usize].clone(), Opnd::Val(v) => v.clone(), _ => V::Undef }).collect();
            for ((d, _), v) in e.copies.iter().zip(vs) { f.slots[*d as usize] = v; }
        }
        f.pc = e.pc;
    }
    fn top<'a>(&self, st: &'a mut State) -> &'a mut Frame { let t = st.cur; Rc::make_mut(st.th[t].frames.last_mut().unwrap()) }

    fn push_frame(&mut self, st: &mut State, fi: usize, args: Vec<V>, is_try: bool) -> R<()> {
        let f = &self.p.funcs[fi];
        self.out.funcs.insert(fi as u32);
        let t = st.cur;
        if st.th[t].frames.len() > 400 { return Err(Stop::Incomplete("call depth over 400".into())); }
        let mut slots = vec![V::Undef; f.nslots as usize];
        for (i, a) in args.into_iter().enumerate() { if i < f.nparams { slots[i] = a; } }
        let sb = st.th[t].stack.len() as u32;
        st.th[t].frames.push(Rc::new(Frame { func: fi as u32, pc: 0, slots, stack_base: sb, is_try, hash: Default::default() }));
        Ok(())
    }
    fn pop_frame(&mut self, st: &mut State) -> Rc<Frame> {
        let t = st.cur;
        let f = st.th[t].frames.pop().unwrap();
        st.th[t].stack.truncate(f.stack_base as usize);
        if let Some(g) = st.th[t].frames.last_mut() { if g.hash.get() != 0 { Rc::make_mut(g).hash.set(0); } }
        f
    }
    /// Deliver a call result to the current (caller) frame and move past the call.
    fn finish_call(&mut self, st: &mut State, ret: Option<V>) -> R<()> {
        let (fi, pc) = { let f = st.th[st.cur].frames.last().unwrap(); (f.func, f.pc) };
        let ins = &self.p.funcs[fi as usize].code[pc as usize];
        let c = match ins { I::Call(c) => c, _ => return Err(Stop::Fatal("return to a non-call".into())) };
        if let (Some(d), Some(v)) = (c.dst, ret) { let d = d as usize; self.top(st).slots[d] = v; }
        match &c.normal { Some(e) => self.goto(st, e), None => self.top(st).pc = pc + 1 }
        Ok(())
    }
    fn do_ret(&mut self, st: &mut State, v: Option<V>) -> R<()> {
        let f = self.pop_frame(st);
        if st.th[st.cur].frames.is_empty() { return self.thread_done(st); }
        if f.is_try { return self.finish_call(st, Some(V::C(0))); }
        self.finish_call(st, v)
    }
    fn unwind(&mut self, st: &mut State) -> R<()> {
        // The top frame is at the instruction that raised.
        loop {
            let t = st.cur;
            if st.th[t].frames.is_empty() { let m = format!("unexpected panic: {}", st.last_panic); self.violation(st, "panic", &m); return Err(Stop::Viol); }
            let (fi, pc) = { let f = st.th[t].frames.last().unwrap(); (f.func, f.pc) };
            let ins = &self.p.funcs[fi as usize].code[pc as usize];
            if let I::Call(c) = ins {
                if let Some(e) = &c.unwind { self.goto(st, e); return Ok(()); }
            }
            if st.th[t].frames.len() == 1 { let m = format!("unexpected panic: {}", st.last_panic); self.violation(st, "panic", &m); return Err(Stop::Viol); }
            let f = self.pop_frame(st);
            if f.is_try { return self.finish_call(st, Some(V::C(1))); }
        }
    }
    fn thread_done(&mut self, st: &mut State) -> R<()> {
        let t = st.cur;
        st.th[t].ts = TS::Done;
        st.th[t].stack.clear();
        if t == 0 { return Err(Stop::End); }
        for j in 0..st.th.len() {
            if st.th[j].ts == TS::Joining(t) { st.th[j].ts = TS::Run; let v = st.th[t].vc; vc_join(&mut st.th[j].vc, &v); let v = st.th[t].view.clone(); view_join(&mut st.th[j].view, &v); st.th[j].fresh = true; }
        }
        self.switch(st, false)
    }

    // ---- threads

    fn runnable(&self, st: &State) -> Vec<usize> { (0..st.th.len()).filter(|&i| st.th[i].ts == TS::Run).collect() }

    fn note_sched(st: &mut State) {
        // Segment = (thread, number of visible operations it performs before the next switch).
        let t = st.cur as u8;
        match st.sched.last_mut() { Some(l) if l.0 == t => l.1 += 1, _ => st.sched.push((t, 1)) }
    }

    /// Choose the next thread. `cur_ok`: the current thread could go on.
    fn switch(&mut self, st: &mut State, cur_ok: bool) -> R<()> {
        let run = self.runnable(st);
        if run.is_empty() {
            let m = format!("deadlock: {}", st.th.iter().enumerate().map(|(i, t)| format!("t{} {}", i, match t.ts { TS::Run => "runs", TS::BlockedAddr(..) => "spins", TS::Joining(_) => "joins", TS::Done => "done" })).collect::<Vec<_>>().join(", "));
            self.violation(st, "deadlock", &m);
            return Err(Stop::Viol);
        }
        if self.cfg.por {
            if let Some(&t) = run.iter().find(|&&t| st.th[t].fresh) { st.th[t].fresh = false; st.cur = t; st.sched_done = false; return Ok(()); }
        }
        if self.seen.on && self.cfg.por {
            if let Some((h, k, g)) = self.state_key(st) { if self.seen.check(h, st.sleep, k, g) { self.out.merged += 1; return Err(Stop::Merged); } }
        }
        let mut sleeps: Vec<u8> = vec![];
        let opts: Vec<usize> = if self.cfg.por {
            let mut o: Vec<usize> = vec![];
            if cur_ok { o.push(st.cur); }
            o.extend(run.iter().copied().filter(|&t| !cur_ok || t != st.cur));
            o.retain(|&t| st.sleep & (1 << t) == 0);
            if o.is_empty() { return Err(Stop::Pruned); }
            // Whoever was tried before, or is asleep, stays asleep as long as only independent operations happen.
            let mut z = st.sleep;
            for &t in &o {
                let p = self.pending(st, t);
                sleeps.push((0..st.th.len()).filter(|&u| z & (1 << u) != 0 && independent(p, self.pending(st, u))).map(|u| 1u8 << u).sum());
                z |= 1 << t;
            }
            o
        } else if cur_ok {
            let mut o = vec![st.cur];
            if st.preempts < self.cfg.preempt { o.extend(run.iter().copied().filter(|&t| t != st.cur)); }
            o
        } else { run };
        if opts.len() > 1 {
            // A fresh schedule variable, one solver-checked branch per choice.
            self.out.scheds += 1;
            let id = st.nvars;
            st.nvars += 1;
            st.model.resize(st.nvars as usize, 0);
            let v = cx().var(id, 8, 0, opts.len() as u64 - 1);
            for (j, &t) in opts.iter().enumerate().skip(1) {
                let k = cx().c(j as u64, 8);
                let c = cx().cmp(Cmp::Eq, v, k);
                if self.sat(st, c)?.is_none() { continue; }
                let mut o = st.clone();
                o.depth += 1;
                o.model[id as usize] = j as u64;
                o.cons.push(c);
                if cur_ok { o.preempts += 1; }
                if self.cfg.por { o.sleep = sleeps[j]; }
                o.cur = t;
                // The thread switched to performs its next visible operation without another choice point.
                o.sched_done = true;
                self.work.push(o);
                self.forked = true;
            }
            let k = cx().c(0, 8);
            let c = cx().cmp(Cmp::Eq, v, k);
            st.cons.push(c);
        }
        st.cur = opts[0];
        if self.cfg.por { st.sleep = sleeps[0]; }
        st.sched_done = true;
        Ok(())
    }
    /// A hash of everything that decides what can happen from here on, and apart from that who knows what;
    /// None if something is not concrete.
    fn state_key(&mut self, st: &State) -> Option<(u64, Vec<u8>, Vec<u8>)> {
        let mut h = H2(0x1234_5678_9abc_def1, 0x0fed_cba9_8765_4321);
        let nt = st.th.len();
        let lax = self.lax(st);
        let mut clocks: Vec<Vc> = vec![];
        let mut views: Vec<View> = vec![];
        // Who waits for a thread to end will know what that thread knows.
        let ahead = |t: &Thread| { let (mut c, mut v) = (t.vc, t.view.clone()); if let TS::Joining(x) = t.ts { vc_join(&mut c, &st.th[x].vc); view_join(&mut v, &st.th[x].view); } (c, v) };
        let alive: Vec<(usize, (Vc, View))> = st.th.iter().enumerate().filter(|(_, t)| t.ts != TS::Done).map(|(i, t)| (i, ahead(t))).collect();
        for t in st.th.iter() {
            let (c, v) = ahead(t);
            clocks.push(c);
            if lax { views.push(v); }
            match t.ts { TS::Run => h.w(1), TS::BlockedAddr(a, v) => { h.w(2); h.w(a); h.w(v); } TS::Joining(x) => { h.w(3); h.w(x as u64); } TS::Done => { h.w(4); continue; } }
            clocks.push(t.acq);
            clocks.push(t.rel);
            if lax { views.push(t.aview.clone()); views.push(t.rview.clone()); }
            h.w(t.fresh as u64);
            h.w(t.nheap as u64);
            for x in [t.last.0 as u64, t.last.1 as u64, t.last.2, t.last.3, t.last.4 as u64] { h.w(if t.last.4 > 0 { x } else { 0 }); }
            for (k, f) in t.frames.iter().enumerate() {
                if f.hash.get() == 0 || k + 1 == t.frames.len() {
                    let mut g = H2(((f.func as u64) << 32) | f.pc as u64, f.is_try as u64);
                    let p = self.p;
                    let lv = self.live.entry(f.func).or_insert_with(|| Rc::new(liveness(&p.funcs[f.func as usize])));
                    for (n, w) in lv[f.pc as usize].iter().enumerate() {
                        let mut w = *w;
                        while w != 0 { let i = 64 * n + w.trailing_zeros() as usize; w &= w - 1; if i < f.slots.len() { g.w(i as u64); if !g.v(&f.slots[i]) { return None; } } }
                    }
                    f.hash.set(g.end() | 1);
                }
                h.w(f.hash.get());
                if k + 1 == t.frames.len() { f.hash.set(0); }
            }
        }
        let mut acc: Vec<(usize, u32)> = vec![];
        let mut obj = |h: &mut H2, x: &Obj| -> bool {
            if !x.live { h.w(0); return true; }
            if x.hash.get() == 0 {
                let mut g = H2(x.size, 11);
                let mut acc = 0u64;
                let mut ok = true;
                for (i, b) in x.bytes.iter().enumerate() { if *b > 256 { ok = false; } acc = (acc << 9) | *b; if i % 7 == 6 { g.w(acc); acc = 0; } }
                g.w(acc);
                x.hash.set(if ok { g.end() | 2 } else { 1 });
            }
            if x.hash.get() == 1 { return false; }
            h.w(x.hash.get() ^ x.esc as u64);
            if let Some(s) = &x.shadow {
                for (i, s) in s.iter().enumerate() {
                    for (k, v) in [&s.w, &s.r, &s.aw, &s.ar].into_iter().enumerate() {
                        // What everybody knows of does not matter any more.
                        for j in 0..nt { if v[j] != 0 && alive.iter().any(|(t, (c, _))| *t != j && c[j] < v[j]) { h.w(((i as u64) << 24) | (k as u64 * 4 + j as u64)); acc.push((j, v[j])); } }
                    }
                }
            }
            true
        };
        for t in st.th.iter().filter(|t| t.ts != TS::Done) { h.w(t.stack.len() as u64); for x in t.stack.iter() { if !obj(&mut h, x) { return None; } } }
        for x in st.heap.iter() { if !obj(&mut h, x) { return None; } }
        for x in st.globals.iter() { if !x.konst && !obj(&mut h, x) { return None; } }
        let mut locs: Vec<(usize, u32, u32)> = vec![];
        if !self.lax(st) && self.cfg.stale > 0 {
            for (a, l) in st.hist.iter() { if let Some(m) = l.msgs.last() { h.w(*a); clocks.push(m.vc); } }
        } else if self.cfg.stale > 0 {
            views.push(st.scview.clone());
            for (a, l) in st.hist.iter() {
                if l.msgs.is_empty() { continue; }
                let floor = alive.iter().map(|(_, (_, v))| view_get(v, l.id)).min().unwrap_or(0).max(l.base);
                locs.push((l.id, l.base + l.msgs.len() as u32 - 1, floor));
                h.w(*a);
                h.w(l.base as u64 + l.msgs.len() as u64 - floor as u64);
                for m in &l.msgs[(floor - l.base) as usize..] { if !h.v(&m.val) { return None; } clocks.push(m.vc); views.push(m.view.clone()); }
            }
        } else {
            for (a, v) in st.sync.iter() { h.w(*a); clocks.push(*v); }
        }
        for v in st.virt.iter() { if cx().konst(v.n).is_none() { return None; } h.w(v.freed as u64); if !v.writes.is_empty() { return None; } }
        // The ledger is a set.
        let mut sum = 0u64;
        for (a, n) in st.ledger.iter() { let mut g = H2(7, 9); if !g.v(a) || !g.v(n) { return None; } sum = sum.wrapping_add(g.end()); }
        h.w(sum);
        if !h.v(&st.zdropped) { return None; }
        for x in [st.live_heap as u64, st.lvecs.len() as u64] { h.w(x); }
        // Clocks, by their order relative to the accesses that matter.
        let mut ep: Vec<Vec<u32>> = vec![vec![]; nt];
        for (j, e) in &acc { ep[*j].push(*e); }
        for l in ep.iter_mut() { l.sort_unstable(); l.dedup(); if l.len() > 254 { return None; } }
        for (j, e) in &acc { h.w(ep[*j].binary_search(e).unwrap() as u64); }
        let mut know: Vec<u8> = Vec::with_capacity(clocks.len() * nt);
        for c in &clocks { for (j, l) in ep.iter().enumerate() { if !l.is_empty() { know.push(l.partition_point(|e| *e <= c[j]) as u8); } } }
        let mut lag: Vec<u8> = vec![];
        if self.lax(st) {
            lag.push((self.cfg.stale - st.stale).min(255) as u8);
            for v in &views { for (id, last, floor) in &locs { lag.push((*last - view_get(v, *id).min(*last).max(*floor)).min(255) as u8); } }
        }
        Some((h.end(), know, lag))
    }
    /// The atomic operation a thread stands before.
    fn pending(&self, st: &State, t: usize) -> Pend {
        let f: &Frame = match st.th[t].frames.last() { Some(f) => f, None => return Pend::Any };
        let op = |p: &Opnd, write: bool, o: Ord| match self.val(f, p) { V::C(addr) => Pend::Op { addr, write, sc: self.lax(st) && o == Ord::SeqCst }, _ => Pend::Any };
        match &self.p.funcs[f.func as usize].code[f.pc as usize] {
            I::Load(_, _, p, o, _) if *o != Ord::NotAtomic => op(p, false, *o),
            I::Store(_, _, p, o, _) if *o != Ord::NotAtomic => op(p, true, *o),
            I::CmpXchg(_, _, p, _, _, o, o2, _) => op(p, true, if *o2 == Ord::SeqCst { *o2 } else { *o }),
            I::AtomicRmw(_, _, _, p, _, o) => op(p, true, *o),
            I::Fence(Ord::SeqCst) => Pend::Fence,
            _ => Pend::Any,
        }
    }

    // ---- weak memory: messages may be read late, as far as coherence and happens-before allow

    fn addr_of(k: Kind, i: usize, off: u64) -> u64 {
        off + match k { Kind::Heap => HEAP + ((i as u64) << HSH), Kind::Stack(t) => STACK + ((t as u64) << TSH) + ((i as u64) << SSH), Kind::Global => GLOBAL + ((i as u64) << HSH) }
    }
    /// An ordinary write ends the history of the atomic locations it touches.
    fn clobber(&self, st: &mut State, k: Kind, i: usize, off: u64, n: u64) {
        if self.cfg.stale == 0 || st.hist.is_empty() { return; }
        let a = Self::addr_of(k, i, off);
        let l: Vec<u64> = st.hist.range(a.saturating_sub(8)..a + n).filter(|(p, l)| **p + l.size > a && !l.msgs.is_empty()).map(|(p, _)| *p).collect();
        for p in l { let x = Rc::make_mut(&mut st.hist).get_mut(&p).unwrap(); x.base += x.msgs.len() as u32; x.msgs.clear(); }
    }
    /// The location at addr, whose latest value is now.
    fn aloc<'a>(&self, st: &'a mut State, addr: u64, size: u64, now: &V) -> R<&'a ALoc> {
        let ok = match st.hist.get(&addr) { Some(l) => { if l.size != size { return Err(Stop::Fatal("atomic accesses of different sizes to one place".into())); } !l.msgs.is_empty() } None => false };
        if !ok {
            let n = st.nlocs;
            let h = Rc::make_mut(&mut st.hist);
            let l = h.entry(addr).or_insert_with(|| ALoc { id: n, size, base: 0, msgs: vec![] });
            if l.id == n { st.nlocs += 1; }
            l.msgs.push(Msg { val: now.clone(), vc: [0; MAXT], view: Default::default() });
        }
        Ok(&st.hist[&addr])
    }
    /// Which message a load reads: None for the latest. `not`: a failing compare-exchange cannot read this value.
    fn pick_msg(&mut self, st: &mut State, addr: u64, size: u64, o: Ord, now: &V, not: Option<&V>) -> R<Option<(V, Vc, View, u32)>> {
        if self.cfg.stale == 0 || !self.mt(st) || self.private(st, &V::C(addr)) { return Ok(None); }
        let (id, base, n) = { let l = self.aloc(st, addr, size, now)?; (l.id, l.base, l.msgs.len() as u32) };
        if let Some(i) = st.force.take() {
            let m = &st.hist[&addr].msgs[(i - base) as usize];
            return Ok(Some((m.val.clone(), m.vc, m.view.clone(), base + n - 1 - i)));
        }
        if st.stale >= self.cfg.stale { return Ok(None); }
        let mut floor = view_get(&st.th[st.cur].view, id).max(base);
        if o == Ord::SeqCst { floor = floor.max(view_get(&st.scview, id)); }
        let opts: Vec<u32> = (floor..base + n - 1).filter(|i| match (&st.hist[&addr].msgs[(*i - base) as usize].val, not) { (V::C(a), Some(V::C(b))) => a != b, (_, Some(_)) => false, _ => true }).collect();
        if opts.is_empty() { return Ok(None); }
        self.out.stales += 1;
        let id = st.nvars;
        st.nvars += 1;
        st.model.resize(st.nvars as usize, 0);
        let v = cx().var(id, 8, 0, opts.len() as u64);
        for (j, &i) in opts.iter().enumerate() {
            let k = cx().c(j as u64 + 1, 8);
            let c = cx().cmp(Cmp::Eq, v, k);
            if self.sat(st, c)?.is_none() { continue; }
            let mut s = st.clone();
            s.depth += 1;
            s.model[id as usize] = j as u64 + 1;
            s.cons.push(c);
            s.force = Some(i);
            s.stale += 1;
            s.sched_done = true;
            self.work.push(s);
            self.forked = true;
        }
        let k = cx().c(0, 8);
        let c = cx().cmp(Cmp::Eq, v, k);
        st.cons.push(c);
        Ok(None)
    }
    /// What a load learns. `late`: the message read, if not the latest.
    fn learn(&self, st: &mut State, addr: u64, size: u64, o: Ord, now: &V, late: Option<(Vc, View, u32)>) -> R<()> {
        if !self.mt(st) || self.private(st, &V::C(addr)) { return Ok(()); }
        if self.cfg.stale == 0 { self.sync_load(st, addr, o); return Ok(()); }
        let (id, idx, vc, view) = { let l = self.aloc(st, addr, size, now)?; let last = l.base + l.msgs.len() as u32 - 1; match late { Some((vc, view, back)) => (l.id, last - back, vc, view), None => { let m = l.msgs.last().unwrap(); (l.id, last, m.vc, m.view.clone()) } } };
        let th = &mut st.th[st.cur];
        if o.acq() { vc_join(&mut th.vc, &vc); view_join(&mut th.view, &view); } else { vc_join(&mut th.acq, &vc); view_join(&mut th.aview, &view); }
        view_set(&mut th.view, id, idx);
        if o == Ord::SeqCst { view_set(&mut st.scview, id, idx); }
        Ok(())
    }
    /// What a store tells. `before`: the value it replaces.
    fn tell(&self, st: &mut State, addr: u64, size: u64, o: Ord, rmw: bool, before: &V, val: &V) -> R<()> {
        if !self.mt(st) || self.private(st, &V::C(addr)) { return Ok(()); }
        if self.cfg.stale == 0 { self.sync_store(st, addr, o, rmw); return Ok(()); }
        let (id, idx, mut m) = { let l = self.aloc(st, addr, size, before)?; (l.id, l.base + l.msgs.len() as u32, if rmw { l.msgs.last().unwrap().clone() } else { Msg { val: V::Undef, vc: [0; MAXT], view: Default::default() } }) };
        let th = &mut st.th[st.cur];
        view_set(&mut th.view, id, idx);
        let (vc, view) = if o.rel() { (th.vc, th.view.clone()) } else { (th.rel, th.rview.clone()) };
        th.vc[st.cur] += 1;
        vc_join(&mut m.vc, &vc);
        view_join(&mut m.view, &view);
        m.val = val.clone();
        if o == Ord::SeqCst { view_set(&mut st.scview, id, idx); }
        Rc::make_mut(&mut st.hist).get_mut(&addr).unwrap().msgs.push(m);
        Ok(())
    }
    /// Called before each atomic operation. Err(Requeue-like) never; returns true when the
    /// current instruction must be re-fetched because another thread runs now.
    fn sched_point(&mut self, st: &mut State, p: Option<&V>) -> R<bool> {
        if !self.mt(st) { return Ok(false); }
        if let Some(p) = p { if self.private(st, p) { return Ok(false); } }
        if st.sched_done { st.sched_done = false; return Ok(false); }
        let t = st.cur;
        self.switch(st, true)?;
        Ok(st.cur != t || { st.sched_done = false; false })
    }
    fn wake(&self, st: &mut State, addr: u64, val: u64) {
        for t in st.th.iter_mut() { if let TS::BlockedAddr(a, v) = t.ts { if a == addr && v != val { t.ts = TS::Run; t.last = (0, 0, 0, 0, 0); } } }
    }
    fn sync_load(&self, st: &mut State, addr: u64, o: Ord) {
        if !self.mt(st) { return; }
        let t = st.cur;
        if let Some(l) = st.sync.get(&addr).copied() { if o.acq() { vc_join(&mut st.th[t].vc, &l); } else { vc_join(&mut st.th[t].acq, &l); } }
    }
    fn sync_store(&self, st: &mut State, addr: u64, o: Ord, rmw: bool) {
        if !self.mt(st) { return; }
        let t = st.cur;
        let mut l = if rmw { st.sync.get(&addr).copied().unwrap_or([0; MAXT]) } else { [0; MAXT] };
        let v = if o.rel() { st.th[t].vc } else { st.th[t].rel };
        vc_join(&mut l, &v);
        Rc::make_mut(&mut st.sync).insert(addr, l);
        st.th[t].vc[t] += 1;
    }
    /// A digest of everything the current thread's future depends on, but for its place in the code.
    fn digest(&self, st: &State) -> u64 {
        use std::hash::Hasher;
        fn v(h: &mut FxH, x: &V) { match x { V::C(c) => { h.write_u64(1); h.write_u64(*c) } V::E(e) => { h.write_u64(2); h.write_u64(*e as u64) } V::Undef => h.write_u64(3), V::Agg(l) => { h.write_u64(4); for x in l.iter() { v(h, x) } } } }
        fn o(h: &mut FxH, x: &Obj) { h.write_u64(x.live as u64); for b in x.bytes.iter() { h.write_u64(*b) } }
        let mut h = FxH(0);
        let th = &st.th[st.cur];
        for f in th.frames.iter() { h.write_u64(((f.func as u64) << 32) | f.pc as u64); for x in f.slots.iter() { v(&mut h, x) } }
        for x in th.stack.iter().chain(st.heap.iter()).chain(st.globals.iter()) { o(&mut h, x) }
        for x in st.virt.iter() { h.write_u64(x.freed as u64 + 2 * x.writes.len() as u64) }
        for x in [st.ledger.len(), st.inputs.len(), st.log.len()] { h.write_u64(x as u64) }
        v(&mut h, &st.zdropped);
        h.finish()
    }
    /// Spin detection: the same operation at the same place, with nothing changed, three times in a row.
    fn visible(&mut self, st: &mut State, addr: u64, val: u64, failed_or_load: bool) -> bool {
        self.out.atomics += 1;
        if self.mt(st) { Self::note_sched(st); }
        let t = st.cur;
        st.th[t].ops += 1;
        let (fi, pc) = { let f = st.th[t].frames.last().unwrap(); (f.func, f.pc) };
        let th = &mut st.th[t];
        if failed_or_load && th.last.0 == fi && th.last.1 == pc && th.last.2 == addr && th.last.3 == val { th.last.4 += 1; } else { th.last = (fi, pc, addr, val, 0); return false; }
        let d = self.digest(st);
        let th = &mut st.th[t];
        if th.last.4 > 1 && th.last_hash != d { th.last.4 = 1; }
        th.last_hash = d;
        if failed_or_load && th.last.4 >= 3 { th.ts = TS::BlockedAddr(addr, val); return true; }
        false
    }

    // ---- main loop

    pub fn run(&mut self, mut st: State, bfs: bool) -> Option<State> {
        self.forked = false;
        let r = loop {
            match self.step(&mut st) {
                Ok(()) => { if bfs && self.forked { return Some(st); } }
                Err(s) => break s,
            }
        };
        self.out.steps += st.steps;
        match r {
            Stop::End => {
                self.out.paths += 1;
                self.out.syms = self.out.syms.max(st.inputs.len() as u64);
                for t in &st.tags { *self.out.covers.entry(1_000_000 + t).or_insert(0) += 1; }
                if self.out.samples.len() < self.cfg.nsamples || { let h = (self.out.paths ^ self.cfg.seed).wrapping_mul(0x9E37_79B9_7F4A_7C15); self.cfg.nsamples > 0 && (h >> 40) % (self.out.paths.max(1)) < self.cfg.nsamples as u64 } {
                    let mut o = st.clone();
                    let _ = self.shrink(&mut o);
                    let s = (self.inputs_of(&o), self.sched_of(&o), self.log_of(&o));
                    if self.out.samples.len() < self.cfg.nsamples { self.out.samples.push(s); } else { let k = (self.out.paths.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 33) as usize % self.cfg.nsamples; self.out.samples[k] = s; }
                }
            }
            Stop::Infeasible => self.out.infeasible += 1,
            Stop::Merged => {}
            Stop::Pruned => self.out.pruned += 1,
            Stop::Viol => self.out.paths += 1,
            Stop::Incomplete(m) => *self.out.incomplete.entry(m).or_insert(0) += 1,
            Stop::Fatal(m) => { let m = format!("{} [in {}]", m, self.stack_names(&st).first().cloned().unwrap_or_default()); *self.out.fatal.entry(m).or_insert(0) += 1 }
            Stop::Requeue => {}
        }
        None
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        st.steps += 1;
        if st.steps & 0x3fff == 0 {
            if st.steps > self.cfg.maxsteps { self.violation(st, "hang", "the step bound was reached"); return Err(Stop::Viol); }
            if std::time::Instant::now() > self.cfg.deadline { return Err(Stop::Incomplete("time limit".into())); }
        }
        let t = st.cur;
        let (fi, pc) = { let f = st.th[t].frames.last().unwrap(); (f.func as usize, f.pc as usize) };
        let p: &'static Prog = self.p;
        let ins = &p.funcs[fi].code[pc];
        macro_rules! top { () => { Rc::make_mut(st.th[t].frames.last_mut().unwrap()) } }
        macro_rules! get { ($o:expr) => { { let f: &Frame = st.th[t].frames.last().unwrap(); self.val(f, $o) } } }
        match ins {
            I::Bin(op, d, w, a, b, fl) => {
                let (x, y) = (get!(a), get!(b));
                let r = self.binop(st, *op, *w, &x, &y, *fl)?;
                let f = top!(); f.slots[*d as usize] = r; f.pc += 1;
            }
            I::Icmp(pr, d, w, a, b) => {
                let (x, y) = (get!(a), get!(b));
                let r = icmp(*pr, *w, &x, &y);
                let f = top!(); f.slots[*d as usize] = r; f.pc += 1;
            }
            I::Cast(k, d, w1, w2, a, _) => {
                let x = get!(a);
                let r = match (k, x) {
                    (_, V::Undef) => V::Undef,
                    (Cast::Trunc, V::C(c)) => V::C(c & maskw(*w2 as u8)),
                    (Cast::Trunc, V::E(e)) => from_id(cx().trunc(e, *w2 as u8)),
                    (Cast::Sext, V::C(c)) => V::C(sx(c, *w1 as u8) as u64 & maskw(*w2 as u8)),
                    (Cast::Sext, V::E(e)) => from_id(cx().sext(e, *w2 as u8)),
                    (Cast::Zext, V::E(e)) => from_id(cx().zext(e, *w2 as u8)),
                    (_, v) => { if *w1 > 64 || *w2 > 64 { return Err(Stop::Fatal("wide cast".into())); } v }
                };
                if *w2 > 64 { return Err(Stop::Fatal("wide integer".into())); }
                let f = top!(); f.slots[*d as usize] = r; f.pc += 1;
            }
            I::Select(d, c, a, b) => {
                let r = match get!(c) {
                    V::C(1) => get!(a),
                    V::C(_) => get!(b),
                    V::E(e) => match self.known(st, e) {
                        Some(true) => get!(a),
                        Some(false) => get!(b),
                        None => {
                            let (x, y) = (get!(a), get!(b));
                            match (&x, &y) {
                                (V::C(_) | V::E(_), V::C(_) | V::E(_)) => {
                                    // Pointers and wide values: keep as ite when the width is known from an expression.
                                    let w = match (&x, &y) { (V::E(i), _) | (_, V::E(i)) => cx().w(*i) as u32, _ => 64 };
                                    if let (V::C(p), V::C(q)) = (&x, &y) {
                                        if p == q { x } else {
                                            // Width unknown: recover it from the destination use is overkill; branch.
                                            if self.branch(st, e)? { x } else { y }
                                        }
                                    } else { let (i, j) = (to_id(&x, w), to_id(&y, w)); from_id(cx().ite(e, i, j)) }
                                }
                                _ => if self.branch(st, e)? { x } else { y },
                            }
                        }
                    },
                    V::Undef => { self.violation(st, "uninit", "select on an uninitialised value"); return Err(Stop::Viol); }
                    _ => return Err(Stop::Fatal("vector select".into())),
                };
                let f = top!(); f.slots[*d as usize] = r; f.pc += 1;
            }
            I::Alloca(d, size, align) => {
                if *size >= 1 << SSH { return Err(Stop::Fatal("large alloca".into())); }
                let i = st.th[t].stack.len();
                let a = STACK + ((t as u64) << TSH) + ((i as u64) << SSH);
                let esc = !self.mt(st);
                st.th[t].stack.push(Rc::new(Obj { size: *size, align: *align, live: true, konst: false, bytes: vec![0; *size as usize], shadow: None, esc, hash: Default::default() }));
                let f = top!(); f.slots[*d as usize] = V::C(a); f.pc += 1;
            }
            I::Load(d, ty, pt, o, _) => {
                let pv = get!(pt);
                if *o != Ord::NotAtomic {
                    if self.sched_point(st, Some(&pv))? { return Ok(()); }
                    let mut r = self.load_scalar(st, &pv, ty, true)?;
                    if let V::C(a) = pv {
                        match self.pick_msg(st, a, ty.size(), *o, &r, None)? {
                            Some((v, vc, view, back)) => {
                                self.learn(st, a, ty.size(), *o, &r, Some((vc, view, back)))?;
                                self.visible(st, a, 0, false);
                                st.sched.push((200, back));
                                r = v;
                            }
                            None => {
                                self.learn(st, a, ty.size(), *o, &r, None)?;
                                let vv = if let V::C(c) = r { c } else { 0 };
                                if self.visible(st, a, vv, true) { return self.switch(st, false); }
                            }
                        }
                    }
                    let f = top!(); f.slots[*d as usize] = r; f.pc += 1;
                } else {
                    let r = self.load(st, &pv, ty)?;
                    let f = top!(); f.slots[*d as usize] = r; f.pc += 1;
                }
            }
            I::Store(ty, v, pt, o, _) => {
                let (x, pv) = (get!(v), get!(pt));
                if *o != Ord::NotAtomic {
                    if self.sched_point(st, Some(&pv))? { return Ok(()); }
                    let before = if self.cfg.stale > 0 && self.mt(st) { match self.resolve(st, &pv, ty.size(), true)? { Loc::O(k, i, off) => Self::get_bytes(&self.obj(st, k, i).bytes[off as usize..(off + ty.size()) as usize]), _ => V::Undef } } else { V::Undef };
                    self.store_scalar(st, &pv, ty, &x, true)?;
                    if let V::C(a) = pv {
                        self.tell(st, a, ty.size(), *o, false, &before, &x)?;
                        let vv = if let V::C(c) = x { c } else { 0 };
                        self.visible(st, a, vv, false);
                        self.wake(st, a, vv);
                    }
                } else { self.store(st, &pv, ty, &x)?; }
                top!().pc += 1;
            }
            I::Gep(d, b, off, idx, _) => {
                let base = get!(b);
                let mut r = self.padd(&base, *off as u64);
                for (o, w, scale) in idx {
                    let x = get!(o);
                    r = match (&r, x) {
                        (V::C(p), V::C(i)) => V::C(p.wrapping_add((sx(i, *w as u8) as u64).wrapping_mul(*scale))),
                        (V::Undef, _) | (_, V::Undef) => V::Undef,
                        (p, i) => {
                            let mut e = to_id(&i, *w);
                            if *w < 64 { e = cx().sext(e, 64); }
                            let m = cx().mulc(e, *scale);
                            let q = to_id(p, 64);
                            from_id(cx().add(q, m))
                        }
                    };
                }
                let f = top!(); f.slots[*d as usize] = r; f.pc += 1;
            }
            I::Extract(d, v, path) => {
                let mut x = get!(v);
                for i in path { x = match x { V::Agg(a) => a[*i as usize].clone(), _ => V::Undef }; }
                let f = top!(); f.slots[*d as usize] = x; f.pc += 1;
            }
            I::Insert(d, ty, v, e, path) => {
                let x = get!(v);
                let y = get!(e);
                fn ins(x: V, ty: &Ty, path: &[u32], y: V) -> V {
                    if path.is_empty() { return y; }
                    let x = match x { V::Agg(_) => x, other => agg_of(ty, &other) };
                    match x { V::Agg(a) => { let mut a = (*a).clone(); let k = path[0] as usize; let old = std::mem::replace(&mut a[k], V::Undef); a[k] = ins(old, &ty.elem(k), &path[1..], y); V::Agg(Rc::new(a)) } v => v }
                }
                let r = ins(x, ty, path, y);
                let f = top!(); f.slots[*d as usize] = r; f.pc += 1;
            }
            I::Br(e) => self.goto(st, e),
            I::CondBr(c, a, b) => {
                let b2 = match get!(c) {
                    V::C(x) => x & 1 == 1,
                    V::E(e) => self.branch(st, e)?,
                    _ => { self.violation(st, "uninit", "branch on an uninitialised value"); return Err(Stop::Viol); }
                };
                self.goto(st, if b2 { a } else { b });
            }
            I::Switch(w, v, cases, def) => {
                match get!(v) {
                    V::C(x) => { let e = cases.iter().find(|(c, _)| *c == x & maskw(*w as u8)).map(|(_, e)| e).unwrap_or(def); self.goto(st, e) }
                    V::E(x) => {
                        let mut tgt = def;
                        for (c, e) in cases {
                            let k = cx().c(*c, *w as u8);
                            let q = cx().cmp(Cmp::Eq, x, k);
                            if self.branch(st, q)? { tgt = e; break; }
                        }
                        self.goto(st, tgt)
                    }
                    _ => { self.violation(st, "uninit", "switch on an uninitialised value"); return Err(Stop::Viol); }
                }
            }
            I::Ret(v) => { let r = v.as_ref().map(|o| get!(o)); return self.do_ret(st, r); }
            I::Unreachable => { self.violation(st, "unreachable", "reached code the compiler was told is unreachable"); return Err(Stop::Viol); }
            I::Call(c) => {
                let args: Vec<V> = c.args.iter().map(|a| get!(a)).collect();
                match &c.target {
                    Target::Func(k) => { self.push_frame(st, *k, args, false)?; }
                    Target::Builtin(b, name) => { let b: B = unsafe { std::mem::transmute(*b) }; return self.builtin(st, b, name, c, args); }
                    Target::Indirect => {
                        let v = get!(&c.callee);
                        let a = self.concretize(st, &v, 64, "a function pointer")?;
                        let k = (a.wrapping_sub(FUNC) / 16) as usize;
                        if a < FUNC || k >= self.p.funcs.len() { return Err(Stop::Fatal("indirect call to an unknown function".into())); }
                        self.push_frame(st, k, args, false)?;
                    }
                    Target::Unresolved => return Err(Stop::Fatal("unresolved call".into())),
                }
            }
            I::LandingPad(d) => {
                let v = V::Agg(Rc::new(vec![V::C(0x77_0000), V::C(1)]));
                let f = top!(); if *d != u32::MAX { f.slots[*d as usize] = v; } f.pc += 1;
            }
            I::Resume => {
                if st.th[t].frames.len() == 1 { let m = format!("unexpected panic: {}", st.last_panic); self.violation(st, "panic", &m); return Err(Stop::Viol); }
                let f = self.pop_frame(st);
                if f.is_try { return self.finish_call(st, Some(V::C(1))); }
                return self.unwind(st);
            }
            I::CmpXchg(d, ty, pt, e, n, o1, o2, _) => {
                let (pv, ev, nv) = (get!(pt), get!(e), get!(n));
                if self.sched_point(st, Some(&pv))? { return Ok(()); }
                let mut old = self.load_scalar(st, &pv, ty, true)?;
                if let V::C(a) = pv {
                    if let Some((v, vc, view, back)) = self.pick_msg(st, a, ty.size(), *o2, &old, Some(&ev))? {
                        self.learn(st, a, ty.size(), *o2, &old, Some((vc, view, back)))?;
                        self.visible(st, a, 0, false);
                        st.sched.push((200, back));
                        old = v;
                        let r = V::Agg(Rc::new(vec![old, V::C(0)]));
                        let f = top!(); f.slots[*d as usize] = r; f.pc += 1;
                        return Ok(());
                    }
                }
                let eq = icmp(Pred::Eq, ty.width(), &old, &ev);
                let ok = match eq { V::C(x) => x == 1, V::E(x) => self.branch(st, x)?, _ => { self.violation(st, "uninit", "compare-exchange on an uninitialised value"); return Err(Stop::Viol); } };
                let a = self.concretize(st, &pv, 64, "an address")?;
                let mut block = false;
                if ok {
                    self.store_scalar(st, &pv, ty, &nv, true)?;
                    self.learn(st, a, ty.size(), *o1, &old, None)?;
                    self.tell(st, a, ty.size(), *o1, true, &old, &nv)?;
                    let vv = if let V::C(c) = nv { c } else { 0 };
                    self.visible(st, a, vv, false);
                    self.wake(st, a, vv);
                } else {
                    self.learn(st, a, ty.size(), *o2, &old, None)?;
                    let vv = if let V::C(c) = old { c } else { 0 };
                    block = self.visible(st, a, vv, true);
                }
                if block { return self.switch(st, false); }
                let r = V::Agg(Rc::new(vec![old, V::C(ok as u64)]));
                let f = top!(); f.slots[*d as usize] = r; f.pc += 1;
            }
            I::AtomicRmw(d, ty, k, pt, v, o) => {
                let (pv, x) = (get!(pt), get!(v));
                if self.sched_point(st, Some(&pv))? { return Ok(()); }
                let old = self.load_scalar(st, &pv, ty, true)?;
                let w = ty.width();
                let new = match k {
                    Rmw::Xchg => x,
                    Rmw::Add => self.binop(st, BinOp::Add, w, &old, &x, 0)?,
                    Rmw::Sub => self.binop(st, BinOp::Sub, w, &old, &x, 0)?,
                    Rmw::And => self.binop(st, BinOp::And, w, &old, &x, 0)?,
                    Rmw::Or => self.binop(st, BinOp::Or, w, &old, &x, 0)?,
                    Rmw::Xor => self.binop(st, BinOp::Xor, w, &old, &x, 0)?,
                    _ => return Err(Stop::Fatal("atomicrmw kind".into())),
                };
                self.store_scalar(st, &pv, ty, &new, true)?;
                let a = self.concretize(st, &pv, 64, "an address")?;
                self.learn(st, a, ty.size(), *o, &old, None)?;
                self.tell(st, a, ty.size(), *o, true, &old, &new)?;
                let nv = if let V::C(c) = new { c } else { 0 };
                let ov = if let V::C(c) = old { c } else { 0 };
                let same = nv == ov;
                let block = self.visible(st, a, nv, same);
                if !same { self.wake(st, a, nv); }
                if block { return self.switch(st, false); }
                let f = top!(); f.slots[*d as usize] = old; f.pc += 1;
            }
            I::Fence(o) => {
                if self.mt(st) {
                    if *o == Ord::SeqCst {
                        if self.lax(st) { if self.sched_point(st, None)? { return Ok(()); } } else { st.sched_done = false; }
                        self.out.atomics += 1;
                        Self::note_sched(st);
                    }
                    let th = &mut st.th[t];
                    if o.acq() { let a = th.acq; vc_join(&mut th.vc, &a); let a = th.aview.clone(); view_join(&mut th.view, &a); }
                    if *o == Ord::SeqCst { view_join(&mut th.view, &st.scview); st.scview = th.view.clone(); }
                    if o.rel() { th.rel = th.vc; th.rview = th.view.clone(); th.vc[t] += 1; }
                }
                top!().pc += 1;
            }
            I::Freeze(d, v) => { let x = match get!(v) { V::Undef => V::C(0), v => v }; let f = top!(); f.slots[*d as usize] = x; f.pc += 1; }
            I::Nop => top!().pc += 1,
            I::Unsupported(s) => return Err(Stop::Fatal(format!("unsupported instruction: {}", s))),
        }
        Ok(())
    }

    fn binop(&mut self, st: &mut State, op: BinOp, w: u32, x: &V, y: &V, fl: u8) -> R<V> {
        if w > 64 { return Err(Stop::Fatal(format!("{}-bit arithmetic", w))); }
        let m = maskw(w as u8);
        match (x, y) {
            (V::Undef, _) | (_, V::Undef) => Ok(V::Undef),
            (V::C(a), V::C(b)) => {
                let (a, b) = (*a, *b);
                let w8 = w as u8;
                let mut ov = false;
                let r = match op {
                    BinOp::Add => { if fl & 1 != 0 { ov |= (a as u128 + b as u128) > m as u128; } if fl & 2 != 0 { let s = sx(a, w8) as i128 + sx(b, w8) as i128; ov |= s != sx((a.wrapping_add(b)) & m, w8) as i128; } a.wrapping_add(b) }
                    BinOp::Sub => { if fl & 1 != 0 { ov |= a < b; } if fl & 2 != 0 { let s = sx(a, w8) as i128 - sx(b, w8) as i128; ov |= s != sx((a.wrapping_sub(b)) & m, w8) as i128; } a.wrapping_sub(b) }
                    BinOp::Mul => { if fl & 1 != 0 { ov |= (a as u128 * b as u128) > m as u128; } a.wrapping_mul(b) }
                    BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem if b == 0 => { self.violation(st, "ub", "division by zero"); return Err(Stop::Viol); }
                    BinOp::UDiv => crate::expr::eval_bin(Op::UDiv, a, b, w8),
                    BinOp::URem => crate::expr::eval_bin(Op::URem, a, b, w8),
                    BinOp::SDiv => crate::expr::eval_bin(Op::SDiv, a, b, w8),
                    BinOp::SRem => crate::expr::eval_bin(Op::SRem, a, b, w8),
                    BinOp::Shl => { ov |= b >= w as u64; crate::expr::eval_bin(Op::Shl, a, b, w8) }
                    BinOp::LShr => { ov |= b >= w as u64; crate::expr::eval_bin(Op::LShr, a, b, w8) }
                    BinOp::AShr => { ov |= b >= w as u64; crate::expr::eval_bin(Op::AShr, a, b, w8) }
                    BinOp::And => a & b,
                    BinOp::Or => a | b,
                    BinOp::Xor => a ^ b,
                };
                if ov { self.violation(st, "ub", "arithmetic overflow in an operation marked no-wrap"); return Err(Stop::Viol); }
                Ok(V::C(r & m))
            }
            (V::Agg(_), _) | (_, V::Agg(_)) => Err(Stop::Fatal("vector arithmetic".into())),
            _ => {
                let (a, b) = (to_id(x, w), to_id(y, w));
                if fl & 1 != 0 && w > 1 {
                    let c = match op {
                        BinOp::Add => { let s = cx().add(a, b); Some(cx().cmp(Cmp::Ule, a, s)) }
                        BinOp::Sub => Some(cx().cmp(Cmp::Ule, b, a)),
                        BinOp::Mul => cx().konst(b).or(cx().konst(a)).filter(|k| *k > 0).map(|k| { let v = if cx().konst(b).is_some() { a } else { b }; let mx = cx().c(m / k, w as u8); cx().cmp(Cmp::Ule, v, mx) }),
                        _ => None,
                    };
                    if let Some(c) = c { self.must(st, c, "ub", "arithmetic overflow in an operation marked no-wrap")?; }
                }
                if matches!(op, BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem) {
                    let z = cx().c(0, w as u8);
                    let e = cx().cmp(Cmp::Eq, b, z);
                    let c = cx().not(e);
                    self.must(st, c, "ub", "division by zero")?;
                }
                if matches!(op, BinOp::Shl | BinOp::LShr | BinOp::AShr) {
                    let z = cx().c(w as u64, w as u8);
                    if w > 7 || (1u64 << w) > w as u64 { let c = cx().cmp(Cmp::Ult, b, z); self.must(st, c, "ub", "shift amount too large")?; }
                }
                let r = match op {
                    BinOp::Add => cx().add(a, b),
                    BinOp::Sub => cx().sub(a, b),
                    BinOp::Mul => cx().bin(Op::Mul, a, b),
                    BinOp::UDiv => cx().bin(Op::UDiv, a, b),
                    BinOp::URem => cx().bin(Op::URem, a, b),
                    BinOp::SDiv => cx().bin(Op::SDiv, a, b),
                    BinOp::SRem => cx().bin(Op::SRem, a, b),
                    BinOp::Shl => cx().bin(Op::Shl, a, b),
                    BinOp::LShr => cx().bin(Op::LShr, a, b),
                    BinOp::AShr => cx().bin(Op::AShr, a, b),
                    BinOp::And => cx().and(a, b),
                    BinOp::Or => cx().or(a, b),
                    BinOp::Xor => cx().xor(a, b),
                };
                if matches!(op, BinOp::LShr | BinOp::UDiv | BinOp::SDiv) { return Ok(from_id(self.exact_div(st, r, a, b, op)?)); }
                Ok(from_id(r))
            }
        }
    }
    /// Where every coefficient of a is a multiple of the divisor, and dividing them one by one gives the
    /// quotient on this path (the solver says so), the result is that linear form.
    fn exact_div(&mut self, st: &mut State, r: Id, a: Id, b: Id, op: BinOp) -> R<Id> {
        let w = cx().w(a);
        let k = match cx().konst(b) { Some(k) => k, None => return Ok(r) };
        if w == 1 || matches!(cx().nodes[r as usize].n, crate::expr::N::Lin(..) | crate::expr::N::Const(_) | crate::expr::N::Var(..)) { return Ok(r); }
        let d = if matches!(op, BinOp::LShr) { if k >= w as u64 { return Ok(r); } 1i64 << k } else if k as i64 > 0 && w == 64 { k as i64 } else { return Ok(r) };
        if d <= 0 || !matches!(cx().nodes[a as usize].n, crate::expr::N::Lin(..)) { return Ok(r); }
        let (ts, c) = cx().lin_parts(a);
        if sx(c, w) % d != 0 || ts.iter().any(|t| sx(t.1, w) % d != 0) { return Ok(r); }
        let mut q = cx().c((sx(c, w) / d) as u64, w);
        for (t, k) in ts { let m = cx().mulc(t, (sx(k, w) / d) as u64 & maskw(w)); q = cx().add(q, m); }
        let e = cx().cmp(Cmp::Eq, r, q);
        match self.known(st, e) { Some(true) => return Ok(q), Some(false) => return Ok(r), None => {} }
        if self.eval_model(st, e) != 1 { return Ok(r); }
        let ne = cx().not(e);
        if self.sat(st, ne)?.is_some() { return Ok(r); }
        st.known.insert(e, 1);
        st.known.insert(ne, 0);
        Ok(q)
    }

    fn fresh(&mut self, st: &mut State, w: u8, lo: u64, hi: u64) -> V {
        let id = st.nvars;
        st.nvars += 1;
        st.model.resize(st.nvars as usize, 0);
        st.model[id as usize] = lo;
        from_id(cx().var(id, w, lo, hi))
    }

    fn ledger_vec(&self, st: &State, v: &V) -> Option<usize> {
        let c = match v { V::C(c) => *c, V::E(e) => cx().lin_parts(*e).1, _ => return None };
        let k = c.wrapping_add(1 << 55) >> 56;
        st.lvecs.iter().position(|l| !l.zst && l.start >> 56 == k)
    }
    /// Items [lo, lo+len) are dropped now.
    fn ledger_drop(&mut self, st: &mut State, lo: V, len: V) -> R<()> {
        if matches!(lo, V::Undef) { self.violation(st, "drop", "drop of an uninitialised item"); return Err(Stop::Viol); }
        let (l, n) = (to_id(&lo, 64), to_id(&len, 64));
        let zero = cx().c(0, 64);
        let empty = cx().cmp(Cmp::Eq, n, zero);
        if self.known(st, empty) == Some(true) { return Ok(()); }
        let k = match self.ledger_vec(st, &lo) { Some(k) => k, None => { self.violation(st, "drop", "drop of something that is not an item"); return Err(Stop::Viol); } };
        let (start, vn) = { let v = &st.lvecs[k]; (cx().c(v.start, 64), to_id(&v.n, 64)) };
        let rel = cx().sub(l, start);
        let e = cx().add(rel, n);
        let a = cx().cmp(Cmp::Ule, e, vn);
        let b = cx().cmp(Cmp::Ule, rel, vn);
        let b2 = cx().cmp(Cmp::Ule, rel, e);
        let ab = cx().and(a, b);
        let ab = cx().and(ab, b2);
        let ok = cx().or(empty, ab);
        self.must(st, ok, "drop", "drop of items outside the slice")?;
        for (el, en) in st.ledger.clone() {
            let d = disjoint(l, n, to_id(&el, 64), to_id(&en, 64));
            self.must(st, d, "drop", "an item is dropped twice")?;
        }
        st.ledger.push((lo, len));
        Ok(())
    }

    fn builtin(&mut self, st: &mut State, b: B, name: &Rc<str>, c: &'static ir::CallI, a: Vec<V>) -> R<()> {
        let r: Option<V> = match b {
            B::NoOp => None,
            B::Range => {
                let lo = self.concretize(st, &a[0], 64, "a range")?;
                let hi = self.concretize(st, &a[1], 64, "a range")?;
                if lo > hi { return Err(Stop::Infeasible); }
                let v = self.fresh(st, 64, lo, hi);
                st.inputs.push(v.clone());
                Some(v)
            }
            B::Assume => {
                let e = match &a[0] { V::C(x) => cx().c(x & 1, 1), V::E(e) => *e, _ => { self.violation(st, "uninit", "assume on an uninitialised value"); return Err(Stop::Viol); } };
                match self.known(st, e) {
                    Some(true) => {}
                    Some(false) => return Err(Stop::Infeasible),
                    None => match self.sat(st, e)? { Some(m) => { if self.eval_model(st, e) != 1 { Self::apply_model(st, &m); } self.add(st, e); } None => return Err(Stop::Infeasible) },
                }
                None
            }
            B::Assert => {
                self.out.asserts += 1;
                let id = self.concretize(st, &a[1], 32, "an assertion id")?;
                let e = match &a[0] { V::C(x) => cx().c(x & 1, 1), V::E(e) => *e, _ => { self.violation(st, "uninit", &format!("assertion {} on an uninitialised value", id)); return Err(Stop::Viol); } };
                let e = if cx().w(e) != 1 { cx().trunc(e, 1) } else { e };
                // A failed assertion does not end the path: later ones are decided as well.
                match self.must(st, e, "assert", &format!("assertion {}", id)) { Ok(()) | Err(Stop::Viol) => {} Err(x) => return Err(x) }
                None
            }
            B::Cover => { let id = self.concretize(st, &a[0], 32, "a cover id")?; *self.out.covers.entry(id as u32).or_insert(0) += 1; None }
            B::Tag => { let id = self.concretize(st, &a[0], 32, "a tag")?; st.tags.insert(id as u32); None }
            B::Param => { let i = self.concretize(st, &a[0], 64, "a parameter index")? as usize; Some(V::C(self.cfg.params.get(i).copied().unwrap_or(0))) }
            B::Vec_ => {
                let es = self.concretize(st, &a[1], 64, "an item size")?;
                let al = self.concretize(st, &a[2], 64, "an item alignment")?;
                let start = self.concretize(st, &a[3], 64, "a start value")?;
                st.lvecs.push(LedgerVec { start, n: a[0].clone(), zst: es == 0 });
                if es == 0 { Some(V::C(al)) } else {
                    match &a[0] {
                        V::C(0) => Some(V::C(al)),
                        V::C(n) => {
                            let p = self.alloc(st, n * es, al, true)?;
                            let i = ((p - HEAP) >> HSH) as usize;
                            let o = Rc::make_mut(&mut st.heap[i]);
                            o.hash.set(0);
                            for j in 0..*n { let b = &mut o.bytes[(j * es) as usize..(j * es + es.min(8)) as usize]; Self::put_bytes(b, &V::C(start + j)); }
                            Some(V::C(p))
                        }
                        V::E(e) => {
                            let v = st.virt.len();
                            if v > 3 { return Err(Stop::Fatal("too many symbolic-size slices".into())); }
                            st.virt.push(Virt { n: *e, esize: es, align: al, start, freed: false, writes: Rc::new(vec![]) });
                            st.live_heap += 1;
                            Some(V::C(VIRT + ((v as u64) << 59)))
                        }
                        _ => return Err(Stop::Fatal("__sym_vec".into())),
                    }
                }
            }
            B::Concrete => { let v = self.concretize(st, &a[0], 64, "a value")?; Some(V::C(v)) }
            B::ZDrop => {
                let (z, one) = (to_id(&st.zdropped, 64), cx().c(1, 64));
                let s = cx().add(z, one);
                let total = match st.lvecs.iter().find(|l| l.zst) { Some(l) => to_id(&l.n, 64), None => { self.violation(st, "drop", "drop of a zero-size item that was never made"); return Err(Stop::Viol); } };
                let c = cx().cmp(Cmp::Ule, s, total);
                self.must(st, c, "drop", "more zero-size items are dropped than exist")?;
                st.zdropped = from_id(s);
                None
            }
            B::Drop_ => { self.ledger_drop(st, a[0].clone(), V::C(1))?; None }
            B::SliceDrop => {
                let elem = slice_drop_elem(name).unwrap();
                let len_sym = matches!(a[1], V::E(_));
                if elem == "Zst" {
                    if !len_sym { return self.real_slice_drop(st, name, a); }
                    let (z, n) = (to_id(&st.zdropped, 64), to_id(&a[1], 64));
                    let s = cx().add(z, n);
                    let total = match st.lvecs.iter().find(|l| l.zst) { Some(l) => to_id(&l.n, 64), None => return Err(Stop::Fatal("drop of zero-size items nobody made".into())) };
                    let c1 = cx().cmp(Cmp::Ule, s, total);
                    let c2 = cx().cmp(Cmp::Ule, n, s);
                    let c = cx().and(c1, c2);
                    self.must(st, c, "drop", "more zero-size items are dropped than exist")?;
                    st.zdropped = from_id(s);
                    None
                } else {
                    let v = match &a[0] { V::E(e) => self.virt_of(*e), V::C(p) if *p >= VIRT => { let e = cx().c(*p, 64); self.virt_of(e) } _ => None };
                    match v {
                        Some((v, off)) if v < st.virt.len() => {
                            // The real loop would visit every item in turn; its effect over all of them is stated at once.
                            let n = to_id(&a[1], 64);
                            let z = cx().c(0, 64);
                            let e = cx().cmp(Cmp::Eq, n, z);
                            if self.known(st, e) != Some(true) {
                                if st.virt[v].freed {
                                    let ne = cx().not(e);
                                    if self.sat(st, ne)?.is_some() { self.must(st, e, "use-after-free", "items are dropped after the slice allocation was freed")?; }
                                }
                                let idx = div8(off);
                                let s = cx().c(st.virt[v].start, 64);
                                let lo = cx().add(idx, s);
                                if !st.virt[v].writes.is_empty() { return Err(Stop::Fatal("bulk drop of a symbolic-size slice that was written to".into())); }
                                let al = cx().c(7, 64);
                                let low = cx().and(off, al);
                                let ok = cx().cmp(Cmp::Eq, low, z);
                                self.must(st, ok, "memory", "misaligned slice of items is dropped")?;
                                self.ledger_drop(st, from_id(lo), a[1].clone())?;
                            }
                            None
                        }
                        _ => return self.real_slice_drop(st, name, a),
                    }
                }
            }
            B::Undropped => {
                let (l, n) = (to_id(&a[0], 64), to_id(&a[1], 64));
                let mut acc = cx().c(1, 1);
                for (el, en) in st.ledger.clone() { let d = disjoint(l, n, to_id(&el, 64), to_id(&en, 64)); acc = cx().and(acc, d); }
                Some(from_id(acc))
            }
            B::DroppedTotal => {
                let mut s = to_id(&st.zdropped, 64);
                for (_, n) in st.ledger.clone() { let n = to_id(&n, 64); s = cx().add(s, n); }
                Some(from_id(s))
            }
            B::LiveHeap => {
                // A symbolic-size slice of length zero is no allocation.
                let mut n = st.live_heap;
                for v in st.virt.clone() {
                    if !v.freed { let z = cx().c(0, 64); let e = cx().cmp(Cmp::Eq, v.n, z); if self.branch(st, e)? { n -= 1; } }
                }
                Some(V::C(n as u64))
            }
            B::Freed => {
                // 1 when the allocation that starts at the given address has been freed.
                let v = match &a[0] { V::E(e) => self.virt_of(*e), V::C(p) if *p >= VIRT => { let e = cx().c(*p, 64); self.virt_of(e) } _ => None };
                Some(V::C(match v {
                    Some((v, _)) if v < st.virt.len() => st.virt[v].freed as u64,
                    _ => { let p = self.concretize(st, &a[0], 64, "an address")?; if p >= HEAP && p < STACK { (!st.heap[((p - HEAP) >> HSH) as usize].live) as u64 } else { 0 } }
                }))
            }
            B::Log => { if st.log.len() < 4096 { st.log.push(a[0].clone()); } None }
            B::Forget => None,
            B::Try => {
                let f = self.concretize(st, &a[0], 64, "a function pointer")?;
                let k = (f.wrapping_sub(FUNC) / 16) as usize;
                if f < FUNC || k >= self.p.funcs.len() { return Err(Stop::Fatal("__sym_try".into())); }
                return self.push_frame(st, k, vec![a[1].clone()], true);
            }
            B::Panic => { st.last_panic = "injected".into(); return self.raise(st, c); }
            B::Spawn => {
                let f = self.concretize(st, &a[0], 64, "a function pointer")?;
                let k = (f.wrapping_sub(FUNC) / 16) as usize;
                let t = st.th.len();
                if t >= MAXT { return Err(Stop::Fatal("too many threads".into())); }
                let cur = st.cur;
                let fu = &self.p.funcs[k];
                self.out.funcs.insert(k as u32);
                let mut slots = vec![V::Undef; fu.nslots as usize];
                self.publish(st, &a[1]);
                slots[0] = a[1].clone();
                let mut vc = st.th[cur].vc;
                vc[t] = 1;
                st.th[cur].vc[cur] += 1;
                let view = st.th[cur].view.clone();
                st.th.push(Thread { view, aview: Default::default(), rview: Default::default(), fresh: true, nheap: 0, frames: vec![Rc::new(Frame { func: k as u32, pc: 0, slots, stack_base: 0, is_try: false, hash: Default::default() })], stack: vec![], ts: TS::Run, vc, acq: [0; MAXT], rel: [0; MAXT], last: (0, 0, 0, 0, 0), last_hash: 0, ops: 0 });
                Some(V::C(t as u64))
            }
            B::Join => {
                let t = self.concretize(st, &a[0], 32, "a thread id")? as usize;
                let cur = st.cur;
                if st.th[t].ts == TS::Done {
                    let v = st.th[t].vc;
                    vc_join(&mut st.th[cur].vc, &v);
                    let v = st.th[t].view.clone();
                    view_join(&mut st.th[cur].view, &v);
                    None
                } else {
                    st.th[cur].ts = TS::Joining(t);
                    return self.switch(st, false);
                }
            }
            B::Alloc | B::AllocZ => {
                let s = self.concretize(st, &a[0], 64, "an allocation size")?;
                let al = self.concretize(st, &a[1], 64, "an alignment")?;
                Some(V::C(self.alloc(st, s, al, b == B::AllocZ)?))
            }
            B::Dealloc => { let al = self.concretize(st, &a[2], 64, "an alignment")?; self.dealloc(st, &a[0], &a[1], al)?; None }
            B::Realloc => {
                let old = self.concretize(st, &a[1], 64, "an allocation size")?;
                let al = self.concretize(st, &a[2], 64, "an alignment")?;
                let new = self.concretize(st, &a[3], 64, "an allocation size")?;
                let p = self.alloc(st, new, al, false)?;
                self.memcpy(st, &V::C(p), &a[0], old.min(new))?;
                self.dealloc(st, &a[0], &V::C(old), al)?;
                Some(V::C(p))
            }
            B::Memcpy | B::Memmove => { let n = self.concretize(st, &a[2], 64, "a copy length")?; self.memcpy(st, &a[0], &a[1], n)?; None }
            B::Memset => {
                let n = self.concretize(st, &a[2], 64, "a length")?;
                if n > 0 {
                    match self.resolve(st, &a[0], n, true)? {
                        Loc::O(k, i, off) => {
                            self.race(st, k, i, off, n, true, false)?;
                            self.clobber(st, k, i, off, n);
                            let cell = match &a[1] { V::C(x) => (x & 255) + 1, V::E(e) => (1 << 40) | ((*e as u64) << 4), _ => 0 };
                            let o = self.obj_mut(st, k, i);
                            for x in &mut o.bytes[off as usize..(off + n) as usize] { *x = cell; }
                        }
                        _ => return Err(Stop::Fatal("memset of a symbolic-size slice".into())),
                    }
                }
                None
            }
            B::Bcmp => {
                let n = self.concretize(st, &a[2], 64, "a compare length")?;
                let mut r = V::C(0);
                for i in 0..n {
                    let (p, q) = (self.padd(&a[0], i), self.padd(&a[1], i));
                    let x = self.load_scalar(st, &p, &Ty::Int(8), false)?;
                    let y = self.load_scalar(st, &q, &Ty::Int(8), false)?;
                    match icmp(Pred::Eq, 8, &x, &y) {
                        V::C(1) => {}
                        V::Undef => { self.violation(st, "uninit", "comparison of uninitialised memory"); return Err(Stop::Viol); }
                        e => {
                            let eq = match e { V::E(e) => self.branch(st, e)?, _ => false };
                            if !eq { let lt = match icmp(Pred::Ult, 8, &x, &y) { V::C(c) => c == 1, V::E(e) => self.branch(st, e)?, _ => false }; r = V::C(if lt { 0xffff_ffff } else { 1 }); break; }
                        }
                    }
                }
                Some(r)
            }
            B::Ctpop | B::Cttz | B::Ctlz | B::Bswap | B::Abs => {
                let w = c.ret.width();
                match &a[0] {
                    V::Undef => Some(V::Undef),
                    V::C(x) => { let x = *x; Some(V::C(match b { B::Ctpop => x.count_ones() as u64, B::Cttz => if x == 0 { w as u64 } else { x.trailing_zeros() as u64 }, B::Ctlz => (x.leading_zeros() as u64).saturating_sub(64 - w as u64), B::Abs => (sx(x, w as u8).wrapping_abs() as u64) & maskw(w as u8), _ => x.swap_bytes() >> (64 - w) })) }
                    V::E(e) => match b {
                        B::Ctpop => {
                            let mut s = cx().c(0, w as u8);
                            let one = cx().c(1, w as u8);
                            for i in 0..w { let k = cx().c(i as u64, w as u8); let sh = cx().bin(Op::LShr, *e, k); let bit = cx().and(sh, one); s = cx().add(s, bit); }
                            Some(from_id(s))
                        }
                        B::Cttz => {
                            // Nested ite from the top bit down.
                            let mut s = cx().c(w as u64, w as u8);
                            let one = cx().c(1, w as u8);
                            let z = cx().c(0, w as u8);
                            for i in (0..w).rev() { let k = cx().c(i as u64, w as u8); let sh = cx().bin(Op::LShr, *e, k); let bit = cx().and(sh, one); let isz = cx().cmp(Cmp::Eq, bit, z); let kk = cx().c(i as u64, w as u8); s = cx().ite(isz, s, kk); }
                            Some(from_id(s))
                        }
                        B::Ctlz => {
                            let mut s = cx().c(w as u64, w as u8);
                            let one = cx().c(1, w as u8);
                            let z = cx().c(0, w as u8);
                            for i in 0..w { let k = cx().c(i as u64, w as u8); let sh = cx().bin(Op::LShr, *e, k); let bit = cx().and(sh, one); let isz = cx().cmp(Cmp::Eq, bit, z); let kk = cx().c((w - 1 - i) as u64, w as u8); s = cx().ite(isz, s, kk); }
                            Some(from_id(s))
                        }
                        _ => { let x = self.concretize(st, &a[0], w, "an intrinsic operand")?; Some(V::C(match b { B::Abs => (sx(x, w as u8).wrapping_abs() as u64) & maskw(w as u8), _ => x.swap_bytes() >> (64 - w) })) }
                    },
                    _ => return Err(Stop::Fatal(name.to_string())),
                }
            }
            B::Ucmp | B::Scmp => {
                let w = operand_width(name);
                let (lt, eq) = (icmp(if b == B::Ucmp { Pred::Ult } else { Pred::Slt }, w, &a[0], &a[1]), icmp(Pred::Eq, w, &a[0], &a[1]));
                let rw = c.ret.width();
                match (lt, eq) {
                    (V::Undef, _) | (_, V::Undef) => Some(V::Undef),
                    (l, e) => {
                        let (l, e) = (to_id(&l, 1), to_id(&e, 1));
                        let (m1, z, o) = (cx().c(maskw(rw as u8), rw as u8), cx().c(0, rw as u8), cx().c(1, rw as u8));
                        let i = cx().ite(e, z, o);
                        Some(from_id(cx().ite(l, m1, i)))
                    }
                }
            }
            B::UMax | B::UMin | B::SMax | B::SMin => {
                let w = c.ret.width();
                let lt = icmp(if matches!(b, B::UMax | B::UMin) { Pred::Ult } else { Pred::Slt }, w, &a[0], &a[1]);
                match lt {
                    V::Undef => Some(V::Undef),
                    l => { let l = to_id(&l, 1); let (x, y) = (to_id(&a[0], w), to_id(&a[1], w)); Some(from_id(if matches!(b, B::UMax | B::SMax) { cx().ite(l, y, x) } else { cx().ite(l, x, y) })) }
                }
            }
            B::UAddSat | B::USubSat => {
                let w = c.ret.width();
                if matches!(a[0], V::Undef) || matches!(a[1], V::Undef) { Some(V::Undef) } else {
                    let (x, y) = (to_id(&a[0], w), to_id(&a[1], w));
                    Some(from_id(if b == B::USubSat { let l = cx().cmp(Cmp::Ult, x, y); let z = cx().c(0, w as u8); let s = cx().sub(x, y); cx().ite(l, z, s) } else { let s = cx().add(x, y); let l = cx().cmp(Cmp::Ult, s, x); let m = cx().c(maskw(w as u8), w as u8); cx().ite(l, m, s) }))
                }
            }
            B::MulO | B::UAddO | B::USubO | B::SAddO | B::SSubO | B::SMulO => {
                let w = operand_width(name);
                let w8 = w as u8;
                match (&a[0], &a[1]) {
                    (V::Undef, _) | (_, V::Undef) => Some(V::Agg(Rc::new(vec![V::Undef, V::Undef]))),
                    (V::C(x), V::C(y)) => {
                        let (x, y) = (*x, *y);
                        let (r, o) = match b {
                            B::MulO => (x.wrapping_mul(y) & maskw(w8), x as u128 * y as u128 > maskw(w8) as u128),
                            B::UAddO => (x.wrapping_add(y) & maskw(w8), x as u128 + y as u128 > maskw(w8) as u128),
                            B::USubO => (x.wrapping_sub(y) & maskw(w8), x < y),
                            _ => {
                                let (p, q) = (sx(x, w8) as i128, sx(y, w8) as i128);
                                let s = match b { B::SAddO => p + q, B::SSubO => p - q, _ => p * q };
                                let r = s as u64 & maskw(w8);
                                (r, sx(r, w8) as i128 != s)
                            }
                        };
                        Some(V::Agg(Rc::new(vec![V::C(r), V::C(o as u64)])))
                    }
                    _ => {
                        let (x, y) = (to_id(&a[0], w), to_id(&a[1], w));
                        let (r, o) = match b {
                            B::UAddO => { let s = cx().add(x, y); (s, cx().cmp(Cmp::Ult, s, x)) }
                            B::USubO => { let s = cx().sub(x, y); (s, cx().cmp(Cmp::Ult, x, y)) }
                            B::MulO => {
                                let k = cx().konst(x).or(cx().konst(y));
                                match k {
                                    Some(k) => { let v = if cx().konst(x).is_some() { y } else { x }; let r = cx().mulc(v, k); if k == 0 { (r, cx().c(0, 1)) } else { let m = cx().c(maskw(w8) / k, w8); (r, cx().cmp(Cmp::Ult, m, v)) } }
                                    None => return Err(Stop::Fatal("symbolic multiplication overflow check".into())),
                                }
                            }
                            _ => return Err(Stop::Fatal("symbolic signed overflow check".into())),
                        };
                        Some(V::Agg(Rc::new(vec![from_id(r), from_id(o)])))
                    }
                }
            }
            B::Expect => Some(a[0].clone()),
            B::Trap => { self.violation(st, "abort", "trap"); return Err(Stop::Viol); }
            B::AbortFn => { let m = format!("abort: {}", short(name)); self.violation(st, "abort", &m); return Err(Stop::Viol); }
            B::PanicFn => { st.last_panic = short(name).into(); return self.raise(st, c); }
            B::Fshl | B::Ptrmask | B::Unknown => return Err(Stop::Fatal(format!("call to external function {}", name))),
        };
        let r = r.map(|v| sized(v, if c.ret.width() > 0 { c.ret.width() } else { 64 }));
        // A builtin's result may be narrower or wider than its expression (bool returns).
        let r = match r { Some(V::E(e)) if c.ret.width() > 0 && cx().w(e) as u32 != c.ret.width() => { let w = c.ret.width() as u8; Some(from_id(if cx().w(e) > w { cx().trunc(e, w) } else { cx().zext(e, w) })) } r => r };
        self.finish_call(st, r)
    }
    fn raise(&mut self, st: &mut State, _c: &ir::CallI) -> R<()> { self.unwind(st) }
    fn real_slice_drop(&mut self, st: &mut State, name: &Rc<str>, a: Vec<V>) -> R<()> {
        let m = self.p.funcs[st.th[st.cur].frames.last().unwrap().func as usize].module;
        let k = self.p.funcs.iter().position(|f| f.name == **name && f.module == m).or_else(|| self.p.funcs.iter().position(|f| f.name == **name));
        match k { Some(k) => self.push_frame(st, k, a, false), None => Err(Stop::Fatal(format!("missing {}", name))) }
    }
}

fn short(n: &str) -> String { let s: String = n.chars().rev().take(60).collect::<Vec<_>>().into_iter().rev().collect(); s }

fn operand_width(name: &str) -> u32 { name.rsplit('.').next().and_then(|s| s.strip_prefix('i')).and_then(|s| s.parse().ok()).unwrap_or(64) }

/// The index of an in-bounds offset into a slice of 8-byte items.
fn div8(off: Id) -> Id {
    let (ts, c) = cx().lin_parts(off);
    if c % 8 == 0 && ts.iter().all(|(_, k)| k % 8 == 0) {
        let mut e = cx().c(((c as i64) / 8) as u64, 64);
        for (t, k) in ts { let m = cx().mulc(t, ((k as i64) / 8) as u64); e = cx().add(e, m); }
        return e;
    }
    let three = cx().c(3, 64);
    cx().bin(Op::LShr, off, three)
}

fn disjoint(l1: Id, n1: Id, l2: Id, n2: Id) -> Id {
    let z = cx().c(0, 64);
    let (e1, e2) = (cx().add(l1, n1), cx().add(l2, n2));
    let a = cx().cmp(Cmp::Ule, e1, l2);
    let b = cx().cmp(Cmp::Ule, e2, l1);
    let c = cx().cmp(Cmp::Eq, n1, z);
    let d = cx().cmp(Cmp::Eq, n2, z);
    let ab = cx().or(a, b);
    let cd = cx().or(c, d);
    cx().or(ab, cd)
}

fn icmp(p: Pred, w: u32, x: &V, y: &V) -> V {
    match (x, y) {
        (V::Undef, _) | (_, V::Undef) | (V::Agg(_), _) | (_, V::Agg(_)) => V::Undef,
        (V::C(a), V::C(b)) => {
            let (a, b, w8) = (*a, *b, w as u8);
            V::C(match p {
                Pred::Eq => a == b, Pred::Ne => a != b, Pred::Ugt => a > b, Pred::Uge => a >= b, Pred::Ult => a < b, Pred::Ule => a <= b,
                Pred::Sgt => sx(a, w8) > sx(b, w8), Pred::Sge => sx(a, w8) >= sx(b, w8), Pred::Slt => sx(a, w8) < sx(b, w8), Pred::Sle => sx(a, w8) <= sx(b, w8),
            } as u64)
        }
        _ => {
            let (a, b) = (to_id(x, w), to_id(y, w));
            from_id(match p {
                Pred::Eq => cx().cmp(Cmp::Eq, a, b),
                Pred::Ne => { let e = cx().cmp(Cmp::Eq, a, b); cx().not(e) }
                Pred::Ugt => cx().cmp(Cmp::Ult, b, a),
                Pred::Uge => cx().cmp(Cmp::Ule, b, a),
                Pred::Ult => cx().cmp(Cmp::Ult, a, b),
                Pred::Ule => cx().cmp(Cmp::Ule, a, b),
                Pred::Sgt => cx().cmp(Cmp::Slt, b, a),
                Pred::Sge => cx().cmp(Cmp::Sle, b, a),
                Pred::Slt => cx().cmp(Cmp::Slt, a, b),
                Pred::Sle => cx().cmp(Cmp::Sle, a, b),
            })
        }
    }
}

#[allow(dead_code)]
fn _unused(_: VecDeque<u8>, _: N) {}
