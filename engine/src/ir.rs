//! A parser for the subset of textual LLVM IR that rustc emits (before LLVM
//! optimisation), and the flat code representation the executor runs.

use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Arr(u64, Rc<Ty>),
    Struct(bool, Rc<Vec<Ty>>),
    Other,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 1,
            Ty::Int(n) => match n { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 },
            Ty::Ptr => 8,
            Ty::Float(n) => (*n as u64) / 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(packed, ts) => if *packed { 1 } else { ts.iter().map(|t| t.align()).max().unwrap_or(1) },
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(n) => { let b = ((*n as u64) + 7) / 8; let a = self.align(); (b + a - 1) / a * a }
            Ty::Ptr => 8,
            Ty::Float(n) => (*n as u64) / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(packed, ts) => {
                let mut off = 0;
                for t in ts.iter() {
                    if !*packed { let a = t.align(); off = (off + a - 1) / a * a; }
                    off += t.size();
                }
                let a = self.align();
                (off + a - 1) / a * a
            }
        }
    }
    pub fn field_offset(&self, idx: usize) -> u64 {
        match self {
            Ty::Arr(_, t) => t.size() * idx as u64,
            Ty::Struct(packed, ts) => {
                let mut off = 0;
                for (i, t) in ts.iter().enumerate() {
                    if !*packed { let a = t.align(); off = (off + a - 1) / a * a; }
                    if i == idx { return off; }
                    off += t.size();
                }
                panic!("field index out of range")
            }
            _ => panic!("field_offset on scalar"),
        }
    }
    pub fn elem(&self, idx: usize) -> Ty {
        match self {
            Ty::Arr(_, t) => (**t).clone(),
            Ty::Struct(_, ts) => ts[idx].clone(),
            _ => panic!("elem on scalar"),
        }
    }
    pub fn width(&self) -> u32 {
        match self { Ty::Int(n) => *n, Ty::Ptr => 64, Ty::Float(n) => *n, _ => 0 }
    }
    pub fn is_agg(&self) -> bool { matches!(self, Ty::Arr(..) | Ty::Struct(..)) }
}

/// A constant as written in the IR; globals are resolved to addresses at link time.
#[derive(Clone, Debug)]
pub enum Cst {
    Int(u64),
    Undef,
    Zero,
    Global(String),
    Gep(Box<Cst>, i64),
    Agg(Vec<(Ty, Cst)>),
    Bytes(Vec<u8>),
    BadExpr(String),
}

#[derive(Clone, Debug)]
pub enum Opnd {
    Slot(u32),
    Cst(Cst, Ty),
    /// Filled in at link time.
    Val(crate::exec::V),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { Trunc, Zext, Sext, PtrToInt, IntToPtr, Bitcast }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ord { NotAtomic, Relaxed, Acquire, Release, AcqRel, SeqCst }
impl Ord {
    pub fn acq(self) -> bool { matches!(self, Ord::Acquire | Ord::AcqRel | Ord::SeqCst) }
    pub fn rel(self) -> bool { matches!(self, Ord::Release | Ord::AcqRel | Ord::SeqCst) }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rmw { Xchg, Add, Sub, And, Or, Xor, Max, Min, UMax, UMin, Nand }

#[derive(Clone, Debug)]
pub struct Edge { pub block: u32, pub pc: u32, pub copies: Rc<Vec<(u32, Opnd)>> }

#[derive(Clone, Debug)]
pub struct CallI {
    pub dst: Option<u32>,
    pub ret: Ty,
    pub callee: Opnd,
    pub args: Vec<Opnd>,
    pub normal: Option<Edge>,
    pub unwind: Option<Edge>,
    /// Resolved at link time.
    pub target: Target,
}

#[derive(Clone, Debug)]
pub enum Target { Unresolved, Func(usize), Builtin(usize, Rc<str>), Indirect }

#[derive(Clone, Debug)]
pub enum I {
    Bin(BinOp, u32, u32, Opnd, Opnd, u8), // op, dst, width, a, b, flags (1=nuw,2=nsw,4=exact)
    Icmp(Pred, u32, u32, Opnd, Opnd),
    Cast(Cast, u32, u32, u32, Opnd, u8), // kind, dst, from width, to width, flags
    Select(u32, Opnd, Opnd, Opnd),
    Alloca(u32, u64, u64),
    Load(u32, Ty, Opnd, Ord, u64),
    Store(Ty, Opnd, Opnd, Ord, u64),
    Gep(u32, Opnd, i64, Vec<(Opnd, u32, u64)>, bool), // base, const off, (idx, width, scale), inbounds
    Extract(u32, Opnd, Vec<u32>),
    Insert(u32, Ty, Opnd, Opnd, Vec<u32>),
    Br(Edge),
    CondBr(Opnd, Edge, Edge),
    Switch(u32, Opnd, Vec<(u64, Edge)>, Edge),
    Ret(Option<Opnd>),
    Unreachable,
    Call(Box<CallI>),
    LandingPad(u32),
    Resume,
    CmpXchg(u32, Ty, Opnd, Opnd, Opnd, Ord, Ord, bool),
    AtomicRmw(u32, Ty, Rmw, Opnd, Opnd, Ord),
    Fence(Ord),
    Freeze(u32, Opnd),
    Nop,
    Unsupported(String),
}

pub struct Func {
    pub name: String,
    pub module: usize,
    pub internal: bool,
    pub nparams: usize,
    pub nslots: u32,
    pub code: Vec<I>,
    pub block_of: Vec<u32>,
    pub block_names: Vec<String>,
}

pub struct Decl { pub noreturn: bool, pub nounwind: bool }

pub struct Global { pub name: String, pub ty: Ty, pub init: Option<Cst>, pub is_const: bool, pub align: u64, pub module: usize, pub internal: bool }

#[derive(Default)]
pub struct Module {
    pub funcs: Vec<Func>,
    pub decls: HashMap<String, Decl>,
    pub globals: Vec<Global>,
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Local(String),
    Global(String),
    Meta(String),
    Attr(u32),
    Word(String),
    Str(Vec<u8>),
    CStr(Vec<u8>),
    Num(String),
    P(char),
    Ellipsis,
    Nl,
}

fn lex(src: &str) -> Result<Vec<Tok>, String> {
    let b = src.as_bytes();
    let mut i = 0;
    let mut out = Vec::with_capacity(src.len() / 4);
    let isid = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    fn quoted(b: &[u8], mut i: usize) -> (Vec<u8>, usize) {
        let mut v = Vec::new();
        while b[i] != b'"' {
            if b[i] == b'\\' {
                let h = |c: u8| (c as char).to_digit(16).unwrap_or(0) as u8;
                if b[i + 1] == b'\\' { v.push(b'\\'); i += 2; }
                else { v.push(h(b[i + 1]) * 16 + h(b[i + 2])); i += 3; }
            } else { v.push(b[i]); i += 1; }
        }
        (v, i + 1)
    }
    while i < b.len() {
        let c = b[i];
        match c {
            b'\n' => { out.push(Tok::Nl); i += 1; }
            b' ' | b'\t' | b'\r' => i += 1,
            b';' => while i < b.len() && b[i] != b'\n' { i += 1; },
            b'%' | b'@' => {
                let name;
                if b[i + 1] == b'"' { let (v, j) = quoted(b, i + 2); name = String::from_utf8_lossy(&v).into_owned(); i = j; }
                else { let s = i + 1; i += 1; while i < b.len() && isid(b[i]) { i += 1; } name = src[s..i].to_string(); }
                out.push(if c == b'%' { Tok::Local(name) } else { Tok::Global(name) });
            }
            b'!' => {
                let s = i; i += 1;
                while i < b.len() && (isid(b[i]) || b[i] == b'\\') { i += 1; }
                if i == s + 1 && i < b.len() && b[i] == b'"' { let (_, j) = quoted(b, i + 1); i = j; }
                out.push(Tok::Meta(src[s..i].to_string()));
            }
            b'#' => {
                let s = i + 1; i += 1;
                while i < b.len() && isid(b[i]) { i += 1; }
                out.push(Tok::Attr(src[s..i].parse().unwrap_or(u32::MAX)));
            }
            b'"' => { let (v, j) = quoted(b, i + 1); out.push(Tok::Str(v)); i = j; }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => { let (v, j) = quoted(b, i + 2); out.push(Tok::CStr(v)); i = j; }
            b'.' if b[i..].starts_with(b"...") => { out.push(Tok::Ellipsis); i += 3; }
            b'-' | b'0'..=b'9' => {
                let s = i; i += 1;
                while i < b.len() && (isid(b[i]) || b[i] == b'+') { i += 1; }
                out.push(Tok::Num(src[s..i].to_string()));
            }
            c if isid(c) => {
                let s = i;
                while i < b.len() && isid(b[i]) { i += 1; }
                out.push(Tok::Word(src[s..i].to_string()));
            }
            c => { out.push(Tok::P(c as char)); i += 1; }
        }
    }
    Ok(out)
}

struct P<'a> {
    t: &'a [Tok],
    i: usize,
    types: &'a HashMap<String, Ty>,
    slots: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
}

type R<T> = Result<T, String>;

impl<'a> P<'a> {
    fn peek(&self) -> &Tok { self.t.get(self.i).unwrap_or(&Tok::Nl) }
    fn next(&mut self) -> Tok { let t = self.peek().clone(); self.i += 1; t }
    fn skip_nl(&mut self) { while self.i < self.t.len() && self.t[self.i] == Tok::Nl { self.i += 1; } }
    fn is_p(&self, c: char) -> bool { *self.peek() == Tok::P(c) }
    fn eat_p(&mut self, c: char) -> bool { if self.is_p(c) { self.i += 1; true } else { false } }
    fn exp_p(&mut self, c: char) -> R<()> { if self.eat_p(c) { Ok(()) } else { Err(format!("expected '{}' got {:?}", c, self.ctx())) } }
    fn is_w(&self, w: &str) -> bool { matches!(self.peek(), Tok::Word(x) if x == w) }
    fn eat_w(&mut self, w: &str) -> bool { if self.is_w(w) { self.i += 1; true } else { false } }
    fn exp_w(&mut self, w: &str) -> R<()> { if self.eat_w(w) { Ok(()) } else { Err(format!("expected '{}' got {:?}", w, self.ctx())) } }
    fn ctx(&self) -> Vec<Tok> { self.t[self.i.saturating_sub(6)..(self.i + 4).min(self.t.len())].to_vec() }
    fn slot(&mut self, n: &str) -> u32 { let l = self.slots.len() as u32; *self.slots.entry(n.to_string()).or_insert(l) }
    fn block(&mut self, n: &str) -> u32 { let l = self.blocks.len() as u32; *self.blocks.entry(n.to_string()).or_insert(l) }

    fn is_type_start(&self) -> bool {
        match self.peek() {
            Tok::Word(w) => matches!(w.as_str(), "void" | "ptr" | "float" | "double" | "half" | "label" | "metadata" | "token" | "x86_fp80" | "fp128")
                || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit())),
            Tok::P('[') | Tok::P('{') | Tok::P('<') => true,
            Tok::Local(n) => self.types.contains_key(n),
            _ => false,
        }
    }

    fn ty(&mut self) -> R<Ty> {
        let t = match self.next() {
            Tok::Word(w) => match w.as_str() {
                "void" => Ty::Void,
                "ptr" => Ty::Ptr,
                "float" => Ty::Float(32),
                "double" => Ty::Float(64),
                "half" => Ty::Float(16),
                "label" | "metadata" | "token" => Ty::Other,
                _ if w.starts_with('i') => Ty::Int(w[1..].parse().map_err(|_| format!("bad type {}", w))?),
                _ => return Err(format!("bad type word {} at {:?}", w, self.ctx())),
            },
            Tok::P('[') => {
                let n: u64 = match self.next() { Tok::Num(n) => n.parse().map_err(|_| "arr len")?, t => return Err(format!("array len {:?}", t)) };
                self.exp_w("x")?;
                let t = self.ty()?;
                self.exp_p(']')?;
                Ty::Arr(n, Rc::new(t))
            }
            Tok::P('{') => { let v = self.ty_list('}')?; Ty::Struct(false, Rc::new(v)) }
            Tok::P('<') => {
                if self.eat_p('{') { let v = self.ty_list('}')?; self.exp_p('>')?; Ty::Struct(true, Rc::new(v)) }
                else {
                    let n: u64 = match self.next() { Tok::Num(n) => n.parse().map_err(|_| "vec len")?, t => return Err(format!("vec len {:?}", t)) };
                    self.exp_w("x")?;
                    let t = self.ty()?;
                    self.exp_p('>')?;
                    Ty::Arr(n, Rc::new(t))
                }
            }
            Tok::Local(n) => self.types.get(&n).cloned().ok_or_else(|| format!("unknown type {}", n))?,
            t => return Err(format!("bad type {:?} at {:?}", t, self.ctx())),
        };
        if self.is_w("addrspace") { self.i += 1; self.parens(); }
        Ok(t)
    }
    fn ty_list(&mut self, end: char) -> R<Vec<Ty>> {
        let mut v = vec![];
        if self.eat_p(end) { return Ok(v); }
        loop {
            v.push(self.ty()?);
            if self.eat_p(end) { return Ok(v); }
            self.exp_p(',')?;
        }
    }
    /// Skip a parenthesised group.
    fn parens(&mut self) {
        if !self.is_p('(') { return; }
        let mut d = 0;
        loop {
            match self.next() { Tok::P('(') => d += 1, Tok::P(')') => { d -= 1; if d == 0 { return; } } _ => {} }
            if self.i >= self.t.len() { return; }
        }
    }
    /// Skip parameter / return attributes.
    fn attrs(&mut self) {
        loop {
            match self.peek() {
                Tok::Word(w) if w == "align" => { self.i += 1; if self.is_p('(') { self.parens() } else { self.i += 1; } }
                Tok::Word(w) if matches!(w.as_str(), "noundef" | "noalias" | "nonnull" | "readonly" | "writeonly" | "readnone" | "zeroext" | "signext"
                    | "inreg" | "immarg" | "returned" | "nocapture" | "noreturn" | "nounwind" | "nofree" | "allocptr" | "allocalign" | "swiftself"
                    | "dead_on_unwind" | "writable" | "nest" | "fast" | "nnan" | "ninf" | "nsz" | "dead_on_return" | "noext") => { self.i += 1; if self.is_p('(') { self.parens() } }
                Tok::Word(w) if matches!(w.as_str(), "sret" | "byval" | "range" | "captures" | "dereferenceable" | "dereferenceable_or_null" | "initializes"
                    | "elementtype" | "nofpclass" | "preallocated" | "inalloca" | "byref" | "memory") => { self.i += 1; self.parens(); }
                Tok::Str(_) => { self.i += 1; if self.eat_p('=') { self.i += 1; } }
                _ => return,
            }
        }
    }

    fn value(&mut self, ty: &Ty) -> R<Opnd> {
        if let Tok::Local(n) = self.peek().clone() {
            self.i += 1;
            return Ok(Opnd::Slot(self.slot(&n)));
        }
        Ok(Opnd::Cst(self.cst(ty)?, ty.clone()))
    }
    fn cst(&mut self, ty: &Ty) -> R<Cst> {
        let w = ty.width();
        let mask = if w >= 64 { !0u64 } else if w == 0 { 0 } else { (1u64 << w) - 1 };
        Ok(match self.next() {
            Tok::Num(n) => {
                if let Ok(v) = n.parse::<i128>() {
                    // Wide integers are pairs of words: they are only ever moved around.
                    if w == 128 { let i64t = Ty::Int(64); return Ok(Cst::Agg(vec![(i64t.clone(), Cst::Int(v as u64)), (i64t, Cst::Int((v >> 64) as u64))])); }
                    if w > 64 { return Ok(Cst::BadExpr(format!("wide int {}", n))); }
                    Cst::Int(v as u64 & mask)
                } else { Cst::BadExpr(format!("number {}", n)) }
            }
            Tok::Word(s) => match s.as_str() {
                "true" => Cst::Int(1),
                "false" => Cst::Int(0),
                "null" => Cst::Int(0),
                "undef" | "poison" => Cst::Undef,
                "zeroinitializer" | "none" => Cst::Zero,
                "getelementptr" => {
                    while matches!(self.peek(), Tok::Word(_)) { self.i += 1; if self.is_p('(') && matches!(&self.t[self.i-1], Tok::Word(w) if w == "inrange") { self.parens(); } }
                    self.exp_p('(')?;
                    let sty = self.ty()?;
                    self.exp_p(',')?;
                    let bt = self.ty()?;
                    let base = self.cst(&bt)?;
                    let mut idx = vec![];
                    while self.eat_p(',') { let t = self.ty()?; idx.push(match self.cst(&t)? { Cst::Int(v) => { let w = t.width(); if w < 64 { ((v << (64 - w)) as i64) >> (64 - w) } else { v as i64 } } _ => return Ok(Cst::BadExpr("gep idx".into())) }); }
                    self.exp_p(')')?;
                    let mut off = 0i64;
                    let mut t = sty;
                    for (k, v) in idx.iter().enumerate() {
                        if k == 0 { off += t.size() as i64 * v; }
                        else { off += match &t { Ty::Arr(_, e) => e.size() as i64 * v, _ => t.field_offset(*v as usize) as i64 }; t = t.elem(*v as usize); }
                    }
                    Cst::Gep(Box::new(base), off)
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" => {
                    self.exp_p('(')?;
                    let t = self.ty()?;
                    let c = self.cst(&t)?;
                    self.exp_w("to")?;
                    self.ty()?;
                    self.exp_p(')')?;
                    c
                }
                _ => { if self.is_p('(') { self.parens(); } Cst::BadExpr(s) }
            },
            Tok::Global(g) => Cst::Global(g),
            Tok::CStr(v) => Cst::Bytes(v),
            Tok::P('{') => Cst::Agg(self.cst_list('}')?),
            Tok::P('[') => Cst::Agg(self.cst_list(']')?),
            Tok::P('<') => {
                if self.eat_p('{') { let v = self.cst_list('}')?; self.exp_p('>')?; Cst::Agg(v) }
                else { Cst::Agg(self.cst_list('>')?) }
            }
            t => return Err(format!("bad constant {:?} at {:?}", t, self.ctx())),
        })
    }
    fn cst_list(&mut self, end: char) -> R<Vec<(Ty, Cst)>> {
        let mut v = vec![];
        if self.eat_p(end) { return Ok(v); }
        loop {
            let t = self.ty()?;
            let c = self.cst(&t)?;
            v.push((t, c));
            if self.eat_p(end) { return Ok(v); }
            self.exp_p(',')?;
        }
    }
    fn tyval(&mut self) -> R<(Ty, Opnd)> {
        let t = self.ty()?;
        self.attrs();
        let v = self.value(&t)?;
        Ok((t, v))
    }
    fn label(&mut self) -> R<Edge> {
        self.exp_w("label")?;
        match self.next() {
            Tok::Local(n) => Ok(Edge { block: self.block(&n), pc: 0, copies: Rc::new(vec![]) }),
            t => Err(format!("label {:?}", t)),
        }
    }
    fn ordering(&mut self) -> Ord {
        if self.eat_w("syncscope") { self.parens(); }
        let o = match self.peek() {
            Tok::Word(w) => match w.as_str() {
                "monotonic" | "unordered" => Ord::Relaxed,
                "acquire" => Ord::Acquire,
                "release" => Ord::Release,
                "acq_rel" => Ord::AcqRel,
                "seq_cst" => Ord::SeqCst,
                _ => return Ord::NotAtomic,
            },
            _ => return Ord::NotAtomic,
        };
        self.i += 1;
        o
    }
    fn align_suffix(&mut self, def: u64) -> u64 {
        let mut a = def;
        while self.is_p(',') {
            if matches!(self.t.get(self.i + 1), Some(Tok::Word(w)) if w == "align") {
                self.i += 2;
                if let Tok::Num(n) = self.next() { a = n.parse().unwrap_or(def); }
            } else { break; }
        }
        a
    }
    fn to_eol(&mut self) { while self.i < self.t.len() && self.t[self.i] != Tok::Nl { self.i += 1; } }

    fn instr(&mut self) -> R<Option<I>> {
        let start = self.i;
        let mut dst = None;
        if let Tok::Local(n) = self.peek().clone() {
            if self.t.get(self.i + 1) == Some(&Tok::P('=')) { dst = Some(self.slot(&n)); self.i += 2; }
        }
        let op = match self.next() {
            Tok::Word(w) => w,
            Tok::Meta(_) | Tok::Attr(_) => { self.to_eol(); return Ok(None); }
            Tok::P('#') => { self.to_eol(); return Ok(None); }
            t => return Err(format!("instruction {:?}", t)),
        };
        let d = dst.unwrap_or(u32::MAX);
        let r = self.instr_body(&op, d, dst);
        match r {
            Ok(i) => { self.to_eol(); Ok(Some(i)) }
            Err(e) => { self.i = start; let mut s = format!("{}: {}", op, e); s.truncate(300); self.to_eol(); Ok(Some(I::Unsupported(s))) }
        }
    }
    fn instr_body(&mut self, op: &str, d: u32, dst: Option<u32>) -> R<I> {
        use BinOp::*;
        let bin = match op {
            "add" => Some(Add), "sub" => Some(Sub), "mul" => Some(Mul), "udiv" => Some(UDiv), "sdiv" => Some(SDiv),
            "urem" => Some(URem), "srem" => Some(SRem), "shl" => Some(Shl), "lshr" => Some(LShr), "ashr" => Some(AShr),
            "and" => Some(And), "or" => Some(Or), "xor" => Some(Xor), _ => None,
        };
        if let Some(b) = bin {
            let mut fl = 0;
            loop {
                if self.eat_w("nuw") { fl |= 1 } else if self.eat_w("nsw") { fl |= 2 } else if self.eat_w("exact") { fl |= 4 } else if self.eat_w("disjoint") { fl |= 8 } else { break }
            }
            let t = self.ty()?;
            let a = self.value(&t)?;
            self.exp_p(',')?;
            let c = self.value(&t)?;
            if !matches!(t, Ty::Int(_)) { return Err("non-int arithmetic".into()); }
            return Ok(I::Bin(b, d, t.width(), a, c, fl));
        }
        Ok(match op {
            "icmp" => {
                self.eat_w("samesign");
                let p = match self.next() { Tok::Word(w) => match w.as_str() {
                    "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, _ => return Err("pred".into()) }, _ => return Err("pred".into()) };
                let t = self.ty()?;
                let a = self.value(&t)?;
                self.exp_p(',')?;
                let c = self.value(&t)?;
                I::Icmp(p, d, t.width(), a, c)
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" => {
                let mut fl = 0;
                loop { if self.eat_w("nuw") { fl |= 1 } else if self.eat_w("nsw") { fl |= 2 } else if self.eat_w("nneg") { fl |= 16 } else { break } }
                let (t, v) = self.tyval()?;
                self.exp_w("to")?;
                let t2 = self.ty()?;
                let k = match op { "trunc" => Cast::Trunc, "zext" => Cast::Zext, "sext" => Cast::Sext, "ptrtoint" | "ptrtoaddr" => Cast::PtrToInt, "inttoptr" => Cast::IntToPtr, _ => Cast::Bitcast };
                I::Cast(k, d, t.width(), t2.width(), v, fl)
            }
            "select" => {
                let (_, c) = self.tyval()?;
                self.exp_p(',')?;
                let (_, a) = self.tyval()?;
                self.exp_p(',')?;
                let (_, b) = self.tyval()?;
                I::Select(d, c, a, b)
            }
            "alloca" => {
                let t = self.ty()?;
                let a = self.align_suffix(t.align());
                I::Alloca(d, t.size(), a)
            }
            "load" => {
                let at = self.eat_w("atomic");
                self.eat_w("volatile");
                let t = self.ty()?;
                self.exp_p(',')?;
                let (_, p) = self.tyval()?;
                let o = if at { self.ordering() } else { Ord::NotAtomic };
                let a = self.align_suffix(t.align());
                I::Load(d, t, p, o, a)
            }
            "store" => {
                let at = self.eat_w("atomic");
                self.eat_w("volatile");
                let (t, v) = self.tyval()?;
                self.exp_p(',')?;
                let (_, p) = self.tyval()?;
                let o = if at { self.ordering() } else { Ord::NotAtomic };
                let a = self.align_suffix(t.align());
                I::Store(t, v, p, o, a)
            }
            "getelementptr" => {
                let mut inb = false;
                loop { if self.eat_w("inbounds") { inb = true } else if self.eat_w("nuw") || self.eat_w("nusw") || self.eat_w("nsw") { } else { break } }
                let sty = self.ty()?;
                self.exp_p(',')?;
                let (_, base) = self.tyval()?;
                let mut off = 0i64;
                let mut idxs = vec![];
                let mut t = sty;
                let mut first = true;
                while self.is_p(',') && !matches!(self.t.get(self.i + 1), Some(Tok::Meta(_))) {
                    self.i += 1;
                    let (it, iv) = self.tyval()?;
                    let c = match &iv { Opnd::Cst(Cst::Int(v), _) => Some({ let w = it.width(); if w < 64 { ((*v << (64 - w)) as i64) >> (64 - w) } else { *v as i64 } }), _ => None };
                    if first {
                        match c { Some(c) => off += c * t.size() as i64, None => idxs.push((iv, it.width(), t.size())) }
                        first = false;
                    } else {
                        match (&t, c) {
                            (Ty::Arr(_, e), Some(c)) => { off += c * e.size() as i64; t = (**e).clone(); }
                            (Ty::Arr(_, e), None) => { idxs.push((iv, it.width(), e.size())); t = (**e).clone(); }
                            (Ty::Struct(..), Some(c)) => { off += t.field_offset(c as usize) as i64; t = t.elem(c as usize); }
                            _ => return Err("gep".into()),
                        }
                    }
                }
                I::Gep(d, base, off, idxs, inb)
            }
            "extractvalue" => {
                let (_, v) = self.tyval()?;
                let mut p = vec![];
                while self.eat_p(',') { match self.next() { Tok::Num(n) => p.push(n.parse().unwrap()), _ => break } }
                I::Extract(d, v, p)
            }
            "insertvalue" => {
                let (t, v) = self.tyval()?;
                self.exp_p(',')?;
                let (_, e) = self.tyval()?;
                let mut p = vec![];
                while self.eat_p(',') { match self.next() { Tok::Num(n) => p.push(n.parse().unwrap()), _ => break } }
                I::Insert(d, t, v, e, p)
            }
            "br" => {
                if self.is_w("label") { I::Br(self.label()?) }
                else {
                    let (_, c) = self.tyval()?;
                    self.exp_p(',')?;
                    let a = self.label()?;
                    self.exp_p(',')?;
                    let b = self.label()?;
                    I::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.tyval()?;
                self.exp_p(',')?;
                let def = self.label()?;
                self.exp_p('[')?;
                let mut cases = vec![];
                loop {
                    self.skip_nl();
                    if self.eat_p(']') { break; }
                    let ct = self.ty()?;
                    let c = match self.cst(&ct)? { Cst::Int(v) => v, _ => return Err("switch case".into()) };
                    self.exp_p(',')?;
                    let l = self.label()?;
                    cases.push((c, l));
                }
                I::Switch(t.width(), v, cases, def)
            }
            "ret" => {
                let t = self.ty()?;
                if t == Ty::Void { I::Ret(None) } else { I::Ret(Some(self.value(&t)?)) }
            }
            "unreachable" => I::Unreachable,
            "call" | "invoke" | "tail" | "musttail" | "notail" => {
                if op != "call" && op != "invoke" { self.exp_w("call")?; }
                while !self.is_type_start() {
                    let before = self.i;
                    self.attrs();
                    if self.i == before {
                        match self.peek() { Tok::Word(_) | Tok::Num(_) => { self.i += 1; if self.is_p('(') { self.parens(); } } _ => return Err("call prefix".into()) }
                    }
                }
                let ret = self.ty()?;
                if self.is_p('(') { self.parens(); } // function type of a variadic call
                let callee = match self.next() {
                    Tok::Global(g) => Opnd::Cst(Cst::Global(g), Ty::Ptr),
                    Tok::Local(n) => Opnd::Slot(self.slot(&n)),
                    Tok::Word(w) if w == "asm" => return Err("inline asm".into()),
                    t => return Err(format!("callee {:?}", t)),
                };
                self.exp_p('(')?;
                let mut args = vec![];
                if !self.eat_p(')') {
                    loop {
                        let t = self.ty()?;
                        self.attrs();
                        if t == Ty::Other {
                            // metadata argument (debug intrinsics): skip
                            let mut dep = 0;
                            loop { match self.peek() { Tok::P('(') => dep += 1, Tok::P(')') => { if dep == 0 { break } dep -= 1 } Tok::P(',') if dep == 0 => break, _ => {} } self.i += 1; }
                            args.push(Opnd::Cst(Cst::Undef, Ty::Int(64)));
                        } else { args.push(self.value(&t)?); }
                        if self.eat_p(')') { break; }
                        self.exp_p(',')?;
                    }
                }
                let (mut normal, mut unwind) = (None, None);
                if op == "invoke" {
                    while !self.is_w("to") { if self.i >= self.t.len() { return Err("invoke".into()); } self.i += 1; }
                    self.exp_w("to")?;
                    normal = Some(self.label()?);
                    self.exp_w("unwind")?;
                    unwind = Some(self.label()?);
                }
                I::Call(Box::new(CallI { dst, ret, callee, args, normal, unwind, target: Target::Unresolved }))
            }
            "landingpad" => {
                self.ty()?;
                loop {
                    let save = self.i;
                    self.skip_nl();
                    if self.eat_w("cleanup") { continue; }
                    if self.eat_w("catch") || self.eat_w("filter") { let (_, _) = self.tyval()?; continue; }
                    self.i = save;
                    break;
                }
                I::LandingPad(d)
            }
            "resume" => I::Resume,
            "cmpxchg" => {
                let mut weak = false;
                loop { if self.eat_w("weak") { weak = true } else if self.eat_w("volatile") {} else { break } }
                let (_, p) = self.tyval()?;
                self.exp_p(',')?;
                let (t, e) = self.tyval()?;
                self.exp_p(',')?;
                let (_, n) = self.tyval()?;
                let o1 = self.ordering();
                let o2 = self.ordering();
                I::CmpXchg(d, t, p, e, n, o1, o2, weak)
            }
            "atomicrmw" => {
                self.eat_w("volatile");
                let k = match self.next() { Tok::Word(w) => match w.as_str() {
                    "xchg" => Rmw::Xchg, "add" => Rmw::Add, "sub" => Rmw::Sub, "and" => Rmw::And, "or" => Rmw::Or, "xor" => Rmw::Xor,
                    "max" => Rmw::Max, "min" => Rmw::Min, "umax" => Rmw::UMax, "umin" => Rmw::UMin, "nand" => Rmw::Nand, _ => return Err(format!("rmw {}", w)) }, _ => return Err("rmw".into()) };
                let (_, p) = self.tyval()?;
                self.exp_p(',')?;
                let (t, v) = self.tyval()?;
                let o = self.ordering();
                I::AtomicRmw(d, t, k, p, v, o)
            }
            "fence" => I::Fence(self.ordering()),
            "freeze" => { let (_, v) = self.tyval()?; I::Freeze(d, v) }
            _ => return Err("unknown instruction".into()),
        })
    }
}

fn linkage_internal(words: &[String]) -> bool { words.iter().any(|w| w == "internal" || w == "private") }

pub fn parse(src: &str, module: usize) -> Result<Module, String> {
    let toks = lex(src)?;
    let mut m = Module::default();
    // Pass 1: named types and attribute groups.
    let mut types: HashMap<String, Ty> = HashMap::new();
    let mut attrs: HashMap<u32, (bool, bool)> = HashMap::new();
    let mut tydefs: Vec<(String, usize)> = vec![];
    let mut i = 0;
    let mut bol = true;
    while i < toks.len() {
        if bol {
            if let Tok::Local(n) = &toks[i] {
                if toks.get(i + 1) == Some(&Tok::P('=')) && matches!(toks.get(i + 2), Some(Tok::Word(w)) if w == "type") { tydefs.push((n.clone(), i + 3)); }
            }
            if matches!(&toks[i], Tok::Word(w) if w == "attributes") {
                if let Some(Tok::Attr(k)) = toks.get(i + 1) {
                    let mut j = i + 2;
                    let (mut nr, mut nu) = (false, false);
                    while toks[j] != Tok::Nl { if let Tok::Word(w) = &toks[j] { if w == "noreturn" { nr = true } if w == "nounwind" { nu = true } } j += 1; }
                    attrs.insert(*k, (nr, nu));
                }
            }
        }
        bol = toks[i] == Tok::Nl;
        i += 1;
    }
    let mut pending = tydefs;
    let mut rounds = 0;
    while !pending.is_empty() && rounds < 50 {
        let mut rest = vec![];
        for (n, at) in pending {
            let r = { let mut p = P { t: &toks, i: at, types: &types, slots: HashMap::new(), blocks: HashMap::new() }; if p.is_w("opaque") { Ok(Ty::Other) } else { p.ty() } };
            match r { Ok(t) => { types.insert(n, t); } Err(_) => rest.push((n, at)) }
        }
        pending = rest;
        rounds += 1;
    }
    // Pass 2: globals, declarations, definitions.
    let mut i = 0;
    while i < toks.len() {
        if toks[i] == Tok::Nl { i += 1; continue; }
        match &toks[i] {
            Tok::Global(name) if toks.get(i + 1) == Some(&Tok::P('=')) => {
                let mut p = P { t: &toks, i: i + 2, types: &types, slots: HashMap::new(), blocks: HashMap::new() };
                let mut words = vec![];
                let mut kind = None;
                loop {
                    match p.next() {
                        Tok::Word(w) if w == "constant" || w == "global" => { kind = Some(w == "constant"); break; }
                        Tok::Word(w) if w == "alias" => break,
                        Tok::Word(w) => { words.push(w); if p.is_p('(') { p.parens(); } }
                        Tok::Nl => break,
                        _ => {}
                    }
                }
                if let Some(c) = kind {
                    let ty = p.ty().map_err(|e| format!("global {}: {}", name, e))?;
                    let ext = words.iter().any(|w| w == "external" || w == "extern_weak");
                    let init = if ext { None } else { Some(p.cst(&ty).map_err(|e| format!("global {}: {}", name, e))?) };
                    let align = { let mut a = ty.align(); while *p.peek() != Tok::Nl { if p.eat_w("align") { if let Tok::Num(n) = p.next() { a = n.parse().unwrap_or(a); } } else { p.i += 1; } } a };
                    m.globals.push(Global { name: name.clone(), ty, init, is_const: c, align, module, internal: linkage_internal(&words) });
                } else {
                    p.to_eol();
                }
                i = p.i;
                while i < toks.len() && toks[i] != Tok::Nl { i += 1; }
            }
            Tok::Word(w) if w == "declare" => {
                let mut name = None;
                let (mut nr, mut nu) = (false, false);
                while i < toks.len() && toks[i] != Tok::Nl {
                    if let Tok::Global(g) = &toks[i] { if name.is_none() { name = Some(g.clone()); } }
                    if let Tok::Attr(k) = &toks[i] { if let Some(a) = attrs.get(k) { nr |= a.0; nu |= a.1; } }
                    i += 1;
                }
                if let Some(n) = name { m.decls.insert(n, Decl { noreturn: nr, nounwind: nu }); }
            }
            Tok::Word(w) if w == "define" => {
                let mut p = P { t: &toks, i: i + 1, types: &types, slots: HashMap::new(), blocks: HashMap::new() };
                let mut words = vec![];
                while !matches!(p.peek(), Tok::Global(_)) {
                    match p.next() { Tok::Word(w) => { words.push(w); if p.is_p('(') { p.parens(); } } Tok::Nl => return Err("define".into()), _ => {} }
                }
                let name = match p.next() { Tok::Global(g) => g, _ => unreachable!() };
                p.exp_p('(')?;
                let mut nparams = 0;
                if !p.eat_p(')') {
                    loop {
                        if *p.peek() == Tok::Ellipsis { p.i += 1; p.exp_p(')')?; break; }
                        p.ty().map_err(|e| format!("{}: {}", name, e))?;
                        p.attrs();
                        match p.next() { Tok::Local(n) => { let s = p.slot(&n); if s != nparams { return Err("param slot".into()); } nparams += 1; } t => return Err(format!("param of {}: {:?}", name, t)) }
                        if p.eat_p(')') { break; }
                        p.exp_p(',')?;
                    }
                }
                while !p.is_p('{') { p.i += 1; }
                p.i += 1;
                let from = p.i;
                match parse_body(&mut p, name.clone(), nparams as usize, module, linkage_internal(&words)) {
                    Ok(f) => { m.funcs.push(f); i = p.i; }
                    // As good as not there: executing it ends the path as unsupported.
                    Err(_) => {
                        m.decls.insert(name, Decl { noreturn: false, nounwind: false });
                        i = from;
                        while i + 1 < toks.len() && !(toks[i] == Tok::Nl && toks[i + 1] == Tok::P('}')) { i += 1; }
                        i += 2;
                    }
                }
            }
            _ => { while i < toks.len() && toks[i] != Tok::Nl { i += 1; } }
        }
    }
    Ok(m)
}

struct PhiI { dst: u32, inc: Vec<(Opnd, u32)> }

fn parse_body(p: &mut P<'_>, name: String, nparams: usize, module: usize, internal: bool) -> R<Func> {
    let mut code: Vec<I> = vec![];
    let mut block_of = vec![];
    let mut block_start: HashMap<u32, u32> = HashMap::new();
    let mut phis: HashMap<u32, Vec<PhiI>> = HashMap::new();
    let mut cur: Option<u32> = None;
    loop {
        p.skip_nl();
        if p.eat_p('}') { break; }
        // label?
        let lab = match (p.peek().clone(), p.t.get(p.i + 1)) {
            (Tok::Word(w), Some(Tok::P(':'))) => Some(w),
            (Tok::Num(w), Some(Tok::P(':'))) => Some(w),
            (Tok::Str(w), Some(Tok::P(':'))) => Some(String::from_utf8_lossy(&w).into_owned()),
            _ => None,
        };
        if let Some(l) = lab {
            p.i += 2;
            let b = p.block(&l);
            cur = Some(b);
            block_start.insert(b, code.len() as u32);
            continue;
        }
        if cur.is_none() {
            let b = p.block("<entry>");
            cur = Some(b);
            block_start.insert(b, 0);
        }
        // phi?
        if matches!((p.peek(), p.t.get(p.i + 1), p.t.get(p.i + 2)), (Tok::Local(_), Some(Tok::P('=')), Some(Tok::Word(w))) if w == "phi") {
            let d = match p.next() { Tok::Local(n) => p.slot(&n), _ => unreachable!() };
            p.i += 2;
            let t = p.ty()?;
            let mut inc = vec![];
            loop {
                p.exp_p('[')?;
                let v = p.value(&t)?;
                p.exp_p(',')?;
                let b = match p.next() { Tok::Local(n) => p.block(&n), t => return Err(format!("phi {:?}", t)) };
                p.exp_p(']')?;
                inc.push((v, b));
                if !p.eat_p(',') { break; }
                if matches!(p.peek(), Tok::Meta(_)) { break; }
            }
            p.to_eol();
            phis.entry(cur.unwrap()).or_default().push(PhiI { dst: d, inc });
            continue;
        }
        if let Some(ins) = p.instr().map_err(|e| format!("in {}: {}", name, e))? {
            code.push(ins);
            block_of.push(cur.unwrap());
        }
    }
    // Resolve edges.
    let nb = p.blocks.len();
    let mut block_names = vec![String::new(); nb];
    for (n, b) in &p.blocks { block_names[*b as usize] = n.clone(); }
    let fix = |e: &mut Edge, from: u32| {
        e.pc = *block_start.get(&e.block).unwrap_or(&u32::MAX);
        let mut v = vec![];
        if let Some(ph) = phis.get(&e.block) {
            for q in ph {
                if let Some((o, _)) = q.inc.iter().find(|(_, b)| *b == from) { v.push((q.dst, o.clone())); }
            }
        }
        e.copies = Rc::new(v);
    };
    for (k, ins) in code.iter_mut().enumerate() {
        let from = block_of[k];
        match ins {
            I::Br(e) => fix(e, from),
            I::CondBr(_, a, b) => { fix(a, from); fix(b, from); }
            I::Switch(_, _, cs, d) => { for (_, e) in cs.iter_mut() { fix(e, from); } fix(d, from); }
            I::Call(c) => { if let Some(e) = &mut c.normal { fix(e, from); } if let Some(e) = &mut c.unwind { fix(e, from); } }
            _ => {}
        }
    }
    Ok(Func { name, module, internal, nparams, nslots: p.slots.len() as u32, code, block_of, block_names })
}
