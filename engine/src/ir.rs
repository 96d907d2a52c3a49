//! In-memory form of the LLVM IR subset that rustc emits, and the textual parser for it.
use crate::aig::FxMap;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Vec(u32, Box<Ty>),
    Arr(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Other,
}

pub fn align_up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Vec(n, t) => n * t.bits(),
            _ => 0,
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Arr(..) | Ty::Struct(..))
    }
    pub fn lanes(&self) -> u32 {
        match self {
            Ty::Vec(n, _) => *n,
            _ => 1,
        }
    }
    /// width of one lane
    pub fn lane_bits(&self) -> u32 {
        match self {
            Ty::Vec(_, t) => t.bits(),
            t => t.bits(),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr => 8,
            Ty::Vec(..) => ((self.bits() as u64 + 7) / 8).next_power_of_two(),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(_) | Ty::Ptr | Ty::Vec(..) => (self.bits() as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    /// allocation size
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(_) | Ty::Ptr | Ty::Vec(..) => align_up((self.bits() as u64 + 7) / 8, self.align()),
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f {
                    if !packed {
                        o = align_up(o, t.align());
                    }
                    o += t.size();
                }
                align_up(o, self.align())
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        o = align_up(o, t.align());
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field index")
            }
            Ty::Arr(_, t) => t.size() * i as u64,
            _ => panic!("field_off of scalar"),
        }
    }
    pub fn elem(&self, i: usize) -> &Ty {
        match self {
            Ty::Struct(f, _) => &f[i],
            Ty::Arr(_, t) => t,
            Ty::Vec(_, t) => t,
            _ => panic!("elem of scalar"),
        }
    }
    pub fn n_elems(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Arr(n, _) => *n as usize,
            _ => 0,
        }
    }
}

/// A constant: scalar/vector bits (<= 128) or aggregate.
#[derive(Clone, Debug)]
pub enum Const {
    Bits(u128),
    Agg(Rc<Vec<Const>>),
    /// c"..." array of bytes
    Bytes(Rc<Vec<u8>>),
    Zero,
}

#[derive(Clone, Debug)]
pub enum Opnd {
    Reg(u32),
    K(u128),
    /// aggregate constant
    Agg(Rc<(Ty, Const)>),
    None,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    Zext,
    Sext,
    Move,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Func(u32),
    Extern(Rc<str>),
    Intrinsic(Rc<str>),
    Indirect(Opnd),
    Nop,
}

#[derive(Clone, Debug)]
pub enum Op {
    Bin(Bin, u32, u32, Opnd, Opnd),
    ICmp(Pred, u32, u32, Opnd, Opnd),
    Select(u32, u32, Opnd, Opnd, Opnd), // lanes of cond, total bits (0 for aggregates)
    Cast(Cast, u32, u32, u32, Opnd),    // lanes, from lane bits, to lane bits
    Gep(Opnd, u64, Vec<(Opnd, u32, u64)>),
    Load(Ty, Opnd),
    Store(Ty, Opnd, Opnd),
    Alloca(u64, u64),
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch(u32, Opnd, Rc<FxMap<u128, u32>>, u32),
    Ret(Opnd),
    Unreachable,
    Call(Box<CallI>),
    Extract(Opnd, Vec<u32>),
    Insert(Ty, Opnd, Opnd, Vec<u32>),
    ExtElem(u32, u32, Opnd, Opnd),       // lanes, lane bits
    InsElem(u32, u32, Opnd, Opnd, Opnd), // lanes, lane bits, vec, val, idx
    Shuffle(u32, u32, Opnd, Opnd, Vec<Option<u32>>),
    Rmw(Rc<str>, Ty, Opnd, Opnd),
    CmpXchg(Ty, Opnd, Opnd, Opnd),
    Fence,
    Unsupported(Rc<str>),
}

#[derive(Clone, Debug)]
pub struct CallI {
    pub callee: Callee,
    pub args: Vec<Opnd>,
    pub arg_ty: Vec<Ty>,
    pub ret: Ty,
    pub normal: Option<u32>,
    pub quick: Quick,
}

/// intrinsics with a short concrete evaluation
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Quick {
    No,
    Nop,
    Fshl64,
    Umin64,
    Umax64,
    Cttz(u32),
    Ctlz(u32),
    AddO,
    SubO,
    MulO,
    SubSat64,
    Copy,
}
fn quick(c: &Callee) -> Quick {
    let n = match c {
        Callee::Nop => return Quick::Nop,
        Callee::Intrinsic(n) => n,
        _ => return Quick::No,
    };
    match &n[5..] {
        "fshl.i64" => Quick::Fshl64,
        "umin.i64" => Quick::Umin64,
        "umax.i64" => Quick::Umax64,
        "cttz.i16" => Quick::Cttz(16),
        "cttz.i64" => Quick::Cttz(64),
        "ctlz.i64" => Quick::Ctlz(64),
        "uadd.with.overflow.i64" => Quick::AddO,
        "usub.with.overflow.i64" => Quick::SubO,
        "umul.with.overflow.i64" => Quick::MulO,
        "usub.sat.i64" => Quick::SubSat64,
        b if b.starts_with("memcpy.") || b.starts_with("memmove.") => Quick::Copy,
        _ => Quick::No,
    }
}

#[derive(Clone, Debug)]
pub struct Inst {
    pub op: Op,
    pub dst: u32,
}
pub const NODST: u32 = u32::MAX;
/// marker width: select between pointers (forks instead of building an if-then-else)
pub const PTRSEL: u32 = 1 << 20;

#[derive(Debug)]
pub struct Block {
    pub phis: Vec<(u32, FxMap<u32, Opnd>)>,
    /// the phi assignments per predecessor, sorted by predecessor
    pub edges: Vec<(u32, Vec<(u32, Opnd)>)>,
    pub insts: Vec<Inst>,
}

impl Block {
    #[inline]
    pub fn edge(&self, from: u32) -> &[(u32, Opnd)] {
        if self.edges.len() <= 8 {
            for (p, v) in &self.edges {
                if *p == from {
                    return v;
                }
            }
            return &[];
        }
        match self.edges.binary_search_by_key(&from, |e| e.0) {
            Ok(i) => &self.edges[i].1,
            Err(_) => &[],
        }
    }
}

#[derive(Debug)]
pub struct Func {
    pub name: Rc<str>,
    pub id: u32,
    pub params: Vec<u32>,
    pub ret: Ty,
    pub blocks: Vec<Block>,
    pub n_regs: u32,
}

pub struct FuncDecl {
    pub name: Rc<str>,
    pub pretty: String,
    pub header: String,
    pub body: Vec<String>,
    pub parsed: RefCell<Option<Rc<Func>>>,
}

pub struct Global {
    pub name: Rc<str>,
    pub ty: Ty,
    pub addr: u64,
    pub align: u64,
    pub init: Option<String>,
}

pub const FUNC_BASE: u64 = 0x7f00_0000_0000;
pub const EXTERN_BASE: u64 = 0x7e00_0000_0000;
pub const GLOBAL_BASE: u64 = 0x10_0000;

pub struct Module {
    pub funcs: Vec<FuncDecl>,
    pub fidx: HashMap<String, u32>,
    pub externs: RefCell<Vec<Rc<str>>>,
    pub globals: Vec<Global>,
    pub gidx: HashMap<String, usize>,
    pub aliases: HashMap<String, String>,
    pub types: HashMap<String, Ty>,
    pub globals_end: u64,
}

// ---------------------------------------------------------------- lexer

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Word(String),
    Local(String),
    Global(String),
    Num(String),
    CStr(Vec<u8>),
    Str,
    Meta,
    P(char),
    Dots,
}

fn unquote(b: &[u8], i: &mut usize) -> Vec<u8> {
    // b[*i] == '"'
    *i += 1;
    let mut o = vec![];
    while b[*i] != b'"' {
        if b[*i] == b'\\' {
            if b[*i + 1] == b'\\' {
                o.push(b'\\');
                *i += 2;
            } else {
                let h = std::str::from_utf8(&b[*i + 1..*i + 3]).unwrap();
                o.push(u8::from_str_radix(h, 16).unwrap());
                *i += 3;
            }
        } else {
            o.push(b[*i]);
            *i += 1;
        }
    }
    *i += 1;
    o
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut o = vec![];
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1
                }
            }
            b'%' | b'@' => {
                i += 1;
                let name = if b[i] == b'"' {
                    String::from_utf8_lossy(&unquote(b, &mut i)).into_owned()
                } else {
                    let st = i;
                    while i < b.len() && is_id(b[i]) {
                        i += 1
                    }
                    s[st..i].to_string()
                };
                o.push(if c == b'%' { Tok::Local(name) } else { Tok::Global(name) });
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                i += 1;
                let v = unquote(b, &mut i);
                o.push(Tok::CStr(v));
            }
            b'"' => {
                unquote(b, &mut i);
                o.push(Tok::Str);
            }
            b'!' => {
                i += 1;
                if i < b.len() && b[i] == b'"' {
                    unquote(b, &mut i);
                } else {
                    while i < b.len() && is_id(b[i]) {
                        i += 1
                    }
                }
                o.push(Tok::Meta);
            }
            b'#' => {
                i += 1;
                while i < b.len() && is_id(b[i]) {
                    i += 1
                }
                o.push(Tok::Meta);
            }
            b'-' | b'0'..=b'9' => {
                let st = i;
                i += 1;
                while i < b.len() && is_id(b[i]) {
                    i += 1
                }
                o.push(Tok::Num(s[st..i].to_string()));
            }
            b'.' if s[i..].starts_with("...") => {
                i += 3;
                o.push(Tok::Dots);
            }
            _ if c.is_ascii_alphabetic() || c == b'_' => {
                let st = i;
                while i < b.len() && is_id(b[i]) {
                    i += 1
                }
                o.push(Tok::Word(s[st..i].to_string()));
            }
            _ => {
                o.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    o
}

pub fn parse_num(s: &str, w: u32) -> u128 {
    let v = if let Some(r) = s.strip_prefix('-') {
        (r.parse::<u128>().unwrap_or_else(|_| panic!("number {}", s)) as i128).wrapping_neg() as u128
    } else {
        s.parse::<u128>().unwrap_or_else(|_| panic!("number {}", s))
    };
    mask(v, w)
}
#[inline]
pub fn mask(v: u128, w: u32) -> u128 {
    if w >= 128 {
        v
    } else {
        v & ((1u128 << w) - 1)
    }
}

struct P<'a> {
    t: Vec<Tok>,
    i: usize,
    m: &'a Module,
}

impl<'a> P<'a> {
    fn new(m: &'a Module, s: &str) -> Self {
        P { t: lex(s), i: 0, m }
    }
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> Tok {
        let t = self.t.get(self.i).cloned().unwrap_or_else(|| panic!("unexpected end of line: {:?}", self.t));
        self.i += 1;
        t
    }
    fn is_p(&self, c: char) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp_p(&mut self, c: char) {
        if !self.eat_p(c) {
            panic!("expected {} at {} in {:?}", c, self.i, self.t)
        }
    }
    fn is_w(&self, w: &str) -> bool {
        matches!(self.peek(), Some(Tok::Word(x)) if x == w)
    }
    fn eat_w(&mut self, w: &str) -> bool {
        if self.is_w(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn word(&mut self) -> String {
        match self.next() {
            Tok::Word(w) => w,
            x => panic!("word expected, got {:?} in {:?}", x, self.t),
        }
    }
    fn num(&mut self) -> u64 {
        match self.next() {
            Tok::Num(w) => w.parse().unwrap(),
            x => panic!("number expected, got {:?}", x),
        }
    }
    fn at_type(&self) -> bool {
        match self.peek() {
            Some(Tok::Word(w)) => {
                matches!(w.as_str(), "void" | "ptr" | "label" | "metadata" | "float" | "double" | "token" | "x86_fp80" | "half" | "fp128")
                    || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Some(Tok::P(c)) => matches!(c, '[' | '<' | '{'),
            Some(Tok::Local(n)) => self.m.types.contains_key(n),
            _ => false,
        }
    }
    fn ty(&mut self) -> Ty {
        match self.next() {
            Tok::Word(w) => match w.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if self.eat_w("addrspace") {
                        self.skip_parens();
                    }
                    Ty::Ptr
                }
                "label" | "metadata" | "token" | "float" | "double" | "x86_fp80" | "half" | "fp128" => Ty::Other,
                _ => Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {} in {:?}", w, self.t))),
            },
            Tok::Local(n) => self.m.types[&n].clone(),
            Tok::P('[') => {
                let n = self.num();
                self.word();
                let t = self.ty();
                self.exp_p(']');
                Ty::Arr(n, Box::new(t))
            }
            Tok::P('<') => {
                if self.is_p('{') {
                    let t = self.ty();
                    self.exp_p('>');
                    match t {
                        Ty::Struct(f, _) => Ty::Struct(f, true),
                        _ => unreachable!(),
                    }
                } else {
                    let n = self.num() as u32;
                    self.word();
                    let t = self.ty();
                    self.exp_p('>');
                    Ty::Vec(n, Box::new(t))
                }
            }
            Tok::P('{') => {
                let mut f = vec![];
                while !self.eat_p('}') {
                    f.push(self.ty());
                    self.eat_p(',');
                }
                Ty::Struct(f, false)
            }
            x => panic!("type expected, got {:?} in {:?}", x, self.t),
        }
    }
    fn skip_parens(&mut self) {
        if !self.eat_p('(') {
            return;
        }
        let mut d = 1;
        while d > 0 {
            match self.next() {
                Tok::P('(') => d += 1,
                Tok::P(')') => d -= 1,
                _ => {}
            }
        }
    }
    /// skip attribute words in front of a type
    fn skip_to_type(&mut self) {
        while !self.at_type() {
            match self.peek() {
                Some(Tok::Word(_)) | Some(Tok::Str) | Some(Tok::Meta) | Some(Tok::Num(_)) => {
                    self.i += 1;
                    self.skip_parens();
                }
                _ => return,
            }
        }
    }
    /// skip parameter attributes between a type and its value
    fn skip_attrs(&mut self) -> bool {
        let mut byval = false;
        loop {
            match self.peek() {
                Some(Tok::Word(w)) => {
                    if matches!(
                        w.as_str(),
                        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "splat" | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "add" | "sub" | "xor" | "none" | "asm"
                    ) {
                        return byval;
                    }
                    if w == "byval" || w == "inalloca" || w == "preallocated" {
                        byval = true;
                    }
                    let al = w == "align";
                    self.i += 1;
                    if al && matches!(self.peek(), Some(Tok::Num(_))) {
                        self.i += 1;
                    }
                    self.skip_parens();
                }
                Some(Tok::Str) => {
                    self.i += 1;
                    if self.eat_p('=') {
                        self.i += 1;
                    }
                }
                _ => return byval,
            }
        }
    }
    fn global_addr(&self, n: &str) -> u64 {
        self.m.addr_of(n)
    }
    fn konst(&mut self, ty: &Ty) -> Const {
        match self.next() {
            Tok::Num(n) => Const::Bits(parse_num(&n, ty.bits())),
            Tok::Global(n) => Const::Bits(self.global_addr(&n) as u128),
            Tok::CStr(v) => Const::Bytes(Rc::new(v)),
            Tok::Word(w) => match w.as_str() {
                "true" => Const::Bits(1),
                "false" => Const::Bits(0),
                "null" | "none" => Const::Bits(0),
                "undef" | "poison" | "zeroinitializer" => {
                    if ty.is_agg() {
                        Const::Zero
                    } else {
                        Const::Bits(0)
                    }
                }
                "splat" => {
                    self.exp_p('(');
                    let t = self.ty();
                    let v = match self.konst(&t) {
                        Const::Bits(v) => v,
                        _ => panic!("splat"),
                    };
                    self.exp_p(')');
                    let mut o = 0u128;
                    if ty.bits() > 128 {
                        panic!("vector constant wider than 128 bits")
                    }
                    for i in 0..ty.lanes() {
                        o |= v << (i * t.bits());
                    }
                    Const::Bits(o)
                }
                "getelementptr" => {
                    while matches!(self.peek(), Some(Tok::Word(_))) {
                        self.i += 1;
                        self.skip_parens_if_not_gep();
                    }
                    self.exp_p('(');
                    let t = self.ty();
                    self.exp_p(',');
                    let pt = self.ty();
                    let base = match self.konst(&pt) {
                        Const::Bits(v) => v as u64,
                        _ => panic!(),
                    };
                    let mut idx = vec![];
                    while self.eat_p(',') {
                        let it = self.ty();
                        match self.konst(&it) {
                            Const::Bits(v) => idx.push(sext64(v, it.bits())),
                            _ => panic!(),
                        }
                    }
                    self.exp_p(')');
                    let mut off = 0u64;
                    let mut cur = t.clone();
                    for (k, x) in idx.iter().enumerate() {
                        if k == 0 {
                            off = off.wrapping_add((*x as u64).wrapping_mul(t.size()));
                        } else {
                            let o = match &cur {
                                Ty::Struct(..) => cur.field_off(*x as usize),
                                Ty::Arr(_, e) => (*x as u64).wrapping_mul(e.size()),
                                _ => panic!(),
                            };
                            off = off.wrapping_add(o);
                            cur = cur.elem(if matches!(cur, Ty::Arr(..)) { 0 } else { *x as usize }).clone();
                        }
                    }
                    Const::Bits(base.wrapping_add(off) as u128)
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "addrspacecast" => {
                    self.exp_p('(');
                    let t = self.ty();
                    let v = self.konst(&t);
                    self.word(); // to
                    let to = self.ty();
                    self.exp_p(')');
                    match v {
                        Const::Bits(v) => Const::Bits(mask(v, to.bits())),
                        _ => panic!(),
                    }
                }
                "add" | "sub" | "xor" => {
                    while matches!(self.peek(), Some(Tok::Word(_))) {
                        self.i += 1;
                    }
                    self.exp_p('(');
                    let t = self.ty();
                    let a = self.konst(&t);
                    self.exp_p(',');
                    let t2 = self.ty();
                    let b = self.konst(&t2);
                    self.exp_p(')');
                    match (a, b) {
                        (Const::Bits(a), Const::Bits(b)) => Const::Bits(mask(
                            match w.as_str() {
                                "add" => a.wrapping_add(b),
                                "sub" => a.wrapping_sub(b),
                                _ => a ^ b,
                            },
                            t.bits(),
                        )),
                        _ => panic!(),
                    }
                }
                _ => panic!("constant {} in {:?}", w, self.t),
            },
            Tok::P('[') => {
                let mut v = vec![];
                while !self.eat_p(']') {
                    let t = self.ty();
                    v.push(self.konst(&t));
                    self.eat_p(',');
                }
                Const::Agg(Rc::new(v))
            }
            Tok::P('{') => {
                let mut v = vec![];
                while !self.eat_p('}') {
                    let t = self.ty();
                    v.push(self.konst(&t));
                    self.eat_p(',');
                }
                Const::Agg(Rc::new(v))
            }
            Tok::P('<') => {
                if self.is_p('{') {
                    let c = self.konst(ty);
                    self.exp_p('>');
                    c
                } else {
                    let mut o = 0u128;
                    let mut sh = 0;
                    while !self.eat_p('>') {
                        let t = self.ty();
                        match self.konst(&t) {
                            Const::Bits(v) => {
                                if sh + t.bits() > 128 {
                                    panic!("vector constant wider than 128 bits")
                                }
                                o |= v << sh;
                            }
                            _ => panic!(),
                        }
                        sh += t.bits();
                        self.eat_p(',');
                    }
                    Const::Bits(o)
                }
            }
            x => panic!("constant expected, got {:?} in {:?}", x, self.t),
        }
    }
    fn skip_parens_if_not_gep(&mut self) {
        // `inrange(-16, 32)` style flags: a paren directly followed by a number
        if self.is_p('(') && matches!(self.t.get(self.i + 1), Some(Tok::Num(_))) {
            self.skip_parens();
        }
    }
}

pub fn sext64(v: u128, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v as i64) << (64 - w)) >> (64 - w)
    }
}

// ---------------------------------------------------------------- module

impl Module {
    pub fn addr_of(&self, n: &str) -> u64 {
        let n = self.aliases.get(n).map(|s| s.as_str()).unwrap_or(n);
        if let Some(f) = self.fidx.get(n) {
            return FUNC_BASE + 16 * *f as u64;
        }
        if let Some(g) = self.gidx.get(n) {
            return self.globals[*g].addr;
        }
        let mut e = self.externs.borrow_mut();
        if let Some(p) = e.iter().position(|x| &**x == n) {
            return EXTERN_BASE + 16 * p as u64;
        }
        e.push(n.into());
        EXTERN_BASE + 16 * (e.len() as u64 - 1)
    }

    pub fn load(text: &str) -> Module {
        let mut m = Module {
            funcs: vec![],
            fidx: HashMap::new(),
            externs: RefCell::new(vec![]),
            globals: vec![],
            gidx: HashMap::new(),
            aliases: HashMap::new(),
            types: HashMap::new(),
            globals_end: GLOBAL_BASE,
        };
        let mut lines = text.lines();
        let mut comment = String::new();
        let mut weak: Vec<String> = vec![];
        while let Some(l) = lines.next() {
            if l.starts_with("; ") {
                comment = l[2..].to_string();
                continue;
            }
            if l.starts_with("define ") {
                let mut body = vec![];
                for b in lines.by_ref() {
                    if b == "}" {
                        break;
                    }
                    body.push(b.to_string());
                }
                let at = l.find('@').unwrap();
                let name = name_at(&l[at..]);
                let id = m.funcs.len() as u32;
                m.fidx.insert(name.clone(), id);
                m.funcs.push(FuncDecl {
                    name: name.as_str().into(),
                    pretty: std::mem::take(&mut comment),
                    header: l.to_string(),
                    body,
                    parsed: RefCell::new(None),
                });
            } else if l.starts_with('@') {
                let name = name_at(l);
                let rest = &l[l.find(" = ").unwrap() + 3..];
                if rest.contains(" alias ") && !rest.contains(" global ") && !rest.contains(" constant ") {
                    let at = rest.rfind('@').unwrap();
                    m.aliases.insert(name, name_at(&rest[at..]));
                    continue;
                }
                let ext = rest.contains("extern_weak") || rest.starts_with("external ");
                // type starts after `global` or `constant`
                let mut p = None;
                for k in [" global ", " constant "] {
                    let r = format!(" {}", rest);
                    if let Some(i) = r.find(k) {
                        let e = i + k.len() - 1;
                        if p.map_or(true, |q| e < q) {
                            p = Some(e);
                        }
                    }
                }
                let p = p.unwrap_or_else(|| panic!("global {}", l));
                let body = rest[p..].to_string();
                let (ty, al) = {
                    let mut ps = P::new(&m, &body);
                    let ty = ps.ty();
                    let mut al = ty.align();
                    // find `, align N` at the top level
                    for k in 0..ps.t.len() {
                        if ps.t[k] == Tok::Word("align".into()) {
                            if let Some(Tok::Num(n)) = ps.t.get(k + 1) {
                                al = n.parse().unwrap_or(al);
                            }
                        }
                    }
                    (ty, al)
                };
                if ext {
                    weak.push(name.clone());
                }
                let addr = align_up(m.globals_end, al.max(1));
                m.globals_end = addr + ty.size().max(1);
                m.gidx.insert(name.clone(), m.globals.len());
                m.globals.push(Global { name: name.as_str().into(), ty, addr, align: al, init: if ext { None } else { Some(body) } });
            } else if l.starts_with('%') && l.contains(" = type ") {
                let i = l.find(" = type ").unwrap();
                let n = lex(&l[..i]);
                let t = {
                    let mut ps = P::new(&m, &l[i + 8..]);
                    ps.ty()
                };
                if let Tok::Local(n) = &n[0] {
                    m.types.insert(n.clone(), t);
                }
            }
            if !l.starts_with(';') {
                comment.clear();
            }
        }
        m
    }

    pub fn global_init(&self, g: &Global) -> Option<Const> {
        let b = g.init.as_ref()?;
        let mut ps = P::new(self, b);
        let t = ps.ty();
        Some(ps.konst(&t))
    }

    pub fn func(&self, id: u32) -> Rc<Func> {
        if let Some(f) = &*self.funcs[id as usize].parsed.borrow() {
            return f.clone();
        }
        let f = Rc::new(parse_func(self, id));
        *self.funcs[id as usize].parsed.borrow_mut() = Some(f.clone());
        f
    }
}

fn name_at(s: &str) -> String {
    match &lex(&s[..name_len(s)])[0] {
        Tok::Global(n) => n.clone(),
        _ => panic!(),
    }
}
fn name_len(s: &str) -> usize {
    let b = s.as_bytes();
    if b[1] == b'"' {
        let mut i = 1;
        unquote(b, &mut i);
        i
    } else {
        let mut i = 1;
        while i < b.len() && is_id(b[i]) {
            i += 1
        }
        i
    }
}

struct FB<'a> {
    m: &'a Module,
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
}

impl<'a> FB<'a> {
    fn reg(&mut self, n: &str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(k)
    }
    fn block(&mut self, n: &str) -> u32 {
        let k = self.blocks.len() as u32;
        *self.blocks.entry(n.to_string()).or_insert(k)
    }
    fn opnd(&mut self, p: &mut P, ty: &Ty) -> Opnd {
        if let Some(Tok::Local(n)) = p.peek() {
            let n = n.clone();
            p.i += 1;
            return Opnd::Reg(self.reg(&n));
        }
        if *ty == Ty::Other {
            // metadata argument
            while !matches!(p.peek(), None | Some(Tok::P(',')) | Some(Tok::P(')'))) {
                p.i += 1;
                p.skip_parens();
            }
            return Opnd::None;
        }
        match p.konst(ty) {
            Const::Bits(v) => Opnd::K(v),
            c => Opnd::Agg(Rc::new((ty.clone(), c))),
        }
    }
    fn tyop(&mut self, p: &mut P) -> (Ty, Opnd) {
        let t = p.ty();
        let o = self.opnd(p, &t);
        (t, o)
    }
    fn label(&mut self, p: &mut P) -> u32 {
        if !p.eat_w("label") {
            panic!("label expected in {:?}", p.t)
        }
        match p.next() {
            Tok::Local(n) => self.block(&n),
            x => panic!("label {:?}", x),
        }
    }
}

fn parse_func(m: &Module, id: u32) -> Func {
    let d = &m.funcs[id as usize];
    let mut fb = FB { m, regs: HashMap::new(), blocks: HashMap::new() };
    // header
    let mut p = P::new(m, &d.header);
    p.word();
    p.skip_to_type();
    let ret = p.ty();
    match p.next() {
        Tok::Global(_) => {}
        x => panic!("define {:?} {}", x, d.header),
    }
    p.exp_p('(');
    let mut params = vec![];
    let mut unnamed = 0;
    let mut unsup = None;
    while !p.eat_p(')') {
        if p.eat_p(',') {
            continue;
        }
        if matches!(p.peek(), Some(Tok::Dots)) {
            p.i += 1;
            continue;
        }
        let _t = p.ty();
        if p.skip_attrs() {
            unsup = Some("byval parameter");
        }
        match p.peek() {
            Some(Tok::Local(n)) => {
                let n = n.clone();
                p.i += 1;
                if n == unnamed.to_string() {
                    unnamed += 1;
                }
                let r = fb.reg(&n);
                params.push(r);
            }
            _ => {
                let r = fb.reg(&unnamed.to_string());
                unnamed += 1;
                params.push(r);
            }
        }
    }
    // logical lines
    let mut logical: Vec<String> = vec![];
    let mut in_switch = false;
    for l in &d.body {
        let t = l.trim_start();
        if t.is_empty() || t.starts_with(';') || t.starts_with("#dbg") {
            continue;
        }
        if in_switch {
            let last = logical.last_mut().unwrap();
            last.push(' ');
            last.push_str(t);
            if t.starts_with(']') {
                in_switch = false;
            }
            continue;
        }
        if l.starts_with("          ") || (t.starts_with("to label ") || t == "cleanup" || t.starts_with("catch ") || t.starts_with("filter ")) {
            let last = logical.last_mut().unwrap();
            last.push(' ');
            last.push_str(t);
            continue;
        }
        logical.push(t.to_string());
        if t.starts_with("switch ") && t.ends_with('[') {
            in_switch = true;
        }
    }
    let mut blocks: HashMap<u32, Block> = HashMap::new();
    let mut cur: Option<u32> = None;
    let mut first = true;
    for l in &logical {
        // block label?
        if let Some(lbl) = as_label(l) {
            let b = fb.block(&lbl);
            blocks.insert(b, Block { phis: vec![], edges: vec![], insts: vec![] });
            cur = Some(b);
            first = false;
            continue;
        }
        if first {
            let b = fb.block(&unnamed.to_string());
            blocks.insert(b, Block { phis: vec![], edges: vec![], insts: vec![] });
            cur = Some(b);
            first = false;
        }
        let b = cur.unwrap();
        let blk = parse_inst(&mut fb, l);
        let blkref = blocks.get_mut(&b).unwrap();
        match blk {
            PI::Phi(dst, map) => blkref.phis.push((dst, map)),
            // calls without an effect (lifetimes, assumptions) are dropped
            PI::I(Inst { op: Op::Call(c), dst: NODST }) if c.normal.is_none() && matches!(c.callee, Callee::Nop) => {}
            PI::I(i) => blkref.insts.push(i),
        }
    }
    let n = fb.blocks.len() as u32;
    let mut bv = vec![];
    for i in 0..n {
        bv.push(blocks.remove(&i).unwrap_or_else(|| panic!("undefined block {} in {}", i, d.name)));
    }
    for b in bv.iter_mut() {
        let mut preds: Vec<u32> = b.phis.iter().flat_map(|(_, m)| m.keys().copied()).collect();
        preds.sort();
        preds.dedup();
        b.edges = preds.into_iter().map(|p| (p, b.phis.iter().map(|(d, m)| (*d, m[&p].clone())).collect())).collect();
    }
    if let Some(u) = unsup {
        bv[0].insts.insert(0, Inst { op: Op::Unsupported(u.into()), dst: NODST });
    }
    Func { name: d.name.clone(), id, params, ret, blocks: bv, n_regs: fb.regs.len() as u32 }
}

fn as_label(l: &str) -> Option<String> {
    // `name:` optionally followed by a comment
    let core = match l.find("; preds") {
        Some(i) if !l.contains(" = ") || l[..i].trim_end().ends_with(':') => l[..i].trim_end(),
        _ => l.trim_end(),
    };
    let c = core.strip_suffix(':')?;
    if c.starts_with('"') {
        let b = c.as_bytes();
        let mut i = 0;
        let v = unquote(b, &mut i);
        return Some(String::from_utf8_lossy(&v).into_owned());
    }
    if c.bytes().all(is_id) && !c.is_empty() {
        Some(c.to_string())
    } else {
        None
    }
}

enum PI {
    Phi(u32, FxMap<u32, Opnd>),
    I(Inst),
}

fn parse_inst(fb: &mut FB, l: &str) -> PI {
    let mut p = P::new(fb.m, l);
    let mut dst = NODST;
    if let (Some(Tok::Local(n)), Some(Tok::P('='))) = (p.t.get(0).cloned(), p.t.get(1)) {
        dst = fb.reg(&n);
        p.i = 2;
    }
    let mut w = p.word();
    while matches!(w.as_str(), "tail" | "musttail" | "notail") {
        w = p.word();
    }
    let op = match w.as_str() {
        "phi" => {
            let t = {
                while !p.at_type() {
                    p.i += 1
                }
                p.ty()
            };
            let mut map = FxMap::default();
            loop {
                p.exp_p('[');
                let v = fb.opnd(&mut p, &t);
                p.exp_p(',');
                let b = match p.next() {
                    Tok::Local(n) => fb.block(&n),
                    x => panic!("phi {:?}", x),
                };
                p.exp_p(']');
                map.insert(b, v);
                if !(p.is_p(',') && p.t.get(p.i + 1) == Some(&Tok::P('['))) {
                    break;
                }
                p.i += 1;
            }
            return PI::Phi(dst, map);
        }
        "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
            while !p.at_type() {
                p.i += 1
            }
            let t = p.ty();
            let a = fb.opnd(&mut p, &t);
            p.exp_p(',');
            let b = fb.opnd(&mut p, &t);
            let k = match w.as_str() {
                "add" => Bin::Add,
                "sub" => Bin::Sub,
                "mul" => Bin::Mul,
                "udiv" => Bin::UDiv,
                "sdiv" => Bin::SDiv,
                "urem" => Bin::URem,
                "srem" => Bin::SRem,
                "shl" => Bin::Shl,
                "lshr" => Bin::LShr,
                "ashr" => Bin::AShr,
                "and" => Bin::And,
                "or" => Bin::Or,
                _ => Bin::Xor,
            };
            Op::Bin(k, t.lanes(), t.lane_bits(), a, b)
        }
        "icmp" => {
            let mut pr = p.word();
            if pr == "samesign" {
                pr = p.word();
            }
            let t = p.ty();
            let a = fb.opnd(&mut p, &t);
            p.exp_p(',');
            let b = fb.opnd(&mut p, &t);
            let k = match pr.as_str() {
                "eq" => Pred::Eq,
                "ne" => Pred::Ne,
                "ugt" => Pred::Ugt,
                "uge" => Pred::Uge,
                "ult" => Pred::Ult,
                "ule" => Pred::Ule,
                "sgt" => Pred::Sgt,
                "sge" => Pred::Sge,
                "slt" => Pred::Slt,
                "sle" => Pred::Sle,
                _ => panic!("icmp {}", pr),
            };
            Op::ICmp(k, t.lanes(), t.lane_bits(), a, b)
        }
        "select" => {
            while !p.at_type() {
                p.i += 1
            }
            let (ct, c) = fb.tyop(&mut p);
            p.exp_p(',');
            let (t, a) = fb.tyop(&mut p);
            p.exp_p(',');
            let (_, b) = fb.tyop(&mut p);
            Op::Select(ct.lanes(), if t == Ty::Ptr { PTRSEL } else { t.bits() }, c, a, b)
        }
        "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "ptrtoaddr" => {
            while !p.at_type() {
                p.i += 1
            }
            let (t, a) = fb.tyop(&mut p);
            p.word();
            let to = p.ty();
            if t.is_agg() || to.is_agg() || t == Ty::Other || to == Ty::Other {
                Op::Unsupported(format!("cast {}", l).into())
            } else {
                match w.as_str() {
                    "zext" => Op::Cast(Cast::Zext, t.lanes(), t.lane_bits(), to.lane_bits(), a),
                    "sext" => Op::Cast(Cast::Sext, t.lanes(), t.lane_bits(), to.lane_bits(), a),
                    "trunc" => Op::Cast(Cast::Trunc, t.lanes(), t.lane_bits(), to.lane_bits(), a),
                    "bitcast" | "addrspacecast" => Op::Cast(Cast::Move, 1, t.bits(), to.bits(), a),
                    _ => {
                        if t.lanes() > 1 {
                            Op::Unsupported("vector ptr cast".into())
                        } else if t.bits() == to.bits() {
                            Op::Cast(Cast::Move, 1, 64, 64, a)
                        } else if t.bits() > to.bits() {
                            Op::Cast(Cast::Trunc, 1, t.bits(), to.bits(), a)
                        } else {
                            Op::Cast(Cast::Zext, 1, t.bits(), to.bits(), a)
                        }
                    }
                }
            }
        }
        "freeze" => {
            let (t, a) = fb.tyop(&mut p);
            Op::Cast(Cast::Move, 1, t.bits(), t.bits(), a)
        }
        "getelementptr" => {
            while !p.at_type() {
                p.i += 1;
                p.skip_parens();
            }
            let t = p.ty();
            p.exp_p(',');
            let (pt, base) = fb.tyop(&mut p);
            if pt != Ty::Ptr {
                return PI::I(Inst { op: Op::Unsupported("vector gep".into()), dst });
            }
            let mut off = 0u64;
            let mut dyns = vec![];
            let mut cur = t.clone();
            let mut k = 0;
            while p.is_p(',') {
                p.i += 1;
                if !p.at_type() {
                    break;
                }
                let (it, x) = fb.tyop(&mut p);
                let scale;
                if k == 0 {
                    scale = t.size();
                } else {
                    match cur.clone() {
                        Ty::Struct(f, _) => {
                            let i = match x {
                                Opnd::K(v) => v as usize,
                                _ => panic!("dynamic struct index"),
                            };
                            off = off.wrapping_add(cur.field_off(i));
                            cur = f[i].clone();
                            k += 1;
                            continue;
                        }
                        Ty::Arr(_, e) => {
                            scale = e.size();
                            cur = *e;
                        }
                        Ty::Vec(_, e) => {
                            scale = e.size();
                            cur = *e;
                        }
                        _ => panic!("gep into scalar {}", l),
                    }
                }
                match x {
                    Opnd::K(v) => off = off.wrapping_add((sext64(v, it.bits()) as u64).wrapping_mul(scale)),
                    o => dyns.push((o, it.bits(), scale)),
                }
                k += 1;
            }
            Op::Gep(base, off, dyns)
        }
        "load" => {
            while !p.at_type() {
                p.i += 1
            }
            let t = p.ty();
            p.exp_p(',');
            let (_, a) = fb.tyop(&mut p);
            Op::Load(t, a)
        }
        "store" => {
            while !p.at_type() {
                p.i += 1
            }
            let (t, v) = fb.tyop(&mut p);
            p.exp_p(',');
            let (_, a) = fb.tyop(&mut p);
            Op::Store(t, v, a)
        }
        "alloca" => {
            while !p.at_type() {
                p.i += 1
            }
            let t = p.ty();
            let mut al = t.align();
            let mut sz = t.size();
            while p.eat_p(',') {
                if p.eat_w("align") {
                    al = p.num();
                } else if p.at_type() {
                    let (_, n) = fb.tyop(&mut p);
                    match n {
                        Opnd::K(n) => sz *= n as u64,
                        _ => panic!("dynamic alloca"),
                    }
                } else {
                    break;
                }
            }
            Op::Alloca(sz, al)
        }
        "br" => {
            if p.is_w("label") {
                let b = fb.label(&mut p);
                Op::Br(b)
            } else {
                let (_, c) = fb.tyop(&mut p);
                p.exp_p(',');
                let a = fb.label(&mut p);
                p.exp_p(',');
                let b = fb.label(&mut p);
                Op::CondBr(c, a, b)
            }
        }
        "switch" => {
            let (t, v) = fb.tyop(&mut p);
            p.exp_p(',');
            let d = fb.label(&mut p);
            p.exp_p('[');
            let mut map = FxMap::default();
            while !p.eat_p(']') {
                let ct = p.ty();
                let c = match p.konst(&ct) {
                    Const::Bits(v) => v,
                    _ => panic!(),
                };
                p.exp_p(',');
                let b = fb.label(&mut p);
                map.insert(c, b);
            }
            Op::Switch(t.bits(), v, Rc::new(map), d)
        }
        "ret" => {
            if p.is_w("void") {
                Op::Ret(Opnd::None)
            } else {
                let (_, v) = fb.tyop(&mut p);
                Op::Ret(v)
            }
        }
        "unreachable" => Op::Unreachable,
        "resume" | "landingpad" => Op::Unsupported(w.as_str().into()),
        "fence" => Op::Fence,
        "call" | "invoke" => {
            p.skip_to_type();
            let ret = p.ty();
            if p.is_p('(') {
                p.skip_parens(); // function type of a varargs call
            }
            let mut c = match p.peek() {
                Some(Tok::Word(a)) if a == "asm" => {
                    while !p.is_p('(') {
                        p.i += 1
                    }
                    if l.contains("\"div ${2:q}\", \"=&{dx},=&{ax},r,0,1,") {
                        // num-bigint's two-digit division
                        Callee::Intrinsic("llvm.asmdiv".into())
                    } else if l.contains(" asm sideeffect \"\"") || l.contains(" asm \"\"") {
                        Callee::Nop
                    } else {
                        Callee::Extern("inline assembly".into())
                    }
                }
                _ => match p.next() {
                    Tok::Global(n) => {
                        let n = fb.m.aliases.get(&n).cloned().unwrap_or(n);
                        if n.starts_with("llvm.") {
                            Callee::Intrinsic(n.as_str().into())
                        } else if let Some(f) = fb.m.fidx.get(&n) {
                            Callee::Func(*f)
                        } else {
                            Callee::Extern(n.as_str().into())
                        }
                    }
                    Tok::Local(n) => Callee::Indirect(Opnd::Reg(fb.reg(&n))),
                    x => panic!("callee {:?} in {}", x, l),
                },
            };
            if let Callee::Intrinsic(n) = &c {
                let n: &str = n;
                if n.starts_with("llvm.lifetime") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.dbg") || n == "llvm.assume" || n.starts_with("llvm.x86.sse2.pause") || n.starts_with("llvm.invariant") {
                    c = Callee::Nop;
                }
            }
            p.exp_p('(');
            let mut args = vec![];
            let mut arg_ty = vec![];
            let mut bv = false;
            if matches!(c, Callee::Nop) {
                let mut d = 1;
                while d > 0 {
                    match p.next() {
                        Tok::P('(') => d += 1,
                        Tok::P(')') => d -= 1,
                        _ => {}
                    }
                }
            } else {
                while !p.eat_p(')') {
                    if p.eat_p(',') {
                        continue;
                    }
                    let t = p.ty();
                    if t != Ty::Other {
                        bv |= p.skip_attrs();
                    }
                    args.push(fb.opnd(&mut p, &t));
                    arg_ty.push(t);
                }
            }
            let mut normal = None;
            if w == "invoke" {
                while !p.is_w("to") {
                    p.i += 1
                }
                p.i += 1;
                normal = Some(fb.label(&mut p));
            }
            if bv {
                Op::Unsupported("byval argument".into())
            } else {
                Op::Call(Box::new(CallI { quick: quick(&c), callee: c, args, arg_ty, ret, normal }))
            }
        }
        "extractvalue" => {
            let (_, a) = fb.tyop(&mut p);
            let mut path = vec![];
            while p.is_p(',') && matches!(p.t.get(p.i + 1), Some(Tok::Num(_))) {
                p.i += 1;
                path.push(p.num() as u32);
            }
            Op::Extract(a, path)
        }
        "insertvalue" => {
            let (t, a) = fb.tyop(&mut p);
            p.exp_p(',');
            let (_, v) = fb.tyop(&mut p);
            let mut path = vec![];
            while p.is_p(',') && matches!(p.t.get(p.i + 1), Some(Tok::Num(_))) {
                p.i += 1;
                path.push(p.num() as u32);
            }
            Op::Insert(t, a, v, path)
        }
        "extractelement" => {
            let (t, a) = fb.tyop(&mut p);
            p.exp_p(',');
            let (_, i) = fb.tyop(&mut p);
            Op::ExtElem(t.lanes(), t.lane_bits(), a, i)
        }
        "insertelement" => {
            let (t, a) = fb.tyop(&mut p);
            p.exp_p(',');
            let (_, v) = fb.tyop(&mut p);
            p.exp_p(',');
            let (_, i) = fb.tyop(&mut p);
            Op::InsElem(t.lanes(), t.lane_bits(), a, v, i)
        }
        "shufflevector" => {
            let (t, a) = fb.tyop(&mut p);
            p.exp_p(',');
            let (_, b) = fb.tyop(&mut p);
            p.exp_p(',');
            let mt = p.ty();
            let mut mask = vec![];
            match p.next() {
                Tok::Word(w) if w == "splat" => {
                    p.exp_p('(');
                    p.ty();
                    let n = p.num() as u32;
                    mask = vec![Some(n); mt.lanes() as usize];
                }
                Tok::Word(_) => mask = vec![Some(0); mt.lanes() as usize],
                Tok::P('<') => {
                    while !p.eat_p('>') {
                        p.ty();
                        match p.next() {
                            Tok::Num(n) => mask.push(Some(n.parse().unwrap())),
                            _ => mask.push(None),
                        }
                        p.eat_p(',');
                    }
                }
                x => panic!("shuffle mask {:?}", x),
            }
            Op::Shuffle(t.lanes(), t.lane_bits(), a, b, mask)
        }
        "atomicrmw" => {
            let mut k = p.word();
            if k == "volatile" {
                k = p.word();
            }
            let (_, a) = fb.tyop(&mut p);
            p.exp_p(',');
            let (t, v) = fb.tyop(&mut p);
            Op::Rmw(k.as_str().into(), t, a, v)
        }
        "cmpxchg" => {
            while !p.at_type() {
                p.i += 1
            }
            let (_, a) = fb.tyop(&mut p);
            p.exp_p(',');
            let (t, c) = fb.tyop(&mut p);
            p.exp_p(',');
            let (_, n) = fb.tyop(&mut p);
            Op::CmpXchg(t, a, c, n)
        }
        _ => Op::Unsupported(l.into()),
    };
    PI::I(Inst { op, dst })
}
