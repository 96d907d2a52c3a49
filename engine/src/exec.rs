//! Symbolic execution of the parsed IR.
use crate::aig::*;
use crate::ir::*;
use crate::mem::*;
use crate::sat::*;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum Val {
    C(u128),
    S(Rc<[Lit]>),
    A(Rc<Vec<Val>>),
}
use Val::*;

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub regs: Vec<Val>,
    pub bb: u32,
    pub ip: u32,
    pub sp: u64,
    pub dst: u32,
    pub normal: Option<u32>,
}

#[derive(Clone)]
pub struct State {
    pub mem: Mem,
    pub frames: Vec<Frame>,
    pub pc: Vec<Lit>,
    pub known: Rc<FxMap<u32, bool>>,
    pub model: Rc<Vec<bool>>,
    pub n_in: usize,
    pub events: Vec<Rc<[Lit]>>,
    pub allow_panic: bool,
    pub obs: Vec<Val>,
    pub steps: u64,
    pub depth: u32,
    pub choices: u32,
    pub chash: u64,
    pub seedctr: u64,
    pub marks: Vec<Rc<str>>,
}

pub enum Stop {
    /// path ended normally / was abandoned as infeasible
    End,
    Dead,
    Panic(String),
    Violation(String, Vec<(u32, bool)>),
    Error(String),
    /// a resource limit of the analysis: the path stays undecided
    Limit(String),
}
type R<X> = Result<X, Stop>;

#[derive(Default)]
pub struct Out {
    pub paths: u64,
    pub dead: u64,
    pub panics_ok: u64,
    pub limited: u64,
    pub asserts: u64,
    pub asserts_trivial: u64,
    pub asserts_proved: u64,
    pub steps: u64,
    pub forks: u64,
    pub covers: BTreeMap<String, u64>,
    pub labels: BTreeMap<String, u64>,
    pub known: BTreeMap<String, (u64, Vec<u64>)>,
    pub violations: Vec<Viol>,
    pub witnesses: Vec<(Vec<u64>, Vec<u64>, bool)>,
    pub errors: Vec<String>,
    pub incomplete: Option<String>,
    pub max_inputs: usize,
    pub shard_dropped: u64,
}
pub struct Viol {
    pub what: String,
    pub events: Vec<u64>,
}

pub struct Cfg {
    pub params: Vec<u64>,
    pub time_limit: f64,
    pub max_steps: u64,
    pub max_viol: usize,
    pub witness: usize,
    pub shard: (u64, u64),
    pub shard_depth: u32,
    pub max_enum: usize,
    pub conc_rot: bool,
    pub verbose: bool,
    pub hseed: u64,
}

pub struct Engine<'m> {
    pub m: &'m Module,
    pub aig: Aig,
    pub pr: Prover,
    pub cfg: Cfg,
    pub out: Out,
    pub work: Vec<State>,
    pub called: Vec<bool>,
    pool: Vec<Vec<Val>>,
    special: Vec<bool>,
    alloc_kind: Vec<u8>,
    mv: Vec<u32>,
    mep: u32,
    supp: FxMap<u32, Rc<Vec<u32>>>,
    panic_fn: Vec<bool>,
    start: Instant,
    errno: u64,
    wit_ctr: u64,
}

const A_SHIM: u8 = 1;
const A_ERROR: u8 = 2;
const A_DEALLOC: u8 = 3;
const A_REALLOC: u8 = 4;
const A_ALLOC: u8 = 5;
const A_ZEROED: u8 = 6;

const PANICS: &[&str] = &[
    "4core9panicking",
    "6option13unwrap_failed",
    "6option13expect_failed",
    "6result13unwrap_failed",
    "panic_already_borrowed",
    "panic_already_mutably_borrowed",
    "slice_index_fail",
    "18handle_alloc_error",
    "17rust_begin_unwind",
    "begin_panic",
    "7process5abort",
    "7process4exit",
    "14panic_in_nounwind",
];

fn lits_of_const(v: u128, w: u32) -> Vec<Lit> {
    Aig::w_const(v, w as usize)
}

fn pack(l: Vec<Lit>) -> Val {
    if l.len() <= 128 && l.iter().all(|x| *x <= 1) {
        let mut v = 0u128;
        for (i, x) in l.iter().enumerate() {
            v |= (*x as u128) << i;
        }
        C(v)
    } else {
        S(l.into())
    }
}

fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

fn bin_c(k: Bin, w: u32, a: u128, b: u128) -> Option<u128> {
    Some(mask(
        match k {
            Bin::Add => a.wrapping_add(b),
            Bin::Sub => a.wrapping_sub(b),
            Bin::Mul => a.wrapping_mul(b),
            Bin::UDiv => a.checked_div(b)?,
            Bin::URem => a.checked_rem(b)?,
            Bin::SDiv => sx(a, w).checked_div(sx(b, w))? as u128,
            Bin::SRem => sx(a, w).checked_rem(sx(b, w))? as u128,
            Bin::Shl => {
                if b >= w as u128 {
                    0
                } else {
                    a << b
                }
            }
            Bin::LShr => {
                if b >= w as u128 {
                    0
                } else {
                    a >> b
                }
            }
            Bin::AShr => {
                if b >= w as u128 {
                    0
                } else {
                    (sx(a, w) >> b) as u128
                }
            }
            Bin::And => a & b,
            Bin::Or => a | b,
            Bin::Xor => a ^ b,
        },
        w,
    ))
}

fn cmp_c(k: Pred, w: u32, a: u128, b: u128) -> bool {
    match k {
        Pred::Eq => a == b,
        Pred::Ne => a != b,
        Pred::Ugt => a > b,
        Pred::Uge => a >= b,
        Pred::Ult => a < b,
        Pred::Ule => a <= b,
        Pred::Sgt => sx(a, w) > sx(b, w),
        Pred::Sge => sx(a, w) >= sx(b, w),
        Pred::Slt => sx(a, w) < sx(b, w),
        Pred::Sle => sx(a, w) <= sx(b, w),
    }
}

#[inline]
fn lane(v: u128, i: u32, w: u32) -> u128 {
    if w >= 128 {
        v
    } else {
        mask(v >> (i * w), w)
    }
}

impl<'m> Engine<'m> {
    pub fn new(m: &'m Module, pr: Prover, cfg: Cfg) -> Self {
        let alloc_kind: Vec<u8> = m
            .funcs
            .iter()
            .map(|f| {
                let has = |p: &str| f.name.contains(p);
                if has("no_alloc_shim") {
                    A_SHIM
                } else if has("___rust_alloc_error") {
                    A_ERROR
                } else if has("___rust_dealloc") {
                    A_DEALLOC
                } else if has("___rust_realloc") {
                    A_REALLOC
                } else if has("___rust_alloc_zeroed") {
                    A_ZEROED
                } else if has("___rust_alloc") {
                    A_ALLOC
                } else {
                    0
                }
            })
            .collect();
        let panic_fn: Vec<bool> = m.funcs.iter().map(|f| PANICS.iter().any(|p| f.name.contains(p)) || &*f.name == "rust_begin_unwind").collect();
        Engine {
            m,
            aig: Aig::new(),
            pr,
            cfg,
            out: Default::default(),
            work: vec![],
            called: vec![false; m.funcs.len()],
            pool: vec![],
            alloc_kind: alloc_kind.clone(),
            special: panic_fn.iter().zip(&alloc_kind).map(|(a, b)| *a || *b != 0).collect(),
            mv: vec![],
            mep: 1,
            supp: Default::default(),
            panic_fn,
            start: Instant::now(),
            errno: 0,
            wit_ctr: 0,
        }
    }

    // ------------------------------------------------------------ setup
    fn init_const(mem: &mut Mem, addr: u64, ty: &Ty, c: &Const) -> Result<(), Fault> {
        match c {
            Const::Zero => Ok(()),
            Const::Bits(v) => mem.store_c(addr, ty.store_size(), *v),
            Const::Bytes(b) => mem.write_bytes(addr, b),
            Const::Agg(v) => {
                for (i, x) in v.iter().enumerate() {
                    Self::init_const(mem, addr + ty.field_off(i), ty.elem(i), x)?;
                }
                Ok(())
            }
        }
    }
    pub fn start_state(&mut self, entry: &str) -> Result<State, String> {
        let fid = *self.m.fidx.get(entry).ok_or(format!("entry function {} not found", entry))?;
        let mut mem = Mem::new(self.m.globals_end + 4096);
        for g in &self.m.globals {
            if let Some(c) = self.m.global_init(g) {
                Self::init_const(&mut mem, g.addr, &g.ty, &c).map_err(|_| "global init".to_string())?;
            }
        }
        self.errno = mem.malloc(16, 16).unwrap();
        let f = self.m.func(fid);
        self.called[fid as usize] = true;
        let sp = mem.sp;
        let fr = Frame { regs: vec![C(0); f.n_regs as usize], bb: 0, ip: 0, sp, dst: NODST, normal: None, f };
        Ok(State {
            mem,
            frames: vec![fr],
            pc: vec![],
            known: Default::default(),
            model: Default::default(),
            n_in: 0,
            events: vec![],
            allow_panic: false,
            obs: vec![],
            steps: 0,
            depth: 0,
            choices: 0,
            chash: 0,
            seedctr: 0,
            marks: vec![],
        })
    }

    // ------------------------------------------------------------ model / path condition
    fn new_model(&mut self) {
        self.mep += 1;
        if self.mep >= 1 << 30 {
            self.mep = 1;
            self.mv.iter_mut().for_each(|x| *x = 0);
        }
    }
    pub fn eval(&mut self, s: &State, l: Lit) -> bool {
        if l <= 1 {
            return l == 1;
        }
        if self.mv.len() < self.aig.nodes.len() {
            self.mv.resize(self.aig.nodes.len() * 2, 0);
        }
        let root = l >> 1;
        let e = self.mep;
        if self.mv[root as usize] >> 1 != e {
            let mut st = vec![root];
            while let Some(&n) = st.last() {
                if self.mv[n as usize] >> 1 == e {
                    st.pop();
                    continue;
                }
                let nd = self.aig.nodes[n as usize];
                let v = match nd.kind {
                    Kind::Const => false,
                    Kind::Input => s.model.get(nd.a as usize).copied().unwrap_or(false),
                    Kind::And | Kind::Xor => {
                        let (x, y) = (self.mv[(nd.a >> 1) as usize], self.mv[(nd.b >> 1) as usize]);
                        let mut ok = true;
                        if x >> 1 != e {
                            st.push(nd.a >> 1);
                            ok = false;
                        }
                        if y >> 1 != e {
                            st.push(nd.b >> 1);
                            ok = false;
                        }
                        if !ok {
                            continue;
                        }
                        let (p, q) = ((x & 1) ^ (nd.a & 1), (y & 1) ^ (nd.b & 1));
                        if nd.kind == Kind::And {
                            p & q == 1
                        } else {
                            p ^ q == 1
                        }
                    }
                };
                self.mv[n as usize] = e << 1 | v as u32;
                st.pop();
            }
        }
        (self.mv[root as usize] & 1) ^ (l & 1) == 1
    }
    fn eval_word(&mut self, s: &State, l: &[Lit]) -> u128 {
        let mut v = 0u128;
        for (i, x) in l.iter().enumerate().take(128) {
            v |= (self.eval(s, *x) as u128) << i;
        }
        v
    }
    fn simp(&self, s: &State, l: Lit) -> Lit {
        if l <= 1 || s.known.is_empty() {
            return l;
        }
        match s.known.get(&(l >> 1)) {
            Some(v) => (*v as u32) ^ (l & 1),
            None => l,
        }
    }
    /// record that `l` holds on this path
    fn learn(&mut self, s: &mut State, l: Lit) {
        let known = Rc::make_mut(&mut s.known);
        let mut st = vec![l];
        while let Some(l) = st.pop() {
            if l <= 1 || known.contains_key(&(l >> 1)) {
                continue;
            }
            known.insert(l >> 1, l & 1 == 0);
            let nd = self.aig.nodes[(l >> 1) as usize];
            match nd.kind {
                Kind::And if l & 1 == 0 => {
                    st.push(nd.a);
                    st.push(nd.b);
                }
                Kind::And => {
                    for (x, y) in [(nd.a, nd.b), (nd.b, nd.a)] {
                        if let Some(v) = known.get(&(x >> 1)) {
                            if *v ^ (x & 1 == 1) {
                                st.push(neg(y));
                            }
                        }
                    }
                }
                Kind::Xor => {
                    for (x, y) in [(nd.a, nd.b), (nd.b, nd.a)] {
                        if let Some(v) = known.get(&(x >> 1)) {
                            let xv = *v ^ (x & 1 == 1);
                            // x ^ y == (l & 1 == 0)
                            let yv = xv ^ (l & 1 == 0);
                            st.push(if yv { y } else { neg(y) });
                        }
                    }
                }
                _ => {}
            }
        }
    }
    fn support(&mut self, l: Lit) -> Rc<Vec<u32>> {
        if let Some(r) = self.supp.get(&(l >> 1)) {
            return r.clone();
        }
        let c = self.pr.cone(&self.aig, &[l]);
        let r: Vec<u32> = c.iter().filter(|n| self.aig.nodes[**n as usize].kind == Kind::Input).map(|n| self.aig.nodes[*n as usize].a).collect();
        let r = Rc::new(r);
        self.supp.insert(l >> 1, r.clone());
        r
    }
    /// Satisfiability of pc and `extra`; only the part of pc connected to `extra` is sent to the solver
    /// (the current model satisfies the rest).
    fn query(&mut self, s: &State, extra: &[Lit]) -> R<Option<Rc<Vec<bool>>>> {
        let mut ins: BTreeSet<u32> = Default::default();
        for l in extra {
            if *l == F {
                return Ok(None);
            }
            for i in self.support(*l).iter() {
                ins.insert(*i);
            }
        }
        let mut asm: Vec<Lit> = extra.to_vec();
        let sup: Vec<Rc<Vec<u32>>> = s.pc.iter().map(|l| self.support(*l)).collect();
        let mut used = vec![false; s.pc.len()];
        loop {
            let mut ch = false;
            for i in 0..sup.len() {
                if !used[i] && sup[i].iter().any(|x| ins.contains(x)) {
                    used[i] = true;
                    ch = true;
                    asm.push(s.pc[i]);
                    for x in sup[i].iter() {
                        ins.insert(*x);
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let (a, m) = self.pr.solve(&self.aig, &asm);
        match a {
            Ans::Unsat => Ok(None),
            Ans::Sat => {
                let mut v = (*s.model).clone();
                v.resize(v.len().max(self.aig.inputs.len()), false);
                for (k, b) in m {
                    v[k as usize] = b;
                }
                Ok(Some(Rc::new(v)))
            }
            Ans::Unknown => Err(Stop::Limit("solver gave no answer within its limits".into())),
        }
    }
    fn assume(&mut self, s: &mut State, l: Lit) -> R<()> {
        let l = self.simp(s, l);
        if l == T {
            return Ok(());
        }
        if l == F {
            return Err(Stop::Dead);
        }
        if !self.eval(s, l) {
            match self.query(s, &[l])? {
                None => return Err(Stop::Dead),
                Some(m) => {
                    s.model = m;
                    self.new_model();
                }
            }
        }
        s.pc.push(l);
        self.learn(s, l);
        Ok(())
    }
    fn push_fork(&mut self, s: &State, l: Lit, m: Rc<Vec<bool>>) {
        let mut t = s.clone();
        t.model = m;
        t.pc.push(l);
        t.depth += 1;
        self.learn(&mut t, l);
        self.out.forks += 1;
        self.work.push(t);
    }
    /// Decide a symbolic condition, forking if both sides are feasible (the fork re-executes the current instruction).
    fn decide(&mut self, s: &mut State, c: Lit) -> R<bool> {
        let c = self.simp(s, c);
        if c <= 1 {
            return Ok(c == T);
        }
        let v = self.eval(s, c);
        let other = if v { neg(c) } else { c };
        match self.query(s, &[other])? {
            None => {
                self.learn(s, neg(other));
            }
            Some(m) => {
                self.push_fork(s, other, m);
                s.pc.push(neg(other));
                s.depth += 1;
                self.learn(s, neg(other));
            }
        }
        Ok(v)
    }
    fn eq_const(&mut self, l: &[Lit], v: u128) -> Lit {
        let mut t: Vec<Lit> = l.iter().enumerate().map(|(i, x)| if i < 128 && v >> i & 1 == 1 { *x } else { neg(*x) }).collect();
        self.aig.and_all(&mut t)
    }
    /// All feasible values of a word under the path condition.
    fn enumerate(&mut self, s: &State, l: &[Lit], limit: usize) -> R<Vec<(u128, Rc<Vec<bool>>)>> {
        let v0 = self.eval_word(s, l);
        let mut vals = vec![(v0, s.model.clone())];
        let mut block = vec![neg(self.eq_const(l, v0))];
        loop {
            match self.query(s, &block)? {
                None => return Ok(vals),
                Some(m) => {
                    let t = State { model: m.clone(), ..s.clone_light() };
                    self.new_model();
                    let v = self.eval_word(&t, l);
                    self.new_model();
                    vals.push((v, m));
                    if vals.len() > limit {
                        return Err(Stop::Error(format!("more than {} feasible values for a word that must be concrete", limit)));
                    }
                    let e = self.eq_const(l, v);
                    block.push(neg(e));
                }
            }
        }
    }
    fn concretize(&mut self, s: &mut State, v: &Val, w: u32) -> R<u128> {
        match v {
            C(x) => Ok(*x),
            A(_) => Err(Stop::Error("aggregate where a scalar was expected".into())),
            S(l) => {
                let l: Vec<Lit> = l.iter().map(|x| self.simp(s, *x)).collect();
                if let C(x) = pack(l.clone()) {
                    return Ok(x);
                }
                let _ = w;
                let vals = self.enumerate(s, &l, self.cfg.max_enum)?;
                let (v0, _) = vals[0];
                for (x, m) in vals.iter().skip(1).rev() {
                    let e = self.eq_const(&l, *x);
                    self.push_fork(s, e, m.clone());
                }
                let e = self.eq_const(&l, v0);
                if vals.len() > 1 {
                    s.pc.push(e);
                    s.depth += 1;
                }
                self.learn(s, e);
                Ok(v0)
            }
        }
    }

    // ------------------------------------------------------------ values
    fn agg_const(&self, ty: &Ty, c: &Const) -> Val {
        if !ty.is_agg() {
            return match c {
                Const::Bits(v) => C(*v),
                _ => C(0),
            };
        }
        let n = ty.n_elems();
        A(Rc::new(
            (0..n)
                .map(|i| match c {
                    Const::Agg(v) => self.agg_const(ty.elem(i), &v[i]),
                    Const::Bytes(b) => C(b[i] as u128),
                    _ => self.agg_const(ty.elem(i), &Const::Zero),
                })
                .collect(),
        ))
    }
    #[inline]
    fn val(&self, s: &State, o: &Opnd) -> Val {
        match o {
            Opnd::K(v) => C(*v),
            Opnd::Reg(r) => {
                let v = &s.frames[s.frames.len() - 1].regs[*r as usize];
                if let S(l) = v {
                    if !s.known.is_empty() {
                        let mut ch = false;
                        for x in l.iter() {
                            if self.simp(s, *x) != *x {
                                ch = true;
                                break;
                            }
                        }
                        if ch {
                            return pack(l.iter().map(|x| self.simp(s, *x)).collect());
                        }
                    }
                }
                v.clone()
            }
            Opnd::Agg(a) => self.agg_const(&a.0, &a.1),
            Opnd::None => C(0),
        }
    }
    fn lits(&self, v: &Val, w: u32) -> Vec<Lit> {
        match v {
            C(x) => lits_of_const(*x, w),
            S(l) => {
                let mut l = l.to_vec();
                l.resize(w as usize, F);
                l
            }
            A(_) => panic!("lits of aggregate"),
        }
    }
    fn bin(&mut self, k: Bin, n: u32, w: u32, a: &Val, b: &Val) -> R<Val> {
        if let (C(x), C(y)) = (a, b) {
            if n == 1 {
                return bin_c(k, w, *x, *y).map(C).ok_or(Stop::Error("undefined division".into()));
            }
            if n * w <= 128 {
                let mut o = 0u128;
                for i in 0..n {
                    o |= bin_c(k, w, lane(*x, i, w), lane(*y, i, w)).ok_or(Stop::Error("undefined division".into()))? << (i * w);
                }
                return Ok(C(o));
            }
        }
        let (x, y) = (self.lits(a, n * w), self.lits(b, n * w));
        let mut o = Vec::with_capacity((n * w) as usize);
        for i in 0..n as usize {
            let r = i * w as usize..(i + 1) * w as usize;
            let v = self.bin_l(k, &x[r.clone()], &y[r])?;
            o.extend(v);
        }
        Ok(pack(o))
    }
    fn bin_l(&mut self, k: Bin, a: &[Lit], b: &[Lit]) -> R<Vec<Lit>> {
        let g = &mut self.aig;
        Ok(match k {
            Bin::Add => g.w_add(a, b, F).0,
            Bin::Sub => g.w_sub(a, b).0,
            Bin::Mul => g.w_mul(a, b),
            Bin::UDiv => g.w_udivrem(a, b).0,
            Bin::URem => g.w_udivrem(a, b).1,
            Bin::SDiv | Bin::SRem => {
                let n = a.len();
                let (sa, sb) = (a[n - 1], b[n - 1]);
                let na = g.w_neg(a);
                let nb = g.w_neg(b);
                let ua = g.w_mux(sa, &na, a);
                let ub = g.w_mux(sb, &nb, b);
                let (q, r) = g.w_udivrem(&ua, &ub);
                if k == Bin::SDiv {
                    let nq = g.w_neg(&q);
                    let sq = g.xor(sa, sb);
                    g.w_mux(sq, &nq, &q)
                } else {
                    let nr = g.w_neg(&r);
                    g.w_mux(sa, &nr, &r)
                }
            }
            Bin::Shl => g.w_shift(a, b, Shift::Shl),
            Bin::LShr => g.w_shift(a, b, Shift::Lshr),
            Bin::AShr => g.w_shift(a, b, Shift::Ashr),
            Bin::And => g.w_map2(a, b, Aig::and),
            Bin::Or => g.w_map2(a, b, Aig::or),
            Bin::Xor => g.w_map2(a, b, Aig::xor),
        })
    }
    fn cmp_l(&mut self, k: Pred, a: &[Lit], b: &[Lit]) -> Lit {
        let g = &mut self.aig;
        match k {
            Pred::Eq => g.w_eq(a, b),
            Pred::Ne => neg(g.w_eq(a, b)),
            Pred::Ult => g.w_ult(a, b),
            Pred::Ugt => g.w_ult(b, a),
            Pred::Uge => neg(g.w_ult(a, b)),
            Pred::Ule => neg(g.w_ult(b, a)),
            Pred::Slt => g.w_slt(a, b),
            Pred::Sgt => g.w_slt(b, a),
            Pred::Sge => neg(g.w_slt(a, b)),
            Pred::Sle => neg(g.w_slt(b, a)),
        }
    }
    fn mux_val(&mut self, c: Lit, a: &Val, b: &Val, bits: u32) -> Val {
        let (x, y) = (self.lits(a, bits), self.lits(b, bits));
        pack(self.aig.w_mux(c, &x, &y))
    }

    // ------------------------------------------------------------ memory
    fn fault(&self, s: &State, f: Fault) -> Stop {
        Stop::Error(format!("memory fault at {:#x} in {}", f.0, s.frames.last().map(|f| f.f.name.to_string()).unwrap_or_default()))
    }
    fn load_scalar(&mut self, s: &State, a: u64, bits: u32) -> R<Val> {
        let n = (bits as u64 + 7) / 8;
        if n <= 16 {
            if let Some(v) = s.mem.load_c(a, n).map_err(|f| self.fault(s, f))? {
                return Ok(C(mask(v, bits)));
            }
        }
        let mut l = s.mem.load_s(a, n).map_err(|f| self.fault(s, f))?;
        l.truncate(bits as usize);
        Ok(pack(l))
    }
    fn load(&mut self, s: &State, a: u64, ty: &Ty) -> R<Val> {
        if ty.is_agg() {
            let mut v = vec![];
            for i in 0..ty.n_elems() {
                v.push(self.load(s, a + ty.field_off(i), ty.elem(i))?);
            }
            return Ok(A(Rc::new(v)));
        }
        self.load_scalar(s, a, ty.bits())
    }
    fn store(&mut self, s: &mut State, a: u64, ty: &Ty, v: &Val) -> R<()> {
        if ty.is_agg() {
            if let A(x) = v {
                for i in 0..ty.n_elems() {
                    self.store(s, a + ty.field_off(i), ty.elem(i), &x[i])?;
                }
                return Ok(());
            }
            return Err(Stop::Error("aggregate store".into()));
        }
        let n = ty.store_size();
        let r = match v {
            C(x) if n <= 16 => s.mem.store_c(a, n, *x),
            v => {
                let mut l = self.lits(v, ty.bits());
                l.resize(8 * n as usize, F);
                s.mem.store_s(a, &l)
            }
        };
        r.map_err(|f| self.fault(s, f))
    }
    /// Load through a pointer that may be symbolic.
    fn load_ptr(&mut self, s: &mut State, p: &Val, ty: &Ty) -> R<Val> {
        match p {
            C(a) => self.load(s, *a as u64, ty),
            S(l) => {
                if ty.is_agg() {
                    let a = self.concretize(s, p, 64)?;
                    return self.load(s, a as u64, ty);
                }
                let l: Vec<Lit> = l.iter().map(|x| self.simp(s, *x)).collect();
                let vals = self.enumerate(s, &l, self.cfg.max_enum)?;
                let mut r: Option<Val> = None;
                for (a, _) in vals {
                    let v = self.load(s, a as u64, ty)?;
                    r = Some(match r {
                        None => v,
                        Some(o) => {
                            let e = self.eq_const(&l, a);
                            self.mux_val(e, &v, &o, ty.bits())
                        }
                    });
                }
                Ok(r.unwrap())
            }
            A(_) => Err(Stop::Error("load".into())),
        }
    }
    fn bytes_str(&self, s: &State, a: u64, n: u64) -> String {
        let mut o = vec![];
        for k in 0..n.min(400) {
            match s.mem.byte(a + k) {
                Byte::C(c) => o.push(c),
                _ => o.push(b'?'),
            }
        }
        String::from_utf8_lossy(&o).into_owned()
    }
    fn location(&self, s: &State, args: &[Val]) -> String {
        for a in args.iter().rev() {
            if let C(p) = a {
                let p = *p as u64;
                if p < GLOBAL_BASE || p >= self.m.globals_end {
                    continue;
                }
                if let (Ok(Some(f)), Ok(Some(n)), Ok(Some(l)), Ok(Some(c))) = (s.mem.load_c(p, 8), s.mem.load_c(p + 8, 8), s.mem.load_c(p + 16, 4), s.mem.load_c(p + 20, 4)) {
                    let f = f as u64;
                    if f >= GLOBAL_BASE && f < self.m.globals_end && n > 0 && n < 300 {
                        let t = self.bytes_str(s, f, n as u64);
                        let t = t.trim_end_matches('\0');
                        if t.ends_with(".rs") {
                            return format!("{}:{}:{}", t, l, c);
                        }
                    }
                }
            }
        }
        String::new()
    }

    // ------------------------------------------------------------ main loop
    pub fn run_all(&mut self, init: State) {
        self.work.push(init);
        while let Some(s) = self.work.pop() {
            if self.start.elapsed().as_secs_f64() > self.cfg.time_limit {
                self.out.incomplete = Some(format!("time limit of {} s reached with {} open states", self.cfg.time_limit, self.work.len() + 1));
                break;
            }
            self.new_model();
            let mut s = s;
            let r = self.run(&mut s);
            self.out.steps += s.steps;
            self.out.max_inputs = self.out.max_inputs.max(s.n_in);
            match r {
                Ok(()) | Err(Stop::End) => self.finish(&s, false),
                Err(Stop::Dead) => self.out.dead += 1,
                Err(Stop::Panic(w)) => {
                    if s.allow_panic && !w.starts_with("no end after") {
                        self.out.panics_ok += 1;
                        self.finish(&s, true);
                    } else {
                        let ev = self.events(&s);
                        self.violation(format!("panic: {}", w), ev);
                    }
                }
                Err(Stop::Violation(w, m)) => {
                    let mut v = (*s.model).clone();
                    v.resize(v.len().max(self.aig.inputs.len()), false);
                    for (k, b) in m {
                        v[k as usize] = b;
                    }
                    let mut t = s.clone();
                    t.model = Rc::new(v);
                    self.new_model();
                    let ev = self.events(&t);
                    self.new_model();
                    self.violation(format!("assert: {}", w), ev);
                }
                Err(Stop::Limit(e)) => {
                    self.out.limited += 1;
                    self.out.incomplete = Some(e);
                }
                Err(Stop::Error(e)) => {
                    let f = s.frames.last().map(|f| self.m.funcs[f.f.id as usize].name.to_string()).unwrap_or_default();
                    self.out.errors.push(format!("{} [in {}]", e, f));
                    if self.out.errors.len() >= 5 {
                        self.out.incomplete = Some("too many engine errors".into());
                        break;
                    }
                }
            }
            if self.out.violations.len() >= self.cfg.max_viol {
                if !self.work.is_empty() {
                    self.out.incomplete = Some("stopped after the first violations".into());
                }
                break;
            }
        }
    }
    fn violation(&mut self, what: String, events: Vec<u64>) {
        if self.cfg.verbose {
            eprintln!("violation {} {:?}", what, events);
        }
        self.out.violations.push(Viol { what, events });
    }
    fn events(&mut self, s: &State) -> Vec<u64> {
        let ev = s.events.clone();
        ev.iter().map(|l| self.eval_word(s, l) as u64).collect()
    }
    fn finish(&mut self, s: &State, panicked: bool) {
        self.out.paths += 1;
        for m in &s.marks {
            *self.out.covers.entry(m.to_string()).or_default() += 1;
        }
        // keep a spread of witnesses: the first few and then increasingly rarely
        self.wit_ctr += 1;
        let k = self.out.witnesses.len() as u64;
        if (k as usize) < self.cfg.witness && (self.wit_ctr >= k * k * 4 || self.wit_ctr < 4) {
            let ev = self.events(s);
            let obs = s.obs.clone();
            let ob = obs
                .iter()
                .map(|v| match v {
                    C(x) => *x as u64,
                    S(l) => self.eval_word(s, l) as u64,
                    A(_) => 0,
                })
                .collect();
            self.out.witnesses.push((ev, ob, panicked));
        }
    }

    fn set(&self, s: &mut State, dst: u32, v: Val) {
        if dst != NODST {
            let n = s.frames.len() - 1;
            s.frames[n].regs[dst as usize] = v;
        }
    }
    fn jump(&mut self, s: &mut State, to: u32) -> R<()> {
        let n = s.frames.len() - 1;
        let from = s.frames[n].bb;
        let f = s.frames[n].f.clone();
        let b = &f.blocks[to as usize];
        let e = b.edge(from);
        match e {
            [] => {}
            [(d, o)] => {
                let v = self.val(s, o);
                s.frames[n].regs[*d as usize] = v;
            }
            _ => {
                let t: Vec<Val> = e.iter().map(|(_, o)| self.val(s, o)).collect();
                for ((d, _), v) in e.iter().zip(t) {
                    s.frames[n].regs[*d as usize] = v;
                }
            }
        }
        let fr = &mut s.frames[n];
        fr.bb = to;
        fr.ip = 0;
        Ok(())
    }
    /// Runs the instructions of the current frame while their operands are concrete scalars;
    /// stops in front of the first instruction that needs the general interpreter.
    fn fast(s: &mut State, f: &Func, budget: u64) -> u64 {
        #[inline(always)]
        fn kc(o: &Opnd, regs: &[Val]) -> Option<u128> {
            match o {
                Opnd::K(v) => Some(*v),
                Opnd::Reg(r) => match &regs[*r as usize] {
                    C(v) => Some(*v),
                    _ => None,
                },
                _ => None,
            }
        }
        let State { mem, frames, .. } = s;
        let fr = frames.last_mut().unwrap();
        let regs = &mut fr.regs[..];
        let (mut bb, mut ip) = (fr.bb, fr.ip);
        let mut insts = &f.blocks[bb as usize].insts[..];
        let mut n = 0u64;
        let mut tmp: [u128; 16] = [0; 16];
        'outer: while n < budget {
            let inst = &insts[ip as usize];
            let to = match &inst.op {
                Op::Bin(k, 1, w, a, b) => {
                    let (Some(x), Some(y)) = (kc(a, regs), kc(b, regs)) else { break };
                    let Some(v) = bin_c(*k, *w, x, y) else { break };
                    regs[inst.dst as usize] = C(v);
                    ip += 1;
                    n += 1;
                    continue;
                }
                Op::ICmp(k, nl, w, a, b) if nl * w <= 128 => {
                    let (Some(x), Some(y)) = (kc(a, regs), kc(b, regs)) else { break };
                    let mut o = 0u128;
                    if *nl == 1 {
                        o = cmp_c(*k, *w, x, y) as u128
                    } else {
                        for i in 0..*nl {
                            o |= (cmp_c(*k, *w, lane(x, i, *w), lane(y, i, *w)) as u128) << i;
                        }
                    }
                    regs[inst.dst as usize] = C(o);
                    ip += 1;
                    n += 1;
                    continue;
                }
                Op::InsElem(nl, w, a, v, i) if nl * w <= 128 => {
                    let (Some(x), Some(y), Some(i)) = (kc(a, regs), kc(v, regs), kc(i, regs)) else { break };
                    if i >= *nl as u128 || *w >= 128 {
                        break;
                    }
                    let sh = i as u32 * w;
                    regs[inst.dst as usize] = C(x & !(mask(u128::MAX, *w) << sh) | mask(y, *w) << sh);
                    ip += 1;
                    n += 1;
                    continue;
                }
                Op::Shuffle(nl, w, a, b, mk) if *w < 128 && nl * w <= 128 && mk.len() as u32 * w <= 128 => {
                    let (Some(x), Some(y)) = (kc(a, regs), kc(b, regs)) else { break };
                    let mut o = 0u128;
                    for (i, m) in mk.iter().enumerate() {
                        if let Some(k) = m {
                            let e = if k < nl { lane(x, *k, *w) } else { lane(y, *k - nl, *w) };
                            o |= e << (i as u32 * w);
                        }
                    }
                    regs[inst.dst as usize] = C(o);
                    ip += 1;
                    n += 1;
                    continue;
                }
                Op::Extract(a, path) => {
                    let Opnd::Reg(r) = a else { break };
                    let A(x) = &regs[*r as usize] else { break };
                    let [i] = path[..] else { break };
                    let C(v) = x[i as usize] else { break };
                    regs[inst.dst as usize] = C(v);
                    ip += 1;
                    n += 1;
                    continue;
                }
                Op::Call(c) if c.quick != Quick::No && c.normal.is_none() => {
                    let arg = |i: usize| kc(&c.args[i], regs);
                    let pair = |v: u64, o: bool| A(Rc::new(vec![C(v as u128), C(o as u128)]));
                    let v = match c.quick {
                        Quick::Nop => C(0),
                        Quick::Copy => {
                            let (Some(d), Some(r), Some(k)) = (arg(0), arg(1), arg(2)) else { break };
                            if mem.copy(d as u64, r as u64, k as u64).is_err() {
                                break;
                            }
                            ip += 1;
                            n += 1;
                            continue;
                        }
                        Quick::Fshl64 => {
                            let (Some(x), Some(y), Some(k)) = (arg(0), arg(1), arg(2)) else { break };
                            let k = (k % 64) as u32;
                            let (x, y) = (x as u64, y as u64);
                            C(if k == 0 { x } else { x << k | y >> (64 - k) } as u128)
                        }
                        Quick::Cttz(w) => {
                            let Some(x) = arg(0) else { break };
                            C(if x == 0 { w } else { x.trailing_zeros() } as u128)
                        }
                        Quick::Ctlz(w) => {
                            let Some(x) = arg(0) else { break };
                            C((x.leading_zeros() - (128 - w)) as u128)
                        }
                        q => {
                            let (Some(x), Some(y)) = (arg(0), arg(1)) else { break };
                            let (p, r) = (x as u64, y as u64);
                            match q {
                                Quick::Umin64 => C(x.min(y)),
                                Quick::Umax64 => C(x.max(y)),
                                Quick::SubSat64 => C(p.saturating_sub(r) as u128),
                                Quick::AddO => {
                                    let (v, o) = p.overflowing_add(r);
                                    pair(v, o)
                                }
                                Quick::SubO => {
                                    let (v, o) = p.overflowing_sub(r);
                                    pair(v, o)
                                }
                                Quick::MulO => {
                                    let (v, o) = p.overflowing_mul(r);
                                    pair(v, o)
                                }
                                _ => break,
                            }
                        }
                    };
                    if inst.dst != NODST {
                        regs[inst.dst as usize] = v;
                    }
                    ip += 1;
                    n += 1;
                    continue;
                }
                Op::Select(1, _, c, a, b) => {
                    let Some(c) = kc(c, regs) else { break };
                    let Some(v) = kc(if c & 1 == 1 { a } else { b }, regs) else { break };
                    regs[inst.dst as usize] = C(v);
                    ip += 1;
                    n += 1;
                    continue;
                }
                Op::Cast(k, 1, fw, tw, a) => {
                    let Some(v) = kc(a, regs) else { break };
                    regs[inst.dst as usize] = C(match k {
                        Cast::Move | Cast::Zext => v,
                        Cast::Trunc => mask(v, *tw),
                        _ => mask(sx(v, *fw) as u128, *tw),
                    });
                    ip += 1;
                    n += 1;
                    continue;
                }
                Op::Gep(b, off, dyns) => {
                    let Some(b) = kc(b, regs) else { break };
                    let mut acc = (b as u64).wrapping_add(*off);
                    for (o, w, sc) in dyns {
                        let Some(q) = kc(o, regs) else { break 'outer };
                        acc = acc.wrapping_add((sext64(q, *w) as u64).wrapping_mul(*sc));
                    }
                    regs[inst.dst as usize] = C(acc as u128);
                    ip += 1;
                    n += 1;
                    continue;
                }
                Op::Load(ty @ (Ty::Int(_) | Ty::Ptr | Ty::Vec(..)), a) => {
                    let Some(p) = kc(a, regs) else { break };
                    let bits = ty.bits();
                    let sz = (bits as u64 + 7) / 8;
                    if sz > 16 {
                        break;
                    }
                    let Ok(Some(v)) = mem.load_c(p as u64, sz) else { break };
                    regs[inst.dst as usize] = C(mask(v, bits));
                    ip += 1;
                    n += 1;
                    continue;
                }
                Op::Store(ty @ (Ty::Int(_) | Ty::Ptr), v, a) => {
                    let (Some(p), Some(v)) = (kc(a, regs), kc(v, regs)) else { break };
                    let sz = ty.store_size();
                    if sz > 16 || mem.store_c(p as u64, sz, v).is_err() {
                        break;
                    }
                    ip += 1;
                    n += 1;
                    continue;
                }
                Op::Br(b) => *b,
                Op::CondBr(c, a, b) => {
                    let Some(c) = kc(c, regs) else { break };
                    if c & 1 == 1 {
                        *a
                    } else {
                        *b
                    }
                }
                Op::Switch(_, v, map, d) => {
                    let Some(v) = kc(v, regs) else { break };
                    *map.get(&v).unwrap_or(d)
                }
                _ => break,
            };
            let b = &f.blocks[to as usize];
            let e = b.edge(bb);
            if e.len() > tmp.len() {
                break;
            }
            for (i, (_, o)) in e.iter().enumerate() {
                let Some(v) = kc(o, regs) else { break 'outer };
                tmp[i] = v;
            }
            for (i, (d, _)) in e.iter().enumerate() {
                regs[*d as usize] = C(tmp[i]);
            }
            bb = to;
            ip = 0;
            insts = &b.insts[..];
            n += 1;
        }
        fr.bb = bb;
        fr.ip = ip;
        n
    }

    fn run(&mut self, s: &mut State) -> R<()> {
        let mut tick = 0u32;
        loop {
            let f = match s.frames.last() {
                Some(x) => x.f.clone(),
                None => return Ok(()),
            };
            let depth = s.frames.len();
            // stay in this frame until it changes
            while s.frames.len() == depth {
                let n = depth - 1;
                let k = Self::fast(s, &f, 1 << 15);
                s.steps += k;
                tick += k as u32;
                let (bb, ip) = (s.frames[n].bb, s.frames[n].ip);
                let inst = &f.blocks[bb as usize].insts[ip as usize];
                s.steps += 1;
                tick += 1;
                if tick >= 1 << 16 {
                    tick = 0;
                    if s.steps > self.cfg.max_steps {
                        return Err(Stop::Panic(format!("no end after {} instructions", self.cfg.max_steps)));
                    }
                    if self.start.elapsed().as_secs_f64() > self.cfg.time_limit {
                        return Err(Stop::Limit(format!("time limit of {} s reached inside a path", self.cfg.time_limit)));
                    }
                }
                match &inst.op {
                    Op::Bin(k, nl, w, a, b) => {
                        let (x, y) = (self.val(s, a), self.val(s, b));
                        let v = if let (C(p), C(q), 1) = (&x, &y, *nl) {
                            C(bin_c(*k, *w, *p, *q).ok_or(Stop::Error("undefined division".into()))?)
                        } else {
                            if matches!(k, Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem) && matches!(y, C(0)) {
                                return Err(Stop::Error("undefined division".into()));
                            }
                            self.bin(*k, *nl, *w, &x, &y)?
                        };
                        s.frames[n].regs[inst.dst as usize] = v;
                    }
                    Op::ICmp(k, nl, w, a, b) => {
                        let (x, y) = (self.val(s, a), self.val(s, b));
                        let v = match (&x, &y) {
                            (C(p), C(q)) if *nl == 1 => C(cmp_c(*k, *w, *p, *q) as u128),
                            (C(p), C(q)) if nl * w <= 128 => {
                                let mut o = 0u128;
                                for i in 0..*nl {
                                    o |= (cmp_c(*k, *w, lane(*p, i, *w), lane(*q, i, *w)) as u128) << i;
                                }
                                C(o)
                            }
                            _ => {
                                let (p, q) = (self.lits(&x, nl * w), self.lits(&y, nl * w));
                                let mut o = vec![];
                                for i in 0..*nl as usize {
                                    let r = i * *w as usize..(i + 1) * *w as usize;
                                    o.push(self.cmp_l(*k, &p[r.clone()], &q[r]));
                                }
                                pack(o)
                            }
                        };
                        s.frames[n].regs[inst.dst as usize] = v;
                    }
                    Op::Select(nl, bits, c, a, b) => {
                        let cv = self.val(s, c);
                        let v = if *nl == 1 {
                            match &cv {
                                C(x) => {
                                    if *x & 1 == 1 {
                                        self.val(s, a)
                                    } else {
                                        self.val(s, b)
                                    }
                                }
                                S(l) => {
                                    let cl = l[0];
                                    let (x, y) = (self.val(s, a), self.val(s, b));
                                    if *bits == 0 || *bits == PTRSEL {
                                        if self.decide(s, cl)? {
                                            x
                                        } else {
                                            y
                                        }
                                    } else {
                                        self.mux_val(cl, &x, &y, *bits)
                                    }
                                }
                                A(_) => return Err(Stop::Error("select".into())),
                            }
                        } else {
                            let cl = self.lits(&cv, *nl);
                            let (x, y) = (self.val(s, a), self.val(s, b));
                            let (x, y) = (self.lits(&x, *bits), self.lits(&y, *bits));
                            let w = (*bits / *nl) as usize;
                            let mut o = vec![];
                            for i in 0..*bits as usize {
                                o.push(self.aig.mux(cl[i / w], x[i], y[i]));
                            }
                            pack(o)
                        };
                        s.frames[n].regs[inst.dst as usize] = v;
                    }
                    Op::Cast(k, nl, fw, tw, a) => {
                        let x = self.val(s, a);
                        let v = match (k, &x) {
                            (Cast::Move, _) => x,
                            (_, C(v)) if *nl == 1 => C(match k {
                                Cast::Trunc => mask(*v, *tw),
                                Cast::Zext => *v,
                                _ => mask(sx(*v, *fw) as u128, *tw),
                            }),
                            _ => {
                                let l = self.lits(&x, nl * fw);
                                let mut o = vec![];
                                for i in 0..*nl as usize {
                                    let src = &l[i * *fw as usize..(i + 1) * *fw as usize];
                                    for j in 0..*tw as usize {
                                        o.push(if j < src.len() {
                                            src[j]
                                        } else if *k == Cast::Sext {
                                            src[src.len() - 1]
                                        } else {
                                            F
                                        });
                                    }
                                }
                                pack(o)
                            }
                        };
                        s.frames[n].regs[inst.dst as usize] = v;
                    }
                    Op::Gep(base, off, dyns) => {
                        let b = self.val(s, base);
                        let mut acc = match b {
                            C(x) => C((x as u64).wrapping_add(*off) as u128),
                            x => self.bin(Bin::Add, 1, 64, &x, &C(*off as u128))?,
                        };
                        for (o, w, sc) in dyns {
                            let x = self.val(s, o);
                            acc = match (&acc, &x) {
                                (C(p), C(q)) => C((*p as u64).wrapping_add((sext64(*q, *w) as u64).wrapping_mul(*sc)) as u128),
                                _ => {
                                    let mut l = self.lits(&x, *w);
                                    let top = l[*w as usize - 1];
                                    l.resize(64, top);
                                    let m = self.aig.w_mul(&l, &lits_of_const(*sc as u128, 64));
                                    self.bin(Bin::Add, 1, 64, &acc, &pack(m))?
                                }
                            };
                        }
                        s.frames[n].regs[inst.dst as usize] = acc;
                    }
                    Op::Load(ty, a) => {
                        let p = self.val(s, a);
                        let v = match (&p, ty) {
                            (C(x), Ty::Int(_) | Ty::Ptr) => self.load_scalar(s, *x as u64, ty.bits())?,
                            _ => self.load_ptr(s, &p, ty)?,
                        };
                        s.frames[n].regs[inst.dst as usize] = v;
                    }
                    Op::Store(ty, v, a) => {
                        let p = self.val(s, a);
                        let a = match &p {
                            C(x) => *x as u64,
                            _ => self.concretize(s, &p, 64)? as u64,
                        };
                        let v = self.val(s, v);
                        self.store(s, a, ty, &v)?;
                    }
                    Op::Alloca(sz, al) => {
                        let sp = (s.mem.sp - sz) / (*al).max(1) * (*al).max(1);
                        s.mem.sp = sp;
                        if sp < HEAP_END {
                            return Err(Stop::Panic("stack overflow".into()));
                        }
                        s.frames[n].regs[inst.dst as usize] = C(sp as u128);
                    }
                    Op::Br(b) => {
                        self.jump(s, *b)?;
                        continue;
                    }
                    Op::CondBr(c, a, b) => {
                        let t = match self.val(s, c) {
                            C(x) => x & 1 == 1,
                            S(l) => self.decide(s, l[0])?,
                            A(_) => return Err(Stop::Error("br".into())),
                        };
                        self.jump(s, if t { *a } else { *b })?;
                        continue;
                    }
                    Op::Switch(w, v, map, d) => {
                        let t = match self.val(s, v) {
                            C(x) => *map.get(&x).unwrap_or(d),
                            S(l) => self.switch(s, &l, *w, map, *d)?,
                            A(_) => return Err(Stop::Error("switch".into())),
                        };
                        self.jump(s, t)?;
                        continue;
                    }
                    Op::Ret(o) => {
                        let v = self.val(s, o);
                        let mut fr = s.frames.pop().unwrap();
                        s.mem.sp = fr.sp;
                        if self.pool.len() < 64 {
                            let mut r = std::mem::take(&mut fr.regs);
                            r.clear();
                            self.pool.push(r);
                        }
                        if s.frames.is_empty() {
                            return Ok(());
                        }
                        self.set(s, fr.dst, v);
                        match fr.normal {
                            Some(b) => self.jump(s, b)?,
                            None => s.frames.last_mut().unwrap().ip += 1,
                        }
                        continue;
                    }
                    Op::Unreachable => {
                        return Err(Stop::Error(format!("reached an `unreachable` instruction in {}", f.name)));
                    }
                    Op::Extract(a, path) => {
                        let mut v = self.val(s, a);
                        for i in path {
                            v = match v {
                                A(x) => x[*i as usize].clone(),
                                _ => return Err(Stop::Error("extractvalue".into())),
                            };
                        }
                        if let S(l) = &v {
                            if !s.known.is_empty() {
                                v = pack(l.iter().map(|x| self.simp(s, *x)).collect());
                            }
                        }
                        s.frames[n].regs[inst.dst as usize] = v;
                    }
                    Op::Insert(_, a, v, path) => {
                        let a = self.val(s, a);
                        let v = self.val(s, v);
                        let r = insert(&a, &v, path).ok_or(Stop::Error("insertvalue".into()))?;
                        s.frames[n].regs[inst.dst as usize] = r;
                    }
                    Op::ExtElem(nl, w, a, i) => {
                        let x = self.val(s, a);
                        let i = self.val(s, i);
                        let i = self.concretize(s, &i, 64)? as u32;
                        if i >= *nl {
                            return Err(Stop::Error("extractelement index".into()));
                        }
                        let v = match &x {
                            C(v) => C(lane(*v, i, *w)),
                            _ => {
                                let l = self.lits(&x, nl * w);
                                pack(l[(i * w) as usize..((i + 1) * w) as usize].to_vec())
                            }
                        };
                        s.frames[n].regs[inst.dst as usize] = v;
                    }
                    Op::InsElem(nl, w, a, v, i) => {
                        let x = self.val(s, a);
                        let y = self.val(s, v);
                        let i = self.val(s, i);
                        let i = self.concretize(s, &i, 64)? as u32;
                        if i >= *nl {
                            return Err(Stop::Error("insertelement index".into()));
                        }
                        let mut l = self.lits(&x, nl * w);
                        let e = self.lits(&y, *w);
                        l[(i * w) as usize..((i + 1) * w) as usize].copy_from_slice(&e);
                        s.frames[n].regs[inst.dst as usize] = pack(l);
                    }
                    Op::Shuffle(nl, w, a, b, mk) => {
                        let (x, y) = (self.val(s, a), self.val(s, b));
                        let mut l = self.lits(&x, nl * w);
                        l.extend(self.lits(&y, nl * w));
                        let mut o = vec![];
                        for m in mk {
                            match m {
                                Some(k) => o.extend_from_slice(&l[(k * w) as usize..((k + 1) * w) as usize]),
                                None => o.extend(vec![F; *w as usize]),
                            }
                        }
                        s.frames[n].regs[inst.dst as usize] = pack(o);
                    }
                    Op::Rmw(k, ty, a, v) => {
                        let p = self.val(s, a);
                        let a = self.concretize(s, &p, 64)? as u64;
                        let v = self.val(s, v);
                        let old = self.load(s, a, ty)?;
                        let w = ty.bits();
                        let nv = match &**k {
                            "xchg" => v,
                            "add" => self.bin(Bin::Add, 1, w, &old, &v)?,
                            "sub" => self.bin(Bin::Sub, 1, w, &old, &v)?,
                            "and" => self.bin(Bin::And, 1, w, &old, &v)?,
                            "or" => self.bin(Bin::Or, 1, w, &old, &v)?,
                            "xor" => self.bin(Bin::Xor, 1, w, &old, &v)?,
                            _ => return Err(Stop::Error(format!("atomicrmw {}", k))),
                        };
                        self.store(s, a, ty, &nv)?;
                        s.frames[n].regs[inst.dst as usize] = old;
                    }
                    Op::CmpXchg(ty, a, c, nv) => {
                        let p = self.val(s, a);
                        let a = self.concretize(s, &p, 64)? as u64;
                        let old = self.load(s, a, ty)?;
                        let c = self.val(s, c);
                        let (x, y) = match (&old, &c) {
                            (C(x), C(y)) => (*x, *y),
                            _ => return Err(Stop::Error("symbolic cmpxchg".into())),
                        };
                        if x == y {
                            let v = self.val(s, nv);
                            self.store(s, a, ty, &v)?;
                        }
                        s.frames[n].regs[inst.dst as usize] = A(Rc::new(vec![old, C((x == y) as u128)]));
                    }
                    Op::Fence => {}
                    Op::Unsupported(t) => return Err(Stop::Error(format!("unsupported instruction: {}", t))),
                    Op::Call(c) => {
                        let ind;
                        let mut callee = &c.callee;
                        if let Callee::Indirect(o) = callee {
                            let p = self.val(s, o);
                            let a = self.concretize(s, &p, 64)? as u64;
                            ind = if a >= FUNC_BASE && (a - FUNC_BASE) % 16 == 0 && ((a - FUNC_BASE) / 16) < self.m.funcs.len() as u64 {
                                Callee::Func(((a - FUNC_BASE) / 16) as u32)
                            } else if a >= EXTERN_BASE && a < FUNC_BASE {
                                Callee::Extern(self.m.externs.borrow()[((a - EXTERN_BASE) / 16) as usize].clone())
                            } else {
                                return Err(Stop::Error(format!("call of bad function pointer {:#x}", a)));
                            };
                            callee = &ind;
                        }
                        match callee {
                            Callee::Nop => {
                                if inst.dst != NODST {
                                    self.set(s, inst.dst, C(0));
                                }
                                self.after_call(s, c.normal)?;
                                continue;
                            }
                            Callee::Func(fid) => {
                                let fid = *fid;
                                if self.special[fid as usize] {
                                    let args: Vec<Val> = c.args.iter().map(|o| self.val(s, o)).collect();
                                    if self.panic_fn[fid as usize] {
                                        let loc = self.location(s, &args);
                                        return Err(Stop::Panic(format!("{} at {}", self.m.funcs[fid as usize].pretty, loc)));
                                    }
                                    let v = self.rust_alloc(s, self.alloc_kind[fid as usize], &args)?;
                                    self.set(s, inst.dst, v);
                                    self.after_call(s, c.normal)?;
                                    continue;
                                }
                                let g = self.m.func(fid);
                                self.called[fid as usize] = true;
                                if s.frames.len() > 20_000 {
                                    return Err(Stop::Panic("stack overflow (20000 frames)".into()));
                                }
                                let mut regs = self.pool.pop().unwrap_or_default();
                                regs.resize(g.n_regs as usize, C(0));
                                for (r, o) in g.params.iter().zip(&c.args) {
                                    regs[*r as usize] = self.val(s, o);
                                }
                                let fr = Frame { regs, bb: 0, ip: 0, sp: s.mem.sp, dst: inst.dst, normal: c.normal, f: g };
                                s.frames.push(fr);
                                continue;
                            }
                            Callee::Intrinsic(name) => {
                                let args: Vec<Val> = c.args.iter().map(|o| self.val(s, o)).collect();
                                let v = self.intrinsic(s, name, &args, c)?;
                                if let Some(v) = v {
                                    self.set(s, inst.dst, v);
                                }
                                self.after_call(s, c.normal)?;
                                continue;
                            }
                            Callee::Extern(name) => {
                                let args: Vec<Val> = c.args.iter().map(|o| self.val(s, o)).collect();
                                let v = self.external(s, name, &args)?;
                                self.set(s, inst.dst, v);
                                self.after_call(s, c.normal)?;
                                continue;
                            }
                            Callee::Indirect(_) => unreachable!(),
                        }
                    }
                }
                s.frames[n].ip += 1;
            }
        }
    }
    fn after_call(&mut self, s: &mut State, normal: Option<u32>) -> R<()> {
        match normal {
            Some(b) => self.jump(s, b),
            None => {
                s.frames.last_mut().unwrap().ip += 1;
                Ok(())
            }
        }
    }
    fn switch(&mut self, s: &mut State, l: &[Lit], w: u32, map: &FxMap<u128, u32>, d: u32) -> R<u32> {
        let mut l = l.to_vec();
        l.resize(w as usize, F);
        let mut by: BTreeMap<u32, Vec<Lit>> = Default::default();
        let mut keys: Vec<(&u128, &u32)> = map.iter().collect();
        keys.sort();
        let mut any = vec![];
        for (k, b) in keys {
            let e = self.eq_const(&l, *k);
            any.push(e);
            by.entry(*b).or_default().push(e);
        }
        let none = neg(self.aig.or_all(&any));
        by.entry(d).or_default().push(none);
        let tg: Vec<(u32, Lit)> = by
            .into_iter()
            .map(|(b, v)| {
                let o = self.aig.or_all(&v);
                (b, o)
            })
            .collect();
        let mut me = None;
        for (b, c) in &tg {
            let c = self.simp(s, *c);
            if c == T {
                return Ok(*b);
            }
            if c != F && me.is_none() && self.eval(s, c) {
                me = Some((*b, c));
            }
        }
        let (b, c) = me.ok_or(Stop::Error("switch: no target under the model".into()))?;
        let mut forked = false;
        for (b2, c2) in &tg {
            if *b2 == b {
                continue;
            }
            let c2 = self.simp(s, *c2);
            if c2 == F {
                continue;
            }
            if let Some(m) = self.query(s, &[c2])? {
                self.push_fork(s, c2, m);
                forked = true;
            }
        }
        if forked {
            s.pc.push(c);
            s.depth += 1;
        }
        self.learn(s, c);
        Ok(b)
    }

    // ------------------------------------------------------------ runtime
    fn rust_alloc(&mut self, s: &mut State, kind: u8, args: &[Val]) -> R<Val> {
        if kind == A_SHIM {
            return Ok(C(0));
        }
        let mut a = vec![];
        for v in args {
            a.push(self.concretize(s, v, 64)? as u64);
        }
        if kind == A_ERROR {
            return Err(Stop::Panic("allocation error".into()));
        }
        if kind == A_DEALLOC {
            s.mem.dealloc(a[0]);
            return Ok(C(0));
        }
        if kind == A_REALLOC {
            // ptr, old size, align, new size
            return self.realloc(s, a[0], a[1].min(a[3]), a[3], a[2]);
        }
        let p = s.mem.malloc(a[0], a[1]).ok_or(Stop::Panic("out of memory".into()))?;
        if kind == A_ZEROED {
            s.mem.fill(p, a[0], Byte::C(0)).map_err(|_| Stop::Error("alloc".into()))?;
        }
        Ok(C(p as u128))
    }
    fn realloc(&mut self, s: &mut State, p: u64, copy: u64, n: u64, al: u64) -> R<Val> {
        if s.mem.cap(p) >= n && al <= 16 {
            return Ok(C(p as u128));
        }
        let q = s.mem.malloc(n, al).ok_or(Stop::Panic("out of memory".into()))?;
        s.mem.copy(q, p, copy).map_err(|f| self.fault(s, f))?;
        s.mem.dealloc(p);
        Ok(C(q as u128))
    }
    fn mem_eq(&mut self, s: &mut State, a: u64, b: u64, n: u64) -> R<(Val, bool)> {
        let x = s.mem.load_s(a.max(0x1000), n).map_err(|f| self.fault(s, f))?;
        let y = s.mem.load_s(b.max(0x1000), n).map_err(|f| self.fault(s, f))?;
        let x: Vec<Lit> = x.iter().map(|l| self.simp(s, *l)).collect();
        let y: Vec<Lit> = y.iter().map(|l| self.simp(s, *l)).collect();
        let e = self.aig.w_eq(&x, &y);
        Ok((pack(vec![e]), true))
    }
    fn rng_byte(&self, k: u64) -> u8 {
        let mut z = (self.cfg.hseed.wrapping_add(k)).wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(0x7F4A7C15);
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        (z >> 32) as u8
    }
    fn external(&mut self, s: &mut State, name: &str, args: &[Val]) -> R<Val> {
        if let Some(n) = name.strip_prefix("sym_") {
            return self.sym(s, n, args);
        }
        let mut a = vec![];
        for v in args {
            a.push(self.concretize(s, v, 64)? as u64);
        }
        let flt = |me: &Self, s: &State, f: Fault| me.fault(s, f);
        Ok(match name {
            "malloc" => C(s.mem.malloc(a[0], 16).unwrap_or(0) as u128),
            "calloc" => {
                let n = a[0].wrapping_mul(a[1]);
                let p = s.mem.malloc(n, 16).unwrap_or(0);
                s.mem.fill(p, n, Byte::C(0)).map_err(|f| flt(self, s, f))?;
                C(p as u128)
            }
            "realloc" => {
                if a[0] == 0 {
                    C(s.mem.malloc(a[1], 16).unwrap_or(0) as u128)
                } else {
                    let c = s.mem.cap(a[0]).min(a[1]);
                    self.realloc(s, a[0], c, a[1], 16)?
                }
            }
            "free" => {
                s.mem.dealloc(a[0]);
                C(0)
            }
            "posix_memalign" => {
                let p = s.mem.malloc(a[2], a[1]).unwrap_or(0);
                s.mem.store_c(a[0], 8, p as u128).map_err(|f| flt(self, s, f))?;
                C(0)
            }
            "bcmp" => {
                let (e, _) = self.mem_eq(s, a[0], a[1], a[2])?;
                let e = self.lits(&e, 1)[0];
                let mut l = vec![F; 32];
                l[0] = neg(e);
                pack(l)
            }
            "memcmp" => {
                // sign of the first difference
                let x = s.mem.load_s(a[0].max(0x1000), a[2]).map_err(|f| flt(self, s, f))?;
                let y = s.mem.load_s(a[1].max(0x1000), a[2]).map_err(|f| flt(self, s, f))?;
                let (mut lt, mut gt) = (F, F);
                for k in (0..a[2] as usize).rev() {
                    let (p, q) = (&x[8 * k..8 * k + 8], &y[8 * k..8 * k + 8]);
                    let l = self.aig.w_ult(p, q);
                    let g = self.aig.w_ult(q, p);
                    let e = self.aig.or(l, g);
                    lt = self.aig.mux(e, l, lt);
                    gt = self.aig.mux(e, g, gt);
                }
                let mut r = vec![lt; 32];
                r[0] = self.aig.or(lt, gt);
                pack(r)
            }
            "memcpy" | "memmove" => {
                s.mem.copy(a[0], a[1], a[2]).map_err(|f| flt(self, s, f))?;
                C(a[0] as u128)
            }
            "memset" => {
                s.mem.fill(a[0], a[2], Byte::C(a[1] as u8)).map_err(|f| flt(self, s, f))?;
                C(a[0] as u128)
            }
            "strlen" => {
                let mut n = 0;
                loop {
                    match s.mem.byte(a[0] + n) {
                        Byte::C(0) => break,
                        Byte::C(_) => n += 1,
                        _ => return Err(Stop::Error("strlen of symbolic".into())),
                    }
                }
                C(n as u128)
            }
            "getrandom" => {
                for k in 0..a[1] {
                    let b = self.rng_byte(s.seedctr);
                    s.seedctr += 1;
                    s.mem.set(a[0] + k, Byte::C(b));
                }
                C(a[1] as u128)
            }
            "syscall" if a[0] == 318 => {
                for k in 0..a[2] {
                    let b = self.rng_byte(s.seedctr);
                    s.seedctr += 1;
                    s.mem.set(a[1] + k, Byte::C(b));
                }
                C(a[2] as u128)
            }
            "write" => C(a[2] as u128),
            "writev" => {
                let mut t = 0u128;
                for k in 0..a[2] {
                    t += s.mem.load_c(a[1] + 16 * k + 8, 8).map_err(|f| flt(self, s, f))?.unwrap_or(0);
                }
                C(t)
            }
            "__errno_location" => C(self.errno as u128),
            "getenv" => C(0),
            "pthread_self" | "gettid" => C(1),
            "sysconf" => C(4096),
            "__cxa_thread_atexit_impl" | "pthread_key_create" | "pthread_setspecific" | "pthread_key_delete" => C(0),
            "abort" | "exit" | "_exit" => return Err(Stop::Panic(name.to_string())),
            _ => return Err(Stop::Error(format!("external function {}", name))),
        })
    }

    fn sym(&mut self, s: &mut State, name: &str, args: &[Val]) -> R<Val> {
        match name {
            "u64" => {
                let bits = self.concretize(s, &args[0], 32)? as usize;
                let mut l: Vec<Lit> = vec![];
                for _ in 0..bits {
                    l.push(self.aig.input_no(s.n_in));
                    s.n_in += 1;
                }
                s.events.push(l.clone().into());
                l.resize(64, F);
                Ok(pack(l))
            }
            "concretize" => {
                let v = self.concretize(s, &args[0], 64)?;
                if s.choices < self.cfg.shard_depth && self.cfg.shard.1 > 1 {
                    s.choices += 1;
                    s.chash = (s.chash.rotate_left(7) ^ v as u64).wrapping_mul(0x9E3779B97F4A7C15);
                    if s.choices == self.cfg.shard_depth && (s.chash >> 20) % self.cfg.shard.1 != self.cfg.shard.0 {
                        self.out.shard_dropped += 1;
                        return Err(Stop::Dead);
                    }
                }
                Ok(C(v))
            }
            "assume" => {
                let l = self.lits(&args[0], 1)[0];
                self.assume(s, l)?;
                Ok(C(0))
            }
            "assert" => {
                let l = self.lits(&args[0], 1)[0];
                let p = self.concretize(s, &args[1], 64)? as u64;
                let n = self.concretize(s, &args[2], 64)? as u64;
                let label = self.bytes_str(s, p, n);
                self.out.asserts += 1;
                *self.out.labels.entry(label.clone()).or_default() += 1;
                let l = self.simp(s, l);
                if l == T {
                    self.out.asserts_trivial += 1;
                    return Ok(C(0));
                }
                match self.query(s, &[neg(l)])? {
                    None => {
                        self.out.asserts_proved += 1;
                        self.learn(s, l);
                        Ok(C(0))
                    }
                    Some(m) => {
                        let m = m.iter().enumerate().map(|(i, b)| (i as u32, *b)).collect();
                        Err(Stop::Violation(label, m))
                    }
                }
            }
            // sym_known(cond, label): a listed finding; cond describes the correct behaviour.
            // Records whether it can fail and continues.
            "known" => {
                let l = self.lits(&args[0], 1)[0];
                let p = self.concretize(s, &args[1], 64)? as u64;
                let n = self.concretize(s, &args[2], 64)? as u64;
                let label = self.bytes_str(s, p, n);
                let l = self.simp(s, l);
                if l == T {
                    return Ok(C(0));
                }
                if let Some(e) = self.out.known.get_mut(&label) {
                    e.0 += 1;
                    return Ok(C(0));
                }
                if let Some(m) = self.query(s, &[neg(l)])? {
                    let t = State { model: m, ..s.clone_light() };
                    self.new_model();
                    let ev = self.events(&State { events: s.events.clone(), ..t });
                    self.new_model();
                    self.out.known.insert(label, (1, ev));
                }
                Ok(C(0))
            }
            "allow_panic" => {
                s.allow_panic = self.concretize(s, &args[0], 32)? != 0;
                Ok(C(0))
            }
            "cover" => {
                let p = self.concretize(s, &args[0], 64)? as u64;
                let n = self.concretize(s, &args[1], 64)? as u64;
                let label: Rc<str> = self.bytes_str(s, p, n).into();
                if !s.marks.contains(&label) {
                    s.marks.push(label);
                }
                Ok(C(0))
            }
            "observe" => {
                s.obs.push(args[0].clone());
                Ok(C(0))
            }
            "param" => {
                let i = self.concretize(s, &args[0], 32)? as usize;
                match self.cfg.params.get(i) {
                    Some(v) => Ok(C(*v as u128)),
                    None => Err(Stop::Error(format!("parameter {} not given", i))),
                }
            }
            "is_symbolic" => Ok(C(1)),
            _ => Err(Stop::Error(format!("sym_{}", name))),
        }
    }

    fn intrinsic(&mut self, s: &mut State, name: &str, args: &[Val], c: &CallI) -> R<Option<Val>> {
        let base = &name[5..];
        // concrete fast paths
        match (base, args) {
            ("fshl.i64", [C(x), C(y), C(k)]) => {
                let k = (*k % 64) as u32;
                let (x, y) = (*x as u64, *y as u64);
                return Ok(Some(C(if k == 0 { x } else { x << k | y >> (64 - k) } as u128)));
            }
            ("uadd.with.overflow.i64", [C(x), C(y)]) => {
                let (v, o) = (*x as u64).overflowing_add(*y as u64);
                return Ok(Some(A(Rc::new(vec![C(v as u128), C(o as u128)]))));
            }
            ("usub.with.overflow.i64", [C(x), C(y)]) => {
                let (v, o) = (*x as u64).overflowing_sub(*y as u64);
                return Ok(Some(A(Rc::new(vec![C(v as u128), C(o as u128)]))));
            }
            ("umul.with.overflow.i64", [C(x), C(y)]) => {
                let (v, o) = (*x as u64).overflowing_mul(*y as u64);
                return Ok(Some(A(Rc::new(vec![C(v as u128), C(o as u128)]))));
            }
            ("umin.i64", [C(x), C(y)]) => return Ok(Some(C(*x.min(y)))),
            ("umax.i64", [C(x), C(y)]) => return Ok(Some(C(*x.max(y)))),
            ("cttz.i16", [C(x), ..]) => return Ok(Some(C(if *x == 0 { 16 } else { x.trailing_zeros() as u128 }))),
            ("cttz.i64", [C(x), ..]) => return Ok(Some(C(if *x == 0 { 64 } else { x.trailing_zeros() as u128 }))),
            _ => {}
        }
        if base.starts_with("memcpy") || base.starts_with("memmove") {
            let d = self.concretize(s, &args[0], 64)? as u64;
            let r = self.concretize(s, &args[1], 64)? as u64;
            let n = self.concretize(s, &args[2], 64)? as u64;
            s.mem.copy(d, r, n).map_err(|f| self.fault(s, f))?;
            return Ok(None);
        }
        if base.starts_with("memset") {
            let d = self.concretize(s, &args[0], 64)? as u64;
            let n = self.concretize(s, &args[2], 64)? as u64;
            let b = match &args[1] {
                C(v) => Byte::C(*v as u8),
                S(l) => Byte::S(l[..8].try_into().unwrap()),
                A(_) => return Err(Stop::Error("memset".into())),
            };
            s.mem.fill(d, n, b).map_err(|f| self.fault(s, f))?;
            return Ok(None);
        }
        if base == "asmdiv" {
            // arguments: divisor, high digit, low digit; result: remainder, quotient
            if let [C(d), C(h), C(l)] = args {
                if h >= d {
                    return Err(Stop::Panic("division overflow (#DE)".into()));
                }
                let v = h << 64 | l;
                return Ok(Some(A(Rc::new(vec![C(v % d), C(v / d)]))));
            }
            let (d, h, l) = (self.lits(&args[0], 64), self.lits(&args[1], 64), self.lits(&args[2], 64));
            let (_, b) = self.aig.w_sub(&h, &d);
            if !self.decide(s, b)? {
                return Err(Stop::Panic("division overflow (#DE)".into()));
            }
            let (q, r) = self.aig.w_div2(&h, &l, &d);
            return Ok(Some(A(Rc::new(vec![pack(r), pack(q)]))));
        }
        if base == "x86.addcarry.64" || base == "x86.subborrow.64" {
            let sub = base.starts_with("x86.sub");
            if let [C(c), C(x), C(y)] = args {
                let c = (*c & 0xff != 0) as u128;
                let m = (1u128 << 64) - 1;
                let (v, o) = if sub { (x.wrapping_sub(*y).wrapping_sub(c) & m, *x < y + c) } else { ((x + y + c) & m, (x + y + c) >> 64 != 0) };
                return Ok(Some(A(Rc::new(vec![C(o as u128), C(v)]))));
            }
            let (c, x, mut y) = (self.lits(&args[0], 8), self.lits(&args[1], 64), self.lits(&args[2], 64));
            let c = self.aig.or_all(&c);
            if sub {
                // x - y - c = x + !y + !c, with the borrow the inverted carry
                for l in y.iter_mut() {
                    *l = neg(*l);
                }
            }
            let (v, o) = self.aig.w_add(&x, &y, if sub { neg(c) } else { c });
            let mut ov = vec![F; 8];
            ov[0] = if sub { neg(o) } else { o };
            return Ok(Some(A(Rc::new(vec![pack(ov), pack(v)]))));
        }
        if base.starts_with("threadlocal.address") {
            return Ok(Some(args[0].clone()));
        }
        if base.starts_with("trap") {
            return Err(Stop::Panic("trap".into()));
        }
        if base.starts_with("is.constant") {
            return Ok(Some(C(0)));
        }
        if base.starts_with("expect.") {
            return Ok(Some(args[0].clone()));
        }
        let ty = c.arg_ty[0].clone();
        let (nl, w) = (ty.lanes(), ty.lane_bits());
        let op = base.split(".v").next().unwrap().split(".i").next().unwrap().to_string();
        if op == "vector.reduce.or" || op == "vector.reduce.and" || op == "vector.reduce.add" || op == "vector.reduce.xor" || op.starts_with("vector.reduce") {
            let l = self.lits(&args[0], nl * w);
            let k = match &base["vector.reduce.".len()..] {
                x if x.starts_with("or") => Bin::Or,
                x if x.starts_with("and") => Bin::And,
                x if x.starts_with("add") => Bin::Add,
                x if x.starts_with("xor") => Bin::Xor,
                x if x.starts_with("mul") => Bin::Mul,
                _ => return Err(Stop::Error(format!("intrinsic {}", name))),
            };
            let mut acc = l[..w as usize].to_vec();
            for i in 1..nl as usize {
                acc = self.bin_l(k, &acc, &l[i * w as usize..(i + 1) * w as usize])?;
            }
            return Ok(Some(pack(acc)));
        }
        // lane-wise operations
        let rw = c.ret.lane_bits();
        let all_c = args.iter().all(|a| matches!(a, C(_)));
        if let Some(k) = op.strip_suffix(".with.overflow") {
            let (a, b) = (&args[0], &args[1]);
            if nl != 1 {
                return Err(Stop::Error(format!("intrinsic {}", name)));
            }
            if let (C(x), C(y), true) = (a, b, w <= 64) {
                let (x, y) = (*x, *y);
                let (v, o) = match k {
                    "uadd" => (x + y, x + y >> w != 0),
                    "usub" => (x.wrapping_sub(y), x < y),
                    "umul" => (x.wrapping_mul(y), x.wrapping_mul(y) >> w != 0),
                    _ => {
                        let (p, q) = (sx(x, w), sx(y, w));
                        let r = match k {
                            "sadd" => p + q,
                            "ssub" => p - q,
                            "smul" => p * q,
                            _ => return Err(Stop::Error(format!("intrinsic {}", name))),
                        };
                        (r as u128, sx(mask(r as u128, w), w) != r)
                    }
                };
                return Ok(Some(A(Rc::new(vec![C(mask(v, w)), C(o as u128)]))));
            }
            let (x, y) = (self.lits(a, w), self.lits(b, w));
            let n = w as usize;
            let (v, o) = match k {
                "uadd" => self.aig.w_add(&x, &y, F),
                "usub" => self.aig.w_sub(&x, &y),
                "sadd" => {
                    let (r, _) = self.aig.w_add(&x, &y, F);
                    let p = self.aig.xor(r[n - 1], x[n - 1]);
                    let q = self.aig.xor(r[n - 1], y[n - 1]);
                    let o = self.aig.and(p, q);
                    (r, o)
                }
                "ssub" => {
                    let (r, _) = self.aig.w_sub(&x, &y);
                    let p = self.aig.xor(x[n - 1], y[n - 1]);
                    let q = self.aig.xor(r[n - 1], x[n - 1]);
                    let o = self.aig.and(p, q);
                    (r, o)
                }
                "umul" | "smul" => {
                    let ext = |v: &Vec<Lit>| {
                        let mut v = v.clone();
                        let t = if k == "smul" { v[n - 1] } else { F };
                        v.resize(2 * n, t);
                        v
                    };
                    let r = self.aig.w_mul(&ext(&x), &ext(&y));
                    let o = if k == "umul" {
                        self.aig.or_all(&r[n..])
                    } else {
                        let sg = r[n - 1];
                        let d: Vec<Lit> = r[n..].to_vec();
                        let d: Vec<Lit> = d.iter().map(|z| self.aig.xor(*z, sg)).collect();
                        self.aig.or_all(&d)
                    };
                    (r[..n].to_vec(), o)
                }
                _ => return Err(Stop::Error(format!("intrinsic {}", name))),
            };
            return Ok(Some(A(Rc::new(vec![pack(v), pack(vec![o])]))));
        }
        let mut out: Vec<Lit> = vec![];
        for i in 0..nl {
            let ln = |me: &Self, k: usize| -> Vec<Lit> {
                let lw = c.arg_ty[k].lane_bits();
                if c.arg_ty[k].lanes() == 1 && nl > 1 {
                    return me.lits(&args[k], lw);
                }
                let l = me.lits(&args[k], c.arg_ty[k].bits());
                l[(i * lw) as usize..((i + 1) * lw) as usize].to_vec()
            };
            if all_c && w <= 64 {
                let g = |k: usize| -> u128 {
                    match &args[k] {
                        C(v) => {
                            if c.arg_ty[k].lanes() == 1 {
                                *v
                            } else {
                                lane(*v, i, w)
                            }
                        }
                        _ => 0,
                    }
                };
                let a = g(0);
                let b = || g(1);
                let m = mask(u128::MAX, w);
                let r: Option<u128> = match op.as_str() {
                    "umax" => Some(a.max(b())),
                    "umin" => Some(a.min(b())),
                    "smax" => Some(if sx(a, w) > sx(b(), w) { a } else { b() }),
                    "smin" => Some(if sx(a, w) < sx(b(), w) { a } else { b() }),
                    "uadd.sat" => Some((a + b()).min(m)),
                    "usub.sat" => Some(a.saturating_sub(b())),
                    "cttz" => Some(if a == 0 { w as u128 } else { a.trailing_zeros() as u128 }),
                    "ctlz" => Some(if a == 0 { w as u128 } else { (a.leading_zeros() - (128 - w)) as u128 }),
                    "ctpop" => Some(a.count_ones() as u128),
                    "fshl" => {
                        let k = (g(2) % w as u128) as u32;
                        Some(if k == 0 { a } else { mask(a << k | b() >> (w - k), w) })
                    }
                    "fshr" => {
                        let k = (g(2) % w as u128) as u32;
                        Some(if k == 0 { b() } else { mask(a << (w - k) | b() >> k, w) })
                    }
                    "bswap" => {
                        let mut o = 0u128;
                        for j in 0..w / 8 {
                            o |= (a >> (8 * j) & 0xff) << (w - 8 - 8 * j);
                        }
                        Some(o)
                    }
                    "bitreverse" => Some(a.reverse_bits() >> (128 - w)),
                    "abs" => Some(mask(sx(a, w).unsigned_abs(), w)),
                    "ucmp" => Some(mask(a.cmp(&b()) as i8 as i128 as u128, rw)),
                    "scmp" => Some(mask(sx(a, w).cmp(&sx(b(), w)) as i8 as i128 as u128, rw)),
                    _ => None,
                };
                if let Some(r) = r {
                    out.extend(lits_of_const(r, rw));
                    continue;
                }
            }
            let a = ln(self, 0);
            let n = w as usize;
            let r: Vec<Lit> = match op.as_str() {
                "umax" | "umin" | "smax" | "smin" => {
                    let b = ln(self, 1);
                    let c = if op.starts_with('u') { self.aig.w_ult(&a, &b) } else { self.aig.w_slt(&a, &b) };
                    if op.ends_with("max") {
                        self.aig.w_mux(c, &b, &a)
                    } else {
                        self.aig.w_mux(c, &a, &b)
                    }
                }
                "uadd.sat" => {
                    let b = ln(self, 1);
                    let (r, o) = self.aig.w_add(&a, &b, F);
                    self.aig.w_mux(o, &vec![T; n], &r)
                }
                "usub.sat" => {
                    let b = ln(self, 1);
                    let (r, o) = self.aig.w_sub(&a, &b);
                    self.aig.w_mux(o, &vec![F; n], &r)
                }
                "cttz" | "ctlz" => {
                    let mut r = lits_of_const(w as u128, w);
                    let it: Vec<usize> = if op == "cttz" { (0..n).rev().collect() } else { (0..n).collect() };
                    for j in it {
                        let v = if op == "cttz" { j } else { n - 1 - j };
                        r = self.aig.w_mux(a[j], &lits_of_const(v as u128, w), &r);
                    }
                    r
                }
                "ctpop" => self.aig.w_popcount(&a),
                "fshl" | "fshr" => {
                    let b = ln(self, 1);
                    let k = match &args[2] {
                        C(v) => (lane(*v, if c.arg_ty[2].lanes() > 1 { i } else { 0 }, w) % w as u128) as usize,
                        _ => return Err(Stop::Error("symbolic funnel shift amount".into())),
                    };
                    if self.cfg.conc_rot && nl == 1 && w == 64 {
                        // rotations appear in hashing: split on the feasible values
                        let x = self.concretize(s, &args[0], 64)?;
                        let y = self.concretize(s, &args[1], 64)?;
                        let k = k as u32;
                        let r = if op == "fshl" {
                            if k == 0 {
                                x
                            } else {
                                mask(x << k | y >> (64 - k), 64)
                            }
                        } else if k == 0 {
                            y
                        } else {
                            mask(x << (64 - k) | y >> k, 64)
                        };
                        lits_of_const(r, 64)
                    } else {
                        // concatenation b (low) a (high)
                        let mut cat = b.clone();
                        cat.extend_from_slice(&a);
                        if op == "fshl" {
                            cat[n - k..2 * n - k].to_vec()
                        } else {
                            cat[k..k + n].to_vec()
                        }
                    }
                }
                "bswap" => {
                    let mut r = vec![];
                    for j in (0..n / 8).rev() {
                        r.extend_from_slice(&a[8 * j..8 * j + 8]);
                    }
                    r
                }
                "bitreverse" => a.iter().rev().copied().collect(),
                "abs" => {
                    let m = self.aig.w_neg(&a);
                    self.aig.w_mux(a[n - 1], &m, &a)
                }
                "ucmp" | "scmp" => {
                    let b = ln(self, 1);
                    let (lt, gt) = if op == "ucmp" {
                        (self.aig.w_ult(&a, &b), self.aig.w_ult(&b, &a))
                    } else {
                        (self.aig.w_slt(&a, &b), self.aig.w_slt(&b, &a))
                    };
                    let mut r = vec![lt; rw as usize];
                    r[0] = self.aig.or(lt, gt);
                    r
                }
                _ => return Err(Stop::Error(format!("intrinsic {}", name))),
            };
            out.extend(r);
        }
        Ok(Some(pack(out)))
    }
}

fn insert(a: &Val, v: &Val, path: &[u32]) -> Option<Val> {
    if path.is_empty() {
        return Some(v.clone());
    }
    match a {
        A(x) => {
            let mut y = (**x).clone();
            y[path[0] as usize] = insert(&y[path[0] as usize], v, &path[1..])?;
            Some(A(Rc::new(y)))
        }
        _ => None,
    }
}

impl State {
    /// a state that only serves to evaluate literals
    fn clone_light(&self) -> State {
        State {
            mem: Mem::empty(),
            frames: vec![],
            pc: vec![],
            known: Default::default(),
            model: self.model.clone(),
            n_in: self.n_in,
            events: vec![],
            allow_panic: false,
            obs: vec![],
            steps: 0,
            depth: 0,
            choices: 0,
            chash: 0,
            seedctr: 0,
            marks: vec![],
        }
    }
}
