//! Deciding satisfiability of AIG literals: libz3 (incremental), SAT sweeping on top of it, kissat for the hard rest.
use crate::aig::*;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::time::Instant;

type Ctx = *mut c_void;
type Ast = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> *mut c_void;
    fn Z3_del_config(c: *mut c_void);
    fn Z3_mk_context(c: *mut c_void) -> Ctx;
    fn Z3_del_context(c: Ctx);
    fn Z3_mk_int_symbol(c: Ctx, i: c_int) -> *mut c_void;
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> *mut c_void;
    fn Z3_mk_bool_sort(c: Ctx) -> *mut c_void;
    fn Z3_mk_const(c: Ctx, s: *mut c_void, t: *mut c_void) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_solver_for_logic(c: Ctx, s: *mut c_void) -> *mut c_void;
    fn Z3_solver_inc_ref(c: Ctx, s: *mut c_void);
    fn Z3_solver_dec_ref(c: Ctx, s: *mut c_void);
    fn Z3_solver_assert(c: Ctx, s: *mut c_void, a: Ast);
    fn Z3_solver_check_assumptions(c: Ctx, s: *mut c_void, n: c_uint, a: *const Ast) -> c_int;
    fn Z3_solver_get_model(c: Ctx, s: *mut c_void) -> *mut c_void;
    fn Z3_model_inc_ref(c: Ctx, m: *mut c_void);
    fn Z3_model_dec_ref(c: Ctx, m: *mut c_void);
    fn Z3_model_eval(c: Ctx, m: *mut c_void, a: Ast, compl: bool, out: *mut Ast) -> bool;
    fn Z3_get_bool_value(c: Ctx, a: Ast) -> c_int;
    fn Z3_mk_params(c: Ctx) -> *mut c_void;
    fn Z3_params_inc_ref(c: Ctx, p: *mut c_void);
    fn Z3_params_dec_ref(c: Ctx, p: *mut c_void);
    fn Z3_params_set_uint(c: Ctx, p: *mut c_void, k: *mut c_void, v: c_uint);
    fn Z3_solver_set_params(c: Ctx, s: *mut c_void, p: *mut c_void);
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ans {
    Sat,
    Unsat,
    Unknown,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub z3_queries: u64,
    pub z3_sat: u64,
    pub z3_unsat: u64,
    pub z3_unknown: u64,
    pub kissat_queries: u64,
    pub time: f64,
    pub sweeps: u64,
    pub sweep_merges: u64,
    pub local_merges: u64,
    pub biggest_cone: usize,
    pub max_query: f64,
}

/// One libz3 incremental solver holding Tseitin definitions of AIG nodes.
pub struct Z3 {
    ctx: Ctx,
    solver: *mut c_void,
    bsort: *mut c_void,
    var: FxMap<u32, (Ast, Ast)>,
    n_enc: usize,
    max_conf: u32,
    seed: u32,
}

impl Z3 {
    pub fn new(max_conf: u32, seed: u32) -> Z3 {
        let mut z = Z3 { ctx: std::ptr::null_mut(), solver: std::ptr::null_mut(), bsort: std::ptr::null_mut(), var: Default::default(), n_enc: 0, max_conf, seed };
        z.open();
        z
    }
    fn open(&mut self) {
        unsafe {
            let cfg = Z3_mk_config();
            self.ctx = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            let l = CString::new("QF_FD").unwrap();
            let s = Z3_mk_string_symbol(self.ctx, l.as_ptr());
            self.solver = Z3_mk_solver_for_logic(self.ctx, s);
            Z3_solver_inc_ref(self.ctx, self.solver);
            self.bsort = Z3_mk_bool_sort(self.ctx);
            let p = Z3_mk_params(self.ctx);
            Z3_params_inc_ref(self.ctx, p);
            let k = CString::new("random_seed").unwrap();
            Z3_params_set_uint(self.ctx, p, Z3_mk_string_symbol(self.ctx, k.as_ptr()), self.seed);
            if self.max_conf > 0 {
                let k = CString::new("max_conflicts").unwrap();
                Z3_params_set_uint(self.ctx, p, Z3_mk_string_symbol(self.ctx, k.as_ptr()), self.max_conf);
            }
            Z3_solver_set_params(self.ctx, self.solver, p);
            Z3_params_dec_ref(self.ctx, p);
        }
    }
    /// Change the limit of conflicts per query.
    pub fn limit(&mut self, max_conf: u32) {
        if max_conf == self.max_conf {
            return;
        }
        self.max_conf = max_conf;
        unsafe {
            let p = Z3_mk_params(self.ctx);
            Z3_params_inc_ref(self.ctx, p);
            let k = CString::new("max_conflicts").unwrap();
            Z3_params_set_uint(self.ctx, p, Z3_mk_string_symbol(self.ctx, k.as_ptr()), max_conf);
            Z3_solver_set_params(self.ctx, self.solver, p);
            Z3_params_dec_ref(self.ctx, p);
        }
    }
    pub fn reset(&mut self) {
        self.close();
        self.var.clear();
        self.n_enc = 0;
        self.open();
    }
    fn close(&mut self) {
        unsafe {
            Z3_solver_dec_ref(self.ctx, self.solver);
            Z3_del_context(self.ctx);
        }
    }
    fn lit(&self, l: Lit) -> Ast {
        let (p, n) = self.var[&(l >> 1)];
        if l & 1 == 1 {
            n
        } else {
            p
        }
    }
    fn clause(&self, c: &[Ast]) {
        unsafe {
            let a = if c.len() == 1 { c[0] } else { Z3_mk_or(self.ctx, c.len() as c_uint, c.as_ptr()) };
            Z3_solver_assert(self.ctx, self.solver, a);
        }
    }
    fn encode(&mut self, aig: &Aig, root: u32) {
        let mut st = vec![root];
        while let Some(n) = st.pop() {
            if self.var.contains_key(&n) {
                continue;
            }
            let nd = aig.nodes[n as usize];
            if matches!(nd.kind, Kind::And | Kind::Xor) {
                let (a, b) = (nd.a >> 1, nd.b >> 1);
                let (ha, hb) = (self.var.contains_key(&a), self.var.contains_key(&b));
                if !ha || !hb {
                    st.push(n);
                    if !ha {
                        st.push(a);
                    }
                    if !hb {
                        st.push(b);
                    }
                    continue;
                }
            }
            self.encode_node(n, nd);
        }
    }
    fn encode_node(&mut self, n: u32, nd: Node) {
        {
            unsafe {
                let v = Z3_mk_const(self.ctx, Z3_mk_int_symbol(self.ctx, n as c_int), self.bsort);
                let nv = Z3_mk_not(self.ctx, v);
                self.var.insert(n, (v, nv));
                self.n_enc += 1;
                match nd.kind {
                    Kind::Const => self.clause(&[nv]),
                    Kind::Input => {}
                    Kind::And => {
                        let (a, na) = (self.lit(nd.a), self.lit(neg(nd.a)));
                        let (b, nb) = (self.lit(nd.b), self.lit(neg(nd.b)));
                        self.clause(&[nv, a]);
                        self.clause(&[nv, b]);
                        self.clause(&[v, na, nb]);
                    }
                    Kind::Xor => {
                        let (a, na) = (self.lit(nd.a), self.lit(neg(nd.a)));
                        let (b, nb) = (self.lit(nd.b), self.lit(neg(nd.b)));
                        self.clause(&[nv, a, b]);
                        self.clause(&[nv, na, nb]);
                        self.clause(&[v, na, b]);
                        self.clause(&[v, a, nb]);
                    }
                }
            }
        }
    }
    /// Can a and b differ in the window? `inner` (bottom up) keeps its gates, `leaves` are left free.
    /// Unsat implies that they are equal.
    pub fn window_differs(&mut self, g: &Aig, a: Lit, b: Lit, inner: &[u32], leaves: &[u32]) -> Ans {
        self.reset();
        for l in leaves {
            let kind = if g.nodes[*l as usize].kind == Kind::Const { Kind::Const } else { Kind::Input };
            self.encode_node(*l, Node { kind, a: 0, b: 0 });
        }
        for n in inner {
            self.encode_node(*n, g.nodes[*n as usize]);
        }
        let (x, nx) = (self.lit(a), self.lit(neg(a)));
        let (y, ny) = (self.lit(b), self.lit(neg(b)));
        self.clause(&[x, y]);
        self.clause(&[nx, ny]);
        self.check(g, &[], None, &[])
    }
    /// Permanently assert the equivalence of two already encoded literals.
    pub fn assert_equiv(&mut self, aig: &Aig, a: Lit, b: Lit) {
        self.encode(aig, a >> 1);
        self.encode(aig, b >> 1);
        let (x, nx) = (self.lit(a), self.lit(neg(a)));
        let (y, ny) = (self.lit(b), self.lit(neg(b)));
        self.clause(&[nx, y]);
        self.clause(&[x, ny]);
    }
    /// Satisfiability of the conjunction. On Sat, `model` receives the inputs (by input number) in the cone.
    pub fn check(&mut self, aig: &Aig, asm: &[Lit], model: Option<&mut Vec<(u32, bool)>>, cone_inputs: &[u32]) -> Ans {
        for l in asm {
            self.encode(aig, l >> 1);
        }
        let a: Vec<Ast> = asm.iter().map(|l| self.lit(*l)).collect();
        unsafe {
            let r = Z3_solver_check_assumptions(self.ctx, self.solver, a.len() as c_uint, a.as_ptr());
            match r {
                1 => {
                    if let Some(m) = model {
                        let z = Z3_solver_get_model(self.ctx, self.solver);
                        Z3_model_inc_ref(self.ctx, z);
                        for n in cone_inputs {
                            if let Some((v, _)) = self.var.get(n) {
                                let mut out: Ast = std::ptr::null_mut();
                                Z3_model_eval(self.ctx, z, *v, true, &mut out);
                                m.push((aig.nodes[*n as usize].a, Z3_get_bool_value(self.ctx, out) == 1));
                            }
                        }
                        Z3_model_dec_ref(self.ctx, z);
                    }
                    Ans::Sat
                }
                -1 => Ans::Unsat,
                _ => Ans::Unknown,
            }
        }
    }
}
impl Drop for Z3 {
    fn drop(&mut self) {
        self.close()
    }
}

pub struct Prover {
    z: Z3,
    seen: Vec<u32>,
    epoch: u32,
    pub st: Stats,
    pub cross: bool,
    pub seed: u32,
    pub kissat: Option<String>,
    pub kissat_limit: u64,
    pub scratch: String,
    pub verbose: bool,
    pub no_sweep: bool,
    pub wide_sweep: bool,
}

/// Equality of two signals decided on a cut below them: equal truth tables over all values of the cut
/// imply equality (the cut is left unconstrained). False means undecided.
/// The cut grows downwards to at most `k` signals, cheapest extension first.
fn local_equal(g: &Aig, a: Lit, b: Lit, k: usize) -> bool {
    let (na, nb) = (a >> 1, b >> 1);
    let leaf_kind = |n: u32| matches!(g.nodes[n as usize].kind, Kind::Const | Kind::Input);
    let mut leaves: Vec<u32> = if na == nb { vec![na] } else { vec![na, nb] };
    let mut inner: Vec<u32> = vec![];
    loop {
        let mut best: Option<(usize, u32, usize)> = None;
        for (p, l) in leaves.iter().enumerate() {
            if leaf_kind(*l) {
                continue;
            }
            let nd = g.nodes[*l as usize];
            let (x, y) = (nd.a >> 1, nd.b >> 1);
            let mut add = 0usize;
            if !leaves.contains(&x) && !(inner.contains(&x)) {
                add += 1;
            }
            if x != y && !leaves.contains(&y) && !(inner.contains(&y)) {
                add += 1;
            }
            // few new leaves first, then the topmost node
            let c = (add, u32::MAX - *l, p);
            if best.map_or(true, |b| c < b) {
                best = Some(c);
            }
        }
        let Some((add, _, p)) = best else { break };
        if leaves.len() - 1 + add > k || inner.len() > 200 {
            break;
        }
        let l = leaves.swap_remove(p);
        inner.push(l);
        let nd = g.nodes[l as usize];
        for x in [nd.a >> 1, nd.b >> 1] {
            if !leaves.contains(&x) && !inner.contains(&x) {
                leaves.push(x);
            }
        }
    }
    tables_equal(g, a, b, &leaves, inner) == Some(true)
}
/// Equality as sums over GF(2): both sides expanded through XOR gates down to other signals.
fn xor_equal(g: &Aig, a: Lit, b: Lit) -> bool {
    let mut set: std::collections::BTreeSet<u32> = Default::default();
    let mut par = (a ^ b) & 1;
    fn toggle(s: &mut std::collections::BTreeSet<u32>, n: u32) {
        if !s.remove(&n) {
            s.insert(n);
        }
    }
    toggle(&mut set, a >> 1);
    toggle(&mut set, b >> 1);
    let mut steps = 0;
    // the topmost signal cannot cancel against anything found later
    while let Some(n) = set.pop_last() {
        let nd = g.nodes[n as usize];
        match nd.kind {
            Kind::Xor => {
                par ^= (nd.a ^ nd.b) & 1;
                toggle(&mut set, nd.a >> 1);
                toggle(&mut set, nd.b >> 1);
            }
            Kind::Const => {}
            _ => return false,
        }
        steps += 1;
        if steps > 5000 {
            return false;
        }
    }
    par == 0
}
/// The same with the cut at signals already known to be shared by both sides (`shared`).
fn cutpoint_equal(g: &Aig, a: Lit, b: Lit, shared: &[u8], k: usize) -> bool {
    let (na, nb) = (a >> 1, b >> 1);
    let mut leaves: Vec<u32> = vec![];
    let mut inner: Vec<u32> = vec![];
    let mut seen: std::collections::BTreeSet<u32> = Default::default();
    let mut todo = vec![na, nb];
    while let Some(n) = todo.pop() {
        if !seen.insert(n) {
            continue;
        }
        let nd = g.nodes[n as usize];
        let leaf = matches!(nd.kind, Kind::Const | Kind::Input) || (n != na && n != nb && shared.get(n as usize).map_or(false, |c| *c >= 2));
        if leaf {
            leaves.push(n);
            if leaves.len() > k {
                return false;
            }
        } else {
            inner.push(n);
            if inner.len() > 4000 {
                return false;
            }
            todo.push(nd.a >> 1);
            todo.push(nd.b >> 1);
        }
    }
    let mut tries = 0;
    loop {
        // a cut signal whose operands are in the picture already is no independent signal
        loop {
            let n0 = leaves.len();
            let mut i = 0;
            while i < leaves.len() {
                let nd = g.nodes[leaves[i] as usize];
                if !matches!(nd.kind, Kind::Const | Kind::Input) && seen.contains(&(nd.a >> 1)) && seen.contains(&(nd.b >> 1)) {
                    inner.push(leaves.swap_remove(i));
                } else {
                    i += 1;
                }
            }
            if leaves.len() == n0 {
                break;
            }
        }
        match tables_equal(g, a, b, &leaves, inner.clone()) {
            Some(true) => return true,
            _ => {}
        }
        tries += 1;
        if tries > 40 || leaves.len() > 120 {
            return false;
        }
        // expand the topmost cut signal
        let Some((p, l)) = leaves.iter().copied().enumerate().filter(|(_, l)| matches!(g.nodes[*l as usize].kind, Kind::And | Kind::Xor)).max_by_key(|x| x.1) else { return false };
        leaves.swap_remove(p);
        inner.push(l);
        let nd = g.nodes[l as usize];
        for x in [nd.a >> 1, nd.b >> 1] {
            if seen.insert(x) {
                leaves.push(x);
            }
        }
    }
}
/// Compare truth tables over the cut. Gates that see the cut only through XORs depend on linear forms of it;
/// the table ranges over a basis of the forms that matter (independent forms take all values).
fn tables_equal(g: &Aig, a: Lit, b: Lit, leaves: &[u32], mut inner: Vec<u32>) -> Option<bool> {
    if leaves.len() > 128 {
        return None;
    }
    // nodes are numbered bottom up
    inner.sort();
    // linear part: the form over the leaves, for signals that have one
    let mut form: FxMap<u32, u128> = Default::default();
    for (i, l) in leaves.iter().enumerate() {
        form.insert(*l, if g.nodes[*l as usize].kind == Kind::Const { 0 } else { 1 << i });
    }
    // inversions travel separately: parity of a linear signal
    let mut par: FxMap<u32, bool> = Default::default();
    let mut needed: Vec<u128> = vec![];
    for n in &inner {
        let nd = g.nodes[*n as usize];
        let (x, y) = (nd.a >> 1, nd.b >> 1);
        match (nd.kind, form.get(&x).copied(), form.get(&y).copied()) {
            (Kind::Xor, Some(p), Some(q)) => {
                let v = par.get(&x).copied().unwrap_or(false) ^ par.get(&y).copied().unwrap_or(false) ^ ((nd.a ^ nd.b) & 1 == 1);
                form.insert(*n, p ^ q);
                par.insert(*n, v);
            }
            (_, p, q) => {
                needed.extend(p);
                needed.extend(q);
            }
        }
    }
    for n in [a >> 1, b >> 1] {
        needed.extend(form.get(&n).copied());
    }
    // basis by elimination: (reduced form, mask of basis elements)
    let mut basis: Vec<u128> = vec![];
    let reduce = |mut f: u128, basis: &Vec<u128>| -> (u128, u32) {
        let mut m = 0u32;
        for (i, b) in basis.iter().enumerate() {
            if f >> (127 - b.leading_zeros()) & 1 == 1 {
                f ^= b;
                m |= 1 << i;
            }
        }
        (f, m)
    };
    for f in needed {
        let (r, _) = reduce(f, &basis);
        if r != 0 {
            basis.push(r);
            if basis.len() > 14 {
                return None;
            }
        }
    }
    let k = basis.len();
    let words = if k <= 6 { 1 } else { 1usize << (k - 6) };
    const M: [u64; 6] = [0xaaaa_aaaa_aaaa_aaaa, 0xcccc_cccc_cccc_cccc, 0xf0f0_f0f0_f0f0_f0f0, 0xff00_ff00_ff00_ff00, 0xffff_0000_ffff_0000, 0xffff_ffff_0000_0000];
    let table = |n: u32| -> Option<Vec<u64>> {
        let (r, m) = reduce(*form.get(&n)?, &basis);
        debug_assert!(r == 0);
        let c = if par.get(&n).copied().unwrap_or(false) { !0u64 } else { 0 };
        Some(
            (0..words)
                .map(|w| {
                    let mut v = c;
                    for i in 0..k {
                        if m >> i & 1 == 1 {
                            v ^= if i < 6 { M[i] } else if w >> (i - 6) & 1 == 1 { !0 } else { 0 };
                        }
                    }
                    v
                })
                .collect(),
        )
    };
    let mut tt: FxMap<u32, Vec<u64>> = Default::default();
    for n in inner.iter() {
        if form.contains_key(n) {
            continue;
        }
        let nd = g.nodes[*n as usize];
        for x in [nd.a >> 1, nd.b >> 1] {
            if !tt.contains_key(&x) {
                let t = table(x).expect("a signal of the cut");
                tt.insert(x, t);
            }
        }
        let (x, y) = (&tt[&(nd.a >> 1)], &tt[&(nd.b >> 1)]);
        let (ix, iy) = (if nd.a & 1 == 1 { !0u64 } else { 0 }, if nd.b & 1 == 1 { !0u64 } else { 0 });
        let v = (0..words).map(|w| if nd.kind == Kind::And { (x[w] ^ ix) & (y[w] ^ iy) } else { x[w] ^ ix ^ y[w] ^ iy }).collect();
        tt.insert(*n, v);
    }
    for n in [a >> 1, b >> 1] {
        if !tt.contains_key(&n) {
            let t = table(n).expect("a signal of the cut");
            tt.insert(n, t);
        }
    }
    let inv = if (a ^ b) & 1 == 1 { !0u64 } else { 0 };
    let (x, y) = (&tt[&(a >> 1)], &tt[&(b >> 1)]);
    Some((0..words).all(|w| x[w] == y[w] ^ inv))
}

fn rnd(s: &mut u64) -> u64 {
    *s ^= *s << 13;
    *s ^= *s >> 7;
    *s ^= *s << 17;
    *s
}

impl Prover {
    pub fn new(seed: u32) -> Prover {
        Prover {
            z: Z3::new(10_000, seed),
            seen: vec![],
            epoch: 0,
            st: Default::default(),
            cross: false,
            seed,
            kissat: std::env::var("KISSAT").ok().or_else(|| std::path::Path::new("/usr/local/bin/kissat").exists().then(|| "/usr/local/bin/kissat".to_string())),
            kissat_limit: 600,
            scratch: "/tmp".into(),
            verbose: false,
            no_sweep: false,
            wide_sweep: false,
        }
    }
    pub fn cone(&mut self, aig: &Aig, roots: &[Lit]) -> Vec<u32> {
        self.epoch += 1;
        aig.cone(roots, &mut self.seen, self.epoch)
    }
    fn inputs_of(aig: &Aig, cone: &[u32]) -> Vec<u32> {
        cone.iter().copied().filter(|n| aig.nodes[*n as usize].kind == Kind::Input).collect()
    }
    fn note(&mut self, t: f64, a: Ans) {
        self.st.z3_queries += 1;
        self.st.time += t;
        if t > self.st.max_query {
            self.st.max_query = t;
        }
        match a {
            Ans::Sat => self.st.z3_sat += 1,
            Ans::Unsat => self.st.z3_unsat += 1,
            Ans::Unknown => self.st.z3_unknown += 1,
        }
    }
    /// Is the conjunction satisfiable? Exact (used for path feasibility and small assertions).
    pub fn solve(&mut self, aig: &Aig, asm: &[Lit]) -> (Ans, Vec<(u32, bool)>) {
        let mut v: Vec<Lit> = asm.iter().copied().filter(|l| *l != T).collect();
        v.sort_unstable();
        v.dedup();
        if v.contains(&F) || v.windows(2).any(|w| w[0] ^ 1 == w[1]) {
            return (Ans::Unsat, vec![]);
        }
        let cone = self.cone(aig, &v);
        self.st.biggest_cone = self.st.biggest_cone.max(cone.len());
        if v.is_empty() {
            return (Ans::Sat, vec![]);
        }
        let ins = Self::inputs_of(aig, &cone);
        if cone.len() > 3000 {
            return self.prove_big(aig, &v, &cone, &ins);
        }
        if self.z.n_enc > 2 * cone.len() + 500 {
            self.z.reset();
        }
        let t = Instant::now();
        let mut m = vec![];
        let a = self.z.check(aig, &v, Some(&mut m), &ins);
        self.note(t.elapsed().as_secs_f64(), a);
        if a == Ans::Unknown {
            self.z.reset();
            return self.prove_big(aig, &v, &cone, &ins);
        }
        if a == Ans::Sat {
            self.verify_model(aig, &v, &cone, &m);
        }
        (a, m)
    }
    fn verify_model(&self, aig: &Aig, asm: &[Lit], cone: &[u32], m: &[(u32, bool)]) {
        let mm: FxMap<u32, bool> = m.iter().copied().collect();
        let mut val: FxMap<u32, bool> = Default::default();
        for n in cone {
            let nd = aig.nodes[*n as usize];
            let g = |l: Lit| val[&(l >> 1)] ^ (l & 1 == 1);
            let r = match nd.kind {
                Kind::Const => false,
                Kind::Input => mm.get(&nd.a).copied().unwrap_or(false),
                Kind::And => g(nd.a) && g(nd.b),
                Kind::Xor => g(nd.a) ^ g(nd.b),
            };
            val.insert(*n, r);
        }
        for l in asm {
            if !(val[&(l >> 1)] ^ (l & 1 == 1)) {
                panic!("solver model does not satisfy the query");
            }
        }
    }

    /// Large query: random simulation, SAT sweeping of internal equivalences, then z3 / kissat.
    fn prove_big(&mut self, aig: &Aig, asm: &[Lit], cone: &[u32], ins: &[u32]) -> (Ans, Vec<(u32, bool)>) {
        let t0 = Instant::now();
        self.st.sweeps += 1;
        let r = self.sweep(aig, asm, cone, ins, false);
        let t = t0.elapsed().as_secs_f64();
        self.st.time += t;
        if t > self.st.max_query {
            self.st.max_query = t;
        }
        if let (Ans::Sat, m) = &r {
            self.verify_model(aig, asm, cone, m);
        }
        r
    }

    fn sweep(&mut self, aig: &Aig, asm: &[Lit], cone: &[u32], ins: &[u32], patient: bool) -> (Ans, Vec<(u32, bool)>) {
        let n = cone.len();
        let t0 = Instant::now();
        // dense renumbering
        let mut idx: FxMap<u32, u32> = Default::default();
        for (i, c) in cone.iter().enumerate() {
            idx.insert(*c, i as u32);
        }
        let kinds: Vec<Node> = cone
            .iter()
            .map(|c| {
                let nd = aig.nodes[*c as usize];
                match nd.kind {
                    Kind::And | Kind::Xor => Node { kind: nd.kind, a: idx[&(nd.a >> 1)] << 1 | (nd.a & 1), b: idx[&(nd.b >> 1)] << 1 | (nd.b & 1) },
                    k => Node { kind: k, a: nd.a, b: 0 },
                }
            })
            .collect();
        let roots: Vec<u32> = asm.iter().map(|l| idx[&(l >> 1)] << 1 | (l & 1)).collect();
        let mut seed = 0x1234_5678_9abc_def1u64 ^ ((self.seed as u64) << 20);
        const W: usize = 48; // 3072 random patterns
        let simulate = |inp: &dyn Fn(u32) -> u64| -> Vec<u64> {
            let mut v = vec![0u64; n];
            for i in 0..n {
                let nd = kinds[i];
                let g = |l: u32, v: &Vec<u64>| v[(l >> 1) as usize] ^ (if l & 1 == 1 { !0 } else { 0 });
                v[i] = match nd.kind {
                    Kind::Const => 0,
                    Kind::Input => inp(nd.a),
                    Kind::And => g(nd.a, &v) & g(nd.b, &v),
                    Kind::Xor => g(nd.a, &v) ^ g(nd.b, &v),
                };
            }
            v
        };
        // signature words, word-major: sig[w][node]
        let mut sig: Vec<Vec<u64>> = vec![];
        for w in 0..W {
            let mut pat: FxMap<u32, u64> = Default::default();
            if w % 2 == 1 {
                // runs of zeros, of ones, and of random bits along the inputs
                let mut keys: Vec<u32> = ins.iter().map(|c| aig.nodes[*c as usize].a).collect();
                keys.sort_unstable();
                let mut val = vec![0u64; keys.len()];
                for lane in 0..64 {
                    let mut p = 0;
                    while p < keys.len() {
                        let top = 1u64 << (rnd(&mut seed) % 7);
                        let len = 1 + (rnd(&mut seed) % top) as usize;
                        let mode = rnd(&mut seed) % 3;
                        for v in val.iter_mut().skip(p).take(len) {
                            let b = match mode {
                                0 => 0,
                                1 => 1,
                                _ => rnd(&mut seed) >> 17 & 1,
                            };
                            *v |= b << lane;
                        }
                        p += len;
                    }
                }
                for (k, v) in keys.iter().zip(val) {
                    pat.insert(*k, v);
                }
            } else {
                for c in ins {
                    let k = aig.nodes[*c as usize].a;
                    let r = rnd(&mut seed);
                    // vary the density of ones
                    let r = match w % 8 {
                        4 => r & rnd(&mut seed) & rnd(&mut seed),
                        6 => r | rnd(&mut seed) | rnd(&mut seed),
                        _ => r,
                    };
                    pat.insert(k, r);
                }
            }
            let s = simulate(&|k| pat[&k]);
            // does a pattern satisfy everything?
            let mut all = !0u64;
            for r in &roots {
                all &= s[(r >> 1) as usize] ^ (if r & 1 == 1 { !0 } else { 0 });
            }
            if all != 0 {
                let b = all.trailing_zeros();
                let m = ins.iter().map(|c| { let k = aig.nodes[*c as usize].a; (k, pat[&k] >> b & 1 == 1) }).collect();
                return (Ans::Sat, m);
            }
            sig.push(s);
        }
        if n > 3000 && n < 20_000 {
            // a direct attempt first
            let mut z = Z3::new(20_000, self.seed);
            let mut m = vec![];
            let a = z.check(aig, asm, Some(&mut m), ins);
            self.note(0.0, a);
            if a != Ans::Unknown {
                return (a, m);
            }
        }
        // SAT sweeping into a fresh graph
        let mut g = Aig::new();
        let mut map: Vec<Lit> = vec![0; n];
        let mut in_of: FxMap<u32, Lit> = Default::default();
        for c in ins {
            let k = aig.nodes[*c as usize].a;
            let l = g.input();
            in_of.insert(k, l);
        }
        let in_nodes: Vec<u32> = g.inputs.clone();
        let in_keys: Vec<u32> = ins.iter().map(|c| aig.nodes[*c as usize].a).collect();
        // conflicts spent per candidate: more while candidates turn out to be equal, less in a row of failures
        let mut budget = if patient { 2000u32 } else { 1000 };
        let mut z = Z3::new(budget, self.seed);
        // extra patterns from counterexamples (each word holds up to 64)
        let mut cex: Vec<Vec<bool>> = vec![];
        let mut classes: FxMap<u64, Vec<u32>> = Default::default();
        let hash_of = |i: usize, sig: &Vec<Vec<u64>>| -> (u64, u32) {
            // canonical: first pattern bit 0
            let ph = (sig[0][i] & 1) as u32;
            let mut h = Fx::default();
            use std::hash::Hasher;
            for w in sig {
                h.write_u64(if ph == 1 { !w[i] } else { w[i] });
            }
            (h.finish(), ph)
        };
        let mut failed = 0u64;
        let mut merged = 0u64;
        let mut calls = 0u64;
        let mut local = 0u64;
        // how many of the original nodes stand at a node of the new graph
        let mut shared: Vec<u8> = vec![];
        let mut last_note = Instant::now();
        let mut i = 0;
        while i < n {
            let nd = kinds[i];
            let f = |l: u32, map: &Vec<Lit>| map[(l >> 1) as usize] ^ (l & 1);
            map[i] = match nd.kind {
                Kind::Const => F,
                Kind::Input => in_of[&nd.a],
                Kind::And => {
                    let (a, b) = (f(nd.a, &map), f(nd.b, &map));
                    g.and(a, b)
                }
                Kind::Xor => {
                    let (a, b) = (f(nd.a, &map), f(nd.b, &map));
                    g.xor(a, b)
                }
            };
            if self.verbose && last_note.elapsed().as_secs() >= 10 {
                last_note = Instant::now();
                eprintln!("sweep at {}/{} local {} merged {} failed {} calls {} extra {}", i, n, local, merged, failed, calls, cex.len());
            }
            loop {
                let (h, ph) = hash_of(i, &sig);
                let cand: Vec<u32> = classes.get(&h).cloned().unwrap_or_default();
                let mut refined = false;
                let mut done = false;
                for r in cand.iter().take(4) {
                    let r = *r as usize;
                    let rp = (sig[0][r] & 1) as u32;
                    let target = map[r] ^ (rp ^ ph);
                    if map[i] == target {
                        done = true;
                        break;
                    }
                    if kinds[i].kind == Kind::Input {
                        continue;
                    }
                    let x = g.xor(map[i], target);
                    if x == F {
                        map[i] = target;
                        done = true;
                        break;
                    }
                    if xor_equal(&g, map[i], target) || local_equal(&g, map[i], target, 8) || cutpoint_equal(&g, map[i], target, &shared, 128) || local_equal(&g, map[i], target, 13) {
                        local += 1;
                        z.assert_equiv(&g, map[i], target);
                        map[i] = target;
                        done = true;
                        break;
                    }
                    calls += 1;
                    if z.n_enc > 400_000 {
                        z.reset();
                    }
                    let mut m = vec![];
                    z.limit(budget);
                    let a = z.check(&g, &[x], Some(&mut m), &in_nodes);
                    match a {
                        Ans::Unsat => {
                            budget = (budget * 2).min(2000);
                            merged += 1;
                            z.assert_equiv(&g, map[i], target);
                            map[i] = target;
                            done = true;
                        }
                        Ans::Sat => {
                            let mut p = vec![false; in_keys.len()];
                            for (k, v) in m {
                                p[k as usize] = v;
                            }
                            cex.push(p);
                            refined = true;
                        }
                        Ans::Unknown => {
                            budget = if patient { 2000 } else { (budget / 2).max(60) };
                            failed += 1;
                            self.st.z3_unknown += 1;
                            continue;
                        }
                    }
                    break;
                }
                if refined {
                    // 64 patterns around the counterexample
                    let p = cex.last().unwrap().clone();
                    let mut pat: FxMap<u32, u64> = Default::default();
                    for (j, k) in in_keys.iter().enumerate() {
                        let base = if p[j] { !0u64 } else { 0 };
                        let flip = rnd(&mut seed) & rnd(&mut seed) & rnd(&mut seed) & !1;
                        pat.insert(*k, base ^ flip);
                    }
                    let s = simulate(&|k| pat[&k]);
                    let mut all = !0u64;
                    for r in &roots {
                        all &= s[(r >> 1) as usize] ^ (if r & 1 == 1 { !0 } else { 0 });
                    }
                    if all != 0 {
                        let b = all.trailing_zeros();
                        return (Ans::Sat, in_keys.iter().map(|k| (*k, pat[k] >> b & 1 == 1)).collect());
                    }
                    sig.push(s);
                    // rebuild classes of the processed prefix
                    classes.clear();
                    for j in 0..i {
                        let (h, _) = hash_of(j, &sig);
                        let e = classes.entry(h).or_default();
                        if e.len() < 8 && !e.iter().any(|q| map[*q as usize] >> 1 == map[j] >> 1) {
                            e.push(j as u32);
                        }
                    }
                    continue;
                }
                let m = (map[i] >> 1) as usize;
                if shared.len() <= m {
                    shared.resize(m + 1, 0);
                }
                shared[m] = shared[m].saturating_add(1);
                if !done {
                    let (h, _) = hash_of(i, &sig);
                    classes.entry(h).or_default().push(i as u32);
                }
                break;
            }
            i += 1;
        }
        self.st.z3_queries += calls;
        self.st.z3_unsat += merged;
        self.st.sweep_merges += merged + local;
        self.st.local_merges += local;
        let rr: Vec<Lit> = roots.iter().map(|r| map[(r >> 1) as usize] ^ (r & 1)).collect();
        let conj = g.and_all(&mut rr.clone());
        if self.verbose {
            eprintln!("sweep: cone {} -> graph {} local {} merged {} failed {} calls {} extra patterns {} {:.1}s result {}", n, g.nodes.len(), local, merged, failed, calls, cex.len(), t0.elapsed().as_secs_f64(), if conj == F { "unsat".into() } else { format!("open({})", conj) });
        }
        if conj == F {
            return (Ans::Unsat, vec![]);
        }
        let tr = |m: Vec<(u32, bool)>| -> Vec<(u32, bool)> { m.into_iter().map(|(k, v)| (in_keys[k as usize], v)).collect() };
        let mut z = Z3::new(if patient { 100_000 } else { 20_000 }, self.seed);
        let mut m = vec![];
        let a = z.check(&g, &rr, Some(&mut m), &in_nodes);
        self.note(0.0, a);
        if a != Ans::Unknown {
            return (a, tr(m));
        }
        if !patient {
            return self.sweep(aig, asm, cone, ins, true);
        }
        let (a, m) = self.run_kissat(&g, &rr, self.kissat_limit);
        (a, tr(m))
    }

    pub fn run_kissat(&mut self, g: &Aig, roots: &[Lit], limit: u64) -> (Ans, Vec<(u32, bool)>) {
        let Some(k) = self.kissat.clone() else { return (Ans::Unknown, vec![]) };
        use std::io::Write;
        self.st.kissat_queries += 1;
        let cone = self.cone(g, roots);
        let mut idx: FxMap<u32, i64> = Default::default();
        for (i, c) in cone.iter().enumerate() {
            idx.insert(*c, i as i64 + 1);
        }
        let lit = |l: Lit| if l & 1 == 1 { -idx[&(l >> 1)] } else { idx[&(l >> 1)] };
        let mut cl: Vec<Vec<i64>> = vec![];
        for c in &cone {
            let nd = g.nodes[*c as usize];
            let v = idx[c];
            match nd.kind {
                Kind::Const => cl.push(vec![-v]),
                Kind::Input => {}
                Kind::And => {
                    let (a, b) = (lit(nd.a), lit(nd.b));
                    cl.push(vec![-v, a]);
                    cl.push(vec![-v, b]);
                    cl.push(vec![v, -a, -b]);
                }
                Kind::Xor => {
                    let (a, b) = (lit(nd.a), lit(nd.b));
                    cl.push(vec![-v, a, b]);
                    cl.push(vec![-v, -a, -b]);
                    cl.push(vec![v, -a, b]);
                    cl.push(vec![v, a, -b]);
                }
            }
        }
        for r in roots {
            cl.push(vec![lit(*r)]);
        }
        let path = format!("{}/q{}_{}.cnf", self.scratch, std::process::id(), self.st.kissat_queries);
        {
            let mut f = std::io::BufWriter::new(std::fs::File::create(&path).expect("cnf file"));
            writeln!(f, "p cnf {} {}", cone.len(), cl.len()).unwrap();
            for c in &cl {
                for x in c {
                    write!(f, "{} ", x).unwrap();
                }
                writeln!(f, "0").unwrap();
            }
        }
        let out = std::process::Command::new(k).arg("-q").arg(format!("--time={}", limit)).arg(&path).output();
        let _ = std::fs::remove_file(&path);
        let Ok(out) = out else { return (Ans::Unknown, vec![]) };
        match out.status.code() {
            Some(20) => (Ans::Unsat, vec![]),
            Some(10) => {
                let mut tv: FxMap<i64, bool> = Default::default();
                for l in String::from_utf8_lossy(&out.stdout).lines() {
                    if let Some(r) = l.strip_prefix("v ") {
                        for x in r.split_whitespace() {
                            let x: i64 = x.parse().unwrap_or(0);
                            if x != 0 {
                                tv.insert(x.abs(), x > 0);
                            }
                        }
                    }
                }
                let m = cone
                    .iter()
                    .filter(|c| g.nodes[**c as usize].kind == Kind::Input)
                    .map(|c| (g.nodes[*c as usize].a, tv.get(&idx[c]).copied().unwrap_or(false)))
                    .collect();
                (Ans::Sat, m)
            }
            _ => (Ans::Unknown, vec![]),
        }
    }
}
