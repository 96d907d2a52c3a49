//! And/xor-inverter graph with structural hashing. A literal is node*2+negated; node 0 is constant false.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

pub type Lit = u32;
pub const F: Lit = 0;
pub const T: Lit = 1;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x9E3779B97F4A7C15);
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u16(&mut self, x: u16) {
        self.write_u64(x as u64)
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
}
pub type FxB = BuildHasherDefault<Fx>;
pub type FxMap<K, V> = HashMap<K, V, FxB>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Const,
    Input,
    And,
    Xor,
}

#[derive(Clone, Copy, Debug)]
pub struct Node {
    pub kind: Kind,
    pub a: Lit,
    pub b: Lit,
}

pub struct Aig {
    pub nodes: Vec<Node>,
    strash: FxMap<u64, u32>,
    pub n_inputs: u32,
    pub inputs: Vec<u32>,
}

#[inline]
pub fn neg(l: Lit) -> Lit {
    l ^ 1
}

impl Aig {
    pub fn new() -> Self {
        Aig { nodes: vec![Node { kind: Kind::Const, a: 0, b: 0 }], strash: Default::default(), n_inputs: 0, inputs: vec![] }
    }
    pub fn input(&mut self) -> Lit {
        let id = self.nodes.len() as u32;
        self.nodes.push(Node { kind: Kind::Input, a: self.n_inputs, b: 0 });
        self.n_inputs += 1;
        self.inputs.push(id);
        id << 1
    }
    /// The i-th input variable, creating it if needed (variables are shared between paths).
    pub fn input_no(&mut self, i: usize) -> Lit {
        while self.inputs.len() <= i {
            self.input();
        }
        self.inputs[i] << 1
    }
    fn mk(&mut self, kind: Kind, a: Lit, b: Lit) -> Lit {
        let key = ((a as u64) << 32 | b as u64) << 1 | (kind == Kind::Xor) as u64;
        // literals are < 2^31, so the key is unique
        if let Some(&n) = self.strash.get(&key) {
            return n << 1;
        }
        let id = self.nodes.len() as u32;
        assert!(id < (1 << 30), "AIG too large");
        self.nodes.push(Node { kind, a, b });
        self.strash.insert(key, id);
        id << 1
    }
    #[inline]
    pub fn node(&self, l: Lit) -> Node {
        self.nodes[(l >> 1) as usize]
    }
    pub fn and(&mut self, a: Lit, b: Lit) -> Lit {
        if a == F || b == F || a == neg(b) {
            return F;
        }
        if a == T || a == b {
            return b;
        }
        if b == T {
            return a;
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        for (x, y) in [(a, b), (b, a)] {
            let n = self.node(y);
            match n.kind {
                Kind::And => {
                    if y & 1 == 0 {
                        if x == n.a || x == n.b {
                            return y;
                        }
                        if x == neg(n.a) || x == neg(n.b) {
                            return F;
                        }
                    } else {
                        if x == neg(n.a) || x == neg(n.b) {
                            return x;
                        }
                        if x == n.a {
                            return self.and(x, neg(n.b));
                        }
                        if x == n.b {
                            return self.and(x, neg(n.a));
                        }
                    }
                }
                Kind::Xor => {
                    // x & (p ^ q [^1])
                    for (p, q) in [(n.a, n.b), (n.b, n.a)] {
                        if x >> 1 == p >> 1 {
                            // under x true, p has value (x==p)
                            let pv = (x == p) as u32;
                            // value of y = p ^ q ^ (y&1) = q ^ pv ^ (y&1)
                            let r = q ^ pv ^ (y & 1);
                            return self.and(x, r);
                        }
                    }
                }
                _ => {}
            }
        }
        let (na, nb) = (self.node(a), self.node(b));
        if na.kind == Kind::And && nb.kind == Kind::And && a & 1 == 0 && b & 1 == 0 {
            for p in [na.a, na.b] {
                if neg(p) == nb.a || neg(p) == nb.b {
                    return F;
                }
            }
        }
        self.mk(Kind::And, a, b)
    }
    pub fn or(&mut self, a: Lit, b: Lit) -> Lit {
        neg(self.and(neg(a), neg(b)))
    }
    pub fn xor(&mut self, a: Lit, b: Lit) -> Lit {
        let s = (a ^ b) & 1;
        let (a, b) = (a & !1, b & !1);
        if a == b {
            return s;
        }
        if a == F {
            return b ^ s;
        }
        if b == F {
            return a ^ s;
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        for (x, y) in [(a, b), (b, a)] {
            let n = self.node(y);
            if n.kind == Kind::Xor {
                if n.a == x {
                    return n.b ^ s;
                }
                if n.b == x {
                    return n.a ^ s;
                }
            }
        }
        self.mk(Kind::Xor, a, b) ^ s
    }
    pub fn mux(&mut self, s: Lit, t: Lit, e: Lit) -> Lit {
        if s == T || t == e {
            return t;
        }
        if s == F {
            return e;
        }
        if t == T {
            return self.or(s, e);
        }
        if t == F {
            return self.and(neg(s), e);
        }
        if e == F {
            return self.and(s, t);
        }
        if e == T {
            return self.or(neg(s), t);
        }
        if t == neg(e) {
            return neg(self.xor(s, t));
        }
        if s == t {
            return self.or(s, e);
        }
        if s == neg(t) {
            return self.and(neg(s), e);
        }
        if s == e {
            return self.and(s, t);
        }
        if s == neg(e) {
            return self.or(neg(s), t);
        }
        let p = self.and(s, t);
        let q = self.and(neg(s), e);
        self.or(p, q)
    }
    // ---- words (least significant bit first) ----
    pub fn w_const(v: u128, w: usize) -> Vec<Lit> {
        (0..w).map(|i| if i < 128 && (v >> i) & 1 == 1 { T } else { F }).collect()
    }
    pub fn w_map2(&mut self, a: &[Lit], b: &[Lit], f: fn(&mut Aig, Lit, Lit) -> Lit) -> Vec<Lit> {
        a.iter().zip(b).map(|(x, y)| f(self, *x, *y)).collect()
    }
    /// a + b + cin, result and carry out. carry = (a&b) | ((a|b) & c)
    pub fn w_add(&mut self, a: &[Lit], b: &[Lit], cin: Lit) -> (Vec<Lit>, Lit) {
        let mut c = cin;
        let mut r = Vec::with_capacity(a.len());
        for i in 0..a.len() {
            let x = self.xor(a[i], b[i]);
            r.push(self.xor(x, c));
            let g = self.and(a[i], b[i]);
            let p = self.or(a[i], b[i]);
            let pc = self.and(p, c);
            c = self.or(g, pc);
        }
        (r, c)
    }
    pub fn w_not(a: &[Lit]) -> Vec<Lit> {
        a.iter().map(|x| neg(*x)).collect()
    }
    /// a - b, and the borrow (a < b unsigned)
    pub fn w_sub(&mut self, a: &[Lit], b: &[Lit]) -> (Vec<Lit>, Lit) {
        let nb = Self::w_not(b);
        let (r, c) = self.w_add(a, &nb, T);
        (r, neg(c))
    }
    pub fn w_neg(&mut self, a: &[Lit]) -> Vec<Lit> {
        let z = vec![F; a.len()];
        self.w_sub(&z, a).0
    }
    pub fn w_mux(&mut self, s: Lit, a: &[Lit], b: &[Lit]) -> Vec<Lit> {
        a.iter().zip(b).map(|(x, y)| self.mux(s, *x, *y)).collect()
    }
    pub fn w_eq(&mut self, a: &[Lit], b: &[Lit]) -> Lit {
        let mut v: Vec<Lit> = a.iter().zip(b).map(|(x, y)| neg(self.xor(*x, *y))).collect();
        self.and_all(&mut v)
    }
    pub fn and_all(&mut self, v: &mut Vec<Lit>) -> Lit {
        if v.is_empty() {
            return T;
        }
        if v.contains(&F) {
            return F;
        }
        v.retain(|x| *x != T);
        if v.is_empty() {
            return T;
        }
        while v.len() > 1 {
            let mut o = Vec::with_capacity(v.len() / 2 + 1);
            for c in v.chunks(2) {
                o.push(if c.len() == 2 { self.and(c[0], c[1]) } else { c[0] });
            }
            *v = o;
        }
        v[0]
    }
    pub fn or_all(&mut self, v: &[Lit]) -> Lit {
        let mut n: Vec<Lit> = v.iter().map(|x| neg(*x)).collect();
        neg(self.and_all(&mut n))
    }
    pub fn w_ult(&mut self, a: &[Lit], b: &[Lit]) -> Lit {
        // from least significant: lt = (!a & b) | (!(a^b) & lt)
        let mut lt = F;
        for i in 0..a.len() {
            let x = self.xor(a[i], b[i]);
            lt = self.mux(x, b[i], lt);
        }
        lt
    }
    pub fn w_slt(&mut self, a: &[Lit], b: &[Lit]) -> Lit {
        let n = a.len();
        let mut x = a.to_vec();
        let mut y = b.to_vec();
        x[n - 1] = neg(x[n - 1]);
        y[n - 1] = neg(y[n - 1]);
        self.w_ult(&x, &y)
    }
    pub fn w_mul(&mut self, a: &[Lit], b: &[Lit]) -> Vec<Lit> {
        let w = a.len();
        let consts = |v: &[Lit]| v.iter().filter(|x| **x <= 1).count();
        // put the operand with more constants in the multiplier position
        let (a, b) = if consts(a) > consts(b) { (b, a) } else { (a, b) };
        let mut acc = vec![F; w];
        for i in 0..w {
            if b[i] == F {
                continue;
            }
            let mut row = vec![F; w];
            for j in 0..w - i {
                row[i + j] = self.and(a[j], b[i]);
            }
            acc = self.w_add(&acc, &row, F).0;
        }
        acc
    }
    /// unsigned quotient and remainder (restoring); b = 0 gives all-ones / a
    pub fn w_udivrem(&mut self, a: &[Lit], b: &[Lit]) -> (Vec<Lit>, Vec<Lit>) {
        self.w_div2(&[], a, b)
    }
    /// Quotient and remainder of `h:l / d`, where `h < d` (so `d` is not zero). The remainder's width
    /// grows with the digits brought down, so narrow numbers in wide words stay narrow.
    pub fn w_div2(&mut self, h: &[Lit], l: &[Lit], d: &[Lit]) -> (Vec<Lit>, Vec<Lit>) {
        let w = l.len();
        let mut q = vec![F; w];
        let mut r = h.to_vec();
        while r.last() == Some(&F) {
            r.pop();
        }
        for i in (0..w).rev() {
            r.insert(0, l[i]);
            while r.last() == Some(&F) {
                r.pop();
            }
            if r.is_empty() {
                continue;
            }
            let n = r.len();
            let mut dl: Vec<Lit> = d.iter().copied().take(n).collect();
            dl.resize(n, F);
            let (t, mut borrow) = self.w_sub(&r, &dl);
            for x in d.iter().skip(n) {
                borrow = self.or(borrow, *x);
            }
            q[i] = neg(borrow);
            r = self.w_mux(borrow, &r, &t);
            // the remainder is below d
            r.truncate(d.len());
            while r.last() == Some(&F) {
                r.pop();
            }
        }
        r.resize(d.len(), F);
        (q, r)
    }
    pub fn w_shift(&mut self, a: &[Lit], amt: &[Lit], kind: Shift) -> Vec<Lit> {
        let w = a.len();
        let mut cur = a.to_vec();
        let fill0 = if let Shift::Ashr = kind { a[w - 1] } else { F };
        for (k, s) in amt.iter().enumerate() {
            if *s == F {
                continue;
            }
            let sh = if k < 30 { 1usize << k } else { w };
            let mut nx = vec![fill0; w];
            for i in 0..w {
                match kind {
                    Shift::Shl => {
                        if i >= sh {
                            nx[i] = cur[i - sh]
                        }
                    }
                    _ => {
                        if i + sh < w {
                            nx[i] = cur[i + sh]
                        }
                    }
                }
            }
            cur = self.w_mux(*s, &nx, &cur);
        }
        cur
    }
    pub fn w_popcount(&mut self, a: &[Lit]) -> Vec<Lit> {
        let w = a.len();
        let mut acc = vec![F; w];
        for x in a {
            let mut one = vec![F; w];
            one[0] = *x;
            acc = self.w_add(&acc, &one, F).0;
        }
        acc
    }
    /// Cone of `roots` in topological (index) order.
    pub fn cone(&self, roots: &[Lit], seen: &mut Vec<u32>, epoch: u32) -> Vec<u32> {
        if seen.len() < self.nodes.len() {
            seen.resize(self.nodes.len() + 1024, 0);
        }
        let mut st: Vec<u32> = roots.iter().map(|l| l >> 1).collect();
        let mut out = vec![];
        while let Some(n) = st.pop() {
            if seen[n as usize] == epoch {
                continue;
            }
            seen[n as usize] = epoch;
            out.push(n);
            let nd = self.nodes[n as usize];
            if matches!(nd.kind, Kind::And | Kind::Xor) {
                st.push(nd.a >> 1);
                st.push(nd.b >> 1);
            }
        }
        out.sort_unstable();
        out
    }
}

#[derive(Clone, Copy)]
pub enum Shift {
    Shl,
    Lshr,
    Ashr,
}
