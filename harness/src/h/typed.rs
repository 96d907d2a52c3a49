//! C26: expressions that mix integers, bit vectors, field elements and single bits of two widths in one circuit.
use super::arith::{Cfg, Int};
use super::bristol::{check_text, export, interpret, read};
use super::circ::*;
use super::prog::Lcg;
use super::refs;
use circuit_converters::finite_field::*;
use circuit_converters::logic::*;
use circuit_converters::num_bigint::BigUint;

type Bits<const N: usize> = AllocBits<NXAOBoolGate, NXAOBoolCircuit, N>;
type BCfg<const N: usize> = AllocBitsConfig<NXAOBoolGate, NXAOBoolCircuit, N>;
type Fp<const N: usize> = AllocFp<NXAOBoolGate, NXAOBoolCircuit, N>;
type FCfg<const N: usize> = AllocFpConfig<NXAOBoolGate, NXAOBoolCircuit, N>;

type V = Vec<bool>;
/// What all widths share: the single bits, and the values of the inputs in order.
struct Common {
    c: CR,
    flags: Vec<(GateId, bool)>,
    ins: V,
}
struct Layer<const N: usize> {
    ic: Cfg<N>,
    bc: BCfg<N>,
    fc: Option<(FCfg<N>, V)>,
    ints: Vec<(Int<N>, V)>,
    bits: Vec<(Bits<N>, V)>,
    fps: Vec<(Fp<N>, V)>,
}
fn pad(v: &[bool], n: usize) -> V {
    (0..n).map(|i| i < v.len() && v[i]).collect()
}
impl<const N: usize> Layer<N> {
    fn new(c: &CR, p: u64, r: usize) -> Layer<N> {
        let ic = Cfg::<N>::new(c).unwrap();
        let bc = BCfg::<N>::new(c).unwrap();
        let fc = if p == 0 {
            None
        } else {
            Some((FCfg::<N>::new(c, &ic, BigUint::from(p), r).unwrap(), (0..N).map(|i| i < 64 && (p >> i) & 1 == 1).collect()))
        };
        Layer { ic, bc, fc, ints: vec![], bits: vec![], fps: vec![] }
    }
    fn int(&mut self, m: &mut Common) {
        let v = bvec(N);
        self.ints.push((Int::<N>::new(&self.ic).unwrap(), v.clone()));
        m.ins.extend(v);
    }
    fn bit_vector(&mut self, m: &mut Common) {
        let v = bvec(N);
        self.bits.push((Bits::<N>::new(&self.bc).unwrap(), v.clone()));
        m.ins.extend(v);
    }
    fn element(&mut self, m: &mut Common) {
        let f = self.fc.as_ref().unwrap();
        let v = bvec(N);
        assume(refs::ult(&v, &f.1));
        self.fps.push((Fp::<N>::new(&f.0).unwrap(), v.clone()));
        m.ins.extend(v);
    }
    /// One operation; its operands among everything there is. `wide`: a value of the other width.
    fn step(&mut self, m: &mut Common, pick: &mut dyn FnMut(usize) -> usize, wide: &(Vec<GateId>, V)) {
        let ni = self.ints.len();
        let nb = self.bits.len();
        let k = pick(if self.fc.is_some() { 24 } else { 19 });
        cover([
            "add", "sub", "neg", "mul", "shift left", "shift right", "compare", "from other width", "int to bits", "bits to int", "and/or/xor", "not", "mux", "bits compare",
            "int from a bit", "assigning", "constant", "bit gate", "bits from other width", "fp add", "fp sub", "fp neg", "fp compare", "fp to int",
        ][k]);
        let i = |pick: &mut dyn FnMut(usize) -> usize| pick(ni);
        match k {
            0 | 1 | 3 => {
                let (a, b) = (i(pick), i(pick));
                let ((x, v), (y, w)) = (&self.ints[a], &self.ints[b]);
                let r = match k {
                    0 => (x + y, refs::add(v, w)),
                    1 => (x - y, refs::sub(v, w)),
                    _ => (x * y, refs::mul(v, w)),
                };
                self.ints.push(r);
            }
            2 => {
                let (x, v) = &self.ints[i(pick)];
                let r = (-x, refs::neg(v));
                self.ints.push(r);
            }
            4 | 5 => {
                let (x, v) = &self.ints[i(pick)];
                let s = [1, N / 2, N - 1, N, N + 2][pick(5)];
                let r = if k == 4 {
                    (x.shift_left(s).unwrap(), (0..N).map(|j| j >= s && v[j - s]).collect())
                } else {
                    (x.shift_right(s).unwrap(), (0..N).map(|j| if j + s < N { v[j + s] } else { v[N - 1] }).collect())
                };
                self.ints.push(r);
            }
            6 => {
                let (a, b) = (i(pick), i(pick));
                let ((x, v), (y, w)) = (&self.ints[a], &self.ints[b]);
                let f = match pick(6) {
                    0 => (x.eq(y).unwrap(), refs::equal(v, w)),
                    1 => (x.neq(y).unwrap(), !refs::equal(v, w)),
                    2 => (x.less(y).unwrap(), refs::slt(v, w)),
                    3 => (x.less_or_eq(y).unwrap(), !refs::slt(w, v)),
                    4 => (x.larger(y).unwrap(), refs::slt(w, v)),
                    _ => (x.larger_or_eq(y).unwrap(), !refs::slt(v, w)),
                };
                m.flags.push(f);
            }
            7 => {
                let n = wide.0.len().min(N);
                self.ints.push((Int::<N>::from_gate_ids(wide.0[..n].to_vec(), &self.ic).unwrap(), pad(&wide.1[..n], N)));
            }
            8 => {
                let (x, v) = &self.ints[i(pick)];
                let r = (Bits::<N>::from_gate_ids(x.val_le.clone(), &self.bc).unwrap(), v.clone());
                self.bits.push(r);
            }
            9 => {
                let (x, v) = &self.bits[pick(nb)];
                let r = (Int::<N>::from_gate_ids(x.bits.clone(), &self.ic).unwrap(), v.clone());
                self.ints.push(r);
            }
            10 => {
                let (a, b) = (pick(nb), pick(nb));
                let ((x, v), (y, w)) = (&self.bits[a], &self.bits[b]);
                let z = |f: fn(bool, bool) -> bool| (0..N).map(|j| f(v[j], w[j])).collect::<V>();
                let r = match pick(3) {
                    0 => (x & y, z(|p, q| p & q)),
                    1 => (x | y, z(|p, q| p | q)),
                    _ => (x ^ y, z(|p, q| p ^ q)),
                };
                self.bits.push(r);
            }
            11 => {
                let (x, v) = &self.bits[pick(nb)];
                let r = (!x, refs::not(v));
                self.bits.push(r);
            }
            12 => {
                let (a, b) = (pick(nb), pick(nb));
                let s = m.flags[pick(m.flags.len())];
                let ((x, v), (y, w)) = (&self.bits[a], &self.bits[b]);
                let r = (x.mux(y, &s.0).unwrap(), refs::select(s.1, w, v));
                self.bits.push(r);
            }
            13 => {
                let (a, b) = (pick(nb), pick(nb));
                let ((x, v), (y, w)) = (&self.bits[a], &self.bits[b]);
                let f = if pick(2) == 0 { (x.eq(y).unwrap(), refs::equal(v, w)) } else { (x.neq(y).unwrap(), !refs::equal(v, w)) };
                m.flags.push(f);
            }
            14 => {
                let s = m.flags[pick(m.flags.len())];
                self.ints.push((Int::<N>::from_gate_ids(vec![s.0], &self.ic).unwrap(), pad(&[s.1], N)));
            }
            15 => {
                let (a, b) = (i(pick), i(pick));
                let (mut x, v) = self.ints[a].clone();
                let (y, w) = self.ints[b].clone();
                let r = match pick(3) {
                    0 => {
                        x += &y;
                        refs::add(&v, &w)
                    }
                    1 => {
                        x -= &y;
                        refs::sub(&v, &w)
                    }
                    _ => {
                        x *= &y;
                        refs::mul(&v, &w)
                    }
                };
                self.ints.push((x, r));
            }
            16 => {
                let v = [0u64, 1, 5][pick(3)] & ((1u64 << N.min(63)) - 1);
                let x = match v {
                    0 => Int::<N>::zero(&self.ic).unwrap(),
                    1 => Int::<N>::one(&self.ic).unwrap(),
                    _ => Int::<N>::from_biguint(&BigUint::from(v), &self.ic).unwrap(),
                };
                self.ints.push((x, (0..N).map(|j| j < 64 && (v >> j) & 1 == 1).collect()));
            }
            17 => {
                let (a, b) = (m.flags[pick(m.flags.len())], m.flags[pick(m.flags.len())]);
                let f = match pick(4) {
                    0 => (m.c.and(&a.0, &b.0).unwrap(), a.1 & b.1),
                    1 => (m.c.or(&a.0, &b.0).unwrap(), a.1 | b.1),
                    2 => (m.c.equivalent(&a.0, &b.0).unwrap(), !(a.1 ^ b.1)),
                    _ => (m.c.not(&a.0).unwrap(), !a.1),
                };
                m.flags.push(f);
            }
            18 => {
                let n = wide.0.len().min(N);
                self.bits.push((Bits::<N>::from_gate_ids(wide.0[..n].to_vec(), &self.bc).unwrap(), pad(&wide.1[..n], N)));
            }
            _ => {
                let nf = self.fps.len();
                let p = self.fc.as_ref().unwrap().1.clone();
                let (a, b) = (pick(nf), if k == 21 || k == 23 { 0 } else { pick(nf) });
                let ((x, v), (y, w)) = (&self.fps[a], &self.fps[b]);
                match k {
                    19 => {
                        let s = refs::add(v, w);
                        let r = (x + y, refs::select(refs::ult(&s, &p), &s, &refs::sub(&s, &p)));
                        self.fps.push(r);
                    }
                    20 | 21 => {
                        let z = vec![false; N];
                        let (l, r) = if k == 20 { (v, w) } else { (&z, v) };
                        let d = refs::sub(l, r);
                        let t = if k == 20 { x - y } else { -x };
                        let t = (t, refs::select(refs::ult(l, r), &refs::add(&d, &p), &d));
                        self.fps.push(t);
                    }
                    22 => {
                        let f = if pick(2) == 0 { (x.eq(y).unwrap(), refs::equal(v, w)) } else { (x.neq(y).unwrap(), !refs::equal(v, w)) };
                        m.flags.push(f);
                    }
                    _ => {
                        let t = (Int::<N>::from_gate_ids(x.to_gate_ids(), &self.ic).unwrap(), v.clone());
                        self.ints.push(t);
                    }
                }
            }
        }
    }
    fn some(&self, pick: &mut dyn FnMut(usize) -> usize) -> (Vec<GateId>, V) {
        let n = self.ints.len();
        let k = pick(n + self.bits.len());
        if k < n { (self.ints[k].0.val_le.clone(), self.ints[k].1.clone()) } else { (self.bits[k - n].0.bits.clone(), self.bits[k - n].1.clone()) }
    }
    fn last(&self) -> (Vec<GateId>, V) {
        let x = &self.ints[self.ints.len() - 1];
        (x.0.val_le.clone(), x.1.clone())
    }
    fn output(&self, want: &mut V) {
        for (x, v) in self.ints.iter() {
            x.output().unwrap();
            want.extend_from_slice(v);
        }
        for (x, v) in self.bits.iter() {
            x.output().unwrap();
            want.extend_from_slice(v);
        }
        for (x, v) in self.fps.iter() {
            x.output().unwrap();
            want.extend_from_slice(v);
        }
    }
}
/// `p`, `r`: modulus and radix exponent of the fields of width B (0: none)
fn expression<const A: usize, const B: usize>(mode: u64, steps: usize, p: u64, r: usize, pick: &mut dyn FnMut(usize) -> usize) {
    let c = new_circ();
    let mut m = Common { c: c.clone(), flags: vec![], ins: vec![] };
    let f = m.c.input().unwrap();
    let fv = bit();
    m.ins.push(fv);
    m.flags.push((f, fv));
    let mut x = Layer::<A>::new(&c, 0, 0);
    let mut y = Layer::<B>::new(&c, p, r);
    x.int(&mut m);
    y.int(&mut m);
    x.bit_vector(&mut m);
    if mode < 2 {
        x.int(&mut m);
        y.bit_vector(&mut m);
        y.bit_vector(&mut m);
    } else {
        let w = x.last();
        y.bits.push((Bits::<B>::from_gate_ids(w.0[..A.min(B)].to_vec(), &y.bc).unwrap(), pad(&w.1[..A.min(B)], B)));
    }
    if p != 0 {
        y.element(&mut m);
        y.element(&mut m);
    }
    for _ in 0..steps {
        if pick(2) == 0 {
            let w = if mode < 2 { y.some(pick) } else { y.last() };
            x.step(&mut m, pick, &w);
        } else {
            let w = if mode < 2 { x.some(pick) } else { x.last() };
            y.step(&mut m, pick, &w);
        }
        if mode == 1 && pick(6) == 0 {
            // another configuration of the same width is as good
            x.ic = Cfg::<A>::new(&c).unwrap();
        }
    }
    let mut want = V::new();
    x.output(&mut want);
    y.output(&mut want);
    for (g, v) in m.flags.iter() {
        m.c.output(*g).unwrap();
        want.push(*v);
    }
    check(c.input_len() == m.ins.len(), "only allocations add inputs");
    check(c.output_len() == want.len(), "outputs are the declared ones");
    if let Some(o) = eval(&c, &m.ins) {
        observe_bits(&o);
        check(same(&o, &want), "every value of a mixed expression is exact");
    }
    if mode == 1 || mode == 3 {
        if let Some((text, consts)) = export(&c, m.ins.len()) {
            let mut all = m.ins.clone();
            all.extend_from_slice(&consts);
            let n = check_text(&text, &consts, m.ins.len(), want.len(), m.ins.len());
            check(same(&interpret(&n, &all), &want), "the exported expression computes the same values");
            let mut back = new_circ();
            let r = read(&text, &mut back);
            check(r.is_ok(), "the exported expression is read back");
            if let Some(o) = eval(&back, &all) {
                check(same(&o, &want), "the expression read back computes the same values");
            }
        }
    }
}
fn run<const A: usize, const B: usize>() {
    let (mode, steps, seed, count) = (param(0), param(2) as usize, param(3), param(4));
    let (p, r) = (param(5), param(6) as usize);
    if mode >= 2 {
        // the choice is symbolic
        return expression::<A, B>(mode, steps, p, r, &mut |n| choose(n));
    }
    let mut g = Lcg(seed + choose(count as usize) as u64);
    expression::<A, B>(mode, steps, p, r, &mut |n| g.next(n))
}
/// Params: mode (0 evaluated, 1 also exported and read back; 2, 3 the same with every choice of operations),
/// pair of widths, operations, first seed, number of seeds, modulus, radix exponent.
#[no_mangle]
pub extern "C" fn h_typed() {
    match param(1) {
        0 => run::<2, 3>(),
        1 => run::<4, 7>(),
        2 => run::<5, 10>(),
        3 => run::<8, 16>(),
        4 => run::<1, 2>(),
        5 => run::<32, 64>(),
        6 => run::<3, 2>(),
        _ => check(false, "harness: widths not instantiated"),
    }
}
