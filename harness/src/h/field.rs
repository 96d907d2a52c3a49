//! C17, C18: prime fields.
use super::arith::{widths, Cfg, Int};
use super::circ::*;
use super::refs;
use circuit_converters::finite_field::*;
use circuit_converters::num_bigint::BigUint;

type Fp<const N: usize> = AllocFp<NXAOBoolGate, NXAOBoolCircuit, N>;
type FCfg<const N: usize> = AllocFpConfig<NXAOBoolGate, NXAOBoolCircuit, N>;

fn bits_of(v: u128, n: usize) -> Vec<bool> {
    (0..n).map(|i| i < 128 && (v >> i) & 1 == 1).collect()
}
/// Params: width, op, r_exp (0: number of bits of p), low word of p, high word of p
fn modulus() -> (u128, usize) {
    let p = param(3) as u128 | (param(4) as u128) << 64;
    let mut r = param(2) as usize;
    if r == 0 {
        r = 128 - p.leading_zeros() as usize;
    }
    (p, r)
}
struct Setup<const N: usize> {
    c: CR,
    cfg: FCfg<N>,
    p: Vec<bool>,
}
fn setup<const N: usize>() -> Setup<N> {
    let c = new_circ();
    let ic = Cfg::<N>::new(&c).unwrap();
    let (p, r) = modulus();
    let big = BigUint::from(p);
    let cfg = FCfg::<N>::new(&c, &ic, big, r).unwrap();
    Setup { c, cfg, p: bits_of(p, N) }
}
/// (a + b) mod p for a, b < p
fn add_mod(a: &[bool], b: &[bool], p: &[bool]) -> Vec<bool> {
    let s = refs::add(a, b);
    let d = refs::sub(&s, p);
    refs::select(refs::ult(&s, p), &s, &d)
}
fn sub_mod(a: &[bool], b: &[bool], p: &[bool]) -> Vec<bool> {
    let d = refs::sub(a, b);
    refs::select(refs::ult(a, b), &refs::add(&d, p), &d)
}
fn linear<const N: usize>() {
    let s = setup::<N>();
    let a = Fp::<N>::new(&s.cfg).unwrap();
    let b = Fp::<N>::new(&s.cfg).unwrap();
    let ins = bvec(2 * N);
    let (x, y) = (&ins[..N], &ins[N..]);
    assume(refs::ult(x, &s.p));
    assume(refs::ult(y, &s.p));
    let zero = vec![false; N];
    let one = bits_of(1, N);
    let p = &s.p;
    let op = if param(1) == 99 { choose(12) } else { param(1) as usize };
    cover(["add", "sub", "neg", "add=", "sub=", "self add", "self sub", "zero/one", "eq", "chain", "constants", "neg neg"][op]);
    let (r, want) = match op {
        0 => (&a + &b, add_mod(x, y, p)),
        1 => (&a - &b, sub_mod(x, y, p)),
        2 => (-&a, sub_mod(&zero, x, p)),
        3 => {
            let mut t = a.clone();
            t += &b;
            (t, add_mod(x, y, p))
        }
        4 => {
            let mut t = a.clone();
            t -= &b;
            (t, sub_mod(x, y, p))
        }
        5 => (&a + &a, add_mod(x, x, p)),
        6 => (&a - &a, zero.clone()),
        7 => {
            let z = Fp::<N>::zero(&s.cfg).unwrap();
            let o = Fp::<N>::one(&s.cfg).unwrap();
            (&(&z - &o) + &a, add_mod(&sub_mod(&zero, &one, p), x, p))
        }
        8 => {
            // field equality of results is equality modulo p
            let l = &a + &b;
            let r = &b + &a;
            let d = &a - &b;
            let z = Fp::<N>::zero(&s.cfg).unwrap();
            let mut c = s.c.clone();
            c.output(l.eq(&r).unwrap()).unwrap();
            c.output(l.neq(&r).unwrap()).unwrap();
            c.output(d.eq(&z).unwrap()).unwrap();
            c.output(d.neq(&z).unwrap()).unwrap();
            if let Some(o) = eval(&s.c, &ins) {
                observe_bits(&o);
                let e = refs::equal(x, y);
                check(same(&o, &[true, false, e, !e]), "field equality coincides with equality modulo p");
            }
            return;
        }
        9 => {
            let t = &(&a + &b) - &(&a - &b);
            (t, add_mod(y, y, p))
        }
        10 => {
            let m = Fp::<N>::from_biguint_unchecked(&(BigUint::from(modulus().0) - BigUint::from(1u32)), &s.cfg);
            (&a + &m, sub_mod(x, &one, p))
        }
        _ => (-&(-&a), x.to_vec()),
    };
    r.output().unwrap();
    if let Some(o) = eval(&s.c, &ins) {
        observe_bits(&o);
        check(same(&o, &want), "the result is the representative in [0,p)");
    }
}
#[no_mangle]
pub extern "C" fn h_fp_linear() {
    widths!(linear, param(0), 3 4 5 6 7 8 9 10 12 16 20 24 32 33 64 128)
}
/// (a * b) mod p, shift and add.
fn mul_mod(a: &[bool], b: &[bool], p: &[bool]) -> Vec<bool> {
    let mut s = vec![false; a.len()];
    for i in (0..b.len()).rev() {
        s = add_mod(&s, &s, p);
        let t = add_mod(&s, a, p);
        s = refs::select(b[i], &t, &s);
    }
    s
}
fn product<const N: usize>() {
    let s = setup::<N>();
    let (p, r) = modulus();
    let radix = BigUint::from(1u32) << r;
    // Montgomery constants
    let one = BigUint::from(1u32);
    check((BigUint::from(p) * &s.cfg.p_minus_inv + &one) % &radix == BigUint::from(0u32), "p*p' = -1 modulo R");
    check(s.cfg.p_minus_inv < radix, "p' is reduced");
    let r2 = (&radix * &radix) % BigUint::from(p);
    known(s.cfg.r2 == r2, "R2 = R*R mod p");
    check(s.cfg.r2 == r2 || s.cfg.r2 == BigUint::from(0u32), "R2 is either right or the listed defect");
    let a = Fp::<N>::new(&s.cfg).unwrap();
    let b = Fp::<N>::new(&s.cfg).unwrap();
    let ins = bvec(2 * N);
    let (x, y) = (&ins[..N], &ins[N..]);
    assume(refs::ult(x, &s.p));
    assume(refs::ult(y, &s.p));
    let op = if param(1) == 99 { choose(4) } else { param(1) as usize };
    cover(["mul", "mul=", "square", "by one"][op]);
    let (t, want) = match op {
        0 => (&a * &b, mul_mod(x, y, &s.p)),
        1 => {
            let mut t = a.clone();
            t *= &b;
            (t, mul_mod(x, y, &s.p))
        }
        2 => (&a * &a, mul_mod(x, x, &s.p)),
        _ => {
            let o = Fp::<N>::one(&s.cfg).unwrap();
            (&a * &o, x.to_vec())
        }
    };
    t.output().unwrap();
    if let Some(o) = eval(&s.c, &ins) {
        observe_bits(&o);
        let right = same(&o, &want);
        known(right, "the product is the product modulo p");
        check(right || same(&o, &vec![false; N]), "the product is either right or zero as in the listed defect");
    }
}
#[no_mangle]
pub extern "C" fn h_fp_mul() {
    widths!(product, param(0), 4 5 6 7 8 9 10 12 16)
}
/// The Montgomery reduction module: t = v/R mod p for v < p*R.
fn mont<const N: usize>() {
    let s = setup::<N>();
    let (p, r) = modulus();
    let v = Int::<N>::new(&s.cfg.int_config).unwrap();
    let mut c = s.c.clone();
    let g = c.module(&s.cfg.mont_red_mid, &v.val_le).unwrap();
    for x in g.iter() {
        c.output(*x).unwrap();
    }
    let x = bvec(N);
    let mut pr = vec![false; r];
    pr.extend_from_slice(&s.p);
    pr.truncate(N);
    assume(refs::ult(&x, &pr));
    let _ = p;
    if let Some(o) = eval(&s.c, &x) {
        observe_bits(&o);
        // o is right iff o < p and o*R = v modulo p
        let lt = refs::ult(&o, &s.p);
        let mut t = o.clone();
        for _ in 0..r {
            t = add_mod(&t, &t, &s.p);
        }
        let right = lt & same(&t, &reduce(&x, &s.p));
        check(right, "Montgomery reduction gives v/R modulo p in [0,p)");
    }
}
fn reduce(x: &[bool], p: &[bool]) -> Vec<bool> {
    let mut s = vec![false; x.len()];
    for i in (0..x.len()).rev() {
        let mut d = refs::add(&s, &s);
        d[0] = x[i];
        let e = refs::sub(&d, p);
        s = refs::select(refs::ult(&d, p), &d, &e);
    }
    s
}
#[no_mangle]
pub extern "C" fn h_fp_mont() {
    widths!(mont, param(0), 4 5 6 7 8 9 10 12 16)
}
