//! C12-C15, C19: integer circuits.
use super::circ::*;
use super::refs;
use circuit_converters::arithmetic::*;
use circuit_converters::logic::*;
use circuit_converters::num_bigint::BigUint;

pub type Int<const N: usize> = AllocInt<NXAOBoolGate, NXAOBoolCircuit, N>;
pub type Cfg<const N: usize> = AllocIntConfig<NXAOBoolGate, NXAOBoolCircuit, N>;

#[macro_export]
macro_rules! widths {
    ($f:ident, $n:expr, $($w:literal)*) => { match $n { $($w => $f::<$w>(),)* _ => check(false, "harness: width not instantiated") } };
}
pub use crate::widths;

/// Params: the operation (or 99 for all), then the number of widths and the widths, or 0 and a range.
pub fn pick_width() -> usize {
    let n = param(1) as usize;
    if n == 0 {
        // a range
        let lo = param(2) as usize;
        return lo + choose(param(3) as usize + 1 - lo);
    }
    param(2 + choose(n) as u32) as usize
}
fn pick_op(n: usize) -> usize {
    if param(0) == 99 { choose(n) } else { param(0) as usize }
}
const OPS: usize = 14;
fn int_op<const N: usize>() {
    let c = new_circ();
    let cfg = Cfg::<N>::new(&c).unwrap();
    let op = pick_op(OPS);
    let a = Int::<N>::new(&cfg).unwrap();
    let b = Int::<N>::new(&cfg).unwrap();
    let ins = bvec(2 * N);
    let (x, y) = (&ins[..N], &ins[N..]);
    let zero = vec![false; N];
    let one: Vec<bool> = (0..N).map(|i| i == 0).collect();
    let (r, want) = match op {
        0 => (&a + &b, refs::add(x, y)),
        1 => (&a - &b, refs::sub(x, y)),
        2 => (-&a, refs::sub(&zero, x)),
        3 => (&a * &b, refs::mul(x, y)),
        4 => {
            let mut t = a.clone();
            t += &b;
            (t, refs::add(x, y))
        }
        5 => {
            let mut t = a.clone();
            t -= &b;
            (t, refs::sub(x, y))
        }
        6 => {
            let mut t = a.clone();
            t *= &b;
            (t, refs::mul(x, y))
        }
        7 => (&a + &a, refs::add(x, x)),
        8 => (&a - &a, zero.clone()),
        9 => (&a * &a, refs::mul(x, x)),
        10 => {
            // chain: results as operands, an operand used twice
            let s = &a + &b;
            let d = &s - &a;
            (&d + &(-&s), refs::add(y, &refs::neg(&refs::add(x, y))))
        }
        11 => {
            let z = Int::<N>::zero(&cfg).unwrap();
            let o = Int::<N>::one(&cfg).unwrap();
            (&(&z - &o) + &(&a - &o), refs::add(&refs::sub(&zero, &one), &refs::sub(x, &one)))
        }
        12 => {
            let o = Int::<N>::one(&cfg).unwrap();
            (&(&a * &o) + &b, refs::add(x, y))
        }
        _ => {
            let mut t = &a + &b;
            t += &a;
            t -= &b;
            (t, refs::add(x, x))
        }
    };
    cover(["add", "sub", "neg", "mul", "add_assign", "sub_assign", "mul_assign", "self_add", "self_sub", "self_mul", "chain", "consts", "mul_const", "assign_chain"][op]);
    check(r.val_le.len() == N, "result has N bits");
    r.output().unwrap();
    a.output().unwrap();
    b.output().unwrap();
    if let Some(o) = eval(&c, &ins) {
        observe_bits(&o);
        check(same(&o[..N], &want), "arithmetic result is exact modulo 2^N");
        check(same(&o[N..], &ins), "operands are unchanged by being used");
    }
}
#[no_mangle]
pub extern "C" fn h_int_op() {
    widths!(int_op, pick_width(), 1 2 3 4 5 6 7 8 9 10 11 12 13 16 17 24 31 32 33 63 64 65 100 128)
}
/// C12: operations on constants given as big numbers (a symbolic constant, an input, and their results).
fn int_const<const N: usize>() {
    let c = new_circ();
    let cfg = Cfg::<N>::new(&c).unwrap();
    let op = pick_op(4);
    let k = bvec(N);
    let kid: Vec<GateId> = k.iter().map(|b| c.clone().constant(*b).unwrap()).collect();
    let a = Int::<N>::from_gate_ids(kid, &cfg).unwrap();
    let b = Int::<N>::new(&cfg).unwrap();
    let y = bvec(N);
    let (r, want) = match op {
        0 => (&a + &b, refs::add(&k, &y)),
        1 => (&b - &a, refs::sub(&y, &k)),
        2 => (&a * &b, refs::mul(&k, &y)),
        _ => (-&a, refs::neg(&k)),
    };
    cover(["const add", "const sub", "const mul", "const neg"][op]);
    r.output().unwrap();
    if let Some(o) = eval(&c, &y) {
        observe_bits(&o);
        check(same(&o, &want), "arithmetic with constants is exact modulo 2^N");
    }
}
#[no_mangle]
pub extern "C" fn h_int_const() {
    widths!(int_const, pick_width(), 1 2 3 4 5 8 16 17 32 64 128)
}
/// The building blocks directly, any width. Params: op, number of widths, widths.
/// 0 add 1 sub 2 mul 3 eq 4 neq 5 less 6 less_or_eq 7 larger 8 larger_or_eq 9 and 10 or 11 xor 12 not 13 mul_extend
#[no_mangle]
pub extern "C" fn h_block() {
    let op = param(0);
    let n = pick_width();
    let mut c = new_circ();
    let add = |c: &mut CR| build_add_circuit(c, n).unwrap();
    let sub = |c: &mut CR| {
        let a = build_add_circuit(c, n).unwrap();
        build_sub_circuit(c, n, a).unwrap()
    };
    let less = |c: &mut CR| {
        let s = sub(c);
        build_less_circuit(c, n, s).unwrap()
    };
    let mid = match op {
        0 => add(&mut c),
        1 => sub(&mut c),
        2 => {
            let a = add(&mut c);
            build_mul_circuit(&mut c, n, a).unwrap()
        }
        3 => build_eq_circuit(&mut c, n).unwrap(),
        4 => {
            let e = build_eq_circuit(&mut c, n).unwrap();
            build_neq_circuit(&mut c, n, e).unwrap()
        }
        5 => less(&mut c),
        6 | 7 => {
            let l = less(&mut c);
            let e = build_eq_circuit(&mut c, n).unwrap();
            let le = build_less_or_eq_circuit(&mut c, n, l, e).unwrap();
            if op == 6 { le } else { build_larger_circuit(&mut c, n, le).unwrap() }
        }
        8 => {
            let l = less(&mut c);
            build_larger_or_eq_circuit(&mut c, n, l).unwrap()
        }
        9 => build_and_circuit(&mut c, n).unwrap(),
        10 => build_or_circuit(&mut c, n).unwrap(),
        11 => build_xor_circuit(&mut c, n).unwrap(),
        12 => build_not_circuit(&mut c, n).unwrap(),
        _ => {
            let a = build_add_circuit(&mut c, 2 * n).unwrap();
            build_mul_extend_circuit(&mut c, n, a).unwrap()
        }
    };
    let k = if op == 12 { n } else { 2 * n };
    let gates: Vec<GateId> = (0..k).map(|_| c.input().unwrap()).collect();
    let outs = match c.module(&mid, &gates) {
        Ok(o) => o,
        Err(_) => {
            check(false, "a building block takes its operands");
            return;
        }
    };
    for g in outs.iter() {
        c.output(*g).unwrap();
    }
    let ins = bvec(k);
    let x = &ins[..n];
    let y = if op == 12 { x } else { &ins[n..] };
    let bw = |f: fn(bool, bool) -> bool| -> Vec<bool> { (0..n).map(|i| f(x[i], y[i])).collect() };
    let want = match op {
        0 => refs::add(x, y),
        1 => refs::sub(x, y),
        2 => refs::mul(x, y),
        3 => vec![refs::equal(x, y)],
        4 => vec![!refs::equal(x, y)],
        5 => vec![refs::slt(x, y)],
        6 => vec![!refs::slt(y, x)],
        7 => vec![refs::slt(y, x)],
        8 => vec![!refs::slt(x, y)],
        9 => bw(|a, b| a & b),
        10 => bw(|a, b| a | b),
        11 => bw(|a, b| a ^ b),
        12 => x.iter().map(|a| !*a).collect(),
        _ => refs::mul_wide(x, y),
    };
    if let Some(o) = eval(&c, &ins) {
        observe_bits(&o);
        check(same(&o, &want), "the building block computes its function");
    }
}
/// C13. Params: op (99 all), widths.
fn int_cmp<const N: usize>() {
    let c = new_circ();
    let cfg = Cfg::<N>::new(&c).unwrap();
    let a = Int::<N>::new(&cfg).unwrap();
    let b = Int::<N>::new(&cfg).unwrap();
    let mut ins = bvec(2 * N);
    let shape = pick_op(4);
    let mut cc = c.clone();
    let (l, r, x, y) = match shape {
        0 => (a.clone(), b.clone(), ins[..N].to_vec(), ins[N..].to_vec()),
        1 => (a.clone(), a.clone(), ins[..N].to_vec(), ins[..N].to_vec()),
        2 => {
            let k = bvec(N);
            let kid: Vec<GateId> = k.iter().map(|b| cc.constant(*b).unwrap()).collect();
            let ki = Int::<N>::from_gate_ids(kid, &cfg).unwrap();
            (ki, b.clone(), k, ins[N..].to_vec())
        }
        _ => {
            // results of other operations
            let s = &a + &b;
            let x = refs::add(&ins[..N], &ins[N..]);
            (s, a.clone(), x, ins[..N].to_vec())
        }
    };
    cover(["two inputs", "same operand", "constant", "computed"][shape]);
    let g = [l.eq(&r), l.neq(&r), l.less(&r), l.less_or_eq(&r), l.larger(&r), l.larger_or_eq(&r)];
    for id in g.into_iter() {
        match id {
            Ok(id) => {
                cc.output(id).unwrap();
            }
            Err(_) => check(false, "a comparison of equally wide integers is built"),
        }
    }
    let (e, lt, gt) = (refs::equal(&x, &y), refs::slt(&x, &y), refs::slt(&y, &x));
    ins.truncate(2 * N);
    if let Some(o) = eval(&c, &ins) {
        observe_bits(&o);
        check(same(&o[0..1], &[e]), "eq");
        check(same(&o[1..2], &[!e]), "neq");
        check(same(&o[2..3], &[lt]), "less is two's-complement order");
        check(same(&o[3..4], &[lt | e]), "less_or_eq is two's-complement order");
        check(same(&o[4..5], &[gt]), "larger is two's-complement order");
        check(same(&o[5..6], &[gt | e]), "larger_or_eq is two's-complement order");
        check((o[0] as u8) + (o[2] as u8) + (o[4] as u8) == 1, "exactly one of less, equal and larger holds");
    }
}
#[no_mangle]
pub extern "C" fn h_int_cmp() {
    widths!(int_cmp, pick_width(), 1 2 3 4 5 6 7 8 9 10 11 12 13 16 17 24 31 32 33 63 64 65 100 128)
}
/// C14. Params: mode, widths.
fn int_shift<const N: usize>() {
    let c = new_circ();
    let cfg = Cfg::<N>::new(&c).unwrap();
    let a = Int::<N>::new(&cfg).unwrap();
    let x = bvec(N);
    let amount = |x: usize| if x < 2 * N + 3 { x } else { [64, 65, 4096, 1 << 32, usize::MAX / 2 + 1, usize::MAX - N, usize::MAX - 1, usize::MAX][x - 2 * N - 3] };
    let k = amount(choose(2 * N + 11));
    let shl = |x: &[bool], k: usize| -> Vec<bool> { (0..x.len()).map(|i| i >= k && x[i - k.min(i)]).collect() };
    let shr = |x: &[bool], k: usize| -> Vec<bool> { (0..x.len()).map(|i| if k < x.len() - i { x[i + k] } else { x[x.len() - 1] }).collect() };
    let mode = pick_op(5);
    let (r, want) = match mode {
        0 => (a.shift_left(k), shl(&x, k)),
        1 => (a.shift_right(k), shr(&x, k)),
        2 => {
            // of a computed value, and used further
            let s = &a + &a;
            let t = s.shift_right(k).unwrap();
            (Ok(&t - &a), refs::sub(&shr(&refs::add(&x, &x), k), &x))
        }
        3 => (a.shift_right(k).and_then(|t| t.shift_left(k)), shl(&shr(&x, k), k)),
        _ => (a.shift_left(k).and_then(|t| t.shift_right(k)), shr(&shl(&x, k), k)),
    };
    cover(["left", "right", "computed", "right left", "left right"][mode]);
    if k > N {
        cover("amount above the width");
    }
    match r {
        Ok(r) => {
            check(r.val_le.len() == N, "a shifted integer has N bits");
            r.output().unwrap();
            a.output().unwrap();
            if let Some(o) = eval(&c, &x) {
                observe_bits(&o);
                check(same(&o[..N], &want), "the shift is exact");
                check(same(&o[N..], &x), "the shifted integer is unchanged");
            }
        }
        Err(_) => check(false, "a shift by any amount is built"),
    }
}
#[no_mangle]
pub extern "C" fn h_int_shift() {
    widths!(int_shift, pick_width(), 1 2 3 4 5 6 7 8 9 10 13 16 17 24 31 32 33 63 64 65 100 128)
}
/// C15: integers from big numbers of every length up to beyond N. Params: mode, widths.
fn int_big<const N: usize>() {
    let c = new_circ();
    let cfg = Cfg::<N>::new(&c).unwrap();
    // bit length of the value: everything up to N, and beyond
    let len = choose(N + 10);
    let mut v = bvec(if len == 0 { 0 } else { len - 1 });
    if len > 0 {
        v.push(true);
    }
    let mut bytes = vec![0u8; (len + 7) / 8];
    for i in 0..len {
        bytes[i / 8] |= (v[i] as u8) << (i % 8);
    }
    let big = BigUint::from_bytes_le(&bytes);
    if len > N {
        cover("does not fit");
        allow_panic(true);
        let r = Int::<N>::from_biguint(&big, &cfg);
        allow_panic(false);
        check(r.is_err(), "a value that does not fit is not truncated");
        return;
    }
    cover("fits");
    match Int::<N>::from_biguint(&big, &cfg) {
        Ok(a) => {
            check(a.val_le.len() == N, "a constant has N bits");
            a.output().unwrap();
            v.resize(N, false);
            if let Some(o) = eval(&c, &[]) {
                observe_bits(&o);
                check(same(&o, &v), "a constant evaluates to its value");
            }
            check(c.input_len() == 0, "a constant adds no input");
        }
        Err(_) => check(false, "a value that fits is accepted"),
    }
}
#[no_mangle]
pub extern "C" fn h_int_big() {
    widths!(int_big, pick_width(), 1 2 3 4 5 6 7 8 9 10 11 12 13 16 17 24 31 32 33 63 64 65 128 140 256)
}
/// C15: zero, one, existing bits, fresh ones.
fn int_alloc<const N: usize>() {
    let c = new_circ();
    let cfg = Cfg::<N>::new(&c).unwrap();
    let mut cc = c.clone();
    // inputs there before
    let pre = choose(3);
    let mut have: Vec<GateId> = Vec::new();
    for _ in 0..pre {
        have.push(cc.input().unwrap());
    }
    let fresh = Int::<N>::new(&cfg).unwrap();
    check(fresh.val_le.len() == N, "a fresh integer has N bits");
    check(c.input_len() == pre + N, "a fresh integer adds N inputs");
    for i in 0..N {
        check(matches!(c.input_to_gate_id(&WireId((pre + i) as u64)), Ok(Some(g)) if g == fresh.val_le[i]), "fresh bits are the new inputs in order");
    }
    let mode = choose(4);
    cover(["zero", "one", "few bits", "too many bits"][mode]);
    let ins = bvec(pre + N);
    let mut want = ins[pre..].to_vec();
    fresh.output().unwrap();
    let r = match mode {
        0 => {
            want.resize(2 * N, false);
            Int::<N>::zero(&cfg)
        }
        1 => {
            want.push(true);
            want.resize(2 * N, false);
            Int::<N>::one(&cfg)
        }
        2 => {
            let k = choose(N + 1);
            // any order, computed bits too
            let mut g: Vec<GateId> = Vec::new();
            for i in 0..k {
                g.push(if i % 2 == 0 { fresh.val_le[k - 1 - i] } else { cc.not(&fresh.val_le[i]).unwrap() });
                want.push(if i % 2 == 0 { ins[pre + k - 1 - i] } else { !ins[pre + i] });
            }
            want.resize(2 * N, false);
            Int::<N>::from_gate_ids(g, &cfg)
        }
        _ => {
            let k = N + 1 + choose(3);
            let g: Vec<GateId> = (0..k).map(|i| fresh.val_le[i % N]).collect();
            allow_panic(true);
            let r = Int::<N>::from_gate_ids(g, &cfg);
            allow_panic(false);
            check(r.is_err(), "more than N bits are refused");
            return;
        }
    };
    match r {
        Ok(r) => {
            check(r.val_le.len() == N, "an integer has N bits");
            r.output().unwrap();
            if let Some(o) = eval(&c, &ins) {
                observe_bits(&o);
                check(same(&o, &want), "an allocated integer evaluates to its bits, zero-extended");
            }
        }
        Err(_) => check(false, "an integer of at most N bits is accepted"),
    }
}
#[no_mangle]
pub extern "C" fn h_int_alloc() {
    widths!(int_alloc, pick_width(), 1 2 3 4 5 6 7 8 9 16 17 31 32 33 64 65 140)
}
