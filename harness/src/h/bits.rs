//! C16 and the bit vectors of C15.
use super::arith::{pick_width, widths};
use super::circ::*;
use super::refs;
use circuit_converters::logic::*;

type Bits<const N: usize> = AllocBits<NXAOBoolGate, NXAOBoolCircuit, N>;
type Cfg<const N: usize> = AllocBitsConfig<NXAOBoolGate, NXAOBoolCircuit, N>;

fn ops<const N: usize>() {
    let c = new_circ();
    let mut cc = c.clone();
    let cfg = Cfg::<N>::new(&c).unwrap();
    let a = Bits::<N>::new(&cfg).unwrap();
    let b = Bits::<N>::new(&cfg).unwrap();
    let s = cc.input().unwrap();
    let ins = bvec(2 * N + 1);
    let (x, y, sel) = (&ins[..N], &ins[N..2 * N], ins[2 * N]);
    let bw = |f: fn(bool, bool) -> bool, x: &[bool], y: &[bool]| -> Vec<bool> { (0..N).map(|i| f(x[i], y[i])).collect() };
    let n = if param(0) == 99 { choose(15) } else { param(0) as usize };
    cover(["not", "and", "or", "xor", "and=", "or=", "xor=", "mux", "eq", "neq", "self", "mux same", "mux const", "chain", "mux computed"][n]);
    let bit = |g: Result<GateId, BuildCircuitError>| -> Bits<N> {
        let mut v = vec![g.unwrap()];
        v.resize(N, a.bits[0]);
        let mut t = a.clone();
        t.bits = v;
        t
    };
    let fill = |w: bool| -> Vec<bool> {
        let mut v = vec![w];
        v.resize(N, x[0]);
        v
    };
    let (r, want) = match n {
        0 => (!&a, refs::not(x)),
        1 => (&a & &b, bw(|p, q| p & q, x, y)),
        2 => (&a | &b, bw(|p, q| p | q, x, y)),
        3 => (&a ^ &b, bw(|p, q| p ^ q, x, y)),
        4 => {
            let mut t = a.clone();
            t &= &b;
            (t, bw(|p, q| p & q, x, y))
        }
        5 => {
            let mut t = a.clone();
            t |= &b;
            (t, bw(|p, q| p | q, x, y))
        }
        6 => {
            let mut t = a.clone();
            t ^= &b;
            (t, bw(|p, q| p ^ q, x, y))
        }
        7 => (a.mux(&b, &s).unwrap(), refs::select(sel, y, x)),
        8 => (bit(a.eq(&b)), fill(refs::equal(x, y))),
        9 => (bit(a.neq(&b)), fill(!refs::equal(x, y))),
        10 => (&(&a ^ &a) | &(&a & &a), x.to_vec()),
        11 => (a.mux(&a, &s).unwrap(), x.to_vec()),
        12 => {
            let v = super::sym::bit();
            let k = cc.constant(v).unwrap();
            (a.mux(&b, &k).unwrap(), refs::select(v, y, x))
        }
        13 => {
            let t = &(!&a) & &b;
            let mut u = &t | &a;
            u ^= &b;
            let w = bw(|p, q| (!p & q) | p, x, y);
            (u, bw(|p, q| p ^ q, &w, y))
        }
        _ => {
            // the selector is computed from the operands
            let e = a.eq(&b).unwrap();
            let t = &a ^ &b;
            (b.mux(&t, &e).unwrap(), refs::select(refs::equal(x, y), &bw(|p, q| p ^ q, x, y), y))
        }
    };
    check(r.bits.len() == N, "the result has N bits");
    r.output().unwrap();
    a.output().unwrap();
    b.output().unwrap();
    if let Some(o) = eval(&c, &ins) {
        observe_bits(&o);
        check(same(&o[..N], &want), "the operation is bitwise exact");
        check(same(&o[N..], &ins[..2 * N]), "operands are unchanged by being used");
    }
}
#[no_mangle]
pub extern "C" fn h_bits_op() {
    widths!(ops, pick_width(), 1 2 3 4 5 6 7 8 9 12 16 17 24 31 32 33 63 64 65 100 128 256 257)
}
fn alloc<const N: usize>() {
    let c = new_circ();
    let mut cc = c.clone();
    let cfg = Cfg::<N>::new(&c).unwrap();
    let pre = choose(3);
    for _ in 0..pre {
        cc.input().unwrap();
    }
    let fresh = Bits::<N>::new(&cfg).unwrap();
    check(fresh.bits.len() == N && c.input_len() == pre + N, "fresh bits are N new inputs");
    for i in 0..N {
        check(matches!(c.input_to_gate_id(&WireId((pre + i) as u64)), Ok(Some(g)) if g == fresh.bits[i]), "fresh bits are the new inputs in order");
    }
    let k = choose(N + 3);
    let g: Vec<GateId> = (0..k).map(|i| fresh.bits[(i * 3 + 1) % N]).collect();
    if k > N {
        cover("too many bits");
        allow_panic(true);
        let r = Bits::<N>::from_gate_ids(g, &cfg);
        allow_panic(false);
        check(r.is_err(), "more than N bits are refused");
        return;
    }
    cover("padded");
    match Bits::<N>::from_gate_ids(g, &cfg) {
        Ok(b) => {
            check(b.bits.len() == N, "N bits");
            b.output().unwrap();
            fresh.output().unwrap();
            let ins = bvec(pre + N);
            let mut want: Vec<bool> = (0..k).map(|i| ins[pre + (i * 3 + 1) % N]).collect();
            want.resize(N, false);
            want.extend_from_slice(&ins[pre..]);
            if let Some(o) = eval(&c, &ins) {
                observe_bits(&o);
                check(same(&o, &want), "existing bits are zero-padded");
            }
        }
        Err(_) => check(false, "at most N bits are accepted"),
    }
}
#[no_mangle]
pub extern "C" fn h_bits_alloc() {
    widths!(alloc, pick_width(), 1 2 3 4 5 7 8 9 16 17 31 32 33 63 64 65 100 128 256 257)
}
