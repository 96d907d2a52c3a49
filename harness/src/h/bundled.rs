//! C08-C11: the circuits shipped as Bristol files, loaded through the library.
use super::circ::*;
use super::refs;
use circuit_converters::arithmetic::*;
use circuit_converters::cryptography::*;

/// Evaluate a bundled circuit as the only content of a circuit, and check its shape.
fn run(c: &CR, ins: &[bool], outs: usize) -> Option<Vec<bool>> {
    check(c.input_len() == ins.len(), "the circuit has its declared inputs");
    check(c.output_len() == outs, "the circuit has its declared outputs");
    let o = eval(c, ins)?;
    if o.len() != outs {
        return None;
    }
    Some(o)
}
/// One assertion per group of bits, least significant first: each is proved with the help of the last.
fn compare(o: &[bool], want: &[bool], what: &str) {
    observe_bits(o);
    check(o.len() == want.len(), "number of output bits");
    check(same(o, want), what);
}
/// Param 0: 0 = loaded into a circuit of its own, 1 = loaded into a sub-circuit and called as a module.
fn load<E>(f: fn(&mut CR) -> Result<(), E>) -> CR {
    let mut c = new_circ();
    if param(0) == 0 {
        check(f(&mut c).is_ok(), "the bundled circuit is read");
        return c;
    }
    let (mid, mut s) = c.sub_circuit();
    check(f(&mut s).is_ok(), "the bundled circuit is read");
    let mut args = Vec::new();
    for _ in 0..s.input_len() {
        args.push(c.input().unwrap());
    }
    match c.module(&mid, &args) {
        Ok(v) => {
            for g in v.iter() {
                c.output(*g).unwrap();
            }
        }
        Err(_) => check(false, "the bundled circuit is called as a module"),
    }
    c
}
/// C08. Params: way, circuit (0 adder, 1 subtractor, 2 negator)
#[no_mangle]
pub extern "C" fn h_linear64() {
    let k = param(1);
    let n = if k == 2 { 64 } else { 128 };
    let c = match k {
        0 => load(build_adder64),
        1 => load(build_sub64),
        _ => load(build_neg64),
    };
    let ins = bvec(n);
    let a = &ins[..64];
    if let Some(o) = run(&c, &ins, 64) {
        match k {
            0 => compare(&o, &refs::add(a, &ins[64..]), "the bundled adder adds modulo 2^64"),
            1 => compare(&o, &refs::sub(a, &ins[64..]), "the bundled subtractor subtracts modulo 2^64"),
            _ => compare(&o, &refs::neg(a), "the bundled negator negates modulo 2^64"),
        }
    }
}
/// C09
#[no_mangle]
pub extern "C" fn h_mult64() {
    let c = load(build_mult2_64);
    let ins = bvec(128);
    if let Some(o) = run(&c, &ins, 128) {
        // the high word is the first output, the low word the second
        let mut want = refs::mul_wide(&ins[..64], &ins[64..]);
        want.rotate_left(64);
        compare(&o, &want, "the bundled multiplier gives the 128-bit product");
    }
}
/// Quotient of unsigned division, schoolbook.
fn udiv(a: &[bool], d: &[bool]) -> Vec<bool> {
    let n = a.len();
    let mut q = vec![false; n];
    let mut r = vec![false; n + 1];
    let mut dx = d.to_vec();
    dx.push(false);
    for i in (0..n).rev() {
        r.rotate_right(1);
        r[0] = a[i];
        let (t, ge) = refs::add_c(&r, &refs::not(&dx), true);
        q[i] = ge;
        r = refs::select(ge, &t, &r);
    }
    q
}
/// C10. Params: way, signed, signs (0: all; 1 2 3 4: dividend negative if odd, divisor negative if 2 or 3)
#[no_mangle]
pub extern "C" fn h_div64() {
    let signed = param(1) == 1;
    let c = if signed { load(build_divide_signed_64) } else { load(build_divide_unsigned_64) };
    let mut ins = bvec(128);
    if signed && param(2) > 0 {
        // one combination of signs
        ins[63] = param(2) & 1 == 1;
        ins[127] = param(2) & 2 == 2;
    }
    // the divisor is any number but zero: zero is mapped to one
    let mut any = false;
    for b in ins[64..].iter() {
        any |= *b;
    }
    ins[64] |= !any;
    let (a, d) = (&ins[..64], &ins[64..]);
    if let Some(o) = run(&c, &ins, 64) {
        if signed {
            let (sa, sd) = (a[63], d[63]);
            let ua = refs::select(sa, &refs::neg(a), a);
            let ud = refs::select(sd, &refs::neg(d), d);
            let q = udiv(&ua, &ud);
            let q = refs::select(sa ^ sd, &refs::neg(&q), &q);
            compare(&o, &q, "the bundled signed divider gives the quotient truncated toward zero");
        } else {
            compare(&o, &udiv(a, d), "the bundled unsigned divider gives the quotient");
        }
    }
}

// ---------------------------------------------------------------- AES-128 (FIPS-197)
type B8 = [bool; 8];
fn xtime(a: &B8) -> B8 {
    let h = a[7];
    [h, a[0] ^ h, a[1], a[2] ^ h, a[3] ^ h, a[4], a[5], a[6]]
}
fn x8(a: &B8, b: &B8) -> B8 {
    let mut r = [false; 8];
    for i in 0..8 {
        r[i] = a[i] ^ b[i];
    }
    r
}
fn gmul(a: &B8, b: &B8) -> B8 {
    let mut s = [false; 8];
    let mut t = *a;
    for i in 0..8 {
        for j in 0..8 {
            s[j] ^= t[j] & b[i];
        }
        t = xtime(&t);
    }
    s
}
fn sq(a: &B8) -> B8 {
    // squaring is linear: the square of x^i
    let mut s = [false; 8];
    let mut p: B8 = [true, false, false, false, false, false, false, false];
    for i in 0..8 {
        for j in 0..8 {
            if p[j] {
                s[j] ^= a[i];
            }
        }
        p = xtime(&xtime(&p));
    }
    s
}
fn sbox(a: &B8) -> B8 {
    let a2 = sq(a);
    let a3 = gmul(&a2, a);
    let a12 = sq(&sq(&a3));
    let a15 = gmul(&a12, &a3);
    let a240 = sq(&sq(&sq(&sq(&a15))));
    let i = gmul(&gmul(&a240, &a12), &a2);
    let mut r = [false; 8];
    for k in 0..8 {
        r[k] = i[k] ^ i[(k + 4) % 8] ^ i[(k + 5) % 8] ^ i[(k + 6) % 8] ^ i[(k + 7) % 8] ^ ((0x63u8 >> k) & 1 == 1);
    }
    r
}
/// key and block as bytes in FIPS order, each byte least significant bit first
fn aes(key: &[B8], block: &[B8]) -> Vec<B8> {
    let mut w: Vec<B8> = key.to_vec();
    let mut rc: B8 = [true, false, false, false, false, false, false, false];
    for i in 4..44 {
        let mut t: Vec<B8> = w[4 * i - 4..4 * i].to_vec();
        if i % 4 == 0 {
            t.rotate_left(1);
            for b in t.iter_mut() {
                *b = sbox(b);
            }
            t[0] = x8(&t[0], &rc);
            rc = xtime(&rc);
        }
        for k in 0..4 {
            let v = x8(&w[4 * i - 16 + k], &t[k]);
            w.push(v);
        }
    }
    let mut s: Vec<B8> = (0..16).map(|i| x8(&block[i], &w[i])).collect();
    for round in 1..11 {
        for b in s.iter_mut() {
            *b = sbox(b);
        }
        // row r of column c is byte 4c+r; shift row r left by r
        let t: Vec<B8> = (0..16).map(|i| s[(i + 4 * (i % 4)) % 16]).collect();
        s = t;
        if round != 10 {
            let mut t = s.clone();
            for c in 0..4 {
                let col = &s[4 * c..4 * c + 4];
                for r in 0..4 {
                    let a = x8(&col[r], &col[(r + 1) % 4]);
                    let b = x8(&col[(r + 1) % 4], &x8(&col[(r + 2) % 4], &col[(r + 3) % 4]));
                    t[4 * c + r] = x8(&xtime(&a), &b);
                }
            }
            s = t;
        }
        for i in 0..16 {
            s[i] = x8(&s[i], &w[16 * round + i]);
        }
    }
    s
}
/// A 128-bit port: the bytes in order, each most significant bit first.
fn bytes_of(p: &[bool]) -> Vec<B8> {
    p.chunks(8).map(|c| [c[7], c[6], c[5], c[4], c[3], c[2], c[1], c[0]]).collect()
}
fn bits_of(s: &[B8]) -> Vec<bool> {
    s.iter().flat_map(|b| b.iter().rev().copied()).collect()
}
/// C11: the first input is the block, the second the key.
#[no_mangle]
pub extern "C" fn h_aes() {
    let c = load(build_aes128);
    let ins = bvec(256);
    if let Some(o) = run(&c, &ins, 128) {
        let want = bits_of(&aes(&bytes_of(&ins[128..]), &bytes_of(&ins[..128])));
        compare(&o, &want, "the bundled AES-128 circuit computes AES-128");
    }
}
/// The reference used above gives the FIPS-197 appendix vectors.
#[no_mangle]
pub extern "C" fn h_aes_reference() {
    let byte = |v: u8| -> B8 {
        let mut b = [false; 8];
        for j in 0..8 {
            b[j] = (v >> j) & 1 == 1;
        }
        b
    };
    let key: Vec<B8> = (0..16).map(|i| byte(i as u8)).collect();
    let pt: Vec<B8> = (0..16).map(|i| byte(i as u8 * 0x11)).collect();
    let ct: [u8; 16] = [0x69, 0xc4, 0xe0, 0xd8, 0x6a, 0x7b, 0x04, 0x30, 0xd8, 0xcd, 0xb7, 0x80, 0x70, 0xb4, 0xc5, 0x5a];
    let r = aes(&key, &pt);
    for i in 0..16 {
        check(r[i] == byte(ct[i]), "harness: the AES reference gives the FIPS-197 appendix C.1 vector");
    }
}
