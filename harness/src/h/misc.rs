//! C20, C21, C25.
use super::circ::*;
use circuit_converters::num_bigint::BigInt;
use num_traits::{ToPrimitive, Zero};

fn bytes(n: usize) -> Vec<u8> {
    (0..n).map(|_| word(8) as u8).collect()
}
fn same_bytes(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}
/// C20. Params: number of bytes.
#[no_mangle]
pub extern "C" fn h_bits_bytes() {
    let n = param(0) as usize;
    let b = bytes(n);
    let le = bytes2bits_le(&b);
    let be = bytes2bits_be(&b);
    check(le.len() == 8 * n && be.len() == 8 * n, "eight bits per byte");
    let mut ok = true;
    for i in 0..(8 * n).min(le.len()).min(be.len()) {
        ok &= le[i] == ((b[i / 8] >> (i % 8)) & 1 == 1);
        ok &= be[i] == ((b[i / 8] >> (7 - i % 8)) & 1 == 1);
    }
    check(ok, "bits are in the stated order");
    check(same_bytes(&bits2bytes_le(&le), &b), "bytes to bits and back, little endian");
    check(same_bytes(&bits2bytes_be(&be), &b), "bytes to bits and back, big endian");
    let v = bvec(8 * n);
    check(same(&bytes2bits_le(&bits2bytes_le(&v)), &v), "bits to bytes and back, little endian");
    check(same(&bytes2bits_be(&bits2bytes_be(&v)), &v), "bits to bytes and back, big endian");
    let mut want = vec![0u8; n];
    for i in 0..8 * n {
        want[i / 8] |= (v[i] as u8) << (i % 8);
    }
    check(same_bytes(&bits2bytes_le(&v), &want), "bytes of bits");
    observe_bits(&le);
}
#[no_mangle]
pub extern "C" fn h_hex_bytes() {
    let n = param(0) as usize;
    let b = bytes(n);
    let s = bytes2hex(&b);
    check(s.len() == 2 * n, "two digits per byte");
    let mut ok = true;
    for (i, c) in s.bytes().enumerate() {
        let nib = if i % 2 == 0 { b[i / 2] >> 4 } else { b[i / 2] & 15 };
        ok &= digit(c) == Some(nib);
    }
    check(ok, "hex digits of the bytes, high half first");
    match hex2bytes(&s) {
        Ok(r) => check(same_bytes(&r, &b), "hex and back"),
        Err(_) => check(false, "encoded hex is decoded"),
    }
}
fn digit(c: u8) -> Option<u8> {
    if c >= b'0' && c <= b'9' {
        Some(c - b'0')
    } else if c >= b'a' && c <= b'f' {
        Some(c - b'a' + 10)
    } else if c >= b'A' && c <= b'F' {
        Some(c - b'A' + 10)
    } else {
        None
    }
}
/// C20: long texts: every digit symbolic within 0-9, a-f or A-F (which of them is fixed per position), and one
/// arbitrary character at a chosen position. Params: number of bytes.
#[no_mangle]
pub extern "C" fn h_hex_long() {
    let n = param(0) as usize;
    let mut text = Vec::new();
    let mut val = Vec::new();
    for i in 0..2 * n {
        let d = word(8) as u8;
        let (lo, hi, add) = [(b'0', b'9', 0u8), (b'a', b'f', 10), (b'A', b'F', 10)][(i * i / 3 + i) % 3];
        assume((d >= lo) & (d <= hi));
        text.push(d);
        val.push(d.wrapping_sub(lo).wrapping_add(add));
    }
    let want: Vec<u8> = val.chunks(2).map(|p| p[0] << 4 | p[1]).collect();
    let utf8 = |t: &[u8]| String::from_utf8(t.to_vec()).unwrap_or_default();
    match hex2bytes(&utf8(&text)) {
        Ok(r) => {
            check(same_bytes(&r, &want), "the decoded bytes");
            let h = bytes2hex(&r);
            check(h.len() == 2 * n, "two digits per byte");
            let mut ok = true;
            for (i, c) in h.bytes().enumerate() {
                // one letter case throughout
                ok &= c == if val[i] < 10 { b'0' + val[i] } else { b'a' - 10 + val[i] } || c == if val[i] < 10 { b'0' + val[i] } else { b'A' - 10 + val[i] };
            }
            check(ok, "encoding gives the digits back");
        }
        Err(_) => check(false, "hex digits are decoded"),
    }
    cover("long");
    // too short by one, and one character replaced
    check(hex2bytes(&utf8(&text[..2 * n - 1])).is_err(), "an odd number of digits is refused");
    let at = [0, 1, n - 1, n, 2 * n - 2, 2 * n - 1][choose(6)];
    let c = word(7) as u8;
    text[at] = c;
    let r = hex2bytes(&utf8(&text));
    match digit(c) {
        Some(d) => {
            let mut w = want.clone();
            w[at / 2] = if at % 2 == 0 { w[at / 2] & 15 | d << 4 } else { w[at / 2] & 0xf0 | d };
            match r {
                Ok(b) => check(same_bytes(&b, &w), "the decoded bytes, one digit of either kind"),
                Err(_) => check(false, "hex digits in either case are decoded"),
            }
        }
        None => check(r.is_err(), "anything else is refused"),
    }
}
/// C20: any string of n bytes (ASCII; one two-byte character with param(1) = 1).
#[no_mangle]
pub extern "C" fn h_hex_text() {
    let n = param(0) as usize;
    let mut v = bytes(n);
    let mut ok = true;
    for c in v.iter() {
        ok &= *c < 0x80;
    }
    assume(ok);
    if param(1) == 1 {
        let i = choose(n + 1);
        let hi = word(8) as u8;
        let lo = word(8) as u8;
        assume((hi >= 0xc2) & (hi <= 0xdf) & (lo >= 0x80) & (lo <= 0xbf));
        v.insert(i, lo);
        v.insert(i, hi);
    }
    let s = match std::str::from_utf8(&v) {
        Ok(s) => s,
        Err(_) => {
            check(false, "harness: valid text");
            return;
        }
    };
    let r = hex2bytes(s);
    let mut want = Vec::new();
    let mut good = v.len() % 2 == 0;
    for p in v.chunks(2) {
        if p.len() == 2 {
            match (digit(p[0]), digit(p[1])) {
                (Some(a), Some(b)) => want.push(a * 16 + b),
                _ => good = false,
            }
        }
    }
    if good {
        cover("hex");
    } else {
        cover("not hex");
    }
    match r {
        Ok(b) => {
            check(good, "only even-length hex digits are accepted");
            check(same_bytes(&b, &want), "decoded bytes");
        }
        Err(_) => check(!good, "every even-length hex string is accepted"),
    }
}

/// C21. Params: bits of a, bits of b, mode (0 plain, 1 a + 2^64*h, 2 both with a large factor).
#[no_mangle]
pub extern "C" fn h_ext_gcd() {
    let x = word(param(0) as u32) as i64;
    let y = word(param(1) as u32) as i64;
    let sx = choose(2) == 1;
    let sy = choose(2) == 1;
    let a0 = if sx { -x } else { x };
    let b0 = if sy { -y } else { y };
    let (a, b) = (BigInt::from(a0), BigInt::from(b0));
    let (u, v, d) = ext_gcd(&a, &b);
    // all three are small again, so that the relation can be stated on machine integers
    match (u.to_i64(), v.to_i64(), d.to_i64()) {
        (Some(u), Some(v), Some(d)) => {
            let lim = 1i64 << 20;
            let small = |t: i64| (t < lim) & (t > -lim);
            check(small(u) & small(v) & small(d), "coefficients are bounded");
            assume(small(u) & small(v) & small(d));
            check(a0.wrapping_mul(u).wrapping_add(b0.wrapping_mul(v)) == d, "a*x + b*y = d");
            if d == 0 {
                cover("both zero");
                check((x == 0) & (y == 0), "d is zero only if both arguments are");
            } else {
                cover("divides");
                check(a0 % d == 0, "d divides a");
                check(b0 % d == 0, "d divides b");
            }
        }
        _ => check(false, "coefficients are bounded"),
    }
}
/// C21 on wide numbers: a = A*g, b = B*g with fixed wide A, B and a symbolic factor chosen by path.
#[no_mangle]
pub extern "C" fn h_ext_gcd_wide() {
    // 2^128-1, 2^64, 2^64-59, 2^255-19, 1, 0, 2^127-1, 2^32
    let one = BigInt::from(1);
    let part = |k: usize| match k {
        0 => (&one << 128usize) - &one,
        1 => &one << 64usize,
        2 => (&one << 64usize) - BigInt::from(59),
        3 => (&one << 255usize) - BigInt::from(19),
        4 => one.clone(),
        5 => BigInt::from(0),
        6 => (&one << 127usize) - &one,
        _ => &one << 32usize,
    };
    let g = BigInt::from(choose(param(0) as usize) as i64 + 1);
    let sign = |v: BigInt| if choose(2) == 1 { -v } else { v };
    let a = sign(part(choose(8)) * &g);
    let b = sign(part(choose(8)) * &g);
    let (u, v, d) = ext_gcd(&a, &b);
    check(&a * &u + &b * &v == d, "a*x + b*y = d");
    if d.is_zero() {
        cover("both zero");
        check(a.is_zero() && b.is_zero(), "d is zero only if both arguments are");
    } else {
        cover("divides");
        check((&a % &d).is_zero() && (&b % &d).is_zero(), "d divides both");
    }
}

/// C25: gate metadata.
#[no_mangle]
pub extern "C" fn h_meta() {
    let i = word(64);
    let j = word(64);
    let (x, y) = (GateId(i), GateId(j));
    let (ni, no) = (word(16) as usize, word(16) as usize);
    let k = choose(7);
    let (gate, il, ol, name) = match k {
        0 => (NXAOBoolGate::Input(InputGate { wire_id: WireId(i) }), 0, 1, ""),
        1 => (NXAOBoolGate::Const(ConstGate { value: bit() }), 0, 1, ""),
        2 => (NXAOBoolGate::Not(NotGate { id: x }), 1, 1, "INV"),
        3 => (NXAOBoolGate::Xor(XorGate { left_id: x, right_id: y }), 2, 1, "XOR"),
        4 => (NXAOBoolGate::And(AndGate { left_id: x, right_id: y }), 2, 1, "AND"),
        5 => (NXAOBoolGate::Or(OrGate { left_id: x, right_id: y }), 2, 1, "OR"),
        _ => (NXAOBoolGate::Module(ModuleGate { input_len: ni, output_len: no, input_ids: vec![x, y], out_index: 0, module_id: ModuleId(j) }), ni, no, ""),
    };
    cover(["input", "const", "not", "xor", "and", "or", "module"][k]);
    check(gate.input_len() == il, "number of inputs of a gate");
    check(gate.output_len() == ol, "number of outputs of a gate");
    if name != "" {
        check(gate.to_str() == name, "Bristol name of a gate");
    }
    let inner = match &gate {
        NXAOBoolGate::Input(g) => (g.input_len(), g.output_len(), g.to_str()),
        NXAOBoolGate::Const(g) => (g.input_len(), g.output_len(), g.to_str()),
        NXAOBoolGate::Not(g) => (g.input_len(), g.output_len(), g.to_str()),
        NXAOBoolGate::Xor(g) => (g.input_len(), g.output_len(), g.to_str()),
        NXAOBoolGate::And(g) => (g.input_len(), g.output_len(), g.to_str()),
        NXAOBoolGate::Or(g) => (g.input_len(), g.output_len(), g.to_str()),
        NXAOBoolGate::Module(g) => (g.input_len(), g.output_len(), g.to_str()),
    };
    check((inner.0 == il) & (inner.1 == ol), "the gate kinds agree with the gate");
    check(inner.2 == gate.to_str(), "the gate kinds agree with the gate on the name");
}
/// C25: a call made through a circuit reports its module's counts.
#[no_mangle]
pub extern "C" fn h_meta_call() {
    let mut c = new_circ();
    let (mid, mut s) = c.sub_circuit();
    let ni = choose(4);
    let mut last = s.constant(true).unwrap();
    for _ in 0..ni {
        last = s.input().unwrap();
    }
    let no = 1 + choose(3);
    for _ in 0..no {
        s.output(last).unwrap();
    }
    let a = c.input().unwrap();
    match c.module(&mid, &vec![a; ni]) {
        Ok(v) => {
            check(v.len() == no, "one gate per output");
            for (i, g) in v.iter().enumerate() {
                match c.get_gate(g) {
                    Ok(g @ NXAOBoolGate::Module(_)) => {
                        check(g.input_len() == ni && g.output_len() == no, "a call reports its module's counts");
                        if let NXAOBoolGate::Module(g) = &g {
                            check(g.out_index == i && g.module_id == mid, "a call knows its module and output");
                        }
                    }
                    _ => check(false, "a call is a module gate"),
                }
            }
        }
        Err(_) => check(false, "a call with as many arguments as inputs is accepted"),
    }
}
fn no_carry(a: u64, b: u64) -> bool {
    !a >= b
}
#[no_mangle]
pub extern "C" fn h_ids() {
    let i = word(64);
    let j = word(64);
    assume(no_carry(i, j));
    let w = WireId(i) + WireId(j);
    let g = GateId(i) + GateId(j);
    check(w.0 == i.wrapping_add(j), "wire ids add");
    check(g.0 == i.wrapping_add(j), "gate ids add");
    let mut w = WireId(i);
    w += WireId(j);
    let mut g = GateId(i);
    g += GateId(j);
    check(w.0 == i.wrapping_add(j), "wire ids add in place");
    check(g.0 == i.wrapping_add(j), "gate ids add in place");
    check(WireId(i).is_zero() == (i == 0), "wire id zero");
    check(GateId(i).is_zero() == (i == 0), "gate id zero");
    check((WireId::zero().0 == 0) & (GateId::zero().0 == 0), "zero");
    check((WireId(i) == WireId(j)) == (i == j), "wire ids compare as numbers");
    check((GateId(i) == GateId(j)) == (i == j), "gate ids compare as numbers");
    check((ModuleId(i) == ModuleId(j)) == (i == j), "module ids compare as numbers");
}
fn decimal(s: &str) -> Option<u64> {
    let mut v: u64 = 0;
    for (i, c) in s.bytes().enumerate() {
        if !(c >= b'0' && c <= b'9') || (i == 0 && c == b'0' && s.len() > 1) {
            return None;
        }
        v = v.wrapping_mul(10).wrapping_add((c - b'0') as u64);
    }
    if s.is_empty() { None } else { Some(v) }
}
/// C25: printing. Params: bits of the number, shift.
#[no_mangle]
pub extern "C" fn h_print() {
    let base = [0u64, 1 << 32, 9_999_999_990, u64::MAX - ((1 << param(0)) - 1)][choose(4)];
    let v = base + word(param(0) as u32);
    for (k, s) in [format!("{}", WireId(v)), format!("{}", GateId(v)), format!("{}", ModuleId(v))].iter().enumerate() {
        check(decimal(s) == Some(v), ["a wire id prints as its number", "a gate id prints as its number", "a module id prints as its number"][k]);
    }
}
