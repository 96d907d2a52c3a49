//! Interface to the symbolic executor (or to the native replay runner).
mod raw {
    extern "C" {
        pub fn sym_u64(bits: u32) -> u64;
        pub fn sym_concretize(v: u64) -> u64;
        pub fn sym_assume(c: u32);
        pub fn sym_assert(c: u32, p: *const u8, n: usize);
        pub fn sym_known(c: u32, p: *const u8, n: usize);
        pub fn sym_allow_panic(c: u32);
        pub fn sym_cover(p: *const u8, n: usize);
        pub fn sym_observe(v: u64);
        pub fn sym_param(i: u32) -> u64;
    }
}
/// A fresh symbolic value of `n` bits.
pub fn word(n: u32) -> u64 {
    unsafe { raw::sym_u64(n) }
}
pub fn bit() -> bool {
    word(1) & 1 != 0
}
pub fn bvec(n: usize) -> Vec<bool> {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(bit());
    }
    v
}
pub fn assume(c: bool) {
    unsafe { raw::sym_assume(c as u32) }
}
pub fn check(c: bool, what: &str) {
    unsafe { raw::sym_assert(c as u32, what.as_ptr(), what.len()) }
}
/// `c` is the correct behaviour; a listed defect may make it false.
pub fn known(c: bool, what: &str) {
    unsafe { raw::sym_known(c as u32, what.as_ptr(), what.len()) }
}
pub fn allow_panic(c: bool) {
    unsafe { raw::sym_allow_panic(c as u32) }
}
pub fn cover(what: &str) {
    unsafe { raw::sym_cover(what.as_ptr(), what.len()) }
}
pub fn observe(v: u64) {
    unsafe { raw::sym_observe(v) }
}
pub fn observe_bits(v: &[bool]) {
    for c in v.chunks(64) {
        observe(to_u64(c));
    }
}
pub fn param(i: u32) -> u64 {
    unsafe { raw::sym_param(i) }
}
/// A symbolic choice among `n` alternatives; every one of them becomes a path.
pub fn choose(n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    let bits = 64 - ((n - 1) as u64).leading_zeros();
    let v = word(bits);
    assume(v < n as u64);
    unsafe { raw::sym_concretize(v) as usize }
}
pub fn to_u64(b: &[bool]) -> u64 {
    let mut r = 0u64;
    for i in 0..b.len() {
        r |= (b[i] as u64) << i;
    }
    r
}
pub fn to_u128(b: &[bool]) -> u128 {
    let mut r = 0u128;
    for i in 0..b.len() {
        r |= (b[i] as u128) << i;
    }
    r
}
/// Equality of two bit strings as one symbolic condition (no branching).
pub fn same(a: &[bool], b: &[bool]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= (a[i] ^ b[i]) as u8;
    }
    d == 0
}
