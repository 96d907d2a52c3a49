//! Reference semantics on little-endian bit strings, any width.
fn maj(a: bool, b: bool, c: bool) -> bool {
    (a & b) | (c & (a ^ b))
}
pub fn add_c(a: &[bool], b: &[bool], mut c: bool) -> (Vec<bool>, bool) {
    let mut r = Vec::with_capacity(a.len());
    for i in 0..a.len() {
        r.push(a[i] ^ b[i] ^ c);
        c = maj(a[i], b[i], c);
    }
    (r, c)
}
pub fn add(a: &[bool], b: &[bool]) -> Vec<bool> {
    add_c(a, b, false).0
}
pub fn not(a: &[bool]) -> Vec<bool> {
    a.iter().map(|x| !*x).collect()
}
pub fn sub(a: &[bool], b: &[bool]) -> Vec<bool> {
    add_c(a, &not(b), true).0
}
pub fn neg(a: &[bool]) -> Vec<bool> {
    sub(&vec![false; a.len()], a)
}
/// a*b modulo 2^n, n = a.len().
pub fn mul(a: &[bool], b: &[bool]) -> Vec<bool> {
    let n = a.len();
    let mut s = vec![false; n];
    for i in 0..n {
        let mut t = vec![false; n];
        for j in i..n {
            t[j] = a[j - i] & b[i];
        }
        s = add(&s, &t);
    }
    s
}
/// Full product of two n-bit strings, 2n bits.
pub fn mul_wide(a: &[bool], b: &[bool]) -> Vec<bool> {
    let n = a.len();
    let mut s = vec![false; 2 * n];
    for i in 0..n {
        let mut t = vec![false; 2 * n];
        for j in 0..n {
            t[i + j] = a[j] & b[i];
        }
        s = add(&s, &t);
    }
    s
}
/// unsigned a < b: no carry out of a + !b + 1
pub fn ult(a: &[bool], b: &[bool]) -> bool {
    !add_c(a, &not(b), true).1
}
/// signed a < b
pub fn slt(a: &[bool], b: &[bool]) -> bool {
    let n = a.len();
    let mut x = a.to_vec();
    let mut y = b.to_vec();
    x[n - 1] = !x[n - 1];
    y[n - 1] = !y[n - 1];
    ult(&x, &y)
}
pub fn equal(a: &[bool], b: &[bool]) -> bool {
    let mut d = false;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    !d
}
pub fn select(s: bool, t: &[bool], f: &[bool]) -> Vec<bool> {
    (0..t.len()).map(|i| (s & t[i]) | (!s & f[i])).collect()
}
