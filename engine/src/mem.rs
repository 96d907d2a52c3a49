//! Flat byte-addressed memory with copy-on-write pages and optional symbolic bytes.
use crate::aig::{Lit, F, T};
use std::rc::Rc;

const PB: u64 = 10;
const PS: usize = 1 << PB;
const CB: u64 = 9;
const CN: usize = 1 << CB;
pub const TOP: u64 = 0x8000_0000;
pub const STACK_TOP: u64 = 0x7f00_0000;
pub const HEAP_END: u64 = 0x6000_0000;

#[derive(Clone)]
struct Sym {
    mask: [u64; PS / 64],
    lits: Vec<[Lit; 8]>,
}
#[derive(Clone)]
struct Page {
    data: [u8; PS],
    sym: Option<Box<Sym>>,
}
#[derive(Clone)]
struct Chunk {
    pages: Vec<Option<Rc<Page>>>,
}
#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Option<Rc<Chunk>>>,
    pub heap: u64,
    pub sp: u64,
    free: Vec<Vec<u64>>,
    pub live: u64,
}

#[derive(Clone, Copy)]
pub enum Byte {
    C(u8),
    S([Lit; 8]),
}

pub struct Fault(pub u64);

impl Mem {
    pub fn new(heap: u64) -> Mem {
        Mem { chunks: vec![None; (TOP >> (PB + CB)) as usize], heap: (heap + 0xffff) & !0xfff, sp: STACK_TOP, free: vec![vec![]; 40], live: 0 }
    }
    #[inline]
    fn page(&self, a: u64) -> Option<&Page> {
        self.chunks[(a >> (PB + CB)) as usize].as_ref().and_then(|c| c.pages[((a >> PB) as usize) & (CN - 1)].as_deref())
    }
    #[inline]
    fn page_mut(&mut self, a: u64) -> &mut Page {
        let c = self.chunks[(a >> (PB + CB)) as usize].get_or_insert_with(|| Rc::new(Chunk { pages: vec![None; CN] }));
        let c = Rc::make_mut(c);
        let p = c.pages[((a >> PB) as usize) & (CN - 1)].get_or_insert_with(|| Rc::new(Page { data: [0; PS], sym: None }));
        Rc::make_mut(p)
    }
    #[inline]
    fn chk(&self, a: u64, n: u64) -> Result<(), Fault> {
        if a < 0x1000 || a >= TOP || a + n > TOP {
            Err(Fault(a))
        } else {
            Ok(())
        }
    }
    /// concrete load of up to 16 bytes; None if some byte is symbolic
    #[inline]
    pub fn load_c(&self, a: u64, n: u64) -> Result<Option<u128>, Fault> {
        self.chk(a, n)?;
        let off = (a as usize) & (PS - 1);
        if off + n as usize <= PS {
            let Some(p) = self.page(a) else { return Ok(Some(0)) };
            if let Some(s) = &p.sym {
                for k in off..off + n as usize {
                    if s.mask[k >> 6] >> (k & 63) & 1 == 1 {
                        return Ok(None);
                    }
                }
            }
            let mut b = [0u8; 16];
            b[..n as usize].copy_from_slice(&p.data[off..off + n as usize]);
            Ok(Some(u128::from_le_bytes(b)))
        } else {
            let mut v = 0u128;
            for k in 0..n {
                match self.byte(a + k) {
                    Byte::C(c) => v |= (c as u128) << (8 * k),
                    Byte::S(_) => return Ok(None),
                }
            }
            Ok(Some(v))
        }
    }
    pub fn byte(&self, a: u64) -> Byte {
        match self.page(a) {
            None => Byte::C(0),
            Some(p) => {
                let k = (a as usize) & (PS - 1);
                if let Some(s) = &p.sym {
                    if s.mask[k >> 6] >> (k & 63) & 1 == 1 {
                        return Byte::S(s.lits[k]);
                    }
                }
                Byte::C(p.data[k])
            }
        }
    }
    pub fn load_s(&self, a: u64, n: u64) -> Result<Vec<Lit>, Fault> {
        self.chk(a, n)?;
        let mut o = Vec::with_capacity(8 * n as usize);
        for k in 0..n {
            match self.byte(a + k) {
                Byte::C(c) => {
                    for i in 0..8 {
                        o.push(if c >> i & 1 == 1 { T } else { F })
                    }
                }
                Byte::S(l) => o.extend_from_slice(&l),
            }
        }
        Ok(o)
    }
    #[inline]
    pub fn store_c(&mut self, a: u64, n: u64, v: u128) -> Result<(), Fault> {
        self.chk(a, n)?;
        let off = (a as usize) & (PS - 1);
        let b = v.to_le_bytes();
        if off + n as usize <= PS {
            let p = self.page_mut(a);
            p.data[off..off + n as usize].copy_from_slice(&b[..n as usize]);
            if let Some(s) = &mut p.sym {
                for k in off..off + n as usize {
                    s.mask[k >> 6] &= !(1 << (k & 63));
                }
            }
        } else {
            for k in 0..n {
                self.set(a + k, Byte::C(b[k as usize]));
            }
        }
        Ok(())
    }
    pub fn set(&mut self, a: u64, b: Byte) {
        let k = (a as usize) & (PS - 1);
        let p = self.page_mut(a);
        let b = match b {
            Byte::S(l) if l.iter().all(|x| *x <= 1) => Byte::C((0..8).fold(0u8, |v, i| v | ((l[i] as u8) << i))),
            b => b,
        };
        match b {
            Byte::C(c) => {
                p.data[k] = c;
                if let Some(s) = &mut p.sym {
                    s.mask[k >> 6] &= !(1 << (k & 63));
                }
            }
            Byte::S(l) => {
                let s = p.sym.get_or_insert_with(|| Box::new(Sym { mask: [0; PS / 64], lits: vec![[F; 8]; PS] }));
                s.mask[k >> 6] |= 1 << (k & 63);
                s.lits[k] = l;
            }
        }
    }
    pub fn store_s(&mut self, a: u64, lits: &[Lit]) -> Result<(), Fault> {
        let n = (lits.len() as u64 + 7) / 8;
        self.chk(a, n)?;
        for k in 0..n {
            let mut l = [F; 8];
            for i in 0..8 {
                if let Some(x) = lits.get((8 * k + i) as usize) {
                    l[i as usize] = *x;
                }
            }
            self.set(a + k, Byte::S(l));
        }
        Ok(())
    }
    pub fn fill(&mut self, a: u64, n: u64, b: Byte) -> Result<(), Fault> {
        if n == 0 {
            return Ok(());
        }
        self.chk(a, n)?;
        let mut k = 0;
        while k < n {
            if let Byte::C(c) = b {
                let off = ((a + k) as usize) & (PS - 1);
                let m = ((PS - off) as u64).min(n - k) as usize;
                let p = self.page_mut(a + k);
                if p.sym.is_none() {
                    p.data[off..off + m].fill(c);
                    k += m as u64;
                    continue;
                }
            }
            self.set(a + k, b);
            k += 1;
        }
        Ok(())
    }
    /// memmove
    pub fn copy(&mut self, d: u64, s: u64, n: u64) -> Result<(), Fault> {
        if n == 0 || d == s {
            return Ok(());
        }
        self.chk(d, n)?;
        self.chk(s, n)?;
        if n <= 16 {
            if let Some(v) = self.load_c(s, n)? {
                return self.store_c(d, n, v);
            }
        }
        let any_sym = {
            let mut a = s & !(PS as u64 - 1);
            let mut f = false;
            while a < s + n {
                if self.page(a).map_or(false, |p| p.sym.is_some()) {
                    f = true
                }
                a += PS as u64;
            }
            f
        };
        if !any_sym {
            let mut buf = vec![0u8; n as usize];
            let mut k = 0u64;
            while k < n {
                let off = ((s + k) as usize) & (PS - 1);
                let m = ((PS - off) as u64).min(n - k) as usize;
                if let Some(p) = self.page(s + k) {
                    buf[k as usize..k as usize + m].copy_from_slice(&p.data[off..off + m]);
                }
                k += m as u64;
            }
            return self.write_bytes(d, &buf);
        }
        let v: Vec<Byte> = (0..n).map(|k| self.byte(s + k)).collect();
        for (k, b) in v.into_iter().enumerate() {
            self.set(d + k as u64, b);
        }
        Ok(())
    }
    pub fn write_bytes(&mut self, d: u64, buf: &[u8]) -> Result<(), Fault> {
        let n = buf.len() as u64;
        if n == 0 {
            return Ok(());
        }
        self.chk(d, n)?;
        let mut k = 0u64;
        while k < n {
            let off = ((d + k) as usize) & (PS - 1);
            let m = ((PS - off) as u64).min(n - k) as usize;
            let p = self.page_mut(d + k);
            p.data[off..off + m].copy_from_slice(&buf[k as usize..k as usize + m]);
            if let Some(s) = &mut p.sym {
                for q in off..off + m {
                    s.mask[q >> 6] &= !(1 << (q & 63));
                }
            }
            k += m as u64;
        }
        Ok(())
    }
    // ---- allocator: 16-byte header holding the size class, power-of-two-ish classes ----
    fn class(n: u64) -> usize {
        let mut c = 0;
        while (16u64 << c) < n {
            c += 1;
        }
        c
    }
    pub fn malloc(&mut self, n: u64, align: u64) -> Option<u64> {
        if n > 0x2000_0000 {
            return None;
        }
        self.live += 1;
        if align > 16 {
            let a = (self.heap + 16 + align - 1) / align * align;
            self.heap = a + ((n + 15) & !15);
            if self.heap > HEAP_END {
                return None;
            }
            self.store_c(a - 16, 8, 63).ok()?;
            self.store_c(a - 8, 8, n as u128).ok()?;
            return Some(a);
        }
        let c = Self::class(n.max(1));
        if let Some(a) = self.free[c].pop() {
            return Some(a);
        }
        let sz = 16u64 << c;
        let a = self.heap + 16;
        self.heap = a + sz;
        if self.heap > HEAP_END {
            return None;
        }
        self.store_c(a - 16, 8, c as u128).ok()?;
        self.store_c(a - 8, 8, sz as u128).ok()?;
        Some(a)
    }
    pub fn cap(&self, a: u64) -> u64 {
        match self.load_c(a - 8, 8) {
            Ok(Some(v)) => v as u64,
            _ => 0,
        }
    }
    pub fn dealloc(&mut self, a: u64) {
        if a == 0 {
            return;
        }
        self.live = self.live.wrapping_sub(1);
        if let Ok(Some(c)) = self.load_c(a - 16, 8) {
            if c < 40 {
                self.free[c as usize].push(a);
            }
        }
    }
}
impl Mem {
    pub fn empty() -> Mem {
        Mem { chunks: vec![], heap: 0, sp: 0, free: vec![], live: 0 }
    }
}
