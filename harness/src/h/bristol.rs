//! C04-C07: the Bristol text, both directions.
use super::circ::*;
use super::prog::*;
use std::io::{BufReader, BufWriter};

#[derive(Clone, Copy, PartialEq)]
pub enum K {
    Inv,
    Xor,
    And,
    Or,
    Eq,
    Eqw,
}
pub struct Line {
    pub kind: K,
    pub ins: Vec<u128>,
    pub out: u128,
}
/// A text read by the rules of the format, independently of the library.
pub struct Net {
    pub gates: u128,
    pub wires: u128,
    pub ins: Vec<u128>,
    pub outs: Vec<u128>,
    pub lines: Vec<Line>,
    /// malformed for sure
    pub bad: bool,
    /// a form that readers may or may not accept
    pub lenient: bool,
    /// characters whose role as separators is unclear
    pub odd_chars: bool,
}
fn sum(v: &[u128]) -> u128 {
    v.iter().sum()
}
fn tokens(l: &[u8], lenient: &mut bool) -> Vec<Vec<u8>> {
    let mut t = Vec::new();
    let mut cur = Vec::new();
    for i in 0..l.len() {
        if l[i] == b' ' {
            if cur.is_empty() {
                *lenient = true;
            } else {
                t.push(std::mem::take(&mut cur));
            }
        } else {
            cur.push(l[i]);
        }
    }
    if !cur.is_empty() {
        t.push(cur);
    }
    t
}
fn number(t: &[u8], lenient: &mut bool) -> Option<u128> {
    let mut t = t;
    if t.len() > 1 && t[0] == b'+' {
        *lenient = true;
        t = &t[1..];
    }
    let mut v: u128 = 0;
    for i in 0..t.len() {
        if !(t[i] >= b'0' && t[i] <= b'9') {
            return None;
        }
        v = v * 10 + (t[i] - b'0') as u128;
        if v > u64::MAX as u128 {
            return None;
        }
    }
    if t.is_empty() {
        return None;
    }
    if t.len() > 1 && t[0] == b'0' {
        *lenient = true;
    }
    Some(v)
}
fn is(t: &[u8], s: &str) -> bool {
    t == s.as_bytes()
}
/// A set of wires; for long texts (whose bytes are fixed) an indexed one.
struct Marks {
    list: Vec<u128>,
    table: Option<Vec<bool>>,
}
impl Marks {
    fn new(len: usize) -> Marks {
        Marks { list: vec![], table: if len > 8000 { Some(vec![]) } else { None } }
    }
    fn push(&mut self, w: u128) {
        match &mut self.table {
            Some(t) if w < 1 << 20 => {
                if t.len() <= w as usize {
                    t.resize(w as usize + 1, false);
                }
                t[w as usize] = true;
            }
            _ => self.list.push(w),
        }
    }
    fn contains(&self, w: u128) -> bool {
        match &self.table {
            Some(t) if w < 1 << 20 => (w as usize) < t.len() && t[w as usize],
            _ => self.list.contains(&w),
        }
    }
}
pub fn parse(text: &[u8]) -> Net {
    let mut n = Net { gates: 0, wires: 0, ins: vec![], outs: vec![], lines: vec![], bad: false, lenient: false, odd_chars: false };
    for i in 0..text.len() {
        let c = text[i];
        if c >= 0x7f || (c < b' ' && c != b'\n') {
            n.odd_chars = true;
            return n;
        }
    }
    let mut lines: Vec<&[u8]> = text.split(|c| *c == b'\n').collect();
    if let Some(l) = lines.last() {
        if l.is_empty() {
            lines.pop();
        }
    }
    if lines.len() < 4 {
        n.bad = true;
        return n;
    }
    let mut heads: Vec<Vec<u128>> = Vec::new();
    for (k, l) in lines[..3].iter().enumerate() {
        let t = tokens(l, &mut n.lenient);
        let mut v = Vec::new();
        let mut need = if k == 0 { 2 } else { 1 };
        for (i, t) in t.iter().enumerate() {
            if i as u128 >= need {
                n.lenient = true;
                break;
            }
            match number(t, &mut n.lenient) {
                Some(x) => v.push(x),
                None => {
                    n.bad = true;
                    return n;
                }
            }
            if k > 0 && i == 0 {
                need = 1 + v[0];
            }
        }
        if (v.len() as u128) < need {
            n.bad = true;
            return n;
        }
        heads.push(v);
    }
    n.gates = heads[0][0];
    n.wires = heads[0][1];
    n.ins = heads[1][1..].to_vec();
    n.outs = heads[2][1..].to_vec();
    if sum(&n.ins) > n.wires || sum(&n.outs) > n.wires {
        n.bad = true;
        return n;
    }
    if !lines[3].is_empty() {
        n.lenient = true;
    }
    let nin = sum(&n.ins);
    let mut assigned = Marks::new(text.len());
    let mut end = false;
    for l in lines[4..].iter() {
        if l.is_empty() {
            end = true;
            continue;
        }
        if end {
            // text behind the end of the circuit
            n.lenient = true;
            break;
        }
        let t = tokens(l, &mut n.lenient);
        let mut v = Vec::new();
        let mut need = 2u128;
        let mut i = 0;
        while (i as u128) < need {
            if i >= t.len() {
                n.bad = true;
                return n;
            }
            match number(&t[i], &mut n.lenient) {
                Some(x) => v.push(x),
                None => {
                    n.bad = true;
                    return n;
                }
            }
            if i == 1 {
                need = 2 + v[0] + v[1];
            }
            i += 1;
        }
        if i >= t.len() {
            n.bad = true;
            return n;
        }
        if i + 1 < t.len() {
            n.lenient = true;
        }
        let name = &t[i];
        let (kind, arity) = if is(name, "INV") {
            (K::Inv, 1)
        } else if is(name, "XOR") {
            (K::Xor, 2)
        } else if is(name, "AND") {
            (K::And, 2)
        } else if is(name, "OR") {
            (K::Or, 2)
        } else if is(name, "EQ") {
            (K::Eq, 1)
        } else if is(name, "EQW") {
            (K::Eqw, 1)
        } else {
            n.bad = true;
            return n;
        };
        if v[0] != arity || v[1] != 1 {
            n.bad = true;
            return n;
        }
        let ins = v[2..2 + arity as usize].to_vec();
        let out = v[2 + arity as usize];
        if kind == K::Eq {
            if ins[0] > 1 {
                n.bad = true;
                return n;
            }
        } else {
            for w in ins.iter() {
                if *w >= nin && !assigned.contains(*w) {
                    n.bad = true;
                    return n;
                }
            }
        }
        if out < nin || assigned.contains(out) || out >= n.wires {
            n.lenient = true;
        }
        assigned.push(out);
        n.lines.push(Line { kind, ins, out });
    }
    if (n.lines.len() as u128) < n.gates {
        n.bad = true;
    }
    if (n.lines.len() as u128) > n.gates {
        n.lenient = true;
    }
    let mut w = n.wires - sum(&n.outs);
    while w < n.wires {
        if w >= nin && !assigned.contains(w) {
            n.bad = true;
            return n;
        }
        w += 1;
    }
    n
}
/// What the text computes.
pub fn interpret(n: &Net, ins: &[bool]) -> Vec<bool> {
    if n.lines.len() > 400 && n.wires < 1 << 20 && n.lines.iter().all(|l| l.out < n.wires) {
        let mut v = vec![false; n.wires as usize];
        v[..ins.len()].copy_from_slice(ins);
        for l in n.lines.iter() {
            let x = if l.kind == K::Eq { l.ins[0] == 1 } else { v[l.ins[0] as usize] };
            v[l.out as usize] = match l.kind {
                K::Inv => !x,
                K::Xor => x ^ v[l.ins[1] as usize],
                K::And => x & v[l.ins[1] as usize],
                K::Or => x | v[l.ins[1] as usize],
                _ => x,
            };
        }
        return v[(n.wires - sum(&n.outs)) as usize..].to_vec();
    }
    let mut val: Vec<(u128, bool)> = Vec::new();
    for (i, b) in ins.iter().enumerate() {
        val.push((i as u128, *b));
    }
    for l in n.lines.iter() {
        let b = if l.kind == K::Eq {
            l.ins[0] == 1
        } else {
            let x: Vec<bool> = l.ins.iter().map(|w| get(&val, *w)).collect();
            match l.kind {
                K::Inv => !x[0],
                K::Xor => x[0] ^ x[1],
                K::And => x[0] & x[1],
                K::Or => x[0] | x[1],
                _ => x[0],
            }
        };
        val.push((l.out, b));
    }
    let mut o = Vec::new();
    let mut w = n.wires - sum(&n.outs);
    while w < n.wires {
        o.push(get(&val, w));
        w += 1;
    }
    o
}
fn get(val: &[(u128, bool)], w: u128) -> bool {
    for (k, b) in val.iter().rev() {
        if *k == w {
            return *b;
        }
    }
    false
}

/// Export; the text and the returned constants.
pub fn export(c: &CR, first: usize) -> Option<(Vec<u8>, Vec<bool>)> {
    let mut w = BristolNXAOWriter::new(c.clone(), BufWriter::new(Vec::new()));
    let r = w.write(first, None);
    match r {
        Ok(k) => Some((w.writer.into_inner().unwrap(), k)),
        Err(_) => {
            check(false, "a representable circuit is exported");
            None
        }
    }
}
pub fn check_text(text: &[u8], consts: &[bool], nin: usize, nout: usize, first: usize) -> Net {
    let n = parse(text);
    check(!n.bad && !n.lenient && !n.odd_chars, "exported text is well-formed");
    let total = n.lines.len() as u128;
    check(n.gates == total, "the header gives the number of gate lines");
    check(n.wires == sum(&n.ins) + total, "the header gives the number of wires, each assigned once");
    check(sum(&n.ins) == (nin + consts.len()) as u128, "input groups add up to inputs plus constants");
    check(!n.ins.is_empty() && n.ins[0] == first as u128, "the first input group has the requested size");
    check(sum(&n.outs) == nout as u128, "output groups add up to the outputs");
    n
}
fn writer_reuse(c: &CR, text: &[u8], first: usize) {
    let mut w = BristolNXAOWriter::new(c.clone(), BufWriter::new(Vec::new()));
    let a = w.write(first, None);
    let b = w.write(first, None);
    check(a.is_ok() && b.is_ok(), "a writer can be used again");
    let t = w.writer.into_inner().unwrap();
    check(t.len() == 2 * text.len() && t[..text.len()] == *text, "exporting is repeatable");
    if t.len() == 2 * text.len() {
        let n = parse(&t[text.len()..]);
        check(!n.bad && !n.lenient && n.gates == n.lines.len() as u128, "a second export by the same writer is well-formed");
    }
}
/// C04. Params: what (0 text, 1 also twice, 2 also a caller-supplied map), unit family.
#[no_mangle]
pub extern "C" fn h_export() {
    let u = pick_unit(1);
    let b = match build_unit(&u, Via::Sub) {
        Some(b) => b,
        None => return,
    };
    let nin = u.main.nin();
    let first = match param(0) {
        0 => nin,
        _ => choose(nin + 1),
    };
    let (text, consts) = match export(&b.c, first) {
        Some(x) => x,
        None => return,
    };
    let n = check_text(&text, &consts, nin, u.main.outs.len(), first);
    observe(text.len() as u64);
    observe_bits(&consts);
    let ins = bvec(nin);
    let want = run(&u.modules, &u.main, &ins);
    let mut all = ins.clone();
    all.extend_from_slice(&consts);
    check(same(&interpret(&n, &all), &want), "the text computes the circuit on inputs then constants");
    if param(0) == 1 {
        writer_reuse(&b.c, &text, first);
    }
    if !consts.is_empty() {
        cover("constants exported");
    }
    if n.lines.iter().any(|l| l.kind == K::Eqw) {
        cover("copies exported");
    }
    cover("exported");
}
/// C04: a first group larger than the inputs (constants are inputs of the text), and too large a request.
#[no_mangle]
pub extern "C" fn h_export_first() {
    let mut p = Prog::new();
    p.inputs(choose(3));
    for _ in 0..choose(3) {
        p.push(Op::Const(bit()));
    }
    if p.slots == 0 {
        p.push(Op::In);
    }
    p.push(Op::Not(p.slots - 1));
    p.push(Op::And(0, p.slots - 1));
    p.outs = vec![p.slots - 1, choose(p.slots)];
    let c = match build(&p) {
        Some((c, _)) => c,
        None => return,
    };
    let k = counts(&[], &p);
    let first = choose(k.ins + k.consts + 3);
    if first <= k.ins + k.consts {
        cover("request fits");
        if let Some((t, v)) = export(&c, first) {
            check_text(&t, &v, k.ins, 2, first);
        }
        return;
    }
    // more than there are: an error, or a stop, but no text
    cover("request too large");
    let mut w = BristolNXAOWriter::new(c.clone(), BufWriter::new(Vec::new()));
    allow_panic(true);
    let r = w.write(first, None);
    allow_panic(false);
    check(r.is_err(), "a request that cannot be represented gives no text");
}
pub fn read(text: &[u8], c: &mut CR) -> Result<(), BristolError> {
    let mut r = BristolNXAOReader::new();
    r.read(BufReader::new(text), c)
}
/// C07. Params: unit family.
#[no_mangle]
pub extern "C" fn h_roundtrip() {
    let u = pick_unit(0);
    let b = match build_unit(&u, Via::Sub) {
        Some(b) => b,
        None => return,
    };
    roundtrip(&b.c, &u);
}
pub fn roundtrip(c: &CR, u: &Unit) {
    let nin = u.main.nin();
    let (text, consts) = match export(c, nin) {
        Some(x) => x,
        None => return,
    };
    let mut d = new_circ();
    let r = read(&text, &mut d);
    check(r.is_ok(), "exported text is read back");
    if r.is_err() {
        return;
    }
    check(d.input_len() == nin + consts.len(), "the read circuit has the inputs and the constants as inputs");
    check(d.output_len() == u.main.outs.len(), "the read circuit has the outputs");
    check(d.num_const() == 0, "the constants have become inputs");
    let ins = bvec(nin);
    let mut all = ins.clone();
    all.extend_from_slice(&consts);
    let want = run(&u.modules, &u.main, &ins);
    if let Some(o) = eval(&d, &all) {
        observe_bits(&o);
        check(same(&o, &want), "the read circuit computes the original's outputs");
    }
    let n = parse(&text);
    let copies = n.lines.iter().any(|l| l.kind == K::Eqw);
    if u.modules.is_empty() && consts.is_empty() && !copies && all_used(&u.main) {
        cover("gate count kept");
        check(d.num_gate() == c.num_gate(), "the number of gates survives export and import");
        check(d.num_wire() == c.num_wire(), "the number of wires survives export and import");
    }
    cover("read back");
}
fn all_used(p: &Prog) -> bool {
    let mut used = vec![false; p.slots];
    for o in p.outs.iter() {
        used[*o] = true;
    }
    for (s, o) in p.ops.iter().enumerate().rev() {
        if !used[s] {
            if let Op::In = o {
                continue;
            }
            return false;
        }
        match o {
            Op::Not(a) | Op::Ident(a) => used[*a] = true,
            Op::Xor(a, b) | Op::And(a, b) | Op::Or(a, b) | Op::Equiv(a, b) => {
                used[*a] = true;
                used[*b] = true;
            }
            _ => {}
        }
    }
    true
}
/// C04/C07 for circuits with one unused gate next to used ones are part of the families (dead slots).

fn num(t: &mut Vec<u8>, v: usize) {
    let s = v.to_string();
    t.extend_from_slice(s.as_bytes());
}
fn group_line(t: &mut Vec<u8>, g: &[usize], trail: bool) {
    num(t, g.len());
    for x in g {
        t.push(b' ');
        num(t, *x);
    }
    if trail {
        t.push(b' ');
    }
    t.push(b'\n');
}
fn pick_groups(n: usize, style: usize) -> Vec<usize> {
    match style {
        0 => vec![n],
        1 => vec![n - n / 2, n / 2],
        2 => vec![0, n],
        3 => vec![1; n],
        _ => {
            let mut g = vec![0; 3];
            g[1] = n;
            g
        }
    }
}
/// A well-formed text, symbolically chosen: nin inputs, ng gates, any wire numbering.
fn pick_text(nin: usize, ng: usize, kinds: &[K], styles: usize, gap: usize) -> Vec<u8> {
    let nw = nin + ng + gap;
    let mut assigned: Vec<usize> = (0..nin).collect();
    let mut body: Vec<u8> = Vec::new();
    for _ in 0..ng {
        let k = kinds[choose(kinds.len())];
        let k = if assigned.is_empty() { K::Eq } else { k };
        let arity = match k {
            K::Inv | K::Eq | K::Eqw => 1,
            _ => 2,
        };
        body.extend_from_slice(if arity == 1 { b"1 1 " } else { b"2 1 " });
        for _ in 0..arity {
            let w = if k == K::Eq { choose(2) } else { assigned[choose(assigned.len())] };
            num(&mut body, w);
            body.push(b' ');
        }
        let free: Vec<usize> = (0..nw).filter(|w| !assigned.contains(w)).collect();
        let o = free[choose(free.len())];
        num(&mut body, o);
        assigned.push(o);
        body.extend_from_slice(match k {
            K::Inv => b" INV",
            K::Xor => b" XOR",
            K::And => b" AND",
            K::Or => b" OR",
            K::Eq => b" EQ",
            K::Eqw => b" EQW",
        });
        body.push(b'\n');
        cover(match k { K::Inv => "INV", K::Xor => "XOR", K::And => "AND", K::Or => "OR", K::Eq => "EQ", K::Eqw => "EQW" });
    }
    let mut most = 0;
    while most < nw && assigned.contains(&(nw - 1 - most)) {
        most += 1;
    }
    let no = choose(most + 1);
    let (si, so, tail) = if styles == 0 {
        let s = choose(4);
        (s, (s + 1) % 4, s)
    } else {
        (choose(styles), choose(styles), choose(4))
    };
    let mut t = Vec::new();
    num(&mut t, ng);
    t.push(b' ');
    num(&mut t, nw);
    t.push(b'\n');
    group_line(&mut t, &pick_groups(nin, si), tail == 1);
    group_line(&mut t, &pick_groups(no, so), tail == 1);
    t.push(b'\n');
    t.extend_from_slice(&body);
    match tail {
        2 => {
            if ng > 0 {
                t.pop();
            }
        }
        3 => t.push(b'\n'),
        _ => {}
    }
    t
}
fn check_read(c: &CR, n: &Net, extra_in: usize, extra_out: &[bool], first_in: &[bool]) {
    let nin = sum(&n.ins) as usize;
    check(c.input_len() == nin + extra_in, "as many inputs as declared");
    check(c.output_len() == sum(&n.outs) as usize + extra_out.len(), "as many outputs as declared");
    let ins = bvec(nin);
    let mut all = first_in.to_vec();
    all.extend_from_slice(&ins);
    let mut want = extra_out.to_vec();
    want.extend(interpret(n, &ins));
    if let Some(o) = eval(c, &all) {
        observe_bits(&o);
        check(same(&o, &want), "the read circuit computes what the text defines");
    }
}
/// C05. Params: nin ng kinds styles gap existing.
#[no_mangle]
pub extern "C" fn h_import() {
    let all = [K::Inv, K::Xor, K::And, K::Or, K::Eq, K::Eqw];
    let some = [K::Inv, K::And, K::Eqw];
    let kinds: &[K] = if param(2) == 0 { &all } else { &some };
    let t = pick_text(param(0) as usize, param(1) as usize, kinds, param(3) as usize, param(4) as usize);
    let n = parse(&t);
    check(!n.bad && !n.odd_chars, "harness: the chosen text is well-formed");
    let mut c = new_circ();
    if param(5) == 1 {
        // into a circuit that has gates, with a reader that has read something before
        let a = c.input().unwrap();
        let k = c.constant(true).unwrap();
        let x = c.xor(&a, &k).unwrap();
        c.output(x).unwrap();
        c.output(a).unwrap();
        let mut r = BristolNXAOReader::new();
        let mut other = new_circ();
        let pre = b"1 3\n1 2\n1 1\n\n2 1 0 1 2 AND\n";
        check(r.read(BufReader::new(&pre[..]), &mut other).is_ok(), "a plain text is read");
        let res = r.read(BufReader::new(&t[..]), &mut c);
        check(res.is_ok(), "well-formed text is read");
        let b = bit();
        if res.is_ok() {
            check_read(&c, &n, 1, &[!b, b], &[b]);
            check(matches!(c.output_to_gate_id(&WireId(0)), Ok(g) if g == x), "existing outputs stay");
            check(matches!(c.input_to_gate_id(&WireId(0)), Ok(Some(g)) if g == a), "existing inputs stay");
            check(matches!(c.get_gate(&x), Ok(NXAOBoolGate::Xor(g)) if g.left_id == a && g.right_id == k), "existing gates stay");
        }
    } else {
        let res = read(&t, &mut c);
        check(res.is_ok(), "well-formed text is read");
        if res.is_ok() {
            check_read(&c, &n, 0, &[], &[]);
        }
    }
}
/// C05: larger fixed texts (structure from a fixed sequence, data symbolic). Params: seed nin ng no near (operands among the last so many, 0: all).
#[no_mangle]
pub extern "C" fn h_import_large() {
    let mut g = Lcg(param(0));
    let (nin, ng, no) = (param(1) as usize, param(2) as usize, param(3) as usize);
    let near = param(4) as usize;
    let nw = nin + ng;
    // any numbering of the gate wires
    let mut order: Vec<usize> = (nin..nw).collect();
    for i in (1..order.len()).rev() {
        order.swap(i, g.next(i + 1));
    }
    let mut assigned: Vec<usize> = (0..nin).collect();
    let mut t = Vec::new();
    num(&mut t, ng);
    t.push(b' ');
    num(&mut t, nw);
    t.push(b'\n');
    group_line(&mut t, &pick_groups(nin, g.next(4)), true);
    group_line(&mut t, &pick_groups(no, g.next(4)), false);
    t.push(b'\n');
    for k in 0..ng {
        let a = assigned[g.next(assigned.len())];
        let b = assigned[assigned.len() - 1 - g.next(if near == 0 { assigned.len() } else { assigned.len().min(near) })];
        let (name, two) = [("INV", false), ("XOR", true), ("AND", true), ("OR", true), ("EQ", false), ("EQW", false), ("XOR", true), ("OR", true)][g.next(8)];
        t.extend_from_slice(if two { b"2 1 " } else { b"1 1 " });
        num(&mut t, if name == "EQ" { g.next(2) } else { a });
        t.push(b' ');
        if two {
            num(&mut t, b);
            t.push(b' ');
        }
        num(&mut t, order[k]);
        t.push(b' ');
        t.extend_from_slice(name.as_bytes());
        t.push(b'\n');
        assigned.push(order[k]);
    }
    let n = parse(&t);
    check(!n.bad && !n.odd_chars, "harness: the fixed text is well-formed");
    let mut c = new_circ();
    let res = read(&t, &mut c);
    check(res.is_ok(), "well-formed text is read");
    if res.is_ok() {
        check_read(&c, &n, 0, &[], &[]);
    }
}
const BASES: [&str; 7] = [
    "2 5\n1 3\n1 2\n\n2 1 0 1 3 AND\n1 1 2 4 INV\n",
    "1 3\n2 1 1\n1 1\n\n2 1 0 1 2 XOR\n",
    "2 3\n1 1\n1 1\n\n1 1 1 1 EQ\n2 1 0 1 2 OR\n",
    "1 2\n1 1\n2 1 1\n\n1 1 0 1 EQW\n",
    "0 2\n1 2\n1 2\n\n",
    "0 0\n0\n0\n\n",
    "12 13\n1 1\n1 2\n\n1 1 0 12 INV\n1 1 12 11 INV\n1 1 11 10 INV\n1 1 10 9 EQW\n1 1 9 8 INV\n1 1 8 7 INV\n1 1 7 6 INV\n1 1 6 5 INV\n1 1 5 4 INV\n1 1 4 3 INV\n1 1 3 2 INV\n2 1 2 3 1 XOR\n",
];
/// A byte; digits and separators are told apart by path, everything else stays symbolic.
fn any_byte() -> u8 {
    let b = word(8) as u8;
    if b >= b'0' && b <= b'9' {
        return b'0' + concrete(b - b'0');
    }
    b
}
fn concrete(d: u8) -> u8 {
    for k in 0..9 {
        if d == k {
            return k;
        }
    }
    9
}
fn verdict(t: &[u8], c: &mut CR, r: Result<(), BristolError>) {
    let n = parse(t);
    if n.odd_chars {
        cover("unusual characters");
        return;
    }
    if n.bad {
        cover("malformed");
        check(r.is_err(), "malformed text is rejected");
    } else if !n.lenient {
        cover("well-formed");
        check(r.is_ok(), "well-formed text is read");
        if r.is_ok() {
            check_read(c, &n, 0, &[], &[]);
        }
    } else {
        cover("lenient");
    }
}
fn pick_base() -> Vec<u8> {
    let lo = param(1) as usize;
    let hi = param(2) as usize;
    BASES[lo + choose(hi - lo)].as_bytes().to_vec()
}
const TOKENS: [&str; 22] = [
    "0", "1", "2", "3", "4", "5", "9", "18446744073709551615", "18446744073709551616", "9223372036854775808", "-1", "+1", "x", "", "INV", "XOR", "MAND", "EQ", "EQW", "AND", "OR", "and",
];
/// (start, end) of the tokens
fn spans(t: &[u8]) -> Vec<(usize, usize)> {
    let mut v = Vec::new();
    let mut s = 0;
    for i in 0..=t.len() {
        if i == t.len() || t[i] == b' ' || t[i] == b'\n' {
            if i > s {
                v.push((s, i));
            }
            s = i + 1;
        }
    }
    v
}
/// Declared sizes this large make any reader work forever before it can see the text is wrong.
fn too_big(t: &[u8]) -> bool {
    let lines: Vec<&[u8]> = t.split(|c| *c == b'\n').collect();
    if lines.len() < 2 {
        return false;
    }
    let mut l = false;
    let t0 = tokens(lines[0], &mut l);
    let t1 = tokens(lines[1], &mut l);
    let big = |v: &[Vec<u8>]| v.iter().any(|x| number(x, &mut false).map_or(false, |n| n > 1_000_000));
    big(&t0[t0.len().min(1)..]) && big(&t1[t1.len().min(1)..])
}
/// C06. Params: mutation, first base, end of bases.
///  0 no text mutation; 1 one byte replaced; 2 one byte inserted; 3 one byte deleted; 4 cut off;
///  5 one token replaced; 6 line dropped, doubled or swapped; 7 two adjacent bytes replaced; 8 two tokens replaced; 9 short text of any bytes
#[no_mangle]
pub extern "C" fn h_malformed() {
    let mut t = if param(0) == 9 { Vec::new() } else { pick_base() };
    let n = t.len();
    match param(0) {
        0 => {}
        1 => {
            let i = choose(n);
            t[i] = any_byte();
        }
        2 => {
            let i = choose(n + 1);
            t.insert(i, any_byte());
        }
        3 => {
            let i = choose(n);
            t.remove(i);
        }
        4 => t.truncate(choose(n)),
        5 => {
            let s = spans(&t);
            let (a, b) = s[choose(s.len())];
            t.splice(a..b, TOKENS[choose(TOKENS.len())].bytes());
        }
        6 => {
            let mut l: Vec<Vec<u8>> = t.split(|c| *c == b'\n').map(|x| x.to_vec()).collect();
            l.pop();
            let i = choose(l.len());
            match choose(3) {
                0 => {
                    l.remove(i);
                }
                1 => {
                    let x = l[i].clone();
                    l.insert(i, x);
                }
                _ => {
                    let j = choose(l.len());
                    l.swap(i, j);
                }
            }
            t.clear();
            for x in l {
                t.extend_from_slice(&x);
                t.push(b'\n');
            }
        }
        7 => {
            let i = choose(n - 1);
            t[i] = any_byte();
            t[i + 1] = any_byte();
        }
        8 => {
            let s = spans(&t);
            let i = choose(s.len() - 1);
            let j = i + 1 + choose(s.len() - 1 - i);
            let small = [0usize, 2, 3, 5, 7, 12, 14, 15];
            let x = TOKENS[small[choose(small.len())]];
            let y = TOKENS[small[choose(small.len())]];
            t.splice(s[j].0..s[j].1, y.bytes());
            t.splice(s[i].0..s[i].1, x.bytes());
        }
        _ => {
            for _ in 0..param(1) {
                t.push(any_byte());
            }
        }
    }
    if too_big(&t) {
        cover("outside the bounds");
        return;
    }
    let mut c = new_circ();
    let r = read(&t, &mut c);
    observe(r.is_ok() as u64);
    verdict(&t, &mut c, r);
}
/// C06/C05: a reader that has read another text before gives the same verdict.
#[no_mangle]
pub extern "C" fn h_malformed_reused() {
    let mut r = BristolNXAOReader::new();
    let mut other = new_circ();
    let pre = BASES[[0usize, 1, 6][choose(3)]].as_bytes();
    check(r.read(BufReader::new(pre), &mut other).is_ok(), "well-formed text is read");
    let mut t = pick_base();
    let s = spans(&t);
    let (a, b) = s[choose(s.len())];
    t.splice(a..b, TOKENS[choose(7)].bytes());
    let mut c = new_circ();
    let res = r.read(BufReader::new(&t[..]), &mut c);
    verdict(&t, &mut c, res);
}
