//! Small circuits as programs: chosen symbolically, built through the library, and given their meaning here.
use super::circ::*;

#[derive(Clone)]
pub enum Op {
    In,
    Const(bool),
    Not(usize),
    Xor(usize, usize),
    And(usize, usize),
    Or(usize, usize),
    Equiv(usize, usize),
    Ident(usize),
    /// call of the module with that index in the program list
    Call(usize, Vec<usize>),
}
/// Every operation appends one slot, a call one per output of the module.
#[derive(Clone)]
pub struct Prog {
    pub ops: Vec<Op>,
    pub slots: usize,
    pub outs: Vec<usize>,
}
impl Prog {
    pub fn new() -> Prog {
        Prog { ops: Vec::new(), slots: 0, outs: Vec::new() }
    }
    pub fn push(&mut self, o: Op) -> usize {
        self.ops.push(o);
        self.slots += 1;
        self.slots - 1
    }
    pub fn inputs(&mut self, n: usize) {
        for _ in 0..n {
            self.push(Op::In);
        }
    }
    pub fn call(&mut self, m: usize, args: Vec<usize>, outs: usize) -> usize {
        self.ops.push(Op::Call(m, args));
        self.slots += outs;
        self.slots - outs
    }
    pub fn nin(&self) -> usize {
        let mut n = 0;
        for o in self.ops.iter() {
            if let Op::In = o {
                n += 1;
            }
        }
        n
    }
}
pub struct Counts {
    pub ins: usize,
    pub outs: usize,
    pub consts: usize,
    pub gates: usize,
    pub wires: usize,
}
/// Values of the slots.
pub fn run_slots(all: &[Prog], p: &Prog, ins: &[bool]) -> Vec<bool> {
    let mut v: Vec<bool> = Vec::new();
    let mut ni = 0;
    for o in p.ops.iter() {
        let b = match o {
            Op::In => {
                ni += 1;
                ins[ni - 1]
            }
            Op::Const(b) => *b,
            Op::Not(a) => !v[*a],
            Op::Xor(a, b) => v[*a] ^ v[*b],
            Op::And(a, b) => v[*a] & v[*b],
            Op::Or(a, b) => v[*a] | v[*b],
            Op::Equiv(a, b) => !(v[*a] ^ v[*b]),
            Op::Ident(a) => v[*a],
            Op::Call(m, args) => {
                let a: Vec<bool> = args.iter().map(|x| v[*x]).collect();
                let r = run(all, &all[*m], &a);
                v.extend_from_slice(&r);
                continue;
            }
        };
        v.push(b);
    }
    v
}
pub fn run(all: &[Prog], p: &Prog, ins: &[bool]) -> Vec<bool> {
    let v = run_slots(all, p, ins);
    p.outs.iter().map(|i| v[*i]).collect()
}
/// Sizes of the flattened circuit.
pub fn counts(all: &[Prog], p: &Prog) -> Counts {
    let mut c = Counts { ins: 0, outs: p.outs.len(), consts: 0, gates: 0, wires: 0 };
    for o in p.ops.iter() {
        match o {
            Op::In => c.ins += 1,
            Op::Const(_) => c.consts += 1,
            Op::Equiv(..) | Op::Ident(_) => c.gates += 2,
            Op::Call(m, _) => {
                let d = counts(all, &all[*m]);
                c.gates += d.gates;
                c.consts += d.consts;
            }
            _ => c.gates += 1,
        }
    }
    c.wires = c.ins + c.consts + c.gates;
    c
}
pub fn build_op(c: &mut CR, ids: &[GateId], mids: &[ModuleId], o: &Op) -> Option<Vec<GateId>> {
    let r = match o {
        Op::In => c.input(),
        Op::Const(b) => c.constant(*b),
        Op::Not(a) => c.not(&ids[*a]),
        Op::Xor(a, b) => c.xor(&ids[*a], &ids[*b]),
        Op::And(a, b) => c.and(&ids[*a], &ids[*b]),
        Op::Or(a, b) => c.or(&ids[*a], &ids[*b]),
        Op::Equiv(a, b) => c.equivalent(&ids[*a], &ids[*b]),
        Op::Ident(a) => c.identity(&ids[*a]),
        Op::Call(m, args) => {
            let a: Vec<GateId> = args.iter().map(|x| ids[*x]).collect();
            let r = c.module(&mids[*m], &a);
            check(r.is_ok(), "a module call with the right number of arguments is accepted");
            return r.ok();
        }
    };
    check(r.is_ok(), "a construction call on existing gates is accepted");
    r.ok().map(|x| vec![x])
}
/// Build `p` in `c`; the module of program i has id mids[i]. The ids of the slots.
pub fn build_in(c: &mut CR, mids: &[ModuleId], p: &Prog) -> Option<Vec<GateId>> {
    let mut ids: Vec<GateId> = Vec::new();
    for o in p.ops.iter() {
        ids.extend(build_op(c, &ids, mids, o)?);
    }
    for o in p.outs.iter() {
        let r = c.output(ids[*o]);
        check(r.is_ok(), "declaring an existing gate as output is accepted");
    }
    Some(ids)
}
pub fn build(p: &Prog) -> Option<(CR, Vec<GateId>)> {
    let mut c = new_circ();
    let ids = build_in(&mut c, &[], p)?;
    Some((c, ids))
}
/// A program with modules: modules[i] may call modules[..i].
#[derive(Clone)]
pub struct Unit {
    pub modules: Vec<Prog>,
    pub main: Prog,
}
/// How the modules get into the registry.
#[derive(Clone, Copy, PartialEq)]
pub enum Via {
    Sub,
    Registered,
    /// built in another circuit on the same storage
    Shared,
    /// all sub-circuits created first, the callers before what they call
    Early,
    /// each one created as a sub-circuit of its caller, before that has anything in it
    Nested,
}
pub struct Built {
    pub c: CR,
    pub ids: Vec<GateId>,
    pub mids: Vec<ModuleId>,
    pub mods: Vec<CR>,
}
pub fn build_unit(u: &Unit, via: Via) -> Option<Built> {
    let storage = ModuleStorageRef::new();
    let mut c = NXAOBoolCircuit::new(storage.clone()).to_ref();
    let mut other = NXAOBoolCircuit::new(storage.clone()).to_ref();
    let mut mids = Vec::new();
    let mut mods = Vec::new();
    let mut early: Vec<(ModuleId, CR)> = Vec::new();
    if via == Via::Early || via == Via::Nested {
        for _ in u.modules.iter() {
            let x = match early.last() {
                Some((_, s)) if via == Via::Nested => s.clone().sub_circuit(),
                _ => c.sub_circuit(),
            };
            early.push(x);
        }
    }
    for m in u.modules.iter() {
        let (id, r) = match via {
            Via::Early | Via::Nested => {
                let (id, mut s) = early.pop()?;
                build_in(&mut s, &mids, m)?;
                (id, s)
            }
            Via::Sub | Via::Shared => {
                let (id, mut s) = if via == Via::Sub { c.sub_circuit() } else { other.sub_circuit() };
                build_in(&mut s, &mids, m)?;
                (id, s)
            }
            Via::Registered => {
                let mut s = NXAOBoolCircuit::new(storage.clone()).to_ref();
                build_in(&mut s, &mids, m)?;
                (c.register_module(&s), s)
            }
        };
        mids.push(id);
        mods.push(r);
    }
    let ids = build_in(&mut c, &mids, &u.main)?;
    Some(Built { c, ids, mids, mods })
}

// ---- symbolic choice of programs ----
/// Gate kinds a choice ranges over.
pub const ALL: &[u8] = b"nxaoeic";
pub fn pick_op(p: &mut Prog, kinds: &[u8]) {
    let k = kinds[choose(kinds.len())];
    let n = p.slots;
    let op = match k {
        b'c' => Op::Const(bit()),
        b'I' => Op::In,
        b'n' => Op::Not(choose(n)),
        b'i' => Op::Ident(choose(n)),
        b'x' => { let a = choose(n); Op::Xor(a, choose(n)) }
        b'a' => { let a = choose(n); Op::And(a, choose(n)) }
        b'o' => { let a = choose(n); Op::Or(a, choose(n)) }
        _ => { let a = choose(n); Op::Equiv(a, choose(n)) }
    };
    cover(match k {
        b'c' => "const",
        b'I' => "late input",
        b'n' => "not",
        b'i' => "identity",
        b'x' => "xor",
        b'a' => "and",
        b'o' => "or",
        _ => "equivalent",
    });
    p.push(op);
}
pub fn pick_outs(p: &mut Prog, n: usize) {
    for _ in 0..n {
        let o = choose(p.slots);
        p.outs.push(o);
    }
}
/// Any program of `nin` inputs, `ng` operations out of `kinds`, `no` outputs.
pub fn pick_flat(nin: usize, ng: usize, no: usize, kinds: &[u8]) -> Prog {
    let mut p = Prog::new();
    p.inputs(nin);
    for _ in 0..ng {
        if p.slots == 0 {
            pick_op(&mut p, b"c");
        } else {
            pick_op(&mut p, kinds);
        }
    }
    pick_outs(&mut p, no);
    p
}
pub fn pick_args(n: usize, slots: usize) -> Vec<usize> {
    let mut a = Vec::new();
    for _ in 0..n {
        a.push(choose(slots));
    }
    a
}
pub fn kindset(k: u64) -> &'static [u8] {
    match k {
        0 => ALL,
        1 => b"nxac",
        2 => b"na",
        3 => b"nx",
        4 => b"xaoI",
        5 => b"a",
        6 => b"nxaoc",
        _ => b"x",
    }
}

// ---- fixed larger programs (structure from a fixed sequence, data symbolic) ----
pub struct Lcg(pub u64);
impl Lcg {
    pub fn next(&mut self, n: usize) -> usize {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        ((self.0 >> 33) % n as u64) as usize
    }
}
pub fn mixed(seed: u64, nin: usize, ng: usize, no: usize, near: usize) -> Prog {
    let mut g = Lcg(seed);
    let mut p = Prog::new();
    p.inputs(nin);
    for _ in 0..ng {
        let n = p.slots;
        let w = if near > 0 && n > near { near } else { n };
        let a = n - 1 - g.next(w);
        let b = g.next(n);
        let op = match g.next(14) {
            0 | 1 => Op::Not(a),
            2 | 3 | 4 => Op::Xor(a, b),
            5 | 6 => Op::And(a, b),
            7 | 8 => Op::Or(b, a),
            9 | 10 => Op::Equiv(a, b),
            11 => Op::Ident(a),
            12 => Op::Xor(a, a),
            _ => Op::Const(bit()),
        };
        p.push(op);
    }
    for _ in 0..no {
        let o = g.next(p.slots);
        p.outs.push(o);
    }
    p.outs.push(p.slots - 1);
    p
}
/// Pick one of the program families; the parameters from `k` on select it.
///  0 nin ng no kinds : every flat program of that size
///  1 seed nin ng no near : one larger fixed program
///  2 n : a chain of n gates with every gate also an output; 3 n : one gate feeding n gates; 4 n: n duplicated outputs
pub fn pick_program(k: u32) -> Prog {
    match param(k) {
        0 => pick_flat(param(k + 1) as usize, param(k + 2) as usize, param(k + 3) as usize, kindset(param(k + 4))),
        1 => mixed(param(k + 1), param(k + 2) as usize, param(k + 3) as usize, param(k + 4) as usize, param(k + 5) as usize),
        2 => {
            let mut p = Prog::new();
            p.inputs(2);
            for i in 0..param(k + 1) as usize {
                let s = p.slots;
                let o = match i % 5 { 0 => Op::Not(s - 1), 1 => Op::Xor(s - 1, s - 2), 2 => Op::And(s - 2, 0), 3 => Op::Or(s - 1, 1), _ => Op::Equiv(s - 3, s - 1) };
                p.push(o);
            }
            p.outs = (0..p.slots).rev().collect();
            p
        }
        3 => {
            let mut p = Prog::new();
            p.inputs(2);
            let g = p.push(Op::And(0, 1));
            let n = param(k + 1) as usize;
            for i in 0..n {
                let o = match i % 3 { 0 => Op::Not(g), 1 => Op::Xor(g, 0), _ => Op::Or(1, g) };
                p.push(o);
            }
            p.outs = (3..p.slots).collect();
            p.outs.push(g);
            p.outs.push(0);
            p
        }
        5 => {
            // an input, a constant and a gate feeding exactly n gates each
            let mut p = Prog::new();
            p.inputs(3);
            let t = p.push(Op::Const(bit()));
            let g = p.push(Op::And(1, 2));
            let n = param(k + 1) as usize;
            for _ in 0..n {
                p.push(Op::Xor(0, t));
            }
            for i in 0..n {
                p.push(if i % 2 == 0 { Op::Not(g) } else { Op::Or(2, g) });
            }
            p.outs = (g + 1..p.slots).collect();
            p
        }
        _ => {
            let mut p = Prog::new();
            p.inputs(1);
            let g = p.push(Op::Not(0));
            let n = param(k + 1) as usize;
            for i in 0..n {
                p.outs.push(if i % 3 == 2 { 0 } else { g });
            }
            p
        }
    }
}
/// Units with modules; parameters from `k` on:
///  0 no_inner no : inner module of 2 inputs and one chosen gate, chosen outputs; main: call, one gate, second call
///  1 w : nested modules (w = 0: all choices, 1, 2: fewer); 2 seed : larger fixed unit
pub fn pick_unit(k: u32) -> Unit {
    match param(k) {
        0 => {
            let no_inner = param(k + 1) as usize;
            let mut m = Prog::new();
            m.inputs(2);
            pick_op(&mut m, b"nac");
            pick_outs(&mut m, no_inner);
            let mut p = Prog::new();
            p.inputs(2);
            if choose(2) == 1 {
                cover("gate before the call");
                pick_op(&mut p, b"nx");
            }
            let a = pick_args(2, p.slots);
            p.call(0, a, no_inner);
            if choose(2) == 1 {
                cover("two calls");
                let lo = p.slots;
                let a = vec![choose(lo), lo - 1];
                p.call(0, a, no_inner);
            } else {
                let a = choose(p.slots);
                let b = p.slots - 1;
                p.push(Op::Xor(a, b));
            }
            pick_outs(&mut p, param(k + 2) as usize);
            Unit { modules: vec![m], main: p }
        }
        1 => {
            // leaf: 2 in, one gate; middle: calls leaf once or twice; main calls both
            // (width 0: every choice, 1: fewer, 2: fewest)
            let w = param(k + 1);
            let some = |lim: u64, n: usize| if w >= lim { n - 1 } else { choose(n) };
            let mut leaf = Prog::new();
            leaf.inputs(2);
            pick_op(&mut leaf, if w >= 1 { b"ac" } else { b"xac" });
            leaf.outs = vec![2, some(2, 3).min(1)];
            let mut mid = Prog::new();
            mid.inputs(1);
            mid.push(Op::Const(bit()));
            let a = if w >= 1 { vec![1, 0] } else { pick_args(2, 2) };
            let s = mid.call(0, a, 2);
            if choose(2) == 1 {
                cover("nested calls twice");
                let t = mid.call(0, vec![s, s + 1], 2);
                mid.outs = vec![t, some(1, mid.slots)];
            } else {
                mid.outs = vec![s + 1, some(1, mid.slots)];
            }
            let mut p = Prog::new();
            p.inputs(2);
            let a = vec![some(2, 2)];
            let s = p.call(1, a, 2);
            let b = vec![some(1, p.slots), s + 1];
            let t = p.call(0, b, 2);
            let x = if w >= 2 { 0 } else { choose(p.slots) };
            p.push(Op::And(x, t));
            p.outs = vec![p.slots - 1, choose(p.slots)];
            Unit { modules: vec![leaf, mid], main: p }
        }
        2 => {
            // larger fixed unit
            let seed = param(k + 1);
            let mut g = Lcg(seed ^ 0x5555);
            let m0 = mixed(seed, 3, 6, 2, 0);
            let mut m1 = mixed(seed + 1, 2, 4, 1, 0);
            m1.outs.clear();
            for r in 0..3 {
                let a = vec![g.next(m1.slots), g.next(m1.slots), g.next(m1.slots)];
                let s = m1.call(0, a, 3);
                m1.push(Op::Xor(s, s + 2));
                m1.outs.push(if r == 1 { 0 } else { s + 1 });
            }
            m1.outs.push(m1.slots - 1);
            let mut p = mixed(seed + 2, 4, 5, 0, 0);
            for r in 0..4 {
                if r % 2 == 0 {
                    let a = vec![g.next(p.slots), g.next(p.slots)];
                    p.call(1, a, 4);
                } else {
                    let a = vec![g.next(p.slots), g.next(p.slots), g.next(p.slots)];
                    p.call(0, a, 3);
                }
                let o = Op::And(p.slots - 1, g.next(p.slots));
                p.push(o);
            }
            for _ in 0..5 {
                let o = g.next(p.slots);
                p.outs.push(o);
            }
            p.outs.push(p.slots - 1);
            Unit { modules: vec![m0, m1], main: p }
        }
        3 => {
            // module outputs are its inputs or constants only; outputs used in any order
            let mut m = Prog::new();
            m.inputs(2);
            m.push(Op::Const(bit()));
            m.outs = vec![choose(3), choose(3), choose(3)];
            let mut p = Prog::new();
            p.inputs(2);
            let a = pick_args(2, 2);
            let s = p.call(0, a, 3);
            let x = choose(3);
            p.push(Op::Not(s + x));
            let y = choose(3);
            p.push(Op::And(s + y, p.slots - 1));
            p.outs = vec![choose(p.slots), choose(p.slots)];
            Unit { modules: vec![m], main: p }
        }
        4 => {
            // modules without inputs, without outputs, or never called
            let mut m = Prog::new();
            let nin = choose(2);
            m.inputs(nin);
            m.push(Op::Const(bit()));
            m.push(Op::Not(0));
            let no = choose(3);
            for i in 0..no {
                m.outs.push(if i == 0 { 1 } else { 0 });
            }
            let mut p = Prog::new();
            p.inputs(1);
            for _ in 0..choose(3) {
                p.call(0, vec![0; nin], no);
            }
            p.push(Op::Not(0));
            let n = p.slots;
            p.outs = vec![choose(n), n - 1];
            cover("module of odd shape");
            Unit { modules: vec![m], main: p }
        }
        6 => {
            // modules nested param levels deep, each level calling the one below twice
            let d = param(k + 1) as usize;
            let mut m = Prog::new();
            m.inputs(2);
            m.push(Op::Const(bit()));
            m.push(Op::Xor(0, 2));
            m.push(Op::And(3, 1));
            m.outs = vec![4, 0];
            let mut modules = vec![m];
            for i in 1..d {
                let mut m = Prog::new();
                m.inputs(2);
                let s = m.call(i - 1, if i % 2 == 0 { vec![1, 0] } else { vec![0, 1] }, 2);
                m.push(Op::Or(s, 1));
                let t = m.call(i - 1, vec![s + 2, s + 1], 2);
                m.outs = vec![t, s + if i % 3 == 0 { 1 } else { 2 }];
                modules.push(m);
            }
            let mut p = Prog::new();
            p.inputs(2);
            let s = p.call(d - 1, vec![0, 1], 2);
            p.push(Op::Not(s));
            let t = p.call(d / 2, vec![s + 2, s + 1], 2);
            p.outs = vec![s, t, t + 1, s + 1];
            Unit { modules, main: p }
        }
        7 => Unit { modules: vec![], main: pick_program(k + 1) },
        8 => {
            // many modules
            let n = param(k + 1) as usize;
            let mut modules = Vec::new();
            let mut p = Prog::new();
            p.inputs(3);
            for i in 0..n {
                let mut m = Prog::new();
                m.inputs(2);
                m.push(match i % 4 { 0 => Op::Xor(0, 1), 1 => Op::And(1, 0), 2 => Op::Or(0, 1), _ => Op::Not(0) });
                m.push(Op::Xor(2, if i % 3 == 0 { 1 } else { 0 }));
                m.outs = vec![3];
                modules.push(m);
            }
            for i in (0..n).rev() {
                let a = p.slots - 1;
                p.call(i, vec![a, (i * 7) % 3], 1);
            }
            p.outs = vec![p.slots - 1, p.slots / 2];
            Unit { modules, main: p }
        }
        9 => {
            // a module with many inputs and outputs, called twice
            let n = param(k + 1) as usize;
            let mut m = Prog::new();
            m.inputs(n);
            for i in 0..n {
                m.push(match i % 4 { 0 => Op::Xor(i, (i + 1) % n), 1 => Op::And(i, (i * 5 + 2) % n), 2 => Op::Not(i), _ => Op::Or(i / 2, i) });
            }
            m.outs = (0..n).map(|i| if i % 5 == 4 { n - 1 - i } else { n + (i * 7) % n }).collect();
            let mut p = Prog::new();
            p.inputs(5);
            let s = p.call(0, (0..n).map(|i| (i * i) % 5).collect(), n);
            let t = p.call(0, (0..n).rev().map(|i| s + i).collect(), n);
            p.push(Op::Xor(s + n / 2, t + n - 1));
            p.outs = (0..8).map(|i| t + (i * n) / 8).collect();
            p.outs.extend_from_slice(&[t + n - 1, s + n - 1, s, p.slots - 1]);
            Unit { modules: vec![m], main: p }
        }
        _ => {
            let mut main = pick_flat(param(k + 1) as usize, param(k + 2) as usize, param(k + 3) as usize, kindset(param(k + 4)));
            let _ = &mut main;
            Unit { modules: vec![], main }
        }
    }
}
pub fn pick_via() -> Via {
    match choose(5) {
        0 => Via::Sub,
        1 => Via::Registered,
        2 => Via::Early,
        3 => Via::Nested,
        _ => Via::Shared,
    }
}
