//! C22, C23.
use super::bristol::read;
use super::circ::*;
use super::prog::*;
use std::io::BufWriter;

/// C22: the same calls give equal circuits. Params: unit family.
#[no_mangle]
pub extern "C" fn h_equal_same() {
    let u = pick_unit(0);
    let l = build_unit(&u, Via::Sub);
    let r = build_unit(&u, Via::Sub);
    if let (Some(l), Some(r)) = (l, r) {
        check(l.c == l.c.clone(), "comparison is reflexive");
        check(l.c == r.c && r.c == l.c, "the same construction calls give equal circuits");
        check(!(l.c != r.c), "equal is not unequal");
        for (a, b) in l.mods.iter().zip(r.mods.iter()) {
            check(a == b, "the modules are equal too");
        }
    }
}
pub fn agree(a: &CR, b: &CR) {
    let e = a == b;
    check(e == (b == a), "comparison is symmetric");
    check(e != (a != b), "unequal is the negation of equal");
    if !e {
        cover("unequal");
        return;
    }
    cover("equal");
    check(a.input_len() == b.input_len() && a.output_len() == b.output_len(), "equal circuits have the same inputs and outputs");
    if a.input_len() != b.input_len() {
        return;
    }
    let ins = bvec(a.input_len());
    if let (Some(x), Some(y)) = (eval(a, &ins), eval(b, &ins)) {
        check(same(&x, &y), "equal circuits compute the same outputs");
    }
}
/// C22: two circuits of the family. Params: nin ng no kinds (both), then 1 if both share the first operations.
#[no_mangle]
pub extern "C" fn h_equal_pair() {
    let (ng, no) = (param(1) as usize, param(2) as usize);
    let k = kindset(param(3));
    let p = pick_flat(param(0) as usize, ng, no, k);
    let q = match param(4) {
        0 => pick_flat(param(0) as usize, ng, no, k),
        1 => {
            // the other one differs in one place at most
            let mut q = p.clone();
            match choose(4) {
                0 => {
                    let i = choose(q.outs.len());
                    q.outs[i] = choose(q.slots);
                }
                1 => {
                    let i = choose(q.outs.len());
                    let j = choose(q.outs.len());
                    q.outs.swap(i, j);
                }
                2 => {
                    q.outs.pop();
                }
                _ => {
                    let i = param(0) as usize + choose(ng);
                    let s = i;
                    q.ops[i] = match choose(5) {
                        0 => Op::Not(choose(s)),
                        1 => Op::Xor(choose(s), choose(s)),
                        2 => Op::And(choose(s), choose(s)),
                        3 => Op::Const(bit()),
                        _ => Op::In,
                    };
                }
            }
            q
        }
        _ => {
            let mut q = pick_flat(param(0) as usize + 1, ng, no, k);
            if q.outs.is_empty() {
                q.outs.push(0);
            }
            q
        }
    };
    if let (Some((a, _)), Some((b, _))) = (build(&p), build(&q)) {
        agree(&a, &b);
    }
}
/// C22 with modules: the circuits look alike, their modules may differ, at one or two levels.
#[no_mangle]
pub extern "C" fn h_equal_modules() {
    let inner = |p: &mut Prog| {
        p.inputs(2);
        pick_op(p, b"xac");
        p.outs = vec![choose(3)];
    };
    let deep = choose(2) == 1;
    let make = || -> Unit {
        let mut m = Prog::new();
        inner(&mut m);
        let mut p = Prog::new();
        p.inputs(2);
        let mut mods = vec![m];
        if deep {
            let mut t = Prog::new();
            t.inputs(2);
            t.call(0, vec![0, 1], 1);
            t.outs = vec![2];
            mods.push(t);
        }
        p.call(mods.len() - 1, vec![0, 1], 1);
        p.outs = vec![2];
        Unit { modules: mods, main: p }
    };
    let (u, v) = (make(), make());
    if deep {
        cover("nested");
    }
    if let (Some(a), Some(b)) = (build_unit(&u, Via::Sub), build_unit(&v, Via::Sub)) {
        agree(&a.c, &b.c);
        agree(&a.mods[0], &b.mods[0]);
    }
}
/// C22: circuits sharing one registry, calling the same or different modules of it.
#[no_mangle]
pub extern "C" fn h_equal_registry() {
    let storage = ModuleStorageRef::new();
    let mut host = NXAOBoolCircuit::new(storage.clone()).to_ref();
    let mut mids = Vec::new();
    for k in 0..2 {
        let (id, mut s) = host.sub_circuit();
        let mut m = Prog::new();
        m.inputs(2);
        m.push(match choose(3) { 0 => Op::And(0, 1), 1 => Op::Or(0, k), _ => Op::Xor(0, 1) });
        m.outs = vec![2];
        build_in(&mut s, &[], &m);
        mids.push(id);
    }
    let mut cs = Vec::new();
    for _ in 0..2 {
        let mut c = NXAOBoolCircuit::new(storage.clone()).to_ref();
        let mut p = Prog::new();
        p.inputs(2);
        p.call(choose(2), pick_args(2, 2), 1);
        p.outs = vec![2];
        build_in(&mut c, &mids, &p);
        cs.push(c);
    }
    agree(&cs[0], &cs[1]);
}
/// C22: histories that end in the same gates in another order of calls, and with outputs declared at other times.
#[no_mangle]
pub extern "C" fn h_equal_histories() {
    let mut cs = Vec::new();
    for _ in 0..2 {
        let mut c = new_circ();
        let mut ids = vec![c.input().unwrap()];
        for _ in 0..param(0) {
            match choose(4) {
                0 => ids.push(c.input().unwrap()),
                1 => ids.push(c.not(&ids[ids.len() - 1]).unwrap()),
                2 => ids.push(c.constant(bit()).unwrap()),
                _ => {
                    c.output(ids[choose(ids.len())]).unwrap();
                }
            }
        }
        cs.push(c);
    }
    agree(&cs[0], &cs[1]);
}

// ---- C23 ----
fn names<T>(r: Result<T, BoolCircuitError>, what: &str, id: u64) {
    let ok = match r {
        Err(BoolCircuitError::UnknownGate(g)) => what == "gate" && g.0 == id,
        Err(BoolCircuitError::UnknownModule(g)) => what == "module" && g.0 == id,
        Err(BoolCircuitError::UnknownInput(g)) => what == "input" && g.0 == id,
        Err(BoolCircuitError::UnknownOutput(g)) => what == "output" && g.0 == id,
        _ => false,
    };
    check(ok, "an unknown reference gives an error naming it");
}
fn unknown_id(n: usize) -> u64 {
    [n as u64, n as u64 + 1, 1000, u32::MAX as u64 + 1 + n as u64, u64::MAX][choose(5)]
}
fn no_bits(c: &CR, ins: &[bool]) {
    let mut ev = NXAOBoolEvaluator::new(c.clone());
    allow_panic(true);
    let r = ev.eval_output(ins);
    allow_panic(false);
    check(r.is_err(), "no output bits");
}
fn no_text(c: &CR) {
    let mut w = BristolNXAOWriter::new(c.clone(), BufWriter::new(Vec::new()));
    let n = c.input_len();
    allow_panic(true);
    let r = w.write(n, None);
    allow_panic(false);
    check(r.is_err(), "no text is returned as success");
    check(w.writer.into_inner().map(|v| v.is_empty()).unwrap_or(false), "no text is written");
}
/// C23: lookups. Params: program family.
#[no_mangle]
pub extern "C" fn h_unknown() {
    let p = pick_program(0);
    let mut c = match build(&p) {
        Some((c, _)) => c,
        None => return,
    };
    let n = c.borrow().gate_map.len();
    let what = choose(6);
    cover(["gate", "module", "input", "output", "output of unknown", "call of unknown"][what]);
    match what {
        0 => {
            let i = unknown_id(n);
            names(c.get_gate(&GateId(i)), "gate", i);
        }
        1 => {
            let i = unknown_id(0);
            names(c.get_module(&ModuleId(i)), "module", i);
        }
        2 => {
            let i = unknown_id(c.input_len());
            names(c.input_to_gate_id(&WireId(i)), "input", i);
        }
        3 => {
            let i = unknown_id(c.output_len());
            names(c.output_to_gate_id(&WireId(i)), "output", i);
        }
        4 => {
            let i = unknown_id(n);
            let before = c.output_len();
            names(c.output(GateId(i)), "gate", i);
            check(c.output_len() == before, "a refused output changes nothing");
        }
        _ => {
            let i = unknown_id(0);
            let a: Vec<GateId> = (0..choose(3)).map(|k| GateId(k as u64)).collect();
            names(c.module(&ModuleId(i), &a), "module", i);
        }
    }
    // the circuit is as before
    let ins = bvec(p.nin());
    let want = run(&[], &p, &ins);
    if let Some(o) = eval(&c, &ins) {
        check(same(&o, &want), "a refused reference changes nothing");
    }
}
/// C23: an output that depends on an unknown gate, at any depth and side, also through a call.
#[no_mangle]
pub extern "C" fn h_dangling() {
    let mut c = new_circ();
    let a = c.input().unwrap();
    let (mid, mut s) = c.sub_circuit();
    let x = s.input().unwrap();
    let y = s.not(&x).unwrap();
    let bad = GateId([7u64, 99, u64::MAX][choose(3)]);
    let in_module = choose(2) == 1;
    let d = if in_module {
        cover("inside a module");
        dangle(&mut s, &x, &bad)
    } else {
        cover("in the circuit");
        dangle(&mut c, &a, &bad)
    };
    let d = match d {
        Some(d) => d,
        None => {
            cover("refused at once");
            return;
        }
    };
    if in_module {
        s.output(d).unwrap();
        if choose(2) == 1 {
            s.output(y).unwrap();
        }
        let v = c.module(&mid, &[a]).unwrap();
        c.output(v[choose(v.len())]).unwrap();
    } else {
        s.output(y).unwrap();
        let d = match choose(3) {
            0 => d,
            1 => c.xor(&a, &d).unwrap(),
            _ => match c.module(&mid, &[d]) {
                Ok(v) => v[0],
                Err(_) => return,
            },
        };
        if choose(2) == 1 {
            c.output(a).unwrap();
        }
        c.output(d).unwrap();
    }
    if choose(2) == 0 {
        no_bits(&c, &bvec(1));
    } else {
        no_text(&c);
    }
}
fn dangle(c: &mut CR, a: &GateId, bad: &GateId) -> Option<GateId> {
    match choose(8) {
        0 => c.not(bad),
        1 => c.xor(a, bad),
        2 => c.xor(bad, a),
        3 => c.and(a, bad),
        4 => c.or(bad, a),
        5 => c.equivalent(bad, bad),
        6 => c.identity(bad),
        _ => c.and(bad, a),
    }
    .ok()
}
/// C23: wrong numbers of arguments and of input bits.
#[no_mangle]
pub extern "C" fn h_arity() {
    let mut c = new_circ();
    let (mid, mut s) = c.sub_circuit();
    let ni = choose(4);
    let mut g = s.constant(bit()).unwrap();
    for _ in 0..ni {
        let i = s.input().unwrap();
        g = s.xor(&g, &i).unwrap();
    }
    s.output(g).unwrap();
    let a = c.input().unwrap();
    let b = c.input().unwrap();
    match choose(4) {
        0 => {
            cover("wrong number of arguments");
            let k = choose(7);
            let args: Vec<GateId> = (0..k).map(|i| if i % 2 == 0 { a } else { b }).collect();
            let before = (c.num_gate(), c.num_wire());
            let r = c.module(&mid, &args);
            if k == ni {
                check(r.is_ok(), "the right number of arguments is accepted");
                return;
            }
            match r {
                Err(_) => check(before == (c.num_gate(), c.num_wire()), "a refused call changes nothing"),
                Ok(v) => {
                    for g in v {
                        c.output(g).unwrap();
                    }
                    if choose(2) == 0 { no_bits(&c, &bvec(2)) } else { no_text(&c) }
                }
            }
        }
        1 => {
            cover("wrong number of input bits");
            let x = c.and(&a, &b).unwrap();
            c.output(x).unwrap();
            if choose(2) == 1 {
                c.output(a).unwrap();
            }
            let k = [0usize, 1, 3, 4, 9][choose(5)];
            no_bits(&c, &bvec(k));
        }
        2 => {
            cover("input bits of a module circuit");
            let k = choose(7);
            if k != ni {
                no_bits(&s, &bvec(k));
            }
        }
        _ => {
            // the module grows a further input after the call
            cover("module grown after the call");
            let args: Vec<GateId> = (0..ni).map(|_| a).collect();
            let v = c.module(&mid, &args).unwrap();
            c.output(v[0]).unwrap();
            let n = s.input().unwrap();
            if choose(2) == 1 {
                s.output(n).unwrap();
            }
            if choose(2) == 0 { no_bits(&c, &bvec(2)) } else { no_text(&c) }
        }
    }
}
/// C23: a call of a module that is unknown in another registry; a read circuit's unknown wires.
#[no_mangle]
pub extern "C" fn h_foreign() {
    let mut c = new_circ();
    let (mid, mut s) = c.sub_circuit();
    let x = s.input().unwrap();
    s.output(x).unwrap();
    let mut d = new_circ();
    let a = d.input().unwrap();
    names(d.module(&mid, &[a]), "module", mid.0);
    names(d.get_module(&mid), "module", mid.0);
    check(c.get_module(&mid).is_ok(), "known where it was registered");
    let t: &[u8] = [&b"1 3\n1 1\n1 1\n\n2 1 0 1 2 AND\n"[..], b"1 3\n1 2\n1 1\n\n2 1 0 2 2 AND\n", b"1 3\n1 1\n1 1\n\n1 1 0 1 INV\n"][choose(3)];
    let mut e = new_circ();
    check(read(t, &mut e).is_err(), "text with an unknown wire is refused");
}
