//! C01, C02, C03, C24: evaluation, modules, sizes, identifiers.
use super::circ::*;
use super::prog::*;

pub fn eval_matches(c: &CR, all: &[Prog], p: &Prog, again: bool) {
    let ins = bvec(p.nin());
    let want = run(all, p, &ins);
    let mut ev = NXAOBoolEvaluator::new(c.clone());
    if let Some(o) = eval_with(&mut ev, c, &ins) {
        observe_bits(&o);
        check(same(&o, &want), "outputs are the values the gate graph defines");
    }
    if again {
        let ins2 = bvec(p.nin());
        if let Some(o) = eval_with(&mut ev, c, &ins2) {
            check(same(&o, &run(all, p, &ins2)), "a second evaluation with other inputs is not affected by the first");
        }
        if let Some(o) = eval_with(&mut ev, c, &ins) {
            check(same(&o, &want), "evaluating again with the same inputs gives the same outputs");
        }
    }
}
/// C01. Params: program family.
#[no_mangle]
pub extern "C" fn h_eval() {
    let p = pick_program(1);
    if let Some((c, _)) = build(&p) {
        eval_matches(&c, &[], &p, param(0) == 1);
    }
}
/// C01, C02: one evaluator, used after every construction call. Params: unit family.
#[no_mangle]
pub extern "C" fn h_eval_grow() {
    let u = pick_unit(0);
    let mut c = new_circ();
    let mut mids = Vec::new();
    for m in u.modules.iter() {
        let (id, mut s) = c.sub_circuit();
        if build_in(&mut s, &mids, m).is_none() {
            return;
        }
        mids.push(id);
    }
    let mut ev = NXAOBoolEvaluator::new(c.clone());
    let mut p = Prog::new();
    let mut ids: Vec<GateId> = Vec::new();
    for (i, o) in u.main.ops.iter().enumerate() {
        let r = match build_op(&mut c, &ids, &mids, o) {
            Some(r) => r,
            None => return,
        };
        p.ops.push(o.clone());
        p.slots += r.len();
        ids.extend(r);
        if p.slots == 0 {
            continue;
        }
        // an output that is new or one that was there before
        let out = if i % 3 == 2 { i % p.slots } else { p.slots - 1 };
        check(c.output(ids[out]).is_ok(), "declaring an existing gate as output is accepted");
        p.outs.push(out);
        let ins = bvec(p.nin());
        if let Some(o) = eval_with(&mut ev, &c, &ins) {
            check(same(&o, &run(&u.modules, &p, &ins)), "an evaluator follows the circuit as it grows");
        }
    }
}
/// C02. Params: again, unit family.
#[no_mangle]
pub extern "C" fn h_module() {
    let u = pick_unit(1);
    let via = if param(0) == 2 { pick_via() } else { Via::Sub };
    if let Some(b) = build_unit(&u, via) {
        eval_matches(&b.c, &u.modules, &u.main, param(0) == 1);
    }
}
/// C02: one module called from two circuits that share the registry.
#[no_mangle]
pub extern "C" fn h_module_shared() {
    let mut m = Prog::new();
    m.inputs(2);
    pick_op(&mut m, b"nxac");
    m.outs = vec![2, choose(3)];
    let storage = ModuleStorageRef::new();
    let mut mc = NXAOBoolCircuit::new(storage.clone()).to_ref();
    let mut c1 = NXAOBoolCircuit::new(storage.clone()).to_ref();
    let mut c2 = NXAOBoolCircuit::new(storage.clone()).to_ref();
    let mid = match choose(3) {
        0 => {
            build_in(&mut mc, &[], &m);
            c1.register_module(&mc)
        }
        1 => {
            let (id, mut s) = c2.sub_circuit();
            build_in(&mut s, &[], &m);
            id
        }
        _ => {
            // registered first, filled afterwards
            let id = c1.register_module(&mc);
            build_in(&mut mc, &[], &m);
            id
        }
    };
    let mut p1 = Prog::new();
    p1.inputs(2);
    let a = pick_args(2, 2);
    p1.call(0, a, 2);
    p1.outs = vec![2, 3];
    let mut p2 = Prog::new();
    p2.inputs(1);
    p2.push(Op::Not(0));
    p2.call(0, vec![1, 0], 2);
    p2.call(0, vec![2, 3], 2);
    p2.outs = vec![choose(p2.slots), 5];
    build_in(&mut c1, &[mid], &p1);
    build_in(&mut c2, &[mid], &p2);
    let all = [m];
    eval_matches(&c1, &all, &p1, false);
    eval_matches(&c2, &all, &p2, false);
    eval_matches(&c1, &all, &p1, false);
}
pub fn check_counts(c: &CR, all: &[Prog], p: &Prog) {
    let n = counts(all, p);
    check(c.input_len() == n.ins, "number of inputs");
    check(c.output_len() == n.outs, "number of outputs");
    check(c.num_const() == n.consts, "number of constants is that of the flattened circuit");
    check(c.num_gate() == n.gates, "number of gates is that of the flattened circuit");
    check(c.num_wire() == n.wires, "number of wires is that of the flattened circuit");
}
/// C03: every module calls the one before it twice, so the sizes double each time. Params: number of modules.
#[no_mangle]
pub extern "C" fn h_counts_doubling() {
    let mut c = new_circ();
    let d = param(0) as usize;
    let (mut gates, mut consts) = (1usize, 1usize);
    let (mut last, mut m) = c.sub_circuit();
    let x = m.input().unwrap();
    let k = m.constant(bit()).unwrap();
    let y = m.and(&x, &k).unwrap();
    m.output(y).unwrap();
    for i in 0..d {
        let (id, mut m) = c.sub_circuit();
        let x = m.input().unwrap();
        let y = m.module(&last, &[x]);
        let z = m.module(&last, &[x]);
        let (y, z) = match (y, z) {
            (Ok(y), Ok(z)) => (y[0], z[0]),
            _ => return check(false, "a call of a large module is accepted"),
        };
        (gates, consts) = (2 * gates, 2 * consts);
        let mut o = m.or(&y, &z).unwrap();
        gates += 1;
        if i % 3 == 1 {
            o = m.not(&o).unwrap();
            gates += 1;
        }
        m.output(o).unwrap();
        check(m.num_gate() == gates && m.num_const() == consts, "gates and constants double with every level");
        check(m.num_wire() == 1 + gates + consts, "so do the wires");
        last = id;
    }
    let x = c.input().unwrap();
    let y = c.module(&last, &[x]).unwrap();
    c.output(y[0]).unwrap();
    check(c.num_gate() == gates && c.num_const() == consts && c.num_wire() == 1 + gates + consts, "the sizes of the whole circuit");
    check(c.input_len() == 1 && c.output_len() == 1, "number of inputs and outputs");
}
/// C03. Params: unit family.
#[no_mangle]
pub extern "C" fn h_counts() {
    let u = pick_unit(0);
    let b = match build_unit(&u, Via::Sub) {
        Some(b) => b,
        None => return,
    };
    check_counts(&b.c, &u.modules, &u.main);
    for (i, m) in b.mods.iter().enumerate() {
        check_counts(m, &u.modules, &u.modules[i]);
    }
    cover("sizes compared");
    check_dependents(&b.c, &b.ids, &u);
    check_consts(&b.c, &b.ids, &u);
}
pub fn check_consts(c: &CR, ids: &[GateId], u: &Unit) {
    let listed: Vec<GateId> = c.get_const_gates().into_iter().collect();
    for g in listed.iter() {
        check(matches!(c.get_gate(g), Ok(NXAOBoolGate::Const(_))), "the listed constants are constant gates");
    }
    let mut s = 0;
    let mut n = 0;
    for o in u.main.ops.iter() {
        if let Op::Const(_) = o {
            n += 1;
            check(listed.iter().filter(|g| **g == ids[s]).count() == 1, "every constant of the circuit is listed once");
        }
        s += if let Op::Call(m, _) = o { u.modules[*m].outs.len() } else { 1 };
    }
    check(n == listed.len(), "only the constants of the circuit are listed");
}
/// The operands of a gate, by the gate itself.
pub fn operands(g: &NXAOBoolGate) -> Vec<GateId> {
    match g {
        NXAOBoolGate::Input(_) | NXAOBoolGate::Const(_) => vec![],
        NXAOBoolGate::Not(g) => vec![g.id],
        NXAOBoolGate::Xor(g) => vec![g.left_id, g.right_id],
        NXAOBoolGate::And(g) => vec![g.left_id, g.right_id],
        NXAOBoolGate::Or(g) => vec![g.left_id, g.right_id],
        NXAOBoolGate::Module(g) => g.input_ids.clone(),
    }
}
/// Dependents of every slot against the program (the ids of helper gates come from the gates themselves).
pub fn check_dependents(c: &CR, ids: &[GateId], u: &Unit) {
    // consumers by slot: what the program says, as gate ids
    let mut want: Vec<Vec<GateId>> = vec![Vec::new(); ids.len()];
    let mut s = 0;
    for o in u.main.ops.iter() {
        match o {
            Op::In | Op::Const(_) => {}
            Op::Not(a) => want[*a].push(ids[s]),
            Op::Xor(a, b) | Op::And(a, b) | Op::Or(a, b) => {
                want[*a].push(ids[s]);
                want[*b].push(ids[s]);
            }
            // how these are made up is the library's choice: what lies between is followed back to the operands
            Op::Equiv(a, b) => follow(c, ids, &ids[s], &[*a, *b], &mut want),
            Op::Ident(a) => follow(c, ids, &ids[s], &[*a], &mut want),
            Op::Call(m, args) => {
                let n = u.modules[*m].outs.len();
                for a in args.iter() {
                    for k in 0..n {
                        want[*a].push(ids[s + k]);
                    }
                }
                s += n;
                continue;
            }
        }
        s += 1;
    }
    for (i, w) in want.iter().enumerate() {
        let d = match c.get_depended_gates(&ids[i]) {
            Ok(d) => d,
            Err(_) => {
                check(false, "dependents of an existing gate are reported");
                continue;
            }
        };
        check(subset(w, &d) && subset(&d, w), "the reported dependents are exactly the consumers");
    }
}
/// The consumers inside a composed gate, from its last gate back to the operands.
fn follow(c: &CR, ids: &[GateId], g: &GateId, ops: &[usize], want: &mut Vec<Vec<GateId>>) {
    if ops.iter().any(|o| ids[*o] == *g) {
        return;
    }
    let gate = match c.get_gate(g) {
        Ok(g) => g,
        Err(_) => {
            check(false, "the gates inside a composed gate exist");
            return;
        }
    };
    for x in operands(&gate) {
        match ops.iter().find(|o| ids[**o] == x) {
            Some(o) => want[*o].push(*g),
            None => {
                check(matches!(c.get_depended_gates(&x), Ok(d) if d.len() == 1 && d[0] == *g), "an inner gate of a composed gate feeds that gate only");
                follow(c, ids, &x, ops, want);
            }
        }
    }
}
fn subset(a: &[GateId], b: &[GateId]) -> bool {
    a.iter().all(|x| b.contains(x))
}
/// C03: counts after every construction step, and growth by calls, at any history.
#[no_mangle]
pub extern "C" fn h_counts_steps() {
    let mut m = Prog::new();
    m.inputs(choose(3));
    let kinds: &[u8] = if m.slots == 0 { b"c" } else { b"ncx" };
    pick_op(&mut m, kinds);
    let no = choose(4);
    pick_outs_first(&mut m, no);
    let mut c = new_circ();
    let (mid, mut s) = c.sub_circuit();
    build_in(&mut s, &[], &m);
    let all = [m.clone()];
    let mut p = Prog::new();
    let mut ids: Vec<GateId> = Vec::new();
    p.push(Op::In);
    ids.extend(build_op(&mut c, &[], &[], &Op::In).unwrap_or_default());
    for _ in 0..param(0) {
        let n = p.slots;
        let op = match choose(6) {
            0 => Op::In,
            1 => Op::Const(bit()),
            2 => Op::Not(n - 1),
            3 => Op::Equiv(0, n - 1),
            4 => Op::Ident(n / 2),
            _ => Op::Call(0, vec![n - 1; m.nin()]),
        };
        let r = build_op(&mut c, &ids, &[mid], &op);
        match r {
            Some(v) => ids.extend(v),
            None => return,
        }
        if let Op::Call(_, a) = &op {
            cover("call");
            p.call(0, a.clone(), no);
        } else {
            p.push(op);
        }
        if choose(2) == 1 {
            let o = p.slots - 1;
            check(c.output(ids[o]).is_ok(), "output accepted");
            p.outs.push(o);
        }
        check_counts(&c, &all, &p);
        check_counts(&s, &all, &m);
    }
}
fn pick_outs_first(p: &mut Prog, n: usize) {
    for i in 0..n {
        let o = (p.slots - 1).wrapping_sub(i % p.slots);
        p.outs.push(o);
    }
}

fn gate_is(c: &CR, id: &GateId, ids: &[GateId], o: &Op, ni: usize, mids: &[ModuleId], k: usize, u: &Unit) -> bool {
    let g = match c.get_gate(id) {
        Ok(g) => g,
        Err(_) => return false,
    };
    match (o, &g) {
        (Op::In, NXAOBoolGate::Input(g)) => g.wire_id.0 == ni as u64,
        (Op::Const(b), NXAOBoolGate::Const(g)) => g.value == *b,
        (Op::Not(a), NXAOBoolGate::Not(g)) => g.id == ids[*a],
        (Op::Xor(a, b), NXAOBoolGate::Xor(g)) => g.left_id == ids[*a] && g.right_id == ids[*b],
        (Op::And(a, b), NXAOBoolGate::And(g)) => g.left_id == ids[*a] && g.right_id == ids[*b],
        (Op::Or(a, b), NXAOBoolGate::Or(g)) => g.left_id == ids[*a] && g.right_id == ids[*b],
        // how these are made up is the library's choice
        (Op::Equiv(..), _) | (Op::Ident(_), _) => true,
        (Op::Call(m, args), NXAOBoolGate::Module(g)) => {
            g.module_id == mids[*m]
                && g.out_index == k
                && g.input_ids.len() == args.len()
                && args.iter().enumerate().all(|(i, a)| g.input_ids[i] == ids[*a])
                && g.input_len == u.modules[*m].nin()
                && g.output_len == u.modules[*m].outs.len()
        }
        _ => false,
    }
}
/// Everything handed out so far still means what it was created as.
pub fn check_meaning(c: &CR, ids: &[GateId], mids: &[ModuleId], u: &Unit, p: &Prog) {
    for i in 0..ids.len() {
        for j in 0..i {
            check(ids[i] != ids[j], "gate identifiers are never reused");
        }
    }
    let mut s = 0;
    let mut ni = 0;
    for o in p.ops.iter() {
        let n = if let Op::Call(m, _) = o { u.modules[*m].outs.len() } else { 1 };
        for k in 0..n {
            check(gate_is(c, &ids[s + k], ids, o, ni, mids, k, u), "a gate identifier keeps its gate and operands");
        }
        if let Op::In = o {
            check(matches!(c.input_to_gate_id(&WireId(ni as u64)), Ok(Some(g)) if g == ids[s]), "an input wire keeps its gate");
            ni += 1;
        }
        s += n;
    }
    for (i, o) in p.outs.iter().enumerate() {
        check(matches!(c.output_to_gate_id(&WireId(i as u64)), Ok(g) if g == ids[*o]), "an output wire keeps its gate");
    }
}
/// C24: interleaved histories of a circuit, its sub-circuit, and another circuit on the same registry.
#[no_mangle]
pub extern "C" fn h_idents() {
    let storage = ModuleStorageRef::new();
    let mut c = NXAOBoolCircuit::new(storage.clone()).to_ref();
    let mut d = NXAOBoolCircuit::new(storage.clone()).to_ref();
    let mut c2 = c.clone();
    let (mid0, mut s) = if choose(2) == 0 { c.sub_circuit() } else { d.sub_circuit() };
    let mut m = Prog::new();
    m.inputs(1);
    m.push(Op::Not(0));
    m.outs = vec![1, 0];
    build_in(&mut s, &[], &m);
    let mut u = Unit { modules: vec![m], main: Prog::new() };
    let mut mids = vec![mid0];
    let mut mods = vec![s.clone()];
    let mut ids: Vec<GateId> = build_op(&mut c, &[], &[], &Op::In).unwrap_or_default();
    u.main.push(Op::In);
    let mut dids: Vec<GateId> = build_op(&mut d, &[], &[], &Op::In).unwrap_or_default();
    let mut dp = Prog::new();
    dp.push(Op::In);
    for _ in 0..param(0) {
        let n = u.main.slots;
        let op = match choose(9) {
            0 => Some(Op::In),
            1 => Some(Op::Const(bit())),
            2 => { let a = choose(n); Some(Op::And(a, n - 1)) }
            3 => { let k = mids.len() - 1; Some(Op::Call(k, vec![choose(n); u.modules[k].nin()])) }
            4 => {
                cover("output");
                let o = choose(n);
                match c2.output(ids[o]) {
                    Ok(w) => check(w.0 == u.main.outs.len() as u64, "output identifiers are never reused"),
                    Err(_) => check(false, "output of an existing gate"),
                }
                u.main.outs.push(o);
                None
            }
            5 => {
                cover("new sub-circuit");
                let (id, mut t) = c.sub_circuit();
                let mut q = Prog::new();
                q.inputs(2);
                q.push(Op::Xor(0, 1));
                q.outs = vec![2];
                build_in(&mut t, &[], &q);
                mids.push(id);
                mods.push(t);
                u.modules.push(q);
                None
            }
            6 => {
                cover("registered elsewhere");
                let mut q = Prog::new();
                q.inputs(1);
                q.push(Op::Not(0));
                q.outs = vec![1];
                let mut t = NXAOBoolCircuit::new(storage.clone()).to_ref();
                build_in(&mut t, &[], &q);
                mids.push(d.register_module(&t));
                mods.push(t);
                u.modules.push(q);
                None
            }
            7 => {
                cover("other circuit");
                let op = Op::Not(dp.slots - 1);
                dids.extend(build_op(&mut d, &dids, &mids, &op).unwrap_or_default());
                dp.push(op);
                None
            }
            _ => { let a = choose(n); Some(Op::Or(n - 1, a)) }
        };
        if let Some(op) = op {
            let through_clone = choose(2) == 1;
            let r = build_op(if through_clone { &mut c2 } else { &mut c }, &ids, &mids, &op);
            match r {
                Some(v) => {
                    if let Op::Call(k, _) = &op {
                        check(v.len() == u.modules[*k].outs.len(), "a call yields one gate per output of the module");
                    }
                    ids.extend(v);
                }
                None => return,
            }
            if let Op::Call(k, a) = &op {
                let no = u.modules[*k].outs.len();
                u.main.call(*k, a.clone(), no);
            } else {
                u.main.push(op);
            }
        }
        check_meaning(&c, &ids, &mids, &u, &u.main);
        check_meaning(&c2, &ids, &mids, &u, &u.main);
        check_meaning(&d, &dids, &mids, &u, &dp);
        for i in 0..mids.len() {
            for j in 0..i {
                check(mids[i] != mids[j], "module identifiers are never reused");
            }
            // observed through every circuit on the registry: the registered circuit, unchanged
            for r in [&c, &d, &c2] {
                match r.get_module(&mids[i]) {
                    Ok(x) => {
                        check(same_circuit(&x, &mods[i]), "a module identifier keeps its circuit");
                        check_module(&x, &u.modules[i]);
                    }
                    Err(_) => check(false, "a module identifier stays known"),
                }
            }
        }
    }
    check(storage.num_module() == mids.len(), "one module per registration");
    // both references see the same circuit
    let ins = bvec(u.main.nin());
    let want = run(&u.modules, &u.main, &ins);
    for r in [&c, &c2] {
        if let Some(o) = eval(r, &ins) {
            check(same(&o, &want), "cloned references observe the same circuit");
        }
    }
}
pub fn same_circuit(a: &CR, b: &CR) -> bool {
    std::ptr::eq(&*a.borrow(), &*b.borrow())
}
/// The registered circuit itself is unchanged: its ids as built.
fn check_module(c: &CR, p: &Prog) {
    let u = Unit { modules: vec![], main: p.clone() };
    let mut ids = Vec::new();
    let mut ni = 0u64;
    for o in p.ops.iter() {
        if let Op::In = o {
            match c.input_to_gate_id(&WireId(ni)) {
                Ok(Some(g)) => ids.push(g),
                _ => {
                    check(false, "a module's input stays known");
                    return;
                }
            }
            ni += 1;
        }
    }
    // the last slot is the gate all these modules output first
    match c.output_to_gate_id(&WireId(0)) {
        Ok(g) => ids.push(g),
        Err(_) => {
            check(false, "a module's output stays known");
            return;
        }
    }
    check(c.input_len() == ni as usize && c.output_len() == p.outs.len(), "a module keeps its inputs and outputs");
    check_meaning(c, &ids, &[], &u, p);
}
