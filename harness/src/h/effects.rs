//! C27: refused operations and observations have no effect. C28: exports are reproducible.
use super::bristol::*;
use super::circ::*;
use super::prog::*;
use super::structure::*;
use std::io::BufWriter;

fn unknown() -> GateId {
    // beyond everything handed out, near and far

    GateId([1 << 20, u64::MAX][choose(2)])
}
const KINDS: usize = 13;
/// Something that must leave every circuit as it was. `ids`: the gates of `c`.
fn disturb(k: usize, c: &mut CR, ids: &[GateId], mids: &[ModuleId], mods: &[CR], storage: &ModuleStorageRef<NXAOBoolGate, NXAOBoolCircuit>) {
    cover([
        "output of unknown", "call of unknown", "too few arguments", "too many arguments", "lookups of unknown", "evaluation", "export", "export with a map", "comparison", "queries", "registration", "sub-circuit", "clone and registry",
    ][k]);
    let sizes = |c: &CR| [c.input_len(), c.output_len(), c.num_const(), c.num_gate(), c.num_wire(), c.get_const_gates().len()];
    let before = sizes(c);
    let modules = storage.num_module();
    match k {
        0 => check(c.output(unknown()).is_err(), "an unknown gate is refused as output"),
        1 => check(c.module(&ModuleId([storage.num_module() as u64 + 1000, u64::MAX][choose(2)]), ids).is_err(), "a call of an unknown module is refused"),
        2 | 3 => {
            // arguments exist, their number is wrong
            for (i, m) in mods.iter().enumerate() {
                let n = m.input_len();
                if ids.is_empty() || (k == 2 && n == 0) {
                    continue;
                }
                let n = if k == 2 { n - 1 } else { n + 1 };
                let a: Vec<GateId> = (0..n).map(|j| ids[j % ids.len()]).collect();
                check(c.module(&mids[i], &a).is_err(), "a call with a wrong number of arguments is refused");
            }
        }
        4 => {
            check(c.get_gate(&unknown()).is_err(), "an unknown gate is an error");
            check(c.get_module(&ModuleId(storage.num_module() as u64 + 7)).is_err(), "an unknown module is an error");
            check(c.input_to_gate_id(&WireId(c.input_len() as u64)).is_err(), "an unknown input is an error");
            check(c.output_to_gate_id(&WireId(c.output_len() as u64)).is_err(), "an unknown output is an error");
            let _ = c.get_depended_gates(&unknown());
        }
        5 => {
            let ins = bvec(c.input_len());
            eval(c, &ins);
        }
        6 => {
            export(c, c.input_len());
        }
        7 => {
            let mut w = BristolNXAOWriter::new(c.clone(), BufWriter::new(Vec::new()));
            let mut wires = Default::default();
            check(w.write(0, Some(&mut wires)).is_ok(), "a circuit is exported without a first group");
        }
        8 => {
            let other = new_circ();
            check(*c == c.clone(), "a circuit equals itself");
            let _ = *c == other || other == *c;
        }
        9 => {
            for g in ids {
                let _ = c.get_gate(g);
                let _ = c.get_depended_gates(g);
            }
            for m in mids {
                let _ = c.get_module(m);
            }
            let _ = c.get_const_gates();
            for i in 0..c.input_len() {
                let _ = c.input_to_gate_id(&WireId(i as u64));
            }
            for i in 0..c.output_len() {
                let _ = c.output_to_gate_id(&WireId(i as u64));
            }
        }
        10 => {
            let mut d = new_circ();
            let g = d.input().unwrap();
            d.output(g).unwrap();
            c.register_module(&d);
        }
        11 => {
            // an unused sub-circuit, filled
            let (_, mut d) = c.sub_circuit();
            let g = d.input().unwrap();
            let g = d.not(&g).unwrap();
            d.output(g).unwrap();
        }
        _ => {
            let d = c.clone();
            let e = NXAOBoolCircuit::new(storage.clone()).to_ref();
            let _ = e.input_len() + d.input_len();
        }
    }
    check(sizes(c) == before, "the sizes are as before");
    check(storage.num_module() == modules + if k == 10 || k == 11 { 1 } else { 0 }, "the registry is as before");
}
/// C27. Params: unit family after the first two: how many times, 1 if also inside the modules.
#[no_mangle]
pub extern "C" fn h_no_effect() {
    let times = param(0) as usize;
    let u = pick_unit(2);
    let storage = ModuleStorageRef::new();
    let mut c = NXAOBoolCircuit::new(storage.clone()).to_ref();
    let mut mids = Vec::new();
    let mut mods = Vec::new();
    let mut at = Vec::new();
    let mut where_ = 0;
    if param(1) == 1 {
        where_ = choose(u.modules.len() + 1);
    }
    let length = |p: &Prog| p.ops.len() + p.outs.len() + 1;
    let target = if where_ == 0 { &u.main } else { &u.modules[where_ - 1] };
    for _ in 0..times {
        at.push((choose(length(target)), choose(KINDS)));
    }
    for (i, m) in u.modules.iter().enumerate() {
        let mut s = NXAOBoolCircuit::new(storage.clone()).to_ref();
        let here: &[(usize, usize)] = if where_ == i + 1 { &at } else { &[] };
        if disturbed(&mut s, m, here, &mids, &mods, &storage).is_none() {
            return;
        }
        mids.push(c.register_module(&s));
        mods.push(s);
    }
    let here: &[(usize, usize)] = if where_ == 0 { &at } else { &[] };
    let ids = match disturbed(&mut c, &u.main, here, &mids, &mods, &storage) {
        Some(i) => i,
        None => return,
    };
    // as if nothing had happened
    check_counts(&c, &u.modules, &u.main);
    check_meaning(&c, &ids, &mids, &u, &u.main);
    eval_matches(&c, &u.modules, &u.main, false);
    // a registration in between moves the identifiers of later modules
    if where_ > 0 && at.iter().any(|(_, k)| *k == 10 || *k == 11) {
        return;
    }
    if let Some(b) = build_unit(&u, Via::Registered) {
        check(b.c == c && c == b.c, "the circuit equals one on which nothing of this was done");
        if let (Some(x), Some(y)) = (export(&b.c, u.main.nin()), export(&c, u.main.nin())) {
            check(x.0 == y.0, "the export is that of a circuit on which nothing of this was done");
            check(same(&x.1, &y.1), "so are the constants");
        }
    }
}
fn disturbed(c: &mut CR, p: &Prog, at: &[(usize, usize)], mids: &[ModuleId], mods: &[CR], storage: &ModuleStorageRef<NXAOBoolGate, NXAOBoolCircuit>) -> Option<Vec<GateId>> {
    let mut ids: Vec<GateId> = Vec::new();
    let n = p.ops.len();
    for i in 0..n + p.outs.len() + 1 {
        for (j, k) in at {
            if *j == i {
                disturb(*k, c, &ids, mids, mods, storage);
            }
        }
        if i < n {
            let r = build_op(c, &ids, mids, &p.ops[i])?;
            ids.extend(r);
        } else if i < n + p.outs.len() {
            check(c.output(ids[p.outs[i - n]]).is_ok(), "declaring an existing gate as output is accepted");
        }
    }
    Some(ids)
}
/// C28. Params: unit family.
#[no_mangle]
pub extern "C" fn h_export_same() {
    let u = pick_unit(0);
    let first = u.main.nin();
    let a = match build_unit(&u, Via::Sub) {
        Some(b) => b,
        None => return,
    };
    let (t, k) = match export(&a.c, first) {
        Some(x) => x,
        None => return,
    };
    let equal = |r: Option<(Vec<u8>, Vec<bool>)>, what: &str| {
        if let Some((t2, k2)) = r {
            check(t2 == t, what);
            check(same(&k2, &k), "the returned constants are the same");
        }
    };
    equal(export(&a.c, first), "exporting again gives the same text");
    let ins = bvec(u.main.nin());
    eval(&a.c, &ins);
    equal(export(&a.c.clone(), first), "exporting after an evaluation, from another reference, gives the same text");
    for via in [Via::Sub, Via::Registered, Via::Shared, Via::Early] {
        if let Some(b) = build_unit(&u, via) {
            equal(export(&b.c, first), "a circuit built by the same calls has the same text");
            // with another module in the registry
            let mut d = b.c.clone();
            let _ = d.sub_circuit();
            equal(export(&b.c, first), "registering a module does not change the text");
        }
    }
}
