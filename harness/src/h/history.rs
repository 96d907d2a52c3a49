//! Long construction histories over several circuits on one registry (C02, C03, C04, C07, C22, C24).
//! The shape comes from a fixed sequence, every constant and input value is symbolic.
use super::bristol::*;
use super::circ::*;
use super::prog::*;
use super::structure::*;

pub struct Hist {
    pub storage: ModuleStorageRef<NXAOBoolGate, NXAOBoolCircuit>,
    pub circ: Vec<CR>,
    pub prog: Vec<Prog>,
    pub ids: Vec<Vec<GateId>>,
    /// called as a module: complete from then on
    pub frozen: Vec<bool>,
    pub mids: Vec<ModuleId>,
    /// which circuit a module identifier stands for
    pub of: Vec<usize>,
}
impl Hist {
    pub fn new() -> Hist {
        Hist { storage: ModuleStorageRef::new(), circ: vec![], prog: vec![], ids: vec![], frozen: vec![], mids: vec![], of: vec![] }
    }
    fn add(&mut self, c: CR) -> usize {
        self.circ.push(c);
        self.prog.push(Prog::new());
        self.ids.push(vec![]);
        self.frozen.push(false);
        self.circ.len() - 1
    }
    fn op(&mut self, i: usize, o: Op) -> bool {
        // through a clone of the reference
        let mut c = self.circ[i].clone();
        match build_op(&mut c, &self.ids[i], &self.mids, &o) {
            Some(v) => {
                if let Op::Call(m, a) = &o {
                    let no = self.prog[self.of[*m]].outs.len();
                    check(v.len() == no, "a call yields one gate per output of the module");
                    self.prog[i].call(*m, a.clone(), no);
                } else {
                    self.prog[i].push(o);
                }
                self.ids[i].extend(v);
                true
            }
            None => false,
        }
    }
    pub fn unit(&self, i: usize) -> Unit {
        Unit { modules: self.of.iter().map(|k| self.prog[*k].clone()).collect(), main: self.prog[i].clone() }
    }
    /// One step; false if a call was refused.
    pub fn step(&mut self, g: &mut Lcg, bits: &mut dyn FnMut() -> bool) -> bool {
        let i = g.next(self.circ.len().max(1));
        let k = if self.circ.is_empty() { 0 } else { g.next(20) };
        match k {
            0 | 1 if self.circ.len() < 7 => {
                let n = self.add(NXAOBoolCircuit::new(self.storage.clone()).to_ref());
                for _ in 0..1 + g.next(2) {
                    if !self.op(n, Op::In) {
                        return false;
                    }
                }
                true
            }
            2 | 3 if self.circ.len() < 9 => {
                let (m, c) = self.circ[i].sub_circuit();
                let n = self.add(c);
                self.mids.push(m);
                self.of.push(n);
                for _ in 0..g.next(3) {
                    if !self.op(n, Op::In) {
                        return false;
                    }
                }
                true
            }
            4 | 5 if self.mids.len() < 12 => {
                let t = g.next(self.circ.len());
                let m = self.circ[i].clone().register_module(&self.circ[t]);
                self.mids.push(m);
                self.of.push(t);
                true
            }
            _ if self.frozen[i] => true,
            6 | 7 | 8 if self.prog[i].slots > 0 => {
                let n = self.prog[i].slots;
                let o = if g.next(3) == 0 { g.next(n) } else { n - 1 };
                match self.circ[i].output(self.ids[i][o]) {
                    Ok(w) => {
                        check(w.0 == self.prog[i].outs.len() as u64, "output identifiers are never reused");
                        self.prog[i].outs.push(o);
                        true
                    }
                    Err(_) => {
                        check(false, "declaring an existing gate as output is accepted");
                        false
                    }
                }
            }
            9 | 10 | 11 if !self.mids.is_empty() => {
                let m = g.next(self.mids.len());
                let t = self.of[m];
                let n = self.prog[i].slots;
                let nin = self.prog[t].nin();
                if t == i || (nin > 0 && n == 0) {
                    return true;
                }
                let all = self.unit(t).modules;
                if counts(&all, &self.prog[t]).gates > 60 {
                    return true;
                }
                // complete: it is not extended any more, so no call can come back here
                self.frozen[t] = true;
                let args = (0..nin).map(|_| g.next(n)).collect();
                self.op(i, Op::Call(m, args))
            }
            12 => self.op(i, Op::In),
            13 => {
                let b = bits();
                self.op(i, Op::Const(b))
            }
            _ => {
                let n = self.prog[i].slots;
                if n == 0 {
                    return self.op(i, Op::In);
                }
                let (a, b) = (g.next(n), n - 1);
                let o = match k {
                    14 => Op::Not(b),
                    15 => Op::Xor(a, b),
                    16 => Op::And(b, a),
                    17 => Op::Or(a, b),
                    18 => Op::Equiv(a, b),
                    _ => Op::Ident(a),
                };
                self.op(i, o)
            }
        }
    }
    /// Everything handed out still means what it was created as.
    pub fn check_all(&self) {
        let u = self.unit(0);
        for i in 0..self.circ.len() {
            check_meaning(&self.circ[i], &self.ids[i], &self.mids, &u, &self.prog[i]);
        }
        for i in 0..self.mids.len() {
            for j in 0..i {
                check(self.mids[i] != self.mids[j], "module identifiers are never reused");
            }
            for c in self.circ.iter() {
                match c.get_module(&self.mids[i]) {
                    Ok(x) => check(same_circuit(&x, &self.circ[self.of[i]]), "a module identifier keeps its circuit"),
                    Err(_) => check(false, "a module identifier stays known"),
                }
            }
        }
        check(self.storage.num_module() == self.mids.len(), "one module per registration");
    }
}
fn run_history(seed: u64, steps: usize, each: &mut dyn FnMut(&Hist, usize)) -> Option<Hist> {
    let mut h = Hist::new();
    let mut g = Lcg(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0x1234_5678);
    for k in 0..steps {
        if !h.step(&mut g, &mut bit) {
            return None;
        }
        each(&h, k);
    }
    Some(h)
}
/// Params: mode, first seed, number of seeds, steps.
///  0 identifiers (C24), 1 evaluation (C02), 2 sizes (C03), 3 export (C04), 4 export and import (C07), 5 comparison (C22)
#[no_mangle]
pub extern "C" fn h_history() {
    let mode = param(0);
    let seed = param(1) + choose(param(2) as usize) as u64;
    let steps = param(3) as usize;
    let h = run_history(seed, steps, &mut |h, k| {
        if mode == 0 && k % 4 == 3 {
            h.check_all();
        }
        if mode == 2 && k % 8 == 7 {
            for i in 0..h.circ.len() {
                check_counts(&h.circ[i], &h.unit(i).modules, &h.prog[i]);
            }
        }
    });
    let h = match h {
        Some(h) => h,
        None => return,
    };
    let mut again = h.mids.len() > 1 && (0..h.of.len()).any(|i| h.of[..i].contains(&h.of[i]));
    if again {
        cover("registered again");
    }
    again = h.circ.iter().enumerate().any(|(i, _)| h.frozen[i] && h.prog[i].ops.iter().any(|o| matches!(o, Op::Call(..))));
    if again {
        cover("nested call in a history");
    }
    match mode {
        0 => h.check_all(),
        1 => {
            for i in 0..h.circ.len() {
                eval_matches(&h.circ[i], &h.unit(i).modules, &h.prog[i], i == 0);
            }
        }
        2 => {
            for i in 0..h.circ.len() {
                let u = h.unit(i);
                check_counts(&h.circ[i], &u.modules, &u.main);
                check_dependents(&h.circ[i], &h.ids[i], &u);
                check_consts(&h.circ[i], &h.ids[i], &u);
            }
        }
        3 => {
            for i in 0..h.circ.len() {
                let u = h.unit(i);
                let nin = u.main.nin();
                if let Some((text, consts)) = export(&h.circ[i], nin) {
                    let n = check_text(&text, &consts, nin, u.main.outs.len(), nin);
                    let ins = bvec(nin);
                    let mut all = ins.clone();
                    all.extend_from_slice(&consts);
                    check(same(&interpret(&n, &all), &run(&u.modules, &u.main, &ins)), "the text computes the circuit on inputs then constants");
                }
            }
        }
        4 => {
            for i in 0..h.circ.len() {
                roundtrip(&h.circ[i], &h.unit(i));
            }
        }
        _ => {
            let r = match run_history(seed, steps, &mut |_, _| {}) {
                Some(r) => r,
                None => return,
            };
            for i in 0..h.circ.len() {
                // the constants differ: equality is decided together with theirs
                super::equality::agree(&h.circ[i], &r.circ[i]);
                check(h.circ[i] == h.circ[i].clone(), "comparison is reflexive");
                for j in 0..i {
                    super::equality::agree(&h.circ[i], &h.circ[j]);
                }
            }
        }
    }
}
