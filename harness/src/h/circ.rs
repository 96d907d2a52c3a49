//! Shared helpers to build and evaluate circuits through the public API.
pub use super::sym::*;
pub use circuit_converters::*;

pub type CR = BoolCircuitRef<NXAOBoolGate, NXAOBoolCircuit>;

pub fn new_circ() -> CR {
    NXAOBoolCircuit::new(ModuleStorageRef::new()).to_ref()
}
/// Evaluate; an error or a wrong number of output bits is a failed check.
pub fn eval(c: &CR, ins: &[bool]) -> Option<Vec<bool>> {
    let mut ev = NXAOBoolEvaluator::new(c.clone());
    eval_with(&mut ev, c, ins)
}
pub fn eval_with(ev: &mut NXAOBoolEvaluator, c: &CR, ins: &[bool]) -> Option<Vec<bool>> {
    match ev.eval_output(ins) {
        Ok(o) => {
            check(o.len() == c.output_len(), "evaluation returns one bit per declared output");
            Some(o)
        }
        Err(_) => {
            check(false, "evaluation of a valid circuit succeeds");
            None
        }
    }
}
