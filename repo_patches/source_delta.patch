From 64dacda16b320e6595602c0bf05017ec5527f220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:57 +0000
Subject: [PATCH 01/12] fix: keep the evaluated bit of a gate that is also an
 output

---
 src/evaluator.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/evaluator.rs b/src/evaluator.rs
index 9b7e4e7..b3593ad 100644
--- a/src/evaluator.rs
+++ b/src/evaluator.rs
@@ -52,6 +52,12 @@ impl BoolEvaluator<NXAOBoolGate, NXAOBoolCircuit> for NXAOBoolEvaluator {
             last_input_wire_id += WireId(1);
         }
 
+        // An output is one more use of its gate, so that the gate's bit is kept for it.
+        for i in 0..output_len {
+            let gate_id = circuit.output_to_gate_id(&WireId(i as u64))?;
+            *num_depend_map.entry(gate_id).or_insert(0) += 1;
+        }
+
         for i in 0..output_len {
             let wire_id = WireId(i as u64);
             let output = self.eval_single_output(inputs, &wire_id, Some(&mut evaled_map), Some(&mut num_depend_map))?;
@@ -119,7 +125,7 @@ impl NXAOBoolEvaluator {
             NXAOBoolGate::Const(gate) => {
                 evaled_map.insert(*gate_id, gate.value);
                 let num_depend = self.circuit.get_depended_gates(gate_id)?.len();
-                num_depend_map.insert(*gate_id, num_depend);
+                *num_depend_map.entry(*gate_id).or_insert(0) += num_depend;
                 Ok(())
             }
             NXAOBoolGate::Not(gate) => {
@@ -138,7 +144,7 @@ impl NXAOBoolEvaluator {
                 
                 evaled_map.insert(*gate_id, output_bit);
                 let num_depend = self.circuit.get_depended_gates(gate_id)?.len();
-                num_depend_map.insert(*gate_id, num_depend);
+                *num_depend_map.entry(*gate_id).or_insert(0) += num_depend;
                 Ok(())
             }
             NXAOBoolGate::Xor(gate) => {
@@ -168,7 +174,7 @@ impl NXAOBoolEvaluator {
 
                 evaled_map.insert(*gate_id, output_bit);
                 let num_depend = self.circuit.get_depended_gates(gate_id)?.len();
-                num_depend_map.insert(*gate_id, num_depend);
+                *num_depend_map.entry(*gate_id).or_insert(0) += num_depend;
                 Ok(())
             }
             NXAOBoolGate::And(gate) => {
@@ -198,7 +204,7 @@ impl NXAOBoolEvaluator {
 
                 evaled_map.insert(*gate_id, output_bit);
                 let num_depend = self.circuit.get_depended_gates(gate_id)?.len();
-                num_depend_map.insert(*gate_id, num_depend);
+                *num_depend_map.entry(*gate_id).or_insert(0) += num_depend;
                 Ok(())
             }
             NXAOBoolGate::Or(gate) => {
@@ -228,7 +234,7 @@ impl NXAOBoolEvaluator {
 
                 evaled_map.insert(*gate_id, output_bit);
                 let num_depend = self.circuit.get_depended_gates(gate_id)?.len();
-                num_depend_map.insert(*gate_id, num_depend);
+                *num_depend_map.entry(*gate_id).or_insert(0) += num_depend;
                 Ok(())
             }
             NXAOBoolGate::Module(gate) => {
@@ -260,7 +266,7 @@ impl NXAOBoolEvaluator {
                     let output_id = GateId(first_output_id.0 + (i as u64));
                     evaled_map.insert(output_id, output_bits[i]);
                     let num_depend = self.circuit.get_depended_gates(&output_id)?.len();
-                    num_depend_map.insert(output_id, num_depend);
+                    *num_depend_map.entry(output_id).or_insert(0) += num_depend;
                 }
                 Ok(())
             }
-- 
2.43.0


From 6b4c3ad57a846a5c2215de212c6526c325914d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:47 +0000
Subject: [PATCH 02/12] fix: reject malformed Bristol text with an error
 instead of panicking

---
 src/bristol_converter.rs | 49 ++++++++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 9 deletions(-)

diff --git a/src/bristol_converter.rs b/src/bristol_converter.rs
index 2f0e4dd..736cef6 100644
--- a/src/bristol_converter.rs
+++ b/src/bristol_converter.rs
@@ -22,6 +22,10 @@ pub enum BristolError {
     InvalidOutputGate(WireId),
     #[error("The gate {0} is not supported.")]
     NotSupportedGate(String),
+    #[error("The numbers of wires of the gate {0} are invalid.")]
+    InvalidGateWires(String),
+    #[error("The numbers of input and output wires are larger than the number of wires {0}.")]
+    InvalidNumWire(usize),
     #[error("The constant gate of id {0} cannot be written to a bristol file.")]
     ConstGateInWriter(GateId),
     #[error(transparent)]
@@ -55,10 +59,11 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
         reader: R,
         c_ref: &mut BoolCircuitRef<G, C>,
     ) -> Result<(), BristolError> {
+        self.gate_of_wire.clear();
         let mut lines_iter = reader.lines();
         let first_strs = lines_iter.next().ok_or(BristolError::NotFoundLine(1))??;
         let mut first_strs = first_strs.split_whitespace();
-        let _ = first_strs
+        let num_gate = first_strs
             .next()
             .ok_or(BristolError::LineSplitError)?
             .parse::<usize>()?;
@@ -78,6 +83,9 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
                 .next()
                 .ok_or(BristolError::LineSplitError)?
                 .parse::<usize>()?;
+            if input_bit > num_wire - input_len_sum {
+                return Err(BristolError::InvalidNumWire(num_wire));
+            }
             for j in 0..input_bit {
                 self.gate_of_wire.insert(input_len_sum + j, c_ref.input()?);
             }
@@ -95,11 +103,15 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
                 .next()
                 .ok_or(BristolError::LineSplitError)?
                 .parse::<usize>()?;
+            if output_bit > num_wire - output_len_sum {
+                return Err(BristolError::InvalidNumWire(num_wire));
+            }
             output_len_sum += output_bit;
         }
         //skip one row.
         let _ = lines_iter.next().ok_or(BristolError::NotFoundLine(4))?;
 
+        let mut num_read_gate = 0;
         for result in lines_iter {
             let l = result?;
             if l.len() == 0 {
@@ -114,17 +126,13 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
                 .next()
                 .ok_or(BristolError::LineSplitError)?
                 .parse::<usize>()?;
-            let mut input_gates = Vec::new();
+            let mut input_wire_ids = Vec::new();
             for _ in 0..input_len {
                 let wire_id = l
                     .next()
                     .ok_or(BristolError::LineSplitError)?
                     .parse::<usize>()?;
-                let gate_id = self
-                    .gate_of_wire
-                    .get(&wire_id)
-                    .ok_or(BristolError::UnknownWire(wire_id))?;
-                input_gates.push(gate_id);
+                input_wire_ids.push(wire_id);
             }
             let mut output_wire_ids = Vec::new();
             for _ in 0..output_len {
@@ -135,6 +143,22 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
                 output_wire_ids.push(output_wire_id);
             }
             let gate_type = l.next().ok_or(BristolError::LineSplitError)?;
+            let expected_input_len = match gate_type {
+                "INV" | "EQ" | "EQW" => 1,
+                "XOR" | "AND" | "OR" => 2,
+                _ => return Err(BristolError::NotSupportedGate(gate_type.to_string())),
+            };
+            if input_len != expected_input_len || output_len != 1 {
+                return Err(BristolError::InvalidGateWires(gate_type.to_string()));
+            }
+            let mut input_gates = Vec::new();
+            for wire_id in input_wire_ids.iter() {
+                let gate_id = self
+                    .gate_of_wire
+                    .get(wire_id)
+                    .ok_or(BristolError::UnknownWire(*wire_id))?;
+                input_gates.push(gate_id);
+            }
 
             match gate_type {
                 "INV" => {
@@ -159,11 +183,18 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
                 }
                 _ => return Err(BristolError::NotSupportedGate(gate_type.to_string())),
             };
+            num_read_gate += 1;
+        }
+        if num_read_gate < num_gate {
+            return Err(BristolError::NotFoundLine(5 + num_read_gate));
         }
 
         for i in (num_wire - output_len_sum)..num_wire {
-            let gate_id = self.gate_of_wire[&i];
-            c_ref.output(gate_id)?;
+            let gate_id = self
+                .gate_of_wire
+                .get(&i)
+                .ok_or(BristolError::UnknownWire(i))?;
+            c_ref.output(*gate_id)?;
         }
         Ok(())
     }
-- 
2.43.0


From c19768234440c0304bb547010a7effbf1b2193d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:47 +0000
Subject: [PATCH 03/12] fix: read a Bristol EQ gate as a constant assignment

---
 src/bristol_converter.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/bristol_converter.rs b/src/bristol_converter.rs
index 736cef6..b2f2167 100644
--- a/src/bristol_converter.rs
+++ b/src/bristol_converter.rs
@@ -152,12 +152,14 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
                 return Err(BristolError::InvalidGateWires(gate_type.to_string()));
             }
             let mut input_gates = Vec::new();
-            for wire_id in input_wire_ids.iter() {
-                let gate_id = self
-                    .gate_of_wire
-                    .get(wire_id)
-                    .ok_or(BristolError::UnknownWire(*wire_id))?;
-                input_gates.push(gate_id);
+            if gate_type != "EQ" {
+                for wire_id in input_wire_ids.iter() {
+                    let gate_id = self
+                        .gate_of_wire
+                        .get(wire_id)
+                        .ok_or(BristolError::UnknownWire(*wire_id))?;
+                    input_gates.push(gate_id);
+                }
             }
 
             match gate_type {
@@ -177,7 +179,17 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
                     let output_gate = c_ref.or(input_gates[0], input_gates[1])?;
                     self.gate_of_wire.insert(output_wire_ids[0], output_gate);
                 }
-                "EQ" | "EQW" => {
+                "EQ" => {
+                    // The input of EQ is not a wire but the assigned constant value.
+                    let value = match input_wire_ids[0] {
+                        0 => false,
+                        1 => true,
+                        _ => return Err(BristolError::InvalidGateWires(gate_type.to_string())),
+                    };
+                    let output_gate = c_ref.constant(value)?;
+                    self.gate_of_wire.insert(output_wire_ids[0], output_gate);
+                }
+                "EQW" => {
                     let output_gate = c_ref.identity(input_gates[0])?;
                     self.gate_of_wire.insert(output_wire_ids[0], output_gate);
                 }
-- 
2.43.0


From 2b9165c9e5d93f145cdb097985660000c5a5eb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:13 +0000
Subject: [PATCH 04/12] fix: count wires of a module call without underflow

---
 src/bool_circuit.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bool_circuit.rs b/src/bool_circuit.rs
index 2c59ae4..7907c9e 100644
--- a/src/bool_circuit.rs
+++ b/src/bool_circuit.rs
@@ -593,7 +593,7 @@ impl BoolCircuit<NXAOBoolGate> for NXAOBoolCircuit {
         let num_wire = module_circuit.num_wire();
         let num_gate = module_circuit.num_gate();
         let num_const = module_circuit.num_const();
-        self.num_wire += num_wire - input_len - output_len;
+        self.num_wire += num_wire - input_len;
         self.num_gate += num_gate;
         self.num_const += num_const;
         let new_gate_ids = (0..output_len)
@@ -609,6 +609,8 @@ impl BoolCircuit<NXAOBoolGate> for NXAOBoolCircuit {
                 self.add_gate(NXAOBoolGate::Module(module_gate))
             })
             .collect::<Vec<GateId>>();
+        // The output wires belong to the module, so they are already counted.
+        self.num_wire -= output_len;
         for input_id in gate_ids.into_iter() {
             for out_id in new_gate_ids.iter() {
                 self.add_dependence(input_id, out_id)?;
-- 
2.43.0


From 31514590c2a30c9796a37acfa9d35955237525df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:17 +0000
Subject: [PATCH 05/12] fix: refuse a module call with a wrong number of inputs

---
 src/bool_circuit.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bool_circuit.rs b/src/bool_circuit.rs
index 7907c9e..5f8fdd6 100644
--- a/src/bool_circuit.rs
+++ b/src/bool_circuit.rs
@@ -589,6 +589,9 @@ impl BoolCircuit<NXAOBoolGate> for NXAOBoolCircuit {
     ) -> Result<Vec<GateId>, BoolCircuitError> {
         let module_circuit = self.get_module(module_id)?;
         let input_len = module_circuit.input_len();
+        if gate_ids.len() != input_len {
+            return Err(BoolCircuitError::InvalidModuleInputGate);
+        }
         let output_len = module_circuit.output_len();
         let num_wire = module_circuit.num_wire();
         let num_gate = module_circuit.num_gate();
-- 
2.43.0


From 99feb713f92cdce0dfcc3822b68ec17a38669d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:23 +0000
Subject: [PATCH 06/12] fix: accept every value of at most N bits in
 AllocInt::from_biguint

---
 src/circuits/arithmetic/int.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/circuits/arithmetic/int.rs b/src/circuits/arithmetic/int.rs
index 54b58fb..dba89c0 100644
--- a/src/circuits/arithmetic/int.rs
+++ b/src/circuits/arithmetic/int.rs
@@ -44,8 +44,10 @@ impl<G: Gate, C: BoolCircuit<G>, const N: usize> AllocInt<G, C, N> {
         let mut config = config.clone();
         let new_ref = &mut config.c_ref;
         let bytes_le = val.to_bytes_le();
-        let bits_le = bytes2bits_le(&bytes_le[..]);
-        assert!(bits_le.len() <= N);
+        let mut bits_le = bytes2bits_le(&bytes_le[..]);
+        assert!(val.bits() <= N as u64);
+        // The bits beyond the highest one only fill up the last byte.
+        bits_le.truncate(N);
 
         let mut val_le = Vec::new();
         for i in 0..bits_le.len() {
-- 
2.43.0


From fd12cbe813bbeeac0dda99690ed6553a89ef59ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:28 +0000
Subject: [PATCH 07/12] fix: compare AllocInt values whose difference overflows

---
 src/circuits/arithmetic/int.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/circuits/arithmetic/int.rs b/src/circuits/arithmetic/int.rs
index dba89c0..8728b76 100644
--- a/src/circuits/arithmetic/int.rs
+++ b/src/circuits/arithmetic/int.rs
@@ -483,10 +483,17 @@ pub fn build_less_circuit<G: Gate, C: BoolCircuit<G>>(
         b_inputs.push(sub_ref.input()?);
     }
 
+    let a_sign = a_inputs[n_bits - 1];
+    let b_sign = b_inputs[n_bits - 1];
     let inputs = [a_inputs, b_inputs].concat();
     let sub = sub_ref.module(&suber_mid, &inputs)?;
-    let one = sub_ref.constant(true)?;
-    let is_less = sub_ref.equivalent(&sub[n_bits - 1], &one)?;
+    let sub_sign = sub[n_bits - 1];
+    // The sign of a - b is wrong if the difference overflows, i.e. if the signs of a and b differ
+    // and the sign of the difference differs from that of a.
+    let is_sign_differ = sub_ref.xor(&a_sign, &b_sign)?;
+    let is_sign_changed = sub_ref.xor(&a_sign, &sub_sign)?;
+    let is_overflow = sub_ref.and(&is_sign_differ, &is_sign_changed)?;
+    let is_less = sub_ref.xor(&sub_sign, &is_overflow)?;
     sub_ref.output(is_less)?;
     Ok(sub_mid)
 }
-- 
2.43.0


From 8986da456a26256ce96b385cca9c6b22ac760cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:33 +0000
Subject: [PATCH 08/12] fix: shift AllocInt values by more than their width

---
 src/circuits/arithmetic/int.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/circuits/arithmetic/int.rs b/src/circuits/arithmetic/int.rs
index 8728b76..95efdf2 100644
--- a/src/circuits/arithmetic/int.rs
+++ b/src/circuits/arithmetic/int.rs
@@ -133,6 +133,7 @@ impl<G: Gate, C: BoolCircuit<G>, const N: usize> AllocInt<G, C, N> {
         let mut config = self.config.clone();
         let new_ref = &mut config.c_ref;
         let mut new_val_le = Vec::new();
+        let shift_bits = shift_bits.min(N);
         for _ in 0..shift_bits {
             new_val_le.push(new_ref.constant(false)?);
         }
@@ -150,6 +151,7 @@ impl<G: Gate, C: BoolCircuit<G>, const N: usize> AllocInt<G, C, N> {
         let config = self.config.clone();
         let mut new_val_le = Vec::new();
         let sign_bit = self.val_le[N - 1];
+        let shift_bits = shift_bits.min(N);
         for i in 0..(N - shift_bits) {
             new_val_le.push(self.val_le[i + shift_bits]);
         }
-- 
2.43.0


From 672dbcdaf4f04e03fb98d0e5a23187ae141fff8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:37 +0000
Subject: [PATCH 09/12] fix: reduce a field sum that equals the modulus

---
 src/circuits/finite_field/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/circuits/finite_field/mod.rs b/src/circuits/finite_field/mod.rs
index 538f4b7..4c1ea57 100644
--- a/src/circuits/finite_field/mod.rs
+++ b/src/circuits/finite_field/mod.rs
@@ -222,7 +222,7 @@ impl<G: Gate, C: BoolCircuit<G>, const N: usize> AllocFpConfig<G, C, N> {
         let p_int = AllocInt::from_biguint(p, &int_config)?;
 
         let sum = (&l) + (&r);
-        let is_plus_larger = sum.larger(&p_int)?;
+        let is_plus_larger = sum.larger_or_eq(&p_int)?;
         let is_plus_larger_int = AllocInt::from_gate_ids(vec![is_plus_larger], &int_config)?;
         let is_minus_less = sum.less(&(-&AllocInt::zero(&int_config)?))?;
         let is_minus_less_int = AllocInt::from_gate_ids(vec![is_minus_less], &int_config)?;
-- 
2.43.0


From 080b6b1cc6642572908dce78ddc9e1de6cd0e880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:54 +0000
Subject: [PATCH 10/12] fix: compare the called modules of circuits too

---
 src/bool_circuit.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/bool_circuit.rs b/src/bool_circuit.rs
index 5f8fdd6..2559b82 100644
--- a/src/bool_circuit.rs
+++ b/src/bool_circuit.rs
@@ -1,6 +1,6 @@
 use crate::gates::*;
 use std::cell::{Ref, RefCell, RefMut};
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::marker::PhantomData;
 use std::rc::Rc;
 use thiserror::Error;
@@ -661,6 +661,7 @@ impl PartialEq for NXAOBoolCircuit {
             && self.num_wire == other.num_wire
             && self.num_gate == other.num_gate
             && self.gate_index == other.gate_index
+            && self.has_same_modules(other)
     }
 }
 
@@ -684,6 +685,24 @@ impl NXAOBoolCircuit {
         }
     }
 
+    // Whether the modules called by the gates of `self`, which are equal to those of `other`, are
+    // the same in the module storages of both circuits.
+    fn has_same_modules(&self, other: &Self) -> bool {
+        let mut module_ids = HashSet::new();
+        for gate in self.gate_map.values() {
+            if let NXAOBoolGate::Module(gate) = gate {
+                module_ids.insert(gate.module_id);
+            }
+        }
+        module_ids.iter().all(|module_id| {
+            match (self.get_module(module_id), other.get_module(module_id)) {
+                (Ok(l), Ok(r)) => Rc::ptr_eq(l.inner(), r.inner()) || l == r,
+                (Err(_), Err(_)) => true,
+                _ => false,
+            }
+        })
+    }
+
     fn add_gate(&mut self, gate: NXAOBoolGate) -> GateId {
         let gate_id = GateId(self.gate_index as u64);
         self.gate_map.insert(gate_id, gate);
-- 
2.43.0


From e1b35af22244b4c1fadd9335eff66e3686260d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:29 +0000
Subject: [PATCH 11/12] fix: write Bristol text with true counts and the
 outputs as the last wires

---
 src/bristol_converter.rs | 86 ++++++++++++++++++++++++++++++----------
 1 file changed, 66 insertions(+), 20 deletions(-)

diff --git a/src/bristol_converter.rs b/src/bristol_converter.rs
index b2f2167..a05ec2f 100644
--- a/src/bristol_converter.rs
+++ b/src/bristol_converter.rs
@@ -220,6 +220,8 @@ pub struct BristolNXAOWriter<W: Write> {
     pub num_wire: usize,
     pub last_const_wire: usize,
     pub writer: BufWriter<W>,
+    num_written_gate: usize,
+    body: Vec<u8>,
 }
 
 impl<W: Write> BristolNXAOWriter<W> {
@@ -229,6 +231,8 @@ impl<W: Write> BristolNXAOWriter<W> {
             num_wire: 0,
             last_const_wire: 0,
             writer,
+            num_written_gate: 0,
+            body: Vec::new(),
         }
     }
 
@@ -239,10 +243,21 @@ impl<W: Write> BristolNXAOWriter<W> {
     ) -> Result<Vec<bool>, BristolError> {
         let input_len = self.c_ref.input_len();
         let output_len = self.c_ref.output_len();
-        let num_const = self.c_ref.num_const();
-        let num_gate = self.c_ref.num_gate();
-        let num_wire = self.c_ref.num_wire();
-        let first_line = format!("{} {}\n", num_gate, num_wire + num_const);
+        let mut new_wire_of_gate = HashMap::<GateId, usize>::new();
+        let wire_of_gate = match wire_of_gate {
+            Some(m) => m,
+            None => &mut new_wire_of_gate,
+        };
+
+        // The constants of modules that are not used by the outputs are not written, so the number
+        // of constants, which have the wires next to the inputs, is known only afterwards.
+        let mut const_vals = self.write_body(self.c_ref.num_const(), wire_of_gate)?;
+        if const_vals.len() != self.c_ref.num_const() {
+            const_vals = self.write_body(const_vals.len(), wire_of_gate)?;
+        }
+        let num_const = const_vals.len();
+
+        let first_line = format!("{} {}\n", self.num_written_gate, self.num_wire);
         self.writer.write_all(first_line.as_bytes())?;
 
         let num_all_input = input_len + num_const;
@@ -256,12 +271,21 @@ impl<W: Write> BristolNXAOWriter<W> {
         let third_line = format!("1 {}\n", output_len);
         self.writer.write_all(third_line.as_bytes())?;
         self.writer.write_all(b"\n")?;
+        self.writer.write_all(&self.body)?;
+        Ok(const_vals)
+    }
 
-        let mut new_wire_of_gate = HashMap::<GateId, usize>::new();
-        let wire_of_gate = match wire_of_gate {
-            Some(m) => m,
-            None => &mut new_wire_of_gate,
-        };
+    fn write_body(
+        &mut self,
+        num_const: usize,
+        wire_of_gate: &mut HashMap<GateId, usize>,
+    ) -> Result<Vec<bool>, BristolError> {
+        self.num_wire = 0;
+        self.num_written_gate = 0;
+        self.body.clear();
+        wire_of_gate.clear();
+
+        let input_len = self.c_ref.input_len();
         let mut const_of_wire = HashMap::new();
         let mut last_input_wire_id = WireId(0);
         let mut i = 0;
@@ -280,6 +304,22 @@ impl<W: Write> BristolNXAOWriter<W> {
         self.last_const_wire = input_len;
         self.num_wire += num_const;
         self.write_all_gates(wire_of_gate, &mut const_of_wire)?;
+
+        // The output wires have to be the last ones in order.
+        let output_len = self.c_ref.output_len();
+        let mut output_wires = Vec::new();
+        for i in 0..output_len {
+            let output_gate_id = self.c_ref.output_to_gate_id(&WireId(i as u64))?;
+            output_wires.push(wire_of_gate[&output_gate_id]);
+        }
+        let num_wire = self.num_wire;
+        let is_last = |(i, wire): (usize, &usize)| *wire + output_len == num_wire + i;
+        if !output_wires.iter().enumerate().all(is_last) {
+            for wire in output_wires.iter() {
+                self.write_line(&[*wire], "EQW");
+            }
+        }
+
         let mut const_vals = Vec::new();
         for wire in input_len..self.last_const_wire {
             const_vals.push(const_of_wire[&wire]);
@@ -527,13 +567,16 @@ impl<W: Write> BristolNXAOWriter<W> {
             NXAOBoolGate::Module(gate) => {
                 //println!("writer module id {} gate id {}",gate.module_id, gate_id);
                 let input_ids = &gate.input_ids;
+                let module_circuit = self.c_ref.get_module(&gate.module_id)?.clone();
+                if input_ids.len() != module_circuit.input_len() {
+                    return Err(BoolCircuitError::InvalidModuleInputGate.into());
+                }
                 for id in input_ids {
                     if wire_of_gate.get(id).is_none() {
                         let input_gate = self.c_ref.get_gate(id)?.clone();
                         self.write_single_gate(&id, &input_gate, wire_of_gate, const_of_wire)?;
                     }
                 }
-                let module_circuit = self.c_ref.get_module(&gate.module_id)?.clone();
                 let mut new_wire_of_gate = HashMap::new();
                 let mut last_input_wire_id = WireId(0);
                 let mut i = 0;
@@ -581,19 +624,22 @@ impl<W: Write> BristolNXAOWriter<W> {
     ) -> Result<(), BristolError> {
         wire_of_gate.insert(*gate_id, self.num_wire);
         match input_wires {
-            Some(wires) => {
-                let mut write_str = format!("{} 1 ", num_input);
-                for i in 0..num_input {
-                    write_str = write_str + &format!("{} ", wires[i]);
-                }
-                write_str = write_str + &format!("{} ", self.num_wire) + gate_str + "\n";
-                self.writer.write_all(write_str.as_bytes())?;
-            }
-            None => {}
+            Some(wires) => self.write_line(&wires[..num_input], gate_str),
+            None => self.num_wire += 1,
         };
-        self.num_wire += 1;
         Ok(())
     }
+
+    fn write_line(&mut self, input_wires: &[usize], gate_str: &str) {
+        let mut write_str = format!("{} 1 ", input_wires.len());
+        for wire in input_wires {
+            write_str = write_str + &format!("{} ", wire);
+        }
+        write_str = write_str + &format!("{} ", self.num_wire) + gate_str + "\n";
+        self.body.extend_from_slice(write_str.as_bytes());
+        self.num_wire += 1;
+        self.num_written_gate += 1;
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 7fce16b6f6262ad3c1395cdfeaa4c1cb9c1371fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:49 +0000
Subject: [PATCH 12/12] fix: keep the sign of a Montgomery reduction below the
 modulus

---
 src/circuits/finite_field/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/circuits/finite_field/mod.rs b/src/circuits/finite_field/mod.rs
index 4c1ea57..3fe15c5 100644
--- a/src/circuits/finite_field/mod.rs
+++ b/src/circuits/finite_field/mod.rs
@@ -309,7 +309,7 @@ impl<G: Gate, C: BoolCircuit<G>, const N: usize> AllocFpConfig<G, C, N> {
         let is_larger_or_eq_int = AllocInt::from_gate_ids(vec![is_larger_or_eq], &int_config)?;
         let else_int = (&AllocInt::one(&int_config)?) - (&is_larger_or_eq_int);
         let p_subed_t = (&t) - (&p_int);
-        let out = &(&is_larger_or_eq_int * &p_subed_t) - &(&else_int * &t);
+        let out = &(&is_larger_or_eq_int * &p_subed_t) + &(&else_int * &t);
         out.output()?;
         Ok(mid)
     }
-- 
2.43.0

