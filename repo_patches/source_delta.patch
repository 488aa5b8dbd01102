From 7d2ee3f800d903a357aaf0e1a0ee53d38645f021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:17 +0000
Subject: [PATCH 01/20] fix: keep the bit of an output gate that other gates
 also depend on

The evaluator dropped a gate's bit after its last dependent gate was
evaluated, even if the gate is itself an output evaluated later, and then
failed with UnknownEvaledBit.
---
 src/evaluator.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/evaluator.rs b/src/evaluator.rs
index 9b7e4e7..e9ce727 100644
--- a/src/evaluator.rs
+++ b/src/evaluator.rs
@@ -36,6 +36,11 @@ impl BoolEvaluator<NXAOBoolGate, NXAOBoolCircuit> for NXAOBoolEvaluator {
         let mut outputs = Vec::new();
         let mut evaled_map = HashMap::<GateId, bool>::new();
         let mut num_depend_map = HashMap::<GateId, usize>::new();
+        // An output gate counts as depended on once more, so that its bit is kept until it is output.
+        for i in 0..output_len {
+            let output_gate_id = circuit.output_to_gate_id(&WireId(i as u64))?;
+            num_depend_map.insert(output_gate_id, 1);
+        }
         let mut last_input_wire_id = WireId(0);
         let mut i = 0;
         assert_eq!(inputs.len(), circuit.input_len());
@@ -44,7 +49,7 @@ impl BoolEvaluator<NXAOBoolGate, NXAOBoolCircuit> for NXAOBoolEvaluator {
             match gate_id {
                 Some(id) => {
                     evaled_map.insert(id, inputs[i]);
-                    num_depend_map.insert(id, circuit.get_depended_gates(&id)?.len());
+                    *num_depend_map.entry(id).or_insert(0) += circuit.get_depended_gates(&id)?.len();
                     i += 1;
                 }
                 None => {}
@@ -119,7 +124,7 @@ impl NXAOBoolEvaluator {
             NXAOBoolGate::Const(gate) => {
                 evaled_map.insert(*gate_id, gate.value);
                 let num_depend = self.circuit.get_depended_gates(gate_id)?.len();
-                num_depend_map.insert(*gate_id, num_depend);
+                *num_depend_map.entry(*gate_id).or_insert(0) += num_depend;
                 Ok(())
             }
             NXAOBoolGate::Not(gate) => {
@@ -138,7 +143,7 @@ impl NXAOBoolEvaluator {
                 
                 evaled_map.insert(*gate_id, output_bit);
                 let num_depend = self.circuit.get_depended_gates(gate_id)?.len();
-                num_depend_map.insert(*gate_id, num_depend);
+                *num_depend_map.entry(*gate_id).or_insert(0) += num_depend;
                 Ok(())
             }
             NXAOBoolGate::Xor(gate) => {
@@ -168,7 +173,7 @@ impl NXAOBoolEvaluator {
 
                 evaled_map.insert(*gate_id, output_bit);
                 let num_depend = self.circuit.get_depended_gates(gate_id)?.len();
-                num_depend_map.insert(*gate_id, num_depend);
+                *num_depend_map.entry(*gate_id).or_insert(0) += num_depend;
                 Ok(())
             }
             NXAOBoolGate::And(gate) => {
@@ -198,7 +203,7 @@ impl NXAOBoolEvaluator {
 
                 evaled_map.insert(*gate_id, output_bit);
                 let num_depend = self.circuit.get_depended_gates(gate_id)?.len();
-                num_depend_map.insert(*gate_id, num_depend);
+                *num_depend_map.entry(*gate_id).or_insert(0) += num_depend;
                 Ok(())
             }
             NXAOBoolGate::Or(gate) => {
@@ -228,7 +233,7 @@ impl NXAOBoolEvaluator {
 
                 evaled_map.insert(*gate_id, output_bit);
                 let num_depend = self.circuit.get_depended_gates(gate_id)?.len();
-                num_depend_map.insert(*gate_id, num_depend);
+                *num_depend_map.entry(*gate_id).or_insert(0) += num_depend;
                 Ok(())
             }
             NXAOBoolGate::Module(gate) => {
@@ -260,7 +265,7 @@ impl NXAOBoolEvaluator {
                     let output_id = GateId(first_output_id.0 + (i as u64));
                     evaled_map.insert(output_id, output_bits[i]);
                     let num_depend = self.circuit.get_depended_gates(&output_id)?.len();
-                    num_depend_map.insert(output_id, num_depend);
+                    *num_depend_map.entry(output_id).or_insert(0) += num_depend;
                 }
                 Ok(())
             }
-- 
2.43.0


From 0fabf6bc72f1597ca4a09870dffe977fed59f5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:29 +0000
Subject: [PATCH 02/20] fix: report a wrong number of inputs as InvalidInputLen
 instead of panicking

---
 src/evaluator.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/evaluator.rs b/src/evaluator.rs
index e9ce727..f725918 100644
--- a/src/evaluator.rs
+++ b/src/evaluator.rs
@@ -33,6 +33,12 @@ impl BoolEvaluator<NXAOBoolGate, NXAOBoolCircuit> for NXAOBoolEvaluator {
     fn eval_output(&mut self, inputs: &[bool]) -> Result<Vec<bool>, EvaluatorError> {
         let circuit = self.circuit();
         let output_len = circuit.output_len();
+        if inputs.len() != circuit.input_len() {
+            return Err(EvaluatorError::InvalidInputLen(
+                inputs.len(),
+                circuit.input_len(),
+            ));
+        }
         let mut outputs = Vec::new();
         let mut evaled_map = HashMap::<GateId, bool>::new();
         let mut num_depend_map = HashMap::<GateId, usize>::new();
@@ -43,7 +49,6 @@ impl BoolEvaluator<NXAOBoolGate, NXAOBoolCircuit> for NXAOBoolEvaluator {
         }
         let mut last_input_wire_id = WireId(0);
         let mut i = 0;
-        assert_eq!(inputs.len(), circuit.input_len());
         while i < inputs.len() {
             let gate_id = circuit.input_to_gate_id(&last_input_wire_id)?;
             match gate_id {
-- 
2.43.0


From 5cfe6cb74028db685efdda856f9e7a32bd677130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:49 +0000
Subject: [PATCH 03/20] fix: count the wires of a module whose outputs are
 inputs or repeat

num_wire - input_len - output_len underflowed for a module that hands an
input through to an output or outputs the same gate twice.
---
 src/bool_circuit.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bool_circuit.rs b/src/bool_circuit.rs
index 2c59ae4..7c2d787 100644
--- a/src/bool_circuit.rs
+++ b/src/bool_circuit.rs
@@ -593,7 +593,7 @@ impl BoolCircuit<NXAOBoolGate> for NXAOBoolCircuit {
         let num_wire = module_circuit.num_wire();
         let num_gate = module_circuit.num_gate();
         let num_const = module_circuit.num_const();
-        self.num_wire += num_wire - input_len - output_len;
+        self.num_wire += num_wire - input_len;
         self.num_gate += num_gate;
         self.num_const += num_const;
         let new_gate_ids = (0..output_len)
@@ -609,6 +609,8 @@ impl BoolCircuit<NXAOBoolGate> for NXAOBoolCircuit {
                 self.add_gate(NXAOBoolGate::Module(module_gate))
             })
             .collect::<Vec<GateId>>();
+        // The outputs of the module are already counted in its wires, or are its inputs or other outputs.
+        self.num_wire -= output_len;
         for input_id in gate_ids.into_iter() {
             for out_id in new_gate_ids.iter() {
                 self.add_dependence(input_id, out_id)?;
-- 
2.43.0


From 6ee0feec21c20d913378f39bcb742c2416598455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 04/20] fix: reject unknown gates as operands

A gate could be built on a gate id that does not exist, which left a
dangling entry in the circuit; an id that is allocated later even made the
circuit cyclic, so that evaluating it overflowed the stack.
---
 src/bool_circuit.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/bool_circuit.rs b/src/bool_circuit.rs
index 7c2d787..e6a2324 100644
--- a/src/bool_circuit.rs
+++ b/src/bool_circuit.rs
@@ -514,6 +514,7 @@ impl BoolCircuit<NXAOBoolGate> for NXAOBoolCircuit {
     }
 
     fn not(&mut self, gate_id: &GateId) -> Result<GateId, BoolCircuitError> {
+        self.check_operands(&[*gate_id])?;
         let not_gate = NotGate { id: *gate_id };
         let new_gate_id = self.add_gate(NXAOBoolGate::Not(not_gate));
         self.add_dependence(gate_id, &new_gate_id)?;
@@ -522,6 +523,7 @@ impl BoolCircuit<NXAOBoolGate> for NXAOBoolCircuit {
     }
 
     fn xor(&mut self, gate_l_id: &GateId, gate_r_id: &GateId) -> Result<GateId, BoolCircuitError> {
+        self.check_operands(&[*gate_l_id, *gate_r_id])?;
         let xor_gate = XorGate {
             left_id: *gate_l_id,
             right_id: *gate_r_id,
@@ -534,6 +536,7 @@ impl BoolCircuit<NXAOBoolGate> for NXAOBoolCircuit {
     }
 
     fn and(&mut self, gate_l_id: &GateId, gate_r_id: &GateId) -> Result<GateId, BoolCircuitError> {
+        self.check_operands(&[*gate_l_id, *gate_r_id])?;
         let and_gate = AndGate {
             left_id: *gate_l_id,
             right_id: *gate_r_id,
@@ -546,6 +549,7 @@ impl BoolCircuit<NXAOBoolGate> for NXAOBoolCircuit {
     }
 
     fn or(&mut self, gate_l_id: &GateId, gate_r_id: &GateId) -> Result<GateId, BoolCircuitError> {
+        self.check_operands(&[*gate_l_id, *gate_r_id])?;
         let or_gate = OrGate {
             left_id: *gate_l_id,
             right_id: *gate_r_id,
@@ -588,6 +592,7 @@ impl BoolCircuit<NXAOBoolGate> for NXAOBoolCircuit {
         gate_ids: &[GateId],
     ) -> Result<Vec<GateId>, BoolCircuitError> {
         let module_circuit = self.get_module(module_id)?;
+        self.check_operands(gate_ids)?;
         let input_len = module_circuit.input_len();
         let output_len = module_circuit.output_len();
         let num_wire = module_circuit.num_wire();
@@ -689,6 +694,15 @@ impl NXAOBoolCircuit {
         gate_id
     }
 
+    fn check_operands(&self, gate_ids: &[GateId]) -> Result<(), BoolCircuitError> {
+        for gate_id in gate_ids {
+            if !self.gate_map.contains_key(gate_id) {
+                return Err(BoolCircuitError::UnknownGate(*gate_id));
+            }
+        }
+        Ok(())
+    }
+
     fn add_dependence(
         &mut self,
         input_id: &GateId,
-- 
2.43.0


From 514539ef4ac7e33170d673f9f78e5a7a39a36570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:00 +0000
Subject: [PATCH 05/20] fix: reject a module call with a wrong number of
 operands

Such a call was accepted; its evaluation failed, and writing it produced a
file with undefined wires.
---
 src/bool_circuit.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/bool_circuit.rs b/src/bool_circuit.rs
index e6a2324..7585855 100644
--- a/src/bool_circuit.rs
+++ b/src/bool_circuit.rs
@@ -27,6 +27,8 @@ pub enum BoolCircuitError {
     UnknownInputOfModule(GateId, ModuleId),
     #[error("There is no valid gate in input gates of the module.")]
     InvalidModuleInputGate,
+    #[error("The number of given gates is {0}, but the input length of the module is {1}.")]
+    InvalidModuleInputLen(usize, usize),
 }
 
 pub trait BoolCircuit<G: Gate>: Sized + Clone + PartialEq + Eq {
@@ -594,6 +596,12 @@ impl BoolCircuit<NXAOBoolGate> for NXAOBoolCircuit {
         let module_circuit = self.get_module(module_id)?;
         self.check_operands(gate_ids)?;
         let input_len = module_circuit.input_len();
+        if gate_ids.len() != input_len {
+            return Err(BoolCircuitError::InvalidModuleInputLen(
+                gate_ids.len(),
+                input_len,
+            ));
+        }
         let output_len = module_circuit.output_len();
         let num_wire = module_circuit.num_wire();
         let num_gate = module_circuit.num_gate();
-- 
2.43.0


From 0dbd1b236924f8fbd9a996737a94057019098ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:13 +0000
Subject: [PATCH 06/20] fix: compare the modules that equal circuits call

Circuits with the same gates compared equal even if the modules they call,
looked up in their own module storages, are different circuits.
---
 src/bool_circuit.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/bool_circuit.rs b/src/bool_circuit.rs
index 7585855..6f1b480 100644
--- a/src/bool_circuit.rs
+++ b/src/bool_circuit.rs
@@ -1,6 +1,6 @@
 use crate::gates::*;
 use std::cell::{Ref, RefCell, RefMut};
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::marker::PhantomData;
 use std::rc::Rc;
 use thiserror::Error;
@@ -671,6 +671,7 @@ impl PartialEq for NXAOBoolCircuit {
             && self.num_wire == other.num_wire
             && self.num_gate == other.num_gate
             && self.gate_index == other.gate_index
+            && self.called_modules_eq(other)
     }
 }
 
@@ -702,6 +703,20 @@ impl NXAOBoolCircuit {
         gate_id
     }
 
+    // The gates of self and other are equal, so that they call modules of the same ids.
+    fn called_modules_eq(&self, other: &Self) -> bool {
+        let module_ids = self.gate_map.values().filter_map(|gate| match gate {
+            NXAOBoolGate::Module(g) => Some(g.module_id),
+            _ => None,
+        });
+        module_ids.collect::<HashSet<ModuleId>>().iter().all(|id| {
+            match (self.get_module(id), other.get_module(id)) {
+                (Ok(l), Ok(r)) => l == r,
+                _ => false,
+            }
+        })
+    }
+
     fn check_operands(&self, gate_ids: &[GateId]) -> Result<(), BoolCircuitError> {
         for gate_id in gate_ids {
             if !self.gate_map.contains_key(gate_id) {
-- 
2.43.0


From 9ec2772c18ede7b844ed54eccf6442b3292b9a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:59 +0000
Subject: [PATCH 07/20] fix: report an I/O error on the fourth line of a
 bristol file

The error was dropped, and the next line was skipped or taken for the end of
the gates instead.
---
 src/bristol_converter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bristol_converter.rs b/src/bristol_converter.rs
index 2f0e4dd..ba5b5ce 100644
--- a/src/bristol_converter.rs
+++ b/src/bristol_converter.rs
@@ -98,7 +98,7 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
             output_len_sum += output_bit;
         }
         //skip one row.
-        let _ = lines_iter.next().ok_or(BristolError::NotFoundLine(4))?;
+        let _ = lines_iter.next().ok_or(BristolError::NotFoundLine(4))??;
 
         for result in lines_iter {
             let l = result?;
-- 
2.43.0


From 9f1d302a55d33d3c8434c68053a8d8c17536dcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:59 +0000
Subject: [PATCH 08/20] fix: forget the wires of the previous file when a
 reader is reused

A wire that the new file never assigns was taken from the previous file, and
its gate from the previous circuit.
---
 src/bristol_converter.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bristol_converter.rs b/src/bristol_converter.rs
index ba5b5ce..2f5477e 100644
--- a/src/bristol_converter.rs
+++ b/src/bristol_converter.rs
@@ -55,6 +55,7 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
         reader: R,
         c_ref: &mut BoolCircuitRef<G, C>,
     ) -> Result<(), BristolError> {
+        self.gate_of_wire.clear();
         let mut lines_iter = reader.lines();
         let first_strs = lines_iter.next().ok_or(BristolError::NotFoundLine(1))??;
         let mut first_strs = first_strs.split_whitespace();
-- 
2.43.0


From b9af064e42a3efed2e9efcec90f01b5e07723818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:00 +0000
Subject: [PATCH 09/20] fix: return errors for malformed bristol files instead
 of panicking

A gate line with too few or too many wires, an output wire that is never
assigned, and a header with more outputs than wires all panicked (or were
read as a different gate).
---
 src/bristol_converter.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/bristol_converter.rs b/src/bristol_converter.rs
index 2f5477e..3086c19 100644
--- a/src/bristol_converter.rs
+++ b/src/bristol_converter.rs
@@ -14,6 +14,10 @@ pub enum BristolError {
     NotFoundLine(usize),
     #[error("Fail to split a line.")]
     LineSplitError,
+    #[error("The numbers of wires and outputs in the header are inconsistent.")]
+    InvalidHeader,
+    #[error("The gate {0} has an invalid number of inputs or outputs.")]
+    InvalidGateArity(String),
     #[error("Unknown wire {0} exists in the bristol file.")]
     UnknownWire(usize),
     #[error("Unknown gate of id {0} exists in the circuit.")]
@@ -96,8 +100,12 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
                 .next()
                 .ok_or(BristolError::LineSplitError)?
                 .parse::<usize>()?;
-            output_len_sum += output_bit;
+            output_len_sum = usize::checked_add(output_len_sum, output_bit)
+                .ok_or(BristolError::InvalidHeader)?;
         }
+        let first_output_wire = num_wire
+            .checked_sub(output_len_sum)
+            .ok_or(BristolError::InvalidHeader)?;
         //skip one row.
         let _ = lines_iter.next().ok_or(BristolError::NotFoundLine(4))??;
 
@@ -136,6 +144,14 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
                 output_wire_ids.push(output_wire_id);
             }
             let gate_type = l.next().ok_or(BristolError::LineSplitError)?;
+            let expected_input_len = match gate_type {
+                "INV" | "EQ" | "EQW" => 1,
+                "XOR" | "AND" | "OR" => 2,
+                _ => return Err(BristolError::NotSupportedGate(gate_type.to_string())),
+            };
+            if input_len != expected_input_len || output_len != 1 {
+                return Err(BristolError::InvalidGateArity(gate_type.to_string()));
+            }
 
             match gate_type {
                 "INV" => {
@@ -162,9 +178,12 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
             };
         }
 
-        for i in (num_wire - output_len_sum)..num_wire {
-            let gate_id = self.gate_of_wire[&i];
-            c_ref.output(gate_id)?;
+        for i in first_output_wire..num_wire {
+            let gate_id = self
+                .gate_of_wire
+                .get(&i)
+                .ok_or(BristolError::UnknownWire(i))?;
+            c_ref.output(*gate_id)?;
         }
         Ok(())
     }
-- 
2.43.0


From 2d9d75246cc00944431f7048ed1e605485c1690e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:00 +0000
Subject: [PATCH 10/20] fix: read EQ gates of bristol files as constant
 assignments

In the Bristol Fashion format, EQ assigns the constant 0 or 1 to its output
wire and only EQW copies a wire. EQ was read as a copy of wire 0 or 1.
---
 src/bristol_converter.rs | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/bristol_converter.rs b/src/bristol_converter.rs
index 3086c19..170fe69 100644
--- a/src/bristol_converter.rs
+++ b/src/bristol_converter.rs
@@ -20,6 +20,8 @@ pub enum BristolError {
     InvalidGateArity(String),
     #[error("Unknown wire {0} exists in the bristol file.")]
     UnknownWire(usize),
+    #[error("The constant of an EQ gate should be 0 or 1, but is {0}.")]
+    InvalidConstant(usize),
     #[error("Unknown gate of id {0} exists in the circuit.")]
     UnknownGate(GateId),
     #[error("The {0}-th output gate should be either NOT, XOR, AND, OR gate.")]
@@ -123,17 +125,13 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
                 .next()
                 .ok_or(BristolError::LineSplitError)?
                 .parse::<usize>()?;
-            let mut input_gates = Vec::new();
+            let mut input_wire_ids = Vec::new();
             for _ in 0..input_len {
                 let wire_id = l
                     .next()
                     .ok_or(BristolError::LineSplitError)?
                     .parse::<usize>()?;
-                let gate_id = self
-                    .gate_of_wire
-                    .get(&wire_id)
-                    .ok_or(BristolError::UnknownWire(wire_id))?;
-                input_gates.push(gate_id);
+                input_wire_ids.push(wire_id);
             }
             let mut output_wire_ids = Vec::new();
             for _ in 0..output_len {
@@ -152,6 +150,25 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
             if input_len != expected_input_len || output_len != 1 {
                 return Err(BristolError::InvalidGateArity(gate_type.to_string()));
             }
+            if gate_type == "EQ" {
+                // The input of an EQ gate is not a wire but the constant 0 or 1.
+                let value = match input_wire_ids[0] {
+                    0 => false,
+                    1 => true,
+                    _ => return Err(BristolError::InvalidConstant(input_wire_ids[0])),
+                };
+                let output_gate = c_ref.constant(value)?;
+                self.gate_of_wire.insert(output_wire_ids[0], output_gate);
+                continue;
+            }
+            let mut input_gates = Vec::new();
+            for wire_id in input_wire_ids {
+                let gate_id = self
+                    .gate_of_wire
+                    .get(&wire_id)
+                    .ok_or(BristolError::UnknownWire(wire_id))?;
+                input_gates.push(gate_id);
+            }
 
             match gate_type {
                 "INV" => {
@@ -170,7 +187,7 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
                     let output_gate = c_ref.or(input_gates[0], input_gates[1])?;
                     self.gate_of_wire.insert(output_wire_ids[0], output_gate);
                 }
-                "EQ" | "EQW" => {
+                "EQW" => {
                     let output_gate = c_ref.identity(input_gates[0])?;
                     self.gate_of_wire.insert(output_wire_ids[0], output_gate);
                 }
-- 
2.43.0


From a22b426d3376d8e8b676daa0e161c01336c9b9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:15 +0000
Subject: [PATCH 11/20] fix: compare signed integers correctly when their
 difference overflows

---
 src/circuits/arithmetic/int.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/circuits/arithmetic/int.rs b/src/circuits/arithmetic/int.rs
index 54b58fb..fd9ca45 100644
--- a/src/circuits/arithmetic/int.rs
+++ b/src/circuits/arithmetic/int.rs
@@ -481,10 +481,16 @@ pub fn build_less_circuit<G: Gate, C: BoolCircuit<G>>(
         b_inputs.push(sub_ref.input()?);
     }
 
+    let a_sign = a_inputs[n_bits - 1];
+    let b_sign = b_inputs[n_bits - 1];
     let inputs = [a_inputs, b_inputs].concat();
     let sub = sub_ref.module(&suber_mid, &inputs)?;
-    let one = sub_ref.constant(true)?;
-    let is_less = sub_ref.equivalent(&sub[n_bits - 1], &one)?;
+    // If the signs differ, a is less exactly when it is negative; the subtraction may overflow.
+    let diff_sign = sub_ref.xor(&a_sign, &b_sign)?;
+    let same_sign = sub_ref.not(&diff_sign)?;
+    let neg_a = sub_ref.and(&diff_sign, &a_sign)?;
+    let neg_sub = sub_ref.and(&same_sign, &sub[n_bits - 1])?;
+    let is_less = sub_ref.or(&neg_a, &neg_sub)?;
     sub_ref.output(is_less)?;
     Ok(sub_mid)
 }
-- 
2.43.0


From d499c1a44198d54c5f8b50626716aad7d1a9c2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 12/20] fix: accept integer constants of widths that are not
 whole bytes

---
 src/circuits/arithmetic/int.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/circuits/arithmetic/int.rs b/src/circuits/arithmetic/int.rs
index fd9ca45..86c2d24 100644
--- a/src/circuits/arithmetic/int.rs
+++ b/src/circuits/arithmetic/int.rs
@@ -44,7 +44,9 @@ impl<G: Gate, C: BoolCircuit<G>, const N: usize> AllocInt<G, C, N> {
         let mut config = config.clone();
         let new_ref = &mut config.c_ref;
         let bytes_le = val.to_bytes_le();
-        let bits_le = bytes2bits_le(&bytes_le[..]);
+        let mut bits_le = bytes2bits_le(&bytes_le[..]);
+        // The last byte may hold unused high bits.
+        bits_le.truncate(val.bits() as usize);
         assert!(bits_le.len() <= N);
 
         let mut val_le = Vec::new();
-- 
2.43.0


From 20e685fcf45093c40185708701d3691d24f7498a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 13/20] fix: shift integers by more than their width

---
 src/circuits/arithmetic/int.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/circuits/arithmetic/int.rs b/src/circuits/arithmetic/int.rs
index 86c2d24..a68ec65 100644
--- a/src/circuits/arithmetic/int.rs
+++ b/src/circuits/arithmetic/int.rs
@@ -132,6 +132,7 @@ impl<G: Gate, C: BoolCircuit<G>, const N: usize> AllocInt<G, C, N> {
     pub fn shift_left(&self, shift_bits: usize) -> Result<Self, BuildCircuitError> {
         let mut config = self.config.clone();
         let new_ref = &mut config.c_ref;
+        let shift_bits = shift_bits.min(N);
         let mut new_val_le = Vec::new();
         for _ in 0..shift_bits {
             new_val_le.push(new_ref.constant(false)?);
@@ -148,6 +149,7 @@ impl<G: Gate, C: BoolCircuit<G>, const N: usize> AllocInt<G, C, N> {
 
     pub fn shift_right(&self, shift_bits: usize) -> Result<Self, BuildCircuitError> {
         let config = self.config.clone();
+        let shift_bits = shift_bits.min(N);
         let mut new_val_le = Vec::new();
         let sign_bit = self.val_le[N - 1];
         for i in 0..(N - shift_bits) {
-- 
2.43.0


From 253948272fbaafb13749759d9b1d101c384b4201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:26 +0000
Subject: [PATCH 14/20] fix: reduce a field sum that equals the modulus

---
 src/circuits/finite_field/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/circuits/finite_field/mod.rs b/src/circuits/finite_field/mod.rs
index 538f4b7..4c1ea57 100644
--- a/src/circuits/finite_field/mod.rs
+++ b/src/circuits/finite_field/mod.rs
@@ -222,7 +222,7 @@ impl<G: Gate, C: BoolCircuit<G>, const N: usize> AllocFpConfig<G, C, N> {
         let p_int = AllocInt::from_biguint(p, &int_config)?;
 
         let sum = (&l) + (&r);
-        let is_plus_larger = sum.larger(&p_int)?;
+        let is_plus_larger = sum.larger_or_eq(&p_int)?;
         let is_plus_larger_int = AllocInt::from_gate_ids(vec![is_plus_larger], &int_config)?;
         let is_minus_less = sum.less(&(-&AllocInt::zero(&int_config)?))?;
         let is_minus_less_int = AllocInt::from_gate_ids(vec![is_minus_less], &int_config)?;
-- 
2.43.0


From ac5dc951be8605869dc88cab55a2364844b82dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:26 +0000
Subject: [PATCH 15/20] fix: return the reduced value, not its negation, from
 Montgomery reduction

---
 src/circuits/finite_field/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/circuits/finite_field/mod.rs b/src/circuits/finite_field/mod.rs
index 4c1ea57..3fe15c5 100644
--- a/src/circuits/finite_field/mod.rs
+++ b/src/circuits/finite_field/mod.rs
@@ -309,7 +309,7 @@ impl<G: Gate, C: BoolCircuit<G>, const N: usize> AllocFpConfig<G, C, N> {
         let is_larger_or_eq_int = AllocInt::from_gate_ids(vec![is_larger_or_eq], &int_config)?;
         let else_int = (&AllocInt::one(&int_config)?) - (&is_larger_or_eq_int);
         let p_subed_t = (&t) - (&p_int);
-        let out = &(&is_larger_or_eq_int * &p_subed_t) - &(&else_int * &t);
+        let out = &(&is_larger_or_eq_int * &p_subed_t) + &(&else_int * &t);
         out.output()?;
         Ok(mid)
     }
-- 
2.43.0


From 8101f468d2e0a9c97d6e4353e1bd6d79529343b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 16/20] fix: write exact headers, the outputs last and all
 constants of bristol files

The body is written with fresh state, so that a writer and the map of a caller can be reused.
---
 src/bristol_converter.rs | 81 ++++++++++++++++++++++++++++------------
 1 file changed, 57 insertions(+), 24 deletions(-)

diff --git a/src/bristol_converter.rs b/src/bristol_converter.rs
index 170fe69..ed42ea6 100644
--- a/src/bristol_converter.rs
+++ b/src/bristol_converter.rs
@@ -234,28 +234,12 @@ impl<W: Write> BristolNXAOWriter<W> {
         let input_len = self.c_ref.input_len();
         let output_len = self.c_ref.output_len();
         let num_const = self.c_ref.num_const();
-        let num_gate = self.c_ref.num_gate();
-        let num_wire = self.c_ref.num_wire();
-        let first_line = format!("{} {}\n", num_gate, num_wire + num_const);
-        self.writer.write_all(first_line.as_bytes())?;
-
         let num_all_input = input_len + num_const;
         assert!(num_all_input >= num_first_input);
-        let second_line = format!(
-            "2 {} {}\n",
-            num_first_input,
-            num_all_input - num_first_input
-        );
-        self.writer.write_all(second_line.as_bytes())?;
-        let third_line = format!("1 {}\n", output_len);
-        self.writer.write_all(third_line.as_bytes())?;
-        self.writer.write_all(b"\n")?;
 
+        // The gate lines are written to a buffer first, since the header states their number.
+        let mut body = BristolNXAOWriter::new(self.c_ref.clone(), BufWriter::new(Vec::new()));
         let mut new_wire_of_gate = HashMap::<GateId, usize>::new();
-        let wire_of_gate = match wire_of_gate {
-            Some(m) => m,
-            None => &mut new_wire_of_gate,
-        };
         let mut const_of_wire = HashMap::new();
         let mut last_input_wire_id = WireId(0);
         let mut i = 0;
@@ -264,23 +248,72 @@ impl<W: Write> BristolNXAOWriter<W> {
             match gate_id {
                 Some(id) => {
                     let gate = self.c_ref.get_gate(&id)?.clone();
-                    self.write_single_gate(&id, &gate, wire_of_gate, &mut const_of_wire)?;
+                    body.write_single_gate(&id, &gate, &mut new_wire_of_gate, &mut const_of_wire)?;
                     i += 1;
                 }
                 None => {}
             };
             last_input_wire_id += WireId(1);
         }
-        self.last_const_wire = input_len;
-        self.num_wire += num_const;
-        self.write_all_gates(wire_of_gate, &mut const_of_wire)?;
+        body.last_const_wire = input_len;
+        body.num_wire += num_const;
+        body.write_all_gates(&mut new_wire_of_gate, &mut const_of_wire)?;
+        body.write_outputs_last(&new_wire_of_gate)?;
+        body.writer.flush()?;
+        self.num_wire = body.num_wire;
+        self.last_const_wire = body.last_const_wire;
+
+        let first_line = format!("{} {}\n", self.num_wire - num_all_input, self.num_wire);
+        self.writer.write_all(first_line.as_bytes())?;
+        let second_line = format!(
+            "2 {} {}\n",
+            num_first_input,
+            num_all_input - num_first_input
+        );
+        self.writer.write_all(second_line.as_bytes())?;
+        let third_line = format!("1 {}\n", output_len);
+        self.writer.write_all(third_line.as_bytes())?;
+        self.writer.write_all(b"\n")?;
+        self.writer.write_all(body.writer.get_ref())?;
+
+        if let Some(m) = wire_of_gate {
+            *m = new_wire_of_gate;
+        }
         let mut const_vals = Vec::new();
-        for wire in input_len..self.last_const_wire {
-            const_vals.push(const_of_wire[&wire]);
+        for wire in input_len..num_all_input {
+            // The constants of modules whose outputs are not used have no value.
+            const_vals.push(const_of_wire.get(&wire).copied().unwrap_or(false));
         }
         Ok(const_vals)
     }
 
+    // Bristol files end with the output wires, so that the outputs are copied unless they are already the last wires.
+    fn write_outputs_last(
+        &mut self,
+        wire_of_gate: &HashMap<GateId, usize>,
+    ) -> Result<(), BristolError> {
+        let mut output_wires = Vec::new();
+        for i in 0..self.c_ref.output_len() {
+            let output_gate_id = self.c_ref.output_to_gate_id(&WireId(i as u64))?;
+            output_wires.push(wire_of_gate[&output_gate_id]);
+        }
+        let num_wire = self.num_wire;
+        if output_wires.len() <= num_wire
+            && output_wires
+                .iter()
+                .copied()
+                .eq(num_wire - output_wires.len()..num_wire)
+        {
+            return Ok(());
+        }
+        for wire in output_wires {
+            let line = format!("1 1 {} {} EQW\n", wire, self.num_wire);
+            self.writer.write_all(line.as_bytes())?;
+            self.num_wire += 1;
+        }
+        Ok(())
+    }
+
     fn write_all_gates(
         &mut self,
         wire_of_gate: &mut HashMap<GateId, usize>,
-- 
2.43.0


From f8bd84ef1f9c71b72e209e205a3773b500e9b99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 17/20] fix: evaluate and write circuits of any depth without
 overflowing the call stack

---
 src/bristol_converter.rs | 164 ++++++++++-----------------------------
 src/evaluator.rs         |  41 ++++------
 src/gates.rs             |  14 ++++
 3 files changed, 71 insertions(+), 148 deletions(-)

diff --git a/src/bristol_converter.rs b/src/bristol_converter.rs
index ed42ea6..4876f18 100644
--- a/src/bristol_converter.rs
+++ b/src/bristol_converter.rs
@@ -247,8 +247,7 @@ impl<W: Write> BristolNXAOWriter<W> {
             let gate_id = self.c_ref.input_to_gate_id(&last_input_wire_id)?.clone();
             match gate_id {
                 Some(id) => {
-                    let gate = self.c_ref.get_gate(&id)?.clone();
-                    body.write_single_gate(&id, &gate, &mut new_wire_of_gate, &mut const_of_wire)?;
+                    body.write_single_gate(&id, &mut new_wire_of_gate, &mut const_of_wire)?;
                     i += 1;
                 }
                 None => {}
@@ -333,88 +332,48 @@ impl<W: Write> BristolNXAOWriter<W> {
         let output_len = self.c_ref.output_len();
         //self.c_ref.modify_with_const_gates()?;
         let mut output_gate_ids = Vec::new();
-        let mut output_gates = Vec::new();
         for i in 0..output_len {
             let output_wire_id = WireId(i as u64);
             let output_gate_id = self.c_ref.output_to_gate_id(&output_wire_id)?.clone();
             let output_gate = self.c_ref.get_gate(&output_gate_id)?.clone();
             output_gate_ids.push(output_gate_id);
-            output_gates.push(output_gate.clone());
             match output_gate {
                 NXAOBoolGate::Input(_) => {}
                 NXAOBoolGate::Const(_) => {}
                 NXAOBoolGate::Not(gate) => {
                     if wire_of_gate.get(&gate.id).is_none() {
-                        let input_gate = self.c_ref.get_gate(&gate.id)?.clone();
-                        self.write_single_gate(&gate.id, &input_gate, wire_of_gate, const_of_wire)?;
+                        self.write_single_gate(&gate.id, wire_of_gate, const_of_wire)?;
                     }
                 }
                 NXAOBoolGate::Xor(gate) => {
                     if wire_of_gate.get(&gate.left_id).is_none() {
-                        let input_gate = self.c_ref.get_gate(&gate.left_id)?.clone();
-                        self.write_single_gate(
-                            &gate.left_id,
-                            &input_gate,
-                            wire_of_gate,
-                            const_of_wire,
-                        )?;
+                        self.write_single_gate(&gate.left_id, wire_of_gate, const_of_wire)?;
                     }
                     if wire_of_gate.get(&gate.right_id).is_none() {
-                        let input_gate = self.c_ref.get_gate(&gate.right_id)?.clone();
-                        self.write_single_gate(
-                            &gate.right_id,
-                            &input_gate,
-                            wire_of_gate,
-                            const_of_wire,
-                        )?;
+                        self.write_single_gate(&gate.right_id, wire_of_gate, const_of_wire)?;
                     }
                 }
                 NXAOBoolGate::And(gate) => {
                     if wire_of_gate.get(&gate.left_id).is_none() {
-                        let input_gate = self.c_ref.get_gate(&gate.left_id)?.clone();
-                        self.write_single_gate(
-                            &gate.left_id,
-                            &input_gate,
-                            wire_of_gate,
-                            const_of_wire,
-                        )?;
+                        self.write_single_gate(&gate.left_id, wire_of_gate, const_of_wire)?;
                     }
                     if wire_of_gate.get(&gate.right_id).is_none() {
-                        let input_gate = self.c_ref.get_gate(&gate.right_id)?.clone();
-                        self.write_single_gate(
-                            &gate.right_id,
-                            &input_gate,
-                            wire_of_gate,
-                            const_of_wire,
-                        )?;
+                        self.write_single_gate(&gate.right_id, wire_of_gate, const_of_wire)?;
                     }
                 }
                 NXAOBoolGate::Or(gate) => {
                     if wire_of_gate.get(&gate.left_id).is_none() {
-                        let input_gate = self.c_ref.get_gate(&gate.left_id)?.clone();
-                        self.write_single_gate(
-                            &gate.left_id,
-                            &input_gate,
-                            wire_of_gate,
-                            const_of_wire,
-                        )?;
+                        self.write_single_gate(&gate.left_id, wire_of_gate, const_of_wire)?;
                     }
                     if wire_of_gate.get(&gate.right_id).is_none() {
-                        let input_gate = self.c_ref.get_gate(&gate.right_id)?.clone();
-                        self.write_single_gate(
-                            &gate.right_id,
-                            &input_gate,
-                            wire_of_gate,
-                            const_of_wire,
-                        )?;
+                        self.write_single_gate(&gate.right_id, wire_of_gate, const_of_wire)?;
                     }
                 }
                 NXAOBoolGate::Module(gate) => {
                     let input_ids = gate.input_ids;
                     for id in &input_ids {
                         if wire_of_gate.get(id).is_none() {
-                            let input_gate = self.c_ref.get_gate(id)?.clone();
-                            self.write_single_gate(&id, &input_gate, wire_of_gate, const_of_wire)?;
+                            self.write_single_gate(id, wire_of_gate, const_of_wire)?;
                         }
                     }
                 }
@@ -423,15 +382,45 @@ impl<W: Write> BristolNXAOWriter<W> {
 
         for i in 0..output_len {
             let gate_id = output_gate_ids[i];
-            let gate = &output_gates[i];
             if wire_of_gate.get(&gate_id).is_none() {
-                self.write_single_gate(&gate_id, gate, wire_of_gate, const_of_wire)?;
+                self.write_single_gate(&gate_id, wire_of_gate, const_of_wire)?;
             }
         }
         Ok(())
     }
 
     fn write_single_gate(
+        &mut self,
+        gate_id: &GateId,
+        wire_of_gate: &mut HashMap<GateId, usize>,
+        const_of_wire: &mut HashMap<usize, bool>,
+    ) -> Result<(), BristolError> {
+        // A stack on the heap, since a recursion as deep as the circuit overflows the call stack.
+        let mut pending = vec![*gate_id];
+        while let Some(id) = pending.last().copied() {
+            if wire_of_gate.get(&id).is_some() {
+                pending.pop();
+                continue;
+            }
+            let gate = self.c_ref.get_gate(&id)?;
+            let num_pending = pending.len();
+            let operand_ids = gate.operand_ids();
+            pending.extend(
+                operand_ids
+                    .into_iter()
+                    .rev()
+                    .filter(|id| wire_of_gate.get(id).is_none()),
+            );
+            if pending.len() == num_pending {
+                pending.pop();
+                self.write_gate_line(&id, &gate, wire_of_gate, const_of_wire)?;
+            }
+        }
+        Ok(())
+    }
+
+    // The operands of the gate are already written.
+    fn write_gate_line(
         &mut self,
         gate_id: &GateId,
         gate: &NXAOBoolGate,
@@ -444,11 +433,6 @@ impl<W: Write> BristolNXAOWriter<W> {
             }
             NXAOBoolGate::Const(_) => Ok(()),
             NXAOBoolGate::Not(gate) => {
-                if wire_of_gate.get(&gate.id).is_none() {
-                    //println!("not found id {}",gate.id);
-                    let input_gate = self.c_ref.get_gate(&gate.id)?.clone();
-                    self.write_single_gate(&gate.id, &input_gate, wire_of_gate, const_of_wire)?;
-                }
                 let input_wire = wire_of_gate[&gate.id];
                 self.update_wire(
                     gate_id,
@@ -459,26 +443,6 @@ impl<W: Write> BristolNXAOWriter<W> {
                 )
             }
             NXAOBoolGate::Xor(gate) => {
-                if wire_of_gate.get(&gate.left_id).is_none() {
-                    //println!("not found id {}",gate.left_id);
-                    let input_gate = self.c_ref.get_gate(&gate.left_id)?.clone();
-                    self.write_single_gate(
-                        &gate.left_id,
-                        &input_gate,
-                        wire_of_gate,
-                        const_of_wire,
-                    )?;
-                }
-                if wire_of_gate.get(&gate.right_id).is_none() {
-                    //println!("not found id {}",gate.right_id);
-                    let input_gate = self.c_ref.get_gate(&gate.right_id)?.clone();
-                    self.write_single_gate(
-                        &gate.right_id,
-                        &input_gate,
-                        wire_of_gate,
-                        const_of_wire,
-                    )?;
-                }
                 let l_wire = wire_of_gate[&gate.left_id];
                 let r_wire = wire_of_gate[&gate.right_id];
                 self.update_wire(
@@ -490,26 +454,6 @@ impl<W: Write> BristolNXAOWriter<W> {
                 )
             }
             NXAOBoolGate::And(gate) => {
-                if wire_of_gate.get(&gate.left_id).is_none() {
-                    //println!("not found id {}",gate.left_id);
-                    let input_gate = self.c_ref.get_gate(&gate.left_id)?.clone();
-                    self.write_single_gate(
-                        &gate.left_id,
-                        &input_gate,
-                        wire_of_gate,
-                        const_of_wire,
-                    )?;
-                }
-                if wire_of_gate.get(&gate.right_id).is_none() {
-                    //println!("not found id {}",gate.right_id);
-                    let input_gate = self.c_ref.get_gate(&gate.right_id)?.clone();
-                    self.write_single_gate(
-                        &gate.right_id,
-                        &input_gate,
-                        wire_of_gate,
-                        const_of_wire,
-                    )?;
-                }
                 let l_wire = wire_of_gate[&gate.left_id];
                 let r_wire = wire_of_gate[&gate.right_id];
                 self.update_wire(
@@ -521,26 +465,6 @@ impl<W: Write> BristolNXAOWriter<W> {
                 )
             }
             NXAOBoolGate::Or(gate) => {
-                if wire_of_gate.get(&gate.left_id).is_none() {
-                    //println!("not found id {}",gate.left_id);
-                    let input_gate = self.c_ref.get_gate(&gate.left_id)?.clone();
-                    self.write_single_gate(
-                        &gate.left_id,
-                        &input_gate,
-                        wire_of_gate,
-                        const_of_wire,
-                    )?;
-                }
-                if wire_of_gate.get(&gate.right_id).is_none() {
-                    //println!("not found id {}",gate.right_id);
-                    let input_gate = self.c_ref.get_gate(&gate.right_id)?.clone();
-                    self.write_single_gate(
-                        &gate.right_id,
-                        &input_gate,
-                        wire_of_gate,
-                        const_of_wire,
-                    )?;
-                }
                 let l_wire = wire_of_gate[&gate.left_id];
                 let r_wire = wire_of_gate[&gate.right_id];
                 self.update_wire(
@@ -554,12 +478,6 @@ impl<W: Write> BristolNXAOWriter<W> {
             NXAOBoolGate::Module(gate) => {
                 //println!("writer module id {} gate id {}",gate.module_id, gate_id);
                 let input_ids = &gate.input_ids;
-                for id in input_ids {
-                    if wire_of_gate.get(id).is_none() {
-                        let input_gate = self.c_ref.get_gate(id)?.clone();
-                        self.write_single_gate(&id, &input_gate, wire_of_gate, const_of_wire)?;
-                    }
-                }
                 let module_circuit = self.c_ref.get_module(&gate.module_id)?.clone();
                 let mut new_wire_of_gate = HashMap::new();
                 let mut last_input_wire_id = WireId(0);
diff --git a/src/evaluator.rs b/src/evaluator.rs
index f725918..305dd63 100644
--- a/src/evaluator.rs
+++ b/src/evaluator.rs
@@ -110,13 +110,28 @@ impl NXAOBoolEvaluator {
         if evaled_map.get(&output_gate_id).is_some() {
             return Ok(evaled_map[&output_gate_id]);
         }
-        self.eval_single_gate(&output_gate_id, evaled_map, num_depend_map)?;
+        // A stack on the heap, since a recursion as deep as the circuit overflows the call stack.
+        let mut pending = vec![output_gate_id];
+        while let Some(gate_id) = pending.last().copied() {
+            if evaled_map.get(&gate_id).is_some() {
+                pending.pop();
+                continue;
+            }
+            let operand_ids = self.circuit.get_gate(&gate_id)?.operand_ids();
+            let num_pending = pending.len();
+            pending.extend(operand_ids.into_iter().filter(|id| evaled_map.get(id).is_none()));
+            if pending.len() == num_pending {
+                pending.pop();
+                self.eval_single_gate(&gate_id, evaled_map, num_depend_map)?;
+            }
+        }
         let output_bit = evaled_map
             .get(&output_gate_id)
             .ok_or(EvaluatorError::UnknownEvaledBit(output_gate_id))?;
         Ok(*output_bit)
     }
 
+    // The operands of the gate are already evaluated.
     fn eval_single_gate(
         &self,
         gate_id: &GateId,
@@ -133,9 +148,6 @@ impl NXAOBoolEvaluator {
                 Ok(())
             }
             NXAOBoolGate::Not(gate) => {
-                if evaled_map.get(&gate.id).is_none() {
-                    self.eval_single_gate(&gate.id, evaled_map, num_depend_map)?;
-                }
                 let input_bit = evaled_map
                     .get(&gate.id)
                     .ok_or(EvaluatorError::UnknownEvaledBit(gate.id))?;
@@ -152,12 +164,6 @@ impl NXAOBoolEvaluator {
                 Ok(())
             }
             NXAOBoolGate::Xor(gate) => {
-                if evaled_map.get(&gate.left_id).is_none() {
-                    self.eval_single_gate(&gate.left_id, evaled_map, num_depend_map)?;
-                }
-                if evaled_map.get(&gate.right_id).is_none() {
-                    self.eval_single_gate(&gate.right_id, evaled_map, num_depend_map)?;
-                }
                 let input_bit_l = evaled_map
                     .get(&gate.left_id)
                     .ok_or(EvaluatorError::UnknownEvaledBit(gate.left_id))?;
@@ -182,12 +188,6 @@ impl NXAOBoolEvaluator {
                 Ok(())
             }
             NXAOBoolGate::And(gate) => {
-                if evaled_map.get(&gate.left_id).is_none() {
-                    self.eval_single_gate(&gate.left_id, evaled_map, num_depend_map)?;
-                }
-                if evaled_map.get(&gate.right_id).is_none() {
-                    self.eval_single_gate(&gate.right_id, evaled_map, num_depend_map)?;
-                }
                 let input_bit_l = evaled_map
                     .get(&gate.left_id)
                     .ok_or(EvaluatorError::UnknownEvaledBit(gate.left_id))?;
@@ -212,12 +212,6 @@ impl NXAOBoolEvaluator {
                 Ok(())
             }
             NXAOBoolGate::Or(gate) => {
-                if evaled_map.get(&gate.left_id).is_none() {
-                    self.eval_single_gate(&gate.left_id, evaled_map, num_depend_map)?;
-                }
-                if evaled_map.get(&gate.right_id).is_none() {
-                    self.eval_single_gate(&gate.right_id, evaled_map, num_depend_map)?;
-                }
                 let input_bit_l = evaled_map
                     .get(&gate.left_id)
                     .ok_or(EvaluatorError::UnknownEvaledBit(gate.left_id))?;
@@ -245,9 +239,6 @@ impl NXAOBoolEvaluator {
                 let input_ids = &gate.input_ids;
                 let mut input_bits: Vec<bool> = Vec::new();
                 for id in input_ids {
-                    if evaled_map.get(id).is_none() {
-                        self.eval_single_gate(id, evaled_map, num_depend_map)?;
-                    }
                     let val = evaled_map
                         .get(id)
                         .ok_or(EvaluatorError::UnknownEvaledBit(*id))?;
diff --git a/src/gates.rs b/src/gates.rs
index 12f346b..364373c 100644
--- a/src/gates.rs
+++ b/src/gates.rs
@@ -97,6 +97,20 @@ pub enum NXAOBoolGate {
     Module(ModuleGate),
 }
 
+impl NXAOBoolGate {
+    pub(crate) fn operand_ids(&self) -> Vec<GateId> {
+        match self {
+            NXAOBoolGate::Input(_) => vec![],
+            NXAOBoolGate::Const(_) => vec![],
+            NXAOBoolGate::Not(g) => vec![g.id],
+            NXAOBoolGate::And(g) => vec![g.left_id, g.right_id],
+            NXAOBoolGate::Xor(g) => vec![g.left_id, g.right_id],
+            NXAOBoolGate::Or(g) => vec![g.left_id, g.right_id],
+            NXAOBoolGate::Module(g) => g.input_ids.to_vec(),
+        }
+    }
+}
+
 impl Gate for NXAOBoolGate {
     fn input_len(&self) -> usize {
         match self {
-- 
2.43.0


From 85502cb60c46c327bc285567412238ebe9b0f71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:44 +0000
Subject: [PATCH 18/20] fix: skip blank lines of bristol files instead of
 failing or ending at them

---
 src/bristol_converter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bristol_converter.rs b/src/bristol_converter.rs
index 4876f18..aa3ac25 100644
--- a/src/bristol_converter.rs
+++ b/src/bristol_converter.rs
@@ -113,8 +113,8 @@ impl<G: Gate, C: BoolCircuit<G>> BristolReader<G, C> {
 
         for result in lines_iter {
             let l = result?;
-            if l.len() == 0 {
-                break;
+            if l.trim().is_empty() {
+                continue;
             }
             let mut l = l.split_whitespace();
             let input_len = l
-- 
2.43.0


From fe67da10c4c6870919f9a69136bfbe01a5173f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:46 +0000
Subject: [PATCH 19/20] fix: compute the extended gcd of numbers of any size
 without recursion

---
 src/utils.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index e2d6b02..dc4c32d 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -56,16 +56,22 @@ pub fn hex2bytes(hex: &str) -> Result<Vec<u8>, FromHexError> {
 }
 
 pub fn ext_gcd(a: &BigInt, b: &BigInt) -> (BigInt, BigInt, BigInt) {
-    let zero = BigInt::zero();
-    if b == &zero {
-        let one = BigInt::from(1i32);
-        return (one, zero, a.clone());
+    // Quotients of Euclid's algorithm; a recursion would need a stack frame for each of them.
+    let mut quotients = Vec::new();
+    let (mut a, mut b) = (a.clone(), b.clone());
+    while !b.is_zero() {
+        quotients.push(&a / &b);
+        let r = &a % &b;
+        a = b;
+        b = r;
     }
-    let q = a / b;
-    let r = a % b;
-    let (s, t, d) = ext_gcd(b, &r);
-    let new_y = (&s) - (&q) * (&t);
-    return (t, new_y, d);
+    let (mut x, mut y) = (BigInt::from(1i32), BigInt::zero());
+    for q in quotients.iter().rev() {
+        let new_y = (&x) - q * (&y);
+        x = y;
+        y = new_y;
+    }
+    (x, y, a)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 89f24d01299b029f837470e0bee64515e68a67c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:45 +0000
Subject: [PATCH 20/20] fix: printing a circuit with modules of its own storage
 never ended

---
 src/bool_circuit.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/bool_circuit.rs b/src/bool_circuit.rs
index 6f1b480..c5aa942 100644
--- a/src/bool_circuit.rs
+++ b/src/bool_circuit.rs
@@ -1,6 +1,7 @@
 use crate::gates::*;
 use std::cell::{Ref, RefCell, RefMut};
 use std::collections::{HashMap, HashSet};
+use std::fmt;
 use std::marker::PhantomData;
 use std::rc::Rc;
 use thiserror::Error;
@@ -320,7 +321,7 @@ impl<G: Gate, C: BoolCircuit<G>> BoolCircuit<G> for BoolCircuitRef<G, C> {
 }
 */
 
-#[derive(Debug, Clone)]
+#[derive(Clone)]
 pub struct ModuleStorageRef<G: Gate, C: BoolCircuit<G>>(Rc<RefCell<ModuleStorage<G, C>>>);
 
 impl<G: Gate, C: BoolCircuit<G>> ModuleStorageRef<G, C> {
@@ -360,6 +361,16 @@ impl<G: Gate, C: BoolCircuit<G>> ModuleStorageRef<G, C> {
     }
 }
 
+// The modules are not printed, since their circuits refer to the storage again.
+impl<G: Gate, C: BoolCircuit<G>> fmt::Debug for ModuleStorageRef<G, C> {
+    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
+        match self.0.try_borrow() {
+            Ok(storage) => write!(f, "ModuleStorageRef({} modules)", storage.num_module),
+            Err(_) => write!(f, "ModuleStorageRef(<borrowed>)"),
+        }
+    }
+}
+
 #[derive(Debug, Clone)]
 pub struct ModuleStorage<G: Gate, C: BoolCircuit<G>> {
     pub module_map: HashMap<ModuleId, BoolCircuitRef<G, C>>,
-- 
2.43.0

