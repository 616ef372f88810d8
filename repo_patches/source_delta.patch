From 7e095df2b48dcd60484695a2ec620c11be97a738 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 03:46:33 +0000
Subject: [PATCH 01/14] fix: pin the first row of the memory table to cell 0
 with value 0

Without it a proof could walk left of the first cell and read an arbitrary value there.
---
 ckb_bf_base/src/memory_table.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ckb_bf_base/src/memory_table.rs b/ckb_bf_base/src/memory_table.rs
index 0a29020..29c25a8 100644
--- a/ckb_bf_base/src/memory_table.rs
+++ b/ckb_bf_base/src/memory_table.rs
@@ -24,6 +24,7 @@ pub struct MemoryTableConfig {
     mv: Column<Advice>,
     prp: Column<Advice>,
     s_m: Selector, // selector for condition m category (memory table)
+    s_b: Selector, // selector for the first row
     s_prp: Selector,
 }
 
@@ -37,6 +38,7 @@ impl MemoryTable for MemoryTableConfig {
         let prp = cs.advice_column_in(SecondPhase);
         cs.enable_equality(prp);
         let s_m = cs.selector();
+        let s_b = cs.selector();
         let s_prp = cs.selector();
 
         cs.create_gate("M0: memory pointer either increase by one or by zero", |vc| {
@@ -71,12 +73,20 @@ impl MemoryTable for MemoryTableConfig {
             let s_m = vc.query_selector(s_m);
             vec![s_m * (next_mp.clone() - cur_mp.clone()) * (next_mv)]
         });
+
+        cs.create_gate("MB: the tape starts at cell 0, which is zero", |vc| {
+            let mp = vc.query_advice(mp, Rotation::cur());
+            let mv = vc.query_advice(mv, Rotation::cur());
+            let s_b = vc.query_selector(s_b);
+            vec![s_b.clone() * mp, s_b * mv]
+        });
         Self {
             clk,
             mp,
             mv,
             prp,
             s_m,
+            s_b,
             s_prp,
         }
     }
@@ -108,6 +118,7 @@ impl MemoryTable for MemoryTableConfig {
                 // init prp
                 let mut prp_prev =
                     region.assign_advice(|| "prp", self.prp, 0, || Value::known(challenges.mem_prp_init))?;
+                self.s_b.enable(&mut region, 0)?;
                 let memory_matrix = &matrix.memory_matrix;
                 for (idx, row) in memory_matrix.iter().enumerate() {
                     if idx < memory_matrix.len() - 1 {
-- 
2.43.0


From 3fb29b0563d4c2bf74527da5420adbba5362a0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:05 +0000
Subject: [PATCH 02/14] fix: tie the instruction table to the program and end a
 run at its end

The first instruction pointer, the next-instruction column and the row past the program
were unconstrained, so a proof could start elsewhere, jump anywhere or keep running.
---
 ckb_bf_base/src/instruction_table.rs | 26 ++++++++++++++++++++++++++
 ckb_bf_base/src/processor_table.rs   |  6 ++++++
 2 files changed, 32 insertions(+)

diff --git a/ckb_bf_base/src/instruction_table.rs b/ckb_bf_base/src/instruction_table.rs
index d245cd9..a6d08d1 100644
--- a/ckb_bf_base/src/instruction_table.rs
+++ b/ckb_bf_base/src/instruction_table.rs
@@ -28,6 +28,7 @@ pub struct InstructionTableConfig {
     s_prp_adhoc: Selector,
     s_rs: Selector,
     s_i: Selector, // Selector for condition I category (Instruction Table)
+    s_b: Selector, // Selector for the first row
 }
 
 impl InstructionTable for InstructionTableConfig {
@@ -45,6 +46,7 @@ impl InstructionTable for InstructionTableConfig {
         let s_rs = cs.selector();
         let s_prp_adhoc = cs.selector();
         let s_i = cs.selector();
+        let s_b = cs.selector();
 
         cs.create_gate("I0: Instruction pointer increases by 0 or 1", |vc| {
             let cur_ip = vc.query_advice(ip, Rotation::cur());
@@ -70,6 +72,28 @@ impl InstructionTable for InstructionTableConfig {
             let s_i = vc.query_selector(s_i);
             vec![s_i * (next_ip.clone() - cur_ip.clone() - one.clone()) * (next_ni.clone() - cur_ni.clone())]
         });
+
+        cs.create_gate("I3: If ip increases by 1, then ni is the ci of the next row.", |vc| {
+            let cur_ip = vc.query_advice(ip, Rotation::cur());
+            let next_ip = vc.query_advice(ip, Rotation::next());
+            let cur_ni = vc.query_advice(ni, Rotation::cur());
+            let next_ci = vc.query_advice(ci, Rotation::next());
+            let s_i = vc.query_selector(s_i);
+            vec![s_i * (next_ip - cur_ip) * (next_ci - cur_ni)]
+        });
+
+        cs.create_gate("IB: the program starts at ip 0", |vc| {
+            let ip = vc.query_advice(ip, Rotation::cur());
+            let s_b = vc.query_selector(s_b);
+            vec![s_b * ip]
+        });
+
+        cs.create_gate("IE: no instruction past the end of the program", |vc| {
+            let ci = vc.query_advice(ci, Rotation::prev());
+            let ni = vc.query_advice(ni, Rotation::prev());
+            let s_prp_adhoc = vc.query_selector(s_prp_adhoc);
+            vec![s_prp_adhoc.clone() * ci, s_prp_adhoc * ni]
+        });
         Self {
             ip,
             ci,
@@ -77,6 +101,7 @@ impl InstructionTable for InstructionTableConfig {
             prp,
             rs,
             s_i,
+            s_b,
             s_prp,
             s_prp_adhoc,
             s_rs,
@@ -150,6 +175,7 @@ impl InstructionTable for InstructionTableConfig {
                 let mut prp_prev =
                     region.assign_advice(|| "prp", self.prp, 0, || Value::known(challenges.inst_prp_init))?;
                 let mut rs_prev = region.assign_advice(|| "rs", self.rs, 0, || Value::known(Fr::zero()))?;
+                self.s_b.enable(&mut region, 0)?;
                 let instruction_matrix = &matrix.instruction_matrix;
                 self.s_prp_adhoc.enable(&mut region, instruction_matrix.len())?;
                 for (idx, row) in instruction_matrix.iter().enumerate() {
diff --git a/ckb_bf_base/src/processor_table.rs b/ckb_bf_base/src/processor_table.rs
index 1ea21e6..12f12e3 100644
--- a/ckb_bf_base/src/processor_table.rs
+++ b/ckb_bf_base/src/processor_table.rs
@@ -217,6 +217,12 @@ impl<const RANGE: usize> ProcessorTable for ProcessorTableConfig<RANGE> {
             vec![s_p * (expr1 + expr2 + expr_add + expr_sub)]
         });
 
+        cs.create_gate("P_4: only the eight instructions make a step", |vc| {
+            let ci = vc.query_advice(ci, Rotation::cur());
+            let s_p = vc.query_selector(s_p);
+            vec![OPCODES.iter().fold(s_p, |expr, op| expr * create_selector(ci.clone(), *op))]
+        });
+
         Self {
             clk,
             ip,
-- 
2.43.0


From afd130162a002949f655c9e85f22ebb0c4f44cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:18 +0000
Subject: [PATCH 03/14] fix: constrain the first value of every running product
 and running sum

They were only assigned by the honest prover; a product started at zero made the memory
and instruction arguments vacuous.
---
 ckb_bf_base/src/input_table.rs       | 12 +++++++++++-
 ckb_bf_base/src/instruction_table.rs | 12 +++++++++++-
 ckb_bf_base/src/memory_table.rs      |  6 ++++++
 ckb_bf_base/src/output_table.rs      | 13 +++++++++++--
 ckb_bf_base/src/processor_table.rs   | 18 ++++++++++++++++--
 ckb_bf_base/src/program_table.rs     | 12 +++++++++++-
 ckb_bf_base/src/utils.rs             |  2 ++
 7 files changed, 68 insertions(+), 7 deletions(-)

diff --git a/ckb_bf_base/src/input_table.rs b/ckb_bf_base/src/input_table.rs
index a79371c..6f9cbba 100644
--- a/ckb_bf_base/src/input_table.rs
+++ b/ckb_bf_base/src/input_table.rs
@@ -23,6 +23,7 @@ pub struct InputTableConfig {
     input_len: Column<Advice>,
     rs: Column<Advice>, // running sum
     s_rs: Selector,
+    s_b: Selector, // Selector for the first row
 }
 
 impl InputTable for InputTableConfig {
@@ -34,15 +35,23 @@ impl InputTable for InputTableConfig {
         cs.enable_equality(rs);
         cs.enable_equality(input_len);
         let s_rs = cs.selector();
+        let s_b = cs.selector();
         Self {
             val,
             input_len,
             rs,
             s_rs,
+            s_b,
         }
     }
 
     fn configure_second_phase(self, cs: &mut ConstraintSystem<Fr>, challenge: BFChallenge) {
+        cs.create_gate("Running sum starts at its initial value", |vc| {
+            let s_b = vc.query_selector(self.s_b);
+            let rs = vc.query_advice(self.rs, Rotation::cur());
+            vec![s_b * (rs - Expression::Constant(challenge.rs_init))]
+        });
+
         cs.create_gate("Input table should have correct running sum transition", |vc| {
             let val = vc.query_advice(self.val, Rotation::cur());
             let rs_cur = vc.query_advice(self.rs, Rotation::cur());
@@ -65,7 +74,8 @@ impl InputTable for InputTableConfig {
             || "Load input table",
             |mut region| {
                 // init rs_0
-                let mut rs_prev = region.assign_advice(|| "rs", self.rs, 0, || Value::known(Fr::zero()))?;
+                self.s_b.enable(&mut region, 0)?;
+                let mut rs_prev = region.assign_advice(|| "rs", self.rs, 0, || Value::known(challenge.rs_init))?;
                 let len = region.assign_advice(
                     || "Input length",
                     self.input_len,
diff --git a/ckb_bf_base/src/instruction_table.rs b/ckb_bf_base/src/instruction_table.rs
index a6d08d1..7a5637b 100644
--- a/ckb_bf_base/src/instruction_table.rs
+++ b/ckb_bf_base/src/instruction_table.rs
@@ -110,6 +110,16 @@ impl InstructionTable for InstructionTableConfig {
 
     fn configure_second_phase(self, cs: &mut ConstraintSystem<Fr>, challenges: BFChallenge) {
         let one = Expression::Constant(Fr::one());
+        cs.create_gate("Instruction prp and code rs start at their initial values", |vc| {
+            let s_b = vc.query_selector(self.s_b);
+            let prp = vc.query_advice(self.prp, Rotation::cur());
+            let rs = vc.query_advice(self.rs, Rotation::cur());
+            vec![
+                s_b.clone() * (prp - Expression::Constant(challenges.inst_prp_init)),
+                s_b * (rs - Expression::Constant(challenges.rs_init)),
+            ]
+        });
+
         cs.create_gate("Code rs should have valid transition", |vc| {
             let ip_cur = vc.query_advice(self.ip, Rotation::cur());
             let ip_next = vc.query_advice(self.ip, Rotation::next());
@@ -174,7 +184,7 @@ impl InstructionTable for InstructionTableConfig {
             |mut region| {
                 let mut prp_prev =
                     region.assign_advice(|| "prp", self.prp, 0, || Value::known(challenges.inst_prp_init))?;
-                let mut rs_prev = region.assign_advice(|| "rs", self.rs, 0, || Value::known(Fr::zero()))?;
+                let mut rs_prev = region.assign_advice(|| "rs", self.rs, 0, || Value::known(challenges.rs_init))?;
                 self.s_b.enable(&mut region, 0)?;
                 let instruction_matrix = &matrix.instruction_matrix;
                 self.s_prp_adhoc.enable(&mut region, instruction_matrix.len())?;
diff --git a/ckb_bf_base/src/memory_table.rs b/ckb_bf_base/src/memory_table.rs
index 29c25a8..53e0e67 100644
--- a/ckb_bf_base/src/memory_table.rs
+++ b/ckb_bf_base/src/memory_table.rs
@@ -92,6 +92,12 @@ impl MemoryTable for MemoryTableConfig {
     }
 
     fn configure_second_phase(self, cs: &mut ConstraintSystem<Fr>, challenges: BFChallenge) {
+        cs.create_gate("Memory prp starts at its initial value", |vc| {
+            let s_b = vc.query_selector(self.s_b);
+            let prp = vc.query_advice(self.prp, Rotation::cur());
+            vec![s_b * (prp - Expression::Constant(challenges.mem_prp_init))]
+        });
+
         cs.create_gate("Memory prp should have valid transition", |vc| {
             let clk = vc.query_advice(self.clk, Rotation::cur());
             let mp = vc.query_advice(self.mp, Rotation::cur());
diff --git a/ckb_bf_base/src/output_table.rs b/ckb_bf_base/src/output_table.rs
index db47791..b5a352b 100644
--- a/ckb_bf_base/src/output_table.rs
+++ b/ckb_bf_base/src/output_table.rs
@@ -22,6 +22,7 @@ pub struct OutputTableConfig {
     val: Column<Advice>,
     rs: Column<Advice>, // running sum
     s_rs: Selector,
+    s_b: Selector, // Selector for the first row
 }
 
 impl OutputTable for OutputTableConfig {
@@ -30,10 +31,17 @@ impl OutputTable for OutputTableConfig {
         let rs = cs.advice_column_in(SecondPhase);
         cs.enable_equality(rs);
         let s_rs = cs.selector();
-        Self { val, rs, s_rs }
+        let s_b = cs.selector();
+        Self { val, rs, s_rs, s_b }
     }
 
     fn configure_second_phase(self, cs: &mut ConstraintSystem<Fr>, challenge: BFChallenge) {
+        cs.create_gate("Running sum starts at its initial value", |vc| {
+            let s_b = vc.query_selector(self.s_b);
+            let rs = vc.query_advice(self.rs, Rotation::cur());
+            vec![s_b * (rs - Expression::Constant(challenge.rs_init))]
+        });
+
         cs.create_gate("Output table should have correct running sum transition", |vc| {
             let val = vc.query_advice(self.val, Rotation::cur());
             let rs_cur = vc.query_advice(self.rs, Rotation::cur());
@@ -55,7 +63,8 @@ impl OutputTable for OutputTableConfig {
             || "Load output table",
             |mut region| {
                 // init rs_0
-                let mut rs_prev = region.assign_advice(|| "rs", self.rs, 0, || Value::known(Fr::zero()))?;
+                self.s_b.enable(&mut region, 0)?;
+                let mut rs_prev = region.assign_advice(|| "rs", self.rs, 0, || Value::known(challenge.rs_init))?;
                 let output_matrix = &matrix.output_matrix;
                 for (idx, v) in output_matrix.iter().enumerate() {
                     self.s_rs.enable(&mut region, idx)?;
diff --git a/ckb_bf_base/src/processor_table.rs b/ckb_bf_base/src/processor_table.rs
index 12f12e3..3713cca 100644
--- a/ckb_bf_base/src/processor_table.rs
+++ b/ckb_bf_base/src/processor_table.rs
@@ -246,6 +246,20 @@ impl<const RANGE: usize> ProcessorTable for ProcessorTableConfig<RANGE> {
     }
 
     fn configure_second_phase(self, cs: &mut ConstraintSystem<Fr>, challenges: BFChallenge) {
+        cs.create_gate("Running products and sums start at their initial values", |vc| {
+            let s_b = vc.query_selector(self.s_b);
+            [
+                (self.mem_prp, challenges.mem_prp_init),
+                (self.inst_prp, challenges.inst_prp_init),
+                (self.output_rs, challenges.rs_init),
+                (self.input_rs, challenges.rs_init),
+            ]
+            .map(|(col, init)| {
+                let cur = vc.query_advice(col, Rotation::cur());
+                s_b.clone() * (cur - Expression::Constant(init))
+            })
+        });
+
         cs.create_gate("Mem prp should have valid transition", |vc| {
             let clk = vc.query_advice(self.clk, Rotation::cur());
             let mp = vc.query_advice(self.mp, Rotation::cur());
@@ -334,9 +348,9 @@ impl<const RANGE: usize> ProcessorTable for ProcessorTableConfig<RANGE> {
                     || Value::known(challenges.inst_prp_init),
                 )?;
                 let mut output_rs_prev =
-                    region.assign_advice(|| "output rs", self.output_rs, 0, || Value::known(Fr::zero()))?;
+                    region.assign_advice(|| "output rs", self.output_rs, 0, || Value::known(challenges.rs_init))?;
                 let mut input_rs_prev =
-                    region.assign_advice(|| "input rs", self.input_rs, 0, || Value::known(Fr::zero()))?;
+                    region.assign_advice(|| "input rs", self.input_rs, 0, || Value::known(challenges.rs_init))?;
                 let processor_matrix = &matrix.processor_matrix;
                 // B condition is enabled only for the first row
                 self.s_b.enable(&mut region, 0)?;
diff --git a/ckb_bf_base/src/program_table.rs b/ckb_bf_base/src/program_table.rs
index 8a9ec0b..d08ac9f 100644
--- a/ckb_bf_base/src/program_table.rs
+++ b/ckb_bf_base/src/program_table.rs
@@ -24,6 +24,7 @@ pub struct ProgramTableConfig {
     code: Column<Advice>,
     code_rs: Column<Advice>,
     s_rs: Selector,
+    s_b: Selector, // Selector for the first row
 }
 
 impl ProgramTable for ProgramTableConfig {
@@ -32,6 +33,7 @@ impl ProgramTable for ProgramTableConfig {
         let program_len = cs.advice_column_in(FirstPhase);
         let code_rs = cs.advice_column_in(SecondPhase);
         let s_rs = cs.selector();
+        let s_b = cs.selector();
         cs.enable_equality(program_len);
         cs.enable_equality(code);
         cs.enable_equality(code_rs);
@@ -40,9 +42,16 @@ impl ProgramTable for ProgramTableConfig {
             code,
             code_rs,
             s_rs,
+            s_b,
         }
     }
     fn configure_second_phase(self, cs: &mut ConstraintSystem<Fr>, challenges: BFChallenge) {
+        cs.create_gate("Running sum starts at its initial value", |vc| {
+            let s_b = vc.query_selector(self.s_b);
+            let rs = vc.query_advice(self.code_rs, Rotation::cur());
+            vec![s_b * (rs - Expression::Constant(challenges.rs_init))]
+        });
+
         cs.create_gate("Program table rs should have valid transition", |vc| {
             let code = vc.query_advice(self.code, Rotation::cur());
             let gamma = vc.query_challenge(challenges.get_inst_rs_challenges());
@@ -76,7 +85,8 @@ impl ProgramTable for ProgramTableConfig {
                     || Value::known(Fr::from(matrix.program.len() as u64)),
                 )?;
 
-                let mut rs_prev = region.assign_advice(|| "rs", self.code_rs, 0, || Value::known(Fr::zero()))?;
+                self.s_b.enable(&mut region, 0)?;
+                let mut rs_prev = region.assign_advice(|| "rs", self.code_rs, 0, || Value::known(challenges.rs_init))?;
                 for idx in 0..matrix.program.len() {
                     self.s_rs.enable(&mut region, idx)?;
                     let code =
diff --git a/ckb_bf_base/src/utils.rs b/ckb_bf_base/src/utils.rs
index 674d5b8..2312c50 100644
--- a/ckb_bf_base/src/utils.rs
+++ b/ckb_bf_base/src/utils.rs
@@ -40,6 +40,7 @@ pub type BFCell = AssignedCell<Fr, Fr>;
 pub struct BFChallenge {
     pub(crate) mem_prp_init: Fr,
     pub(crate) inst_prp_init: Fr,
+    pub(crate) rs_init: Fr,
     challenges: [Challenge; 11],
 }
 
@@ -49,6 +50,7 @@ impl BFChallenge {
             // TODO: make it random
             mem_prp_init: Fr::from(3),
             inst_prp_init: Fr::from(9),
+            rs_init: Fr::zero(),
             challenges: [(); 11].map(|_| cs.challenge_usable_after(FirstPhase)),
         }
     }
-- 
2.43.0


From 337706f1198d888d3b515e935769d08f17b3ec47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:24 +0000
Subject: [PATCH 04/14] fix: start running sums at one so that leading zero
 inputs count

With a zero start the sums of [0, x] and [x] agree, so a proof could drop leading zero
inputs of the public statement.
---
 ckb_bf_base/src/utils.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ckb_bf_base/src/utils.rs b/ckb_bf_base/src/utils.rs
index 2312c50..29794e5 100644
--- a/ckb_bf_base/src/utils.rs
+++ b/ckb_bf_base/src/utils.rs
@@ -50,7 +50,8 @@ impl BFChallenge {
             // TODO: make it random
             mem_prp_init: Fr::from(3),
             inst_prp_init: Fr::from(9),
-            rs_init: Fr::zero(),
+            // not zero: with zero, leading zero values would not change the sum
+            rs_init: Fr::one(),
             challenges: [(); 11].map(|_| cs.challenge_usable_after(FirstPhase)),
         }
     }
-- 
2.43.0


From 59c34283977ff7c2efc25eedeb01a5e0ec67ee85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:03 +0000
Subject: [PATCH 05/14] fix: program and input length cells are constrained to
 the row counts they stand for

---
 ckb_bf_base/src/input_table.rs   | 4 ++--
 ckb_bf_base/src/main_config.rs   | 3 +++
 ckb_bf_base/src/program_table.rs | 4 ++--
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/ckb_bf_base/src/input_table.rs b/ckb_bf_base/src/input_table.rs
index 6f9cbba..d7362c9 100644
--- a/ckb_bf_base/src/input_table.rs
+++ b/ckb_bf_base/src/input_table.rs
@@ -76,11 +76,11 @@ impl InputTable for InputTableConfig {
                 // init rs_0
                 self.s_b.enable(&mut region, 0)?;
                 let mut rs_prev = region.assign_advice(|| "rs", self.rs, 0, || Value::known(challenge.rs_init))?;
-                let len = region.assign_advice(
+                let len = region.assign_advice_from_constant(
                     || "Input length",
                     self.input_len,
                     0,
-                    || Value::known(Fr::from(matrix.input_matrix.len() as u64)),
+                    Fr::from(matrix.input_matrix.len() as u64),
                 )?;
                 for idx in 0..matrix.input_matrix.len() {
                     self.s_rs.enable(&mut region, idx)?;
diff --git a/ckb_bf_base/src/main_config.rs b/ckb_bf_base/src/main_config.rs
index 8358f41..8f80bbc 100644
--- a/ckb_bf_base/src/main_config.rs
+++ b/ckb_bf_base/src/main_config.rs
@@ -39,6 +39,9 @@ impl<const RANGE: usize> MainTable for MainConfig<RANGE> {
         cs.enable_equality(code);
         let input = cs.instance_column();
         cs.enable_equality(input);
+        // The length cells are constrained to the number of rows they stand for
+        let constants = cs.fixed_column();
+        cs.enable_constant(constants);
         // First phase gates and tables
         let p_config = ProcessorTableConfig::configure(cs);
         let m_config = MemoryTableConfig::configure(cs);
diff --git a/ckb_bf_base/src/program_table.rs b/ckb_bf_base/src/program_table.rs
index d08ac9f..3fb529a 100644
--- a/ckb_bf_base/src/program_table.rs
+++ b/ckb_bf_base/src/program_table.rs
@@ -78,11 +78,11 @@ impl ProgramTable for ProgramTableConfig {
                 // The solution here is to let prover provide the program length, expose the
                 // program length as public
                 // And use constraint_instance to make sure the length is correct
-                let len = region.assign_advice(
+                let len = region.assign_advice_from_constant(
                     || "Program length",
                     self.program_len,
                     0,
-                    || Value::known(Fr::from(matrix.program.len() as u64)),
+                    Fr::from(matrix.program.len() as u64),
                 )?;
 
                 self.s_b.enable(&mut region, 0)?;
-- 
2.43.0


From c151fe150e6e475b406b6b891b17a6591fd31964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:01 +0000
Subject: [PATCH 06/14] fix: final running sums are read from the last
 constrained row

---
 ckb_bf_base/src/instruction_table.rs | 5 ++++-
 ckb_bf_base/src/processor_table.rs   | 7 +++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/ckb_bf_base/src/instruction_table.rs b/ckb_bf_base/src/instruction_table.rs
index 7a5637b..e4b3e36 100644
--- a/ckb_bf_base/src/instruction_table.rs
+++ b/ckb_bf_base/src/instruction_table.rs
@@ -217,7 +217,10 @@ impl InstructionTable for InstructionTableConfig {
                     } else {
                         rs_prev.value().map(|x| *x)
                     };
-                    rs_prev = region.assign_advice(|| "code rs", self.rs, idx + 1, || rs)?;
+                    // No gate ties the running sum of the row past the last one to it
+                    if idx < instruction_matrix.len() - 1 {
+                        rs_prev = region.assign_advice(|| "code rs", self.rs, idx + 1, || rs)?;
+                    }
                 }
                 Ok((rs_prev, prp_prev))
             },
diff --git a/ckb_bf_base/src/processor_table.rs b/ckb_bf_base/src/processor_table.rs
index 3713cca..030fbad 100644
--- a/ckb_bf_base/src/processor_table.rs
+++ b/ckb_bf_base/src/processor_table.rs
@@ -392,8 +392,11 @@ impl<const RANGE: usize> ProcessorTable for ProcessorTableConfig<RANGE> {
                     };
                     mem_prp_prev = region.assign_advice(|| "mem_prp", self.mem_prp, idx + 1, || mem_prp)?;
                     inst_prp_prev = region.assign_advice(|| "inst prp", self.inst_prp, idx + 1, || inst_prp)?;
-                    output_rs_prev = region.assign_advice(|| "output rs", self.output_rs, idx + 1, || output_rs)?;
-                    input_rs_prev = region.assign_advice(|| "input rs", self.input_rs, idx + 1, || input_rs)?;
+                    // No gate ties the running sums of the row past the last one to it
+                    if idx < processor_matrix.len() - 1 {
+                        output_rs_prev = region.assign_advice(|| "output rs", self.output_rs, idx + 1, || output_rs)?;
+                        input_rs_prev = region.assign_advice(|| "input rs", self.input_rs, idx + 1, || input_rs)?;
+                    }
                 }
                 Ok((mem_prp_prev, output_rs_prev, input_rs_prev, inst_prp_prev))
             },
-- 
2.43.0


From bad15659ef52010eeee5602cf05c62eae8af40a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:41 +0000
Subject: [PATCH 07/14] fix: Fq6::is_zero must look at all three coefficients

---
 halo2curves/src/bn256/fq6.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/halo2curves/src/bn256/fq6.rs b/halo2curves/src/bn256/fq6.rs
index cbf8cb1..4679d6e 100644
--- a/halo2curves/src/bn256/fq6.rs
+++ b/halo2curves/src/bn256/fq6.rs
@@ -401,7 +401,7 @@ impl Field for Fq6 {
     }
 
     fn is_zero(&self) -> Choice {
-        self.c0.is_zero() & self.c1.is_zero()
+        self.c0.is_zero() & self.c1.is_zero() & self.c2.is_zero()
     }
 
     fn square(&self) -> Self {
-- 
2.43.0


From 03a2cd42d2dc8e12dccdc68141c98850d03c82ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:41 +0000
Subject: [PATCH 08/14] fix: decoding a non-canonical Fq2 returns None instead
 of panicking

---
 halo2curves/src/bn256/fq2.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/halo2curves/src/bn256/fq2.rs b/halo2curves/src/bn256/fq2.rs
index 56a5674..623ac7c 100644
--- a/halo2curves/src/bn256/fq2.rs
+++ b/halo2curves/src/bn256/fq2.rs
@@ -135,8 +135,8 @@ impl Fq2 {
         let c1 = Fq::from_bytes(bytes[32..64].try_into().unwrap());
         CtOption::new(
             Fq2 {
-                c0: c0.unwrap(),
-                c1: c1.unwrap(),
+                c0: c0.unwrap_or(Fq::zero()),
+                c1: c1.unwrap_or(Fq::zero()),
             },
             c0.is_some() & c1.is_some(),
         )
@@ -548,10 +548,8 @@ impl ff::PrimeField for Fq2 {
     const S: u32 = 0;
 
     fn from_repr(repr: Self::Repr) -> CtOption<Self> {
-        let c0 = Fq::from_bytes(&repr.0[..32].try_into().unwrap());
-        let c1 = Fq::from_bytes(&repr.0[32..].try_into().unwrap());
         // Disallow overflow representation
-        CtOption::new(Fq2::new(c0.unwrap(), c1.unwrap()), Choice::from(1))
+        Self::from_bytes(&repr.0)
     }
 
     fn to_repr(&self) -> Self::Repr {
-- 
2.43.0


From 30b5f7046642bccbde698b6e4fd7878378730585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:10 +0000
Subject: [PATCH 09/14] fix: read_raw rejects points that are not on the curve,
 as SerdeFormat::RawBytes promises

---
 halo2curves/src/derive/curve.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/halo2curves/src/derive/curve.rs b/halo2curves/src/derive/curve.rs
index d8d6c98..4f734e5 100644
--- a/halo2curves/src/derive/curve.rs
+++ b/halo2curves/src/derive/curve.rs
@@ -512,7 +512,11 @@ macro_rules! new_curve_impl {
                 let x = $base::read_raw(reader)?;
                 let y = $base::read_raw(reader)?;
                 let z = $base::read_raw(reader)?;
-                Ok(Self { x, y, z })
+                let res = Self { x, y, z };
+                // Check that the point is on the curve.
+                bool::from(res.is_on_curve())
+                    .then(|| res)
+                    .ok_or("input point is not on the curve")
             }
             fn write_raw<W: crate::io::Write>(&self, writer: &mut W) -> crate::io::Result<()> {
                 self.x.write_raw(writer)?;
@@ -677,7 +681,11 @@ macro_rules! new_curve_impl {
             fn read_raw<R: crate::io::Read>(reader: &mut R) -> crate::io::Result<Self> {
                 let x = $base::read_raw(reader)?;
                 let y = $base::read_raw(reader)?;
-                Ok(Self { x, y })
+                let res = Self { x, y };
+                // Check that the point is on the curve.
+                bool::from(res.is_on_curve())
+                    .then(|| res)
+                    .ok_or("input point is not on the curve")
             }
             fn write_raw<W: crate::io::Write>(&self, writer: &mut W) -> crate::io::Result<()> {
                 self.x.write_raw(writer)?;
-- 
2.43.0


From a35efa2c0902cafa09312a7dfbff986330c5fbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:35 +0000
Subject: [PATCH 10/14] fix: reject compressed points with stray bits next to
 the sign

---
 halo2curves/src/derive/curve.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/halo2curves/src/derive/curve.rs b/halo2curves/src/derive/curve.rs
index 4f734e5..a5e7d12 100644
--- a/halo2curves/src/derive/curve.rs
+++ b/halo2curves/src/derive/curve.rs
@@ -612,8 +612,10 @@ macro_rules! new_curve_impl {
                 tmp[$compressed_size - 1] &= 0b0111_1111;
                 let mut xbytes = [0u8; $base::size()];
                 xbytes.copy_from_slice(&tmp[ ..$base::size()]);
+                // Bits outside of the x coordinate and the sign must be unset
+                let padding = tmp[$base::size()..].iter().fold(0u8, |acc, b| acc | b);
 
-                $base::from_bytes(&xbytes).and_then(|x| {
+                $base::from_bytes(&xbytes).and_then(|x| CtOption::new(x, padding.ct_eq(&0u8))).and_then(|x| {
                     CtOption::new(Self::identity(), x.is_zero() & (!ysign)).or_else(|| {
                         let x3 = x.square() * x;
                         (x3 + $name::curve_constant_b()).sqrt().and_then(|y| {
-- 
2.43.0


From 35c61ea8ca0b4bcc980615394d122b150f50045c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:44 +0000
Subject: [PATCH 11/14] fix: the sign bit of a G2 point tells y from -y when
 y.c0 = 0

---
 halo2curves/src/bn256/fq2.rs    | 3 ++-
 halo2curves/src/derive/curve.rs | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/halo2curves/src/bn256/fq2.rs b/halo2curves/src/bn256/fq2.rs
index 623ac7c..29dd1c6 100644
--- a/halo2curves/src/bn256/fq2.rs
+++ b/halo2curves/src/bn256/fq2.rs
@@ -557,7 +557,8 @@ impl ff::PrimeField for Fq2 {
     }
 
     fn is_odd(&self) -> Choice {
-        Choice::from(self.to_repr().as_ref()[0] & 1)
+        // sgn0 of RFC 9380: an element and its opposite never have the same parity
+        self.c0.is_odd() | (self.c0.is_zero() & self.c1.is_odd())
     }
 
     fn multiplicative_generator() -> Self {
diff --git a/halo2curves/src/derive/curve.rs b/halo2curves/src/derive/curve.rs
index a5e7d12..f17b02f 100644
--- a/halo2curves/src/derive/curve.rs
+++ b/halo2curves/src/derive/curve.rs
@@ -619,7 +619,7 @@ macro_rules! new_curve_impl {
                     CtOption::new(Self::identity(), x.is_zero() & (!ysign)).or_else(|| {
                         let x3 = x.square() * x;
                         (x3 + $name::curve_constant_b()).sqrt().and_then(|y| {
-                            let sign = Choice::from(y.to_bytes()[0] & 1);
+                            let sign = y.is_odd();
 
                             let y = $base::conditional_select(&y, &-y, ysign ^ sign);
 
@@ -644,7 +644,7 @@ macro_rules! new_curve_impl {
                     $name_compressed::default()
                 } else {
                     let (x, y) = (self.x, self.y);
-                    let sign = (y.to_bytes()[0] & 1) << 7;
+                    let sign = y.is_odd().unwrap_u8() << 7;
                     let mut xbytes = [0u8; $compressed_size];
                     xbytes[..$base::size()].copy_from_slice(&x.to_bytes());
                     xbytes[$compressed_size - 1] |= sign;
-- 
2.43.0


From 2bb3859225f92227e2b6c0d725b31d36cc3fbf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:42 +0000
Subject: [PATCH 12/14] fix: derive the KZG batch challenge from the
 accumulated proofs

AccumulatorStrategy scaled by a scalar drawn from a generator with a fixed
seed, so the batching challenge was a public constant: two invalid SHPLONK
proofs whose errors cancel under it were accepted as a batch.
---
 halo2_proofs/src/poly/kzg/strategy.rs | 47 ++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 11 deletions(-)

diff --git a/halo2_proofs/src/poly/kzg/strategy.rs b/halo2_proofs/src/poly/kzg/strategy.rs
index b169332..ff612fd 100644
--- a/halo2_proofs/src/poly/kzg/strategy.rs
+++ b/halo2_proofs/src/poly/kzg/strategy.rs
@@ -15,11 +15,12 @@ use crate::{
     },
     transcript::{EncodedChallenge, TranscriptRead},
 };
-use ff::Field;
-use group::Group;
+use blake2b_simd::Params as Blake2bParams;
+use ff::{Field, PrimeField};
+use group::{Group, GroupEncoding};
 use halo2curves::{
     pairing::{Engine, MillerLoopResult, MultiMillerLoop},
-    CurveAffine,
+    CurveAffine, FieldExt,
 };
 
 /// Wrapper for linear verification accumulator
@@ -65,6 +66,25 @@ impl<'params, E: MultiMillerLoop + Debug> AccumulatorStrategy<'params, E> {
     }
 }
 
+/// Derives the challenge which combines the two accumulators.
+fn batch_challenge<E: MultiMillerLoop + Debug>(
+    acc: &DualMSM<'_, E>,
+    new: &DualMSM<'_, E>,
+) -> E::Scalar {
+    let mut state = Blake2bParams::new()
+        .hash_length(64)
+        .personal(b"Halo2-BatchKZG")
+        .to_state();
+    for msm in [&acc.left, &acc.right, &new.left, &new.right] {
+        state.update(&(msm.scalars.len() as u64).to_le_bytes());
+        for (scalar, base) in msm.scalars.iter().zip(msm.bases.iter()) {
+            state.update(scalar.to_repr().as_ref());
+            state.update(base.to_bytes().as_ref());
+        }
+    }
+    E::Scalar::from_bytes_wide(state.finalize().as_array())
+}
+
 /// A verifier that checks a single proof
 #[derive(Clone, Debug)]
 pub struct SingleStrategy<'params, E: Engine> {
@@ -101,17 +121,22 @@ where
     }
 
     fn process(
-        mut self,
+        self,
         f: impl FnOnce(V::MSMAccumulator) -> Result<V::Guard, Error>,
     ) -> Result<Self::Output, Error> {
-        self.msm_accumulator
-            .scale(E::Scalar::random(crate::get_rng()));
+        let mut msm_accumulator = self.msm_accumulator;
 
-        // Guard is updated with new msm contributions
-        let guard = f(self.msm_accumulator)?;
-        Ok(Self {
-            msm_accumulator: guard.msm_accumulator,
-        })
+        // The msm contributions of this proof alone
+        let guard = f(DualMSM::new(msm_accumulator.params))?;
+
+        // No source of randomness is available here: the batching challenge is
+        // derived from everything it combines, so that it cannot be known before
+        // the proofs of the batch are fixed.
+        let challenge = batch_challenge(&msm_accumulator, &guard.msm_accumulator);
+        msm_accumulator.scale(challenge);
+        msm_accumulator.add_msm(guard.msm_accumulator);
+
+        Ok(Self { msm_accumulator })
     }
 
     fn finalize(self) -> bool {
-- 
2.43.0


From 606cae65ed714734a7ce2634d6fdd1428b3f0f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:04 +0000
Subject: [PATCH 13/14] fix: read selector assignments in the key's format and
 report truncated keys

---
 halo2_proofs/src/plonk.rs                            | 4 +++-
 halo2_proofs/src/plonk/circuit.rs                    | 2 +-
 halo2_proofs/src/plonk/circuit/compress_selectors.rs | 4 ++--
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/halo2_proofs/src/plonk.rs b/halo2_proofs/src/plonk.rs
index 764f06b..03f40a1 100644
--- a/halo2_proofs/src/plonk.rs
+++ b/halo2_proofs/src/plonk.rs
@@ -119,7 +119,9 @@ where
         let mut length = [0u8; 4];
         reader.read_exact(&mut length)?;
         let length = u32::from_be_bytes(length) as usize;
-        let selector_assignments = (0..length).map(|_| SelectorAssignment::read(reader).unwrap()).collect::<Vec<_>>();
+        let selector_assignments = (0..length)
+            .map(|_| SelectorAssignment::read(reader, format))
+            .collect::<Result<Vec<_>, _>>()?;
         let cs = cs.ckb_recreate_side_effect(selector_assignments.clone());
 
         Ok(Self::from_parts(
diff --git a/halo2_proofs/src/plonk/circuit.rs b/halo2_proofs/src/plonk/circuit.rs
index 497da2e..275883c 100644
--- a/halo2_proofs/src/plonk/circuit.rs
+++ b/halo2_proofs/src/plonk/circuit.rs
@@ -782,7 +782,7 @@ impl<F: SerdePrimeField> Expression<F> {
         reader.read_exact(&mut typ)?;
         let expression = match typ[0] {
             0x00 => {
-                let scalar = F::read(reader, format).unwrap();
+                let scalar = F::read(reader, format)?;
                 Ok(Expression::Constant(scalar))
             }
             0x01 => {
diff --git a/halo2_proofs/src/plonk/circuit/compress_selectors.rs b/halo2_proofs/src/plonk/circuit/compress_selectors.rs
index d50b391..95f5f0f 100644
--- a/halo2_proofs/src/plonk/circuit/compress_selectors.rs
+++ b/halo2_proofs/src/plonk/circuit/compress_selectors.rs
@@ -42,14 +42,14 @@ impl<F: SerdePrimeField> SelectorAssignment<F> {
         Ok(())
     }
 
-    pub fn read<R: io::Read>(reader: &mut R) -> io::Result<Self> {
+    pub fn read<R: io::Read>(reader: &mut R, format: SerdeFormat) -> io::Result<Self> {
         let mut selector = [0u8; 4];
         reader.read_exact(&mut selector)?;
         let selector = u32::from_be_bytes(selector) as usize;
         let mut combination_index = [0u8; 4];
         reader.read_exact(&mut combination_index)?;
         let combination_index = u32::from_be_bytes(combination_index) as usize;
-        let expression = Expression::read(reader, SerdeFormat::RawBytes).unwrap();
+        let expression = Expression::read(reader, format)?;
         Ok(Self {
             selector,
             combination_index,
-- 
2.43.0


From 667e1108309d0d3b4917949c49abebe78e7409d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:04 +0000
Subject: [PATCH 14/14] fix: VerifyingKey/ProvingKey::to_bytes no longer panic

---
 halo2_proofs/src/plonk.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/halo2_proofs/src/plonk.rs b/halo2_proofs/src/plonk.rs
index 03f40a1..c59c1c5 100644
--- a/halo2_proofs/src/plonk.rs
+++ b/halo2_proofs/src/plonk.rs
@@ -150,10 +150,9 @@ where
 }
 
 impl<C: CurveAffine> VerifyingKey<C> {
+    /// Capacity hint for [`Self::to_bytes`]: the selector assignments are not counted, as
+    /// `CurveAffine` doesn't have a serialization trait to calculate their size with.
     fn bytes_length(&self) -> usize {
-        // Xiaowen: TODO bytes_length cannot work due to CurveAffine doesn't have a serialization
-        // trait and hence size of selector_assignments cannot be calcualted.
-        panic!("Should not be called");
         8 + (self.fixed_commitments.len() * C::default().to_bytes().as_ref().len())
             + self.permutation.bytes_length()
     }
-- 
2.43.0

