From 8e1a1183e4ea5e7e5f8460b066da2136b14d7b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:18 +0000
Subject: [PATCH 01/64] fix: place global variables below the initial stack
 pointer so program arguments don't overlap them

---
 src/back_end/initialise_memory.rs             | 16 ++++++++-----
 .../stack_allocation/allocate_vars.rs         | 18 ++++++--------
 .../stack_allocation/naive_allocation.rs      | 24 ++++++++++++-------
 src/back_end/target_code_generation.rs        | 14 +++++++----
 4 files changed, 41 insertions(+), 31 deletions(-)

diff --git a/src/back_end/initialise_memory.rs b/src/back_end/initialise_memory.rs
index 5c209bb..b9a33ff 100644
--- a/src/back_end/initialise_memory.rs
+++ b/src/back_end/initialise_memory.rs
@@ -16,10 +16,11 @@ pub fn initialise_memory(
     wasm_module: &mut WasmModule,
     module_context: &mut ModuleContext,
     prog_metadata: &ProgramMetadata,
+    global_vars_byte_size: u32,
 ) -> u32 {
-    // ----------------------------------------------------------
-    // | FP | temp FP | SP | String literals | ...stack frames...
-    // ----------------------------------------------------------
+    // ------------------------------------------------------------------------
+    // | FP | temp FP | SP | String literals | Global vars | ...stack frames...
+    // ------------------------------------------------------------------------
     // initialise with placeholder values for frame ptr and stack ptr
     let mut data: Vec<u8> = vec![0x00; (3 * PTR_SIZE) as usize];
 
@@ -40,8 +41,11 @@ pub fn initialise_memory(
         data.push(0x00);
     }
 
-    // set stack ptr to point at top of stack
-    let stack_ptr_value = data.len();
+    let global_vars_start_addr = data.len() as u32;
+
+    // set stack ptr to point at top of stack, after the space for global vars. The runtime puts
+    // the program arguments there before any code runs, so they mustn't overlap the global vars.
+    let stack_ptr_value = global_vars_start_addr + global_vars_byte_size;
     info!("Setting stack ptr to {}", stack_ptr_value);
     data[STACK_PTR_ADDR as usize] = (stack_ptr_value & 0xFF) as u8;
     data[(STACK_PTR_ADDR + 1) as usize] = ((stack_ptr_value >> 8) & 0xFF) as u8;
@@ -69,5 +73,5 @@ pub fn initialise_memory(
     };
     wasm_module.imports_section.imports.push(memory_import);
 
-    stack_ptr_value as u32
+    global_vars_start_addr
 }
diff --git a/src/back_end/stack_allocation/allocate_vars.rs b/src/back_end/stack_allocation/allocate_vars.rs
index 7832453..85b2803 100644
--- a/src/back_end/stack_allocation/allocate_vars.rs
+++ b/src/back_end/stack_allocation/allocate_vars.rs
@@ -2,7 +2,7 @@ use std::collections::HashMap;
 
 use crate::back_end::memory_constants::PTR_SIZE;
 use crate::back_end::stack_allocation::naive_allocation::{
-    naive_allocate_global_vars, naive_allocate_local_vars,
+    global_vars_byte_size, naive_allocate_global_vars, naive_allocate_local_vars,
 };
 use crate::back_end::stack_allocation::optimised_allocation::optimised_allocate_local_vars;
 use crate::back_end::target_code_generation_context::ModuleContext;
@@ -80,16 +80,12 @@ pub fn allocate_local_vars(
 
 pub fn allocate_global_vars(
     block: &Block,
-    initial_top_of_stack_addr: u32,
-    wasm_instrs: &mut Vec<WasmInstruction>,
-    module_context: &ModuleContext,
+    global_vars_start_addr: u32,
     prog_metadata: &ProgramMetadata,
 ) -> VariableAllocationMap {
-    naive_allocate_global_vars(
-        block,
-        initial_top_of_stack_addr,
-        wasm_instrs,
-        module_context,
-        prog_metadata,
-    )
+    naive_allocate_global_vars(block, global_vars_start_addr, prog_metadata)
+}
+
+pub fn get_global_vars_byte_size(block: &Block, prog_metadata: &ProgramMetadata) -> u32 {
+    global_vars_byte_size(block, prog_metadata)
 }
diff --git a/src/back_end/stack_allocation/naive_allocation.rs b/src/back_end/stack_allocation/naive_allocation.rs
index 4e86782..1aa785f 100644
--- a/src/back_end/stack_allocation/naive_allocation.rs
+++ b/src/back_end/stack_allocation/naive_allocation.rs
@@ -51,17 +51,13 @@ pub fn naive_allocate_local_vars(
 
 pub fn naive_allocate_global_vars(
     block: &Block,
-    initial_top_of_stack_addr: u32,
-    wasm_instrs: &mut Vec<WasmInstruction>,
-    module_context: &ModuleContext,
+    global_vars_start_addr: u32,
     prog_metadata: &ProgramMetadata,
 ) -> VariableAllocationMap {
     let global_vars = get_vars_from_block(block, prog_metadata);
 
     let mut var_addrs = HashMap::new();
-    let mut addr = initial_top_of_stack_addr;
-    // how much to increment the stack pointer by when we've allocated all vars
-    let mut stack_ptr_increment = 0;
+    let mut addr = global_vars_start_addr;
 
     // calculate addr of each global var
     for (var_id, var_type) in global_vars {
@@ -73,10 +69,20 @@ pub fn naive_allocate_global_vars(
         };
         var_addrs.insert(var_id, addr);
         addr += byte_size as u32;
-        stack_ptr_increment += byte_size as u32;
     }
 
-    increment_stack_ptr_by_known_offset(stack_ptr_increment, wasm_instrs, module_context);
-
     var_addrs
 }
+
+/// The total number of bytes needed to store all the global vars
+pub fn global_vars_byte_size(block: &Block, prog_metadata: &ProgramMetadata) -> u32 {
+    get_vars_from_block(block, prog_metadata)
+        .values()
+        .map(|var_type| match var_type.get_byte_size(prog_metadata) {
+            TypeSize::CompileTime(byte_size) => byte_size as u32,
+            TypeSize::Runtime(_) => {
+                unreachable!()
+            }
+        })
+        .sum()
+}
diff --git a/src/back_end/target_code_generation.rs b/src/back_end/target_code_generation.rs
index 887ba25..02c8fc9 100644
--- a/src/back_end/target_code_generation.rs
+++ b/src/back_end/target_code_generation.rs
@@ -10,7 +10,9 @@ use crate::back_end::memory_operations::{
     load, load_constant, load_src, load_var, load_var_address, store, store_var,
 };
 use crate::back_end::profiler::initialise_profiler;
-use crate::back_end::stack_allocation::allocate_vars::{allocate_global_vars, allocate_local_vars};
+use crate::back_end::stack_allocation::allocate_vars::{
+    allocate_global_vars, allocate_local_vars, get_global_vars_byte_size,
+};
 use crate::back_end::stack_frame_operations::{
     increment_stack_ptr_by_known_offset, increment_stack_ptr_dynamic, load_frame_ptr,
     load_stack_ptr, overwrite_current_stack_frame_with_new_stack_frame, pop_stack_frame,
@@ -56,10 +58,14 @@ pub fn generate_target_code(
 
     module_context.calculate_func_idxs(&imported_functions, &defined_functions);
 
-    let initial_top_of_stack_addr = initialise_memory(
+    let global_vars_start_addr = initialise_memory(
         &mut wasm_module,
         &mut module_context,
         &prog.program_metadata,
+        match &prog.program_blocks.global_instrs {
+            Some(global_block) => get_global_vars_byte_size(global_block, &prog.program_metadata),
+            None => 0,
+        },
     );
 
     let mut func_idx_to_type_idx_map: HashMap<FuncIdx, TypeIdx> = HashMap::new();
@@ -103,9 +109,7 @@ pub fn generate_target_code(
     if let Some(global_block) = prog.program_blocks.global_instrs {
         global_var_addrs = allocate_global_vars(
             &global_block,
-            initial_top_of_stack_addr,
-            &mut global_wasm_instrs,
-            &module_context,
+            global_vars_start_addr,
             &prog.program_metadata,
         );
 
-- 
2.43.0


From ae4afd43257d29530d4c4596162789712fdf6133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:55 +0000
Subject: [PATCH 02/64] fix: don't allocate assigned global variables in the
 stack frame or treat their stores as dead

---
 .../dataflow_analysis/dead_code_analysis.rs       | 15 +++++++++++++--
 src/back_end/stack_allocation/allocate_vars.rs    | 10 ++++++++--
 src/back_end/stack_allocation/naive_allocation.rs |  8 ++++----
 .../stack_allocation/optimised_allocation.rs      | 11 ++++++-----
 src/back_end/target_code_generation.rs            |  1 +
 5 files changed, 32 insertions(+), 13 deletions(-)

diff --git a/src/back_end/dataflow_analysis/dead_code_analysis.rs b/src/back_end/dataflow_analysis/dead_code_analysis.rs
index 699fa22..8f233d9 100644
--- a/src/back_end/dataflow_analysis/dead_code_analysis.rs
+++ b/src/back_end/dataflow_analysis/dead_code_analysis.rs
@@ -1,15 +1,20 @@
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 
 use log::debug;
 
 use crate::back_end::dataflow_analysis::flowgraph::{generate_flowgraph, Flowgraph};
 use crate::back_end::dataflow_analysis::instruction_def_ref::def_set;
 use crate::back_end::dataflow_analysis::live_variable_analysis::live_variable_analysis;
+use crate::middle_end::ids::VarId;
 use crate::middle_end::instructions::Instruction;
 use crate::middle_end::ir::ProgramMetadata;
 use crate::relooper::blocks::Block;
 
-pub fn remove_dead_vars(block: &mut Block, prog_metadata: &mut ProgramMetadata) -> Flowgraph {
+pub fn remove_dead_vars(
+    block: &mut Block,
+    global_vars: &HashSet<VarId>,
+    prog_metadata: &mut ProgramMetadata,
+) -> Flowgraph {
     let mut flowgraph = generate_flowgraph(block);
 
     let mut changes = true;
@@ -30,6 +35,12 @@ pub fn remove_dead_vars(block: &mut Block, prog_metadata: &mut ProgramMetadata)
 
             let mut at_least_one_def_is_live = false;
             for def_var in defs {
+                // a global var can be read by any other function, even if it isn't live here
+                if global_vars.contains(&def_var) {
+                    at_least_one_def_is_live = true;
+                    break;
+                }
+
                 // if none of the defined vars are live at any of the successors of this instr,
                 // the instr is dead
 
diff --git a/src/back_end/stack_allocation/allocate_vars.rs b/src/back_end/stack_allocation/allocate_vars.rs
index 85b2803..646e2a8 100644
--- a/src/back_end/stack_allocation/allocate_vars.rs
+++ b/src/back_end/stack_allocation/allocate_vars.rs
@@ -20,6 +20,7 @@ pub fn allocate_local_vars(
     wasm_instrs: &mut Vec<WasmInstruction>,
     fun_type: IrType,
     fun_param_var_mappings: Vec<VarId>,
+    global_var_addrs: &VariableAllocationMap,
     module_context: &ModuleContext,
     prog_metadata: &mut ProgramMetadata,
     enabled_optimisations: &EnabledOptimisations,
@@ -55,10 +56,15 @@ pub fn allocate_local_vars(
         offset += param_byte_size as u32;
     }
 
+    // params already have a location, and global vars live outside the stack frame
+    let mut vars_not_to_allocate = fun_param_var_mappings;
+    vars_not_to_allocate.extend(global_var_addrs.keys().cloned());
+
     if enabled_optimisations.is_stack_allocation_optimisation_enabled() {
         optimised_allocate_local_vars(
             block,
-            &fun_param_var_mappings,
+            &vars_not_to_allocate,
+            &global_var_addrs.keys().cloned().collect(),
             offset,
             var_offsets,
             wasm_instrs,
@@ -68,7 +74,7 @@ pub fn allocate_local_vars(
     } else {
         naive_allocate_local_vars(
             block,
-            &fun_param_var_mappings,
+            &vars_not_to_allocate,
             offset,
             var_offsets,
             wasm_instrs,
diff --git a/src/back_end/stack_allocation/naive_allocation.rs b/src/back_end/stack_allocation/naive_allocation.rs
index 1aa785f..4b2f201 100644
--- a/src/back_end/stack_allocation/naive_allocation.rs
+++ b/src/back_end/stack_allocation/naive_allocation.rs
@@ -12,7 +12,7 @@ use crate::relooper::blocks::Block;
 
 pub fn naive_allocate_local_vars(
     block: &Block,
-    param_vars_not_to_allocate_again: &Vec<VarId>,
+    vars_not_to_allocate: &Vec<VarId>,
     start_offset: u32,
     mut var_offsets: VariableAllocationMap,
     wasm_instrs: &mut Vec<WasmInstruction>,
@@ -21,9 +21,9 @@ pub fn naive_allocate_local_vars(
 ) -> VariableAllocationMap {
     // get all vars used in this block -- all the variables to allocate
     let mut vars = get_vars_from_block(block, prog_metadata);
-    // remove param vars, cos we don't need to allocate them again
-    for param_var in param_vars_not_to_allocate_again {
-        vars.remove(param_var);
+    // remove param and global vars, cos we don't need to allocate them again
+    for var in vars_not_to_allocate {
+        vars.remove(var);
     }
 
     let mut offset = 0;
diff --git a/src/back_end/stack_allocation/optimised_allocation.rs b/src/back_end/stack_allocation/optimised_allocation.rs
index 4ff43a9..c683097 100644
--- a/src/back_end/stack_allocation/optimised_allocation.rs
+++ b/src/back_end/stack_allocation/optimised_allocation.rs
@@ -21,14 +21,15 @@ type VarAllocationStack = Vec<VarAndByteSizePair>;
 
 pub fn optimised_allocate_local_vars(
     block: &mut Block,
-    param_vars_not_to_allocate_again: &Vec<VarId>,
+    vars_not_to_allocate: &Vec<VarId>,
+    global_vars: &HashSet<VarId>,
     start_offset: u32,
     var_offsets: VariableAllocationMap,
     wasm_instrs: &mut Vec<WasmInstruction>,
     module_context: &ModuleContext,
     prog_metadata: &mut ProgramMetadata,
 ) -> VariableAllocationMap {
-    remove_dead_vars(block, prog_metadata);
+    remove_dead_vars(block, global_vars, prog_metadata);
 
     debug!("removed dead vars: {}", block);
 
@@ -38,9 +39,9 @@ pub fn optimised_allocate_local_vars(
 
     // get all vars used in this block -- all the variables to allocate
     let mut vars_to_allocate = get_vars_from_block(block, prog_metadata);
-    // remove param vars, cos we don't need to allocate them again
-    for param_var in param_vars_not_to_allocate_again {
-        vars_to_allocate.remove(param_var);
+    // remove param and global vars, cos we don't need to allocate them again
+    for var in vars_not_to_allocate {
+        vars_to_allocate.remove(var);
     }
 
     // pop vars from clash graph onto a stack
diff --git a/src/back_end/target_code_generation.rs b/src/back_end/target_code_generation.rs
index 02c8fc9..70c05d3 100644
--- a/src/back_end/target_code_generation.rs
+++ b/src/back_end/target_code_generation.rs
@@ -266,6 +266,7 @@ pub fn generate_target_code(
                 &mut function_wasm_instrs,
                 function.type_info,
                 function.param_var_mappings,
+                &global_var_addrs,
                 &module_context,
                 &mut prog.program_metadata,
                 enabled_optimisations,
-- 
2.43.0


From 289e0a730ed9f9b3f2617037d40f050be9e6f9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:39 +0000
Subject: [PATCH 03/64] fix: don't remove stores to variables whose address is
 taken as dead

---
 .../dataflow_analysis/dead_code_analysis.rs         |  6 ++++--
 src/back_end/dataflow_analysis/flowgraph.rs         | 13 ++++++++++++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/back_end/dataflow_analysis/dead_code_analysis.rs b/src/back_end/dataflow_analysis/dead_code_analysis.rs
index 8f233d9..55bd947 100644
--- a/src/back_end/dataflow_analysis/dead_code_analysis.rs
+++ b/src/back_end/dataflow_analysis/dead_code_analysis.rs
@@ -22,6 +22,7 @@ pub fn remove_dead_vars(
         changes = false;
 
         let live_vars = live_variable_analysis(&flowgraph);
+        let address_taken_vars = flowgraph.address_taken_vars();
 
         let mut remove_instrs = Vec::new();
         let mut replace_instrs = HashMap::new();
@@ -35,8 +36,9 @@ pub fn remove_dead_vars(
 
             let mut at_least_one_def_is_live = false;
             for def_var in defs {
-                // a global var can be read by any other function, even if it isn't live here
-                if global_vars.contains(&def_var) {
+                // a global var can be read by any other function, and an address-taken var through
+                // a pointer, even if it isn't live here
+                if global_vars.contains(&def_var) || address_taken_vars.contains(&def_var) {
                     at_least_one_def_is_live = true;
                     break;
                 }
diff --git a/src/back_end/dataflow_analysis/flowgraph.rs b/src/back_end/dataflow_analysis/flowgraph.rs
index de93829..8e36e2f 100644
--- a/src/back_end/dataflow_analysis/flowgraph.rs
+++ b/src/back_end/dataflow_analysis/flowgraph.rs
@@ -1,6 +1,6 @@
 use std::collections::{HashMap, HashSet};
 
-use crate::middle_end::ids::InstructionId;
+use crate::middle_end::ids::{InstructionId, VarId};
 use crate::middle_end::instructions::Instruction;
 use crate::relooper::blocks::Block;
 
@@ -46,6 +46,17 @@ impl Flowgraph {
             .insert(instr_id);
     }
 
+    /// All the variables whose address is taken, so that might be accessed through a pointer
+    pub fn address_taken_vars(&self) -> HashSet<VarId> {
+        self.instrs
+            .values()
+            .filter_map(|instr| match instr {
+                Instruction::AddressOf(_, _, src) => src.unwrap_var().ok(),
+                _ => None,
+            })
+            .collect()
+    }
+
     pub fn remove_instr(&mut self, instr_id: &InstructionId) {
         // if instr not in flowgraph, nothing to do
         if !self.instrs.contains_key(instr_id) {
-- 
2.43.0


From 0a4b06cd9ac289db26e8db4781e6b9d065026fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:26 +0000
Subject: [PATCH 04/64] fix: repeat dead variable removal until nothing
 changes, on an up-to-date flowgraph

---
 .../dataflow_analysis/dead_code_analysis.rs   | 18 +++++++---
 src/back_end/dataflow_analysis/flowgraph.rs   | 34 -------------------
 2 files changed, 13 insertions(+), 39 deletions(-)

diff --git a/src/back_end/dataflow_analysis/dead_code_analysis.rs b/src/back_end/dataflow_analysis/dead_code_analysis.rs
index 55bd947..cef1c82 100644
--- a/src/back_end/dataflow_analysis/dead_code_analysis.rs
+++ b/src/back_end/dataflow_analysis/dead_code_analysis.rs
@@ -72,6 +72,11 @@ pub fn remove_dead_vars(
             } else {
                 // do the instr, but don't assign to dest
                 match instr {
+                    Instruction::Call(_id, dest, _fun_id, _params)
+                        if prog_metadata.is_var_the_null_dest(dest) =>
+                    {
+                        // already replaced
+                    }
                     Instruction::Call(id, _dest, fun_id, params) => {
                         let new_instr = Instruction::Call(
                             id.to_owned(),
@@ -88,13 +93,16 @@ pub fn remove_dead_vars(
         }
 
         for instr_id in remove_instrs {
-            flowgraph.remove_instr(&instr_id);
-            block.remove_instr(&instr_id);
+            changes |= block.remove_instr(&instr_id);
         }
         for (instr_id, new_instr) in replace_instrs {
-            block.replace_instr(&instr_id, new_instr.to_owned());
-            // overwrite the existing instr
-            flowgraph.instrs.insert(instr_id, new_instr);
+            changes |= block.replace_instr(&instr_id, new_instr);
+        }
+
+        // removing an instr can make the definitions it referenced dead as well, so analyse the
+        // changed block again
+        if changes {
+            flowgraph = generate_flowgraph(block);
         }
     }
 
diff --git a/src/back_end/dataflow_analysis/flowgraph.rs b/src/back_end/dataflow_analysis/flowgraph.rs
index 8e36e2f..5fbf012 100644
--- a/src/back_end/dataflow_analysis/flowgraph.rs
+++ b/src/back_end/dataflow_analysis/flowgraph.rs
@@ -56,40 +56,6 @@ impl Flowgraph {
             })
             .collect()
     }
-
-    pub fn remove_instr(&mut self, instr_id: &InstructionId) {
-        // if instr not in flowgraph, nothing to do
-        if !self.instrs.contains_key(instr_id) {
-            return;
-        }
-        let mut successors = self.successors.remove(instr_id).unwrap();
-        let mut predecessors = self.predecessors.remove(instr_id).unwrap();
-        // just in case
-        successors.remove(instr_id);
-        predecessors.remove(instr_id);
-
-        self.instrs.remove(instr_id);
-        self.successors.remove(instr_id);
-        self.predecessors.remove(instr_id);
-
-        for successor_id in self.successors.keys() {
-            self.predecessors
-                .insert(successor_id.to_owned(), predecessors.to_owned());
-        }
-        for predecessor_id in self.predecessors.keys() {
-            self.successors
-                .insert(predecessor_id.to_owned(), successors.to_owned());
-        }
-
-        if self.entries.contains(instr_id) {
-            self.entries.remove(instr_id);
-            self.entries.extend(successors);
-        }
-        if self.exits.contains(instr_id) {
-            self.exits.remove(instr_id);
-            self.exits.extend(predecessors);
-        }
-    }
 }
 
 pub fn generate_flowgraph(relooper_block: &Block) -> Flowgraph {
-- 
2.43.0


From 85acf29c30ce884d884fd67bd3f67a1ea92be4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:58 +0000
Subject: [PATCH 05/64] fix: account for empty branches and blocks in the
 flowgraph, and for definitions that aren't live in the clash graph

---
 src/back_end/dataflow_analysis/clash_graph.rs | 18 +++++++++-
 src/back_end/dataflow_analysis/flowgraph.rs   | 35 +++++++++++++++----
 2 files changed, 45 insertions(+), 8 deletions(-)

diff --git a/src/back_end/dataflow_analysis/clash_graph.rs b/src/back_end/dataflow_analysis/clash_graph.rs
index 431d579..e5d62da 100644
--- a/src/back_end/dataflow_analysis/clash_graph.rs
+++ b/src/back_end/dataflow_analysis/clash_graph.rs
@@ -3,6 +3,7 @@ use std::fmt;
 use std::fmt::Formatter;
 
 use crate::back_end::dataflow_analysis::flowgraph::{generate_flowgraph, Flowgraph};
+use crate::back_end::dataflow_analysis::instruction_def_ref::def_set;
 use crate::back_end::dataflow_analysis::live_variable_analysis::live_variable_analysis;
 use crate::middle_end::ids::VarId;
 use crate::middle_end::instructions::Instruction;
@@ -108,7 +109,7 @@ pub fn generate_clash_graph(block: &Block) -> ClashGraph {
 
     let mut clash_graph = ClashGraph::new();
 
-    for (_instr, simultaneously_live_vars) in live_vars {
+    for simultaneously_live_vars in live_vars.values() {
         if simultaneously_live_vars.len() < 2 {
             // no clashes
             for var in simultaneously_live_vars {
@@ -128,6 +129,21 @@ pub fn generate_clash_graph(block: &Block) -> ClashGraph {
         }
     }
 
+    // a var that's defined by an instr that we have to keep even though the var isn't live after it
+    // mustn't overwrite any var that is live after the instr
+    for (instr_id, instr) in &flowgraph.instrs {
+        for def_var in def_set(instr) {
+            clash_graph.add_var(def_var.to_owned());
+            for successor in flowgraph.successors.get(instr_id).unwrap() {
+                for live_var in live_vars.get(successor).unwrap() {
+                    if live_var != &def_var {
+                        clash_graph.add_clash(def_var.to_owned(), live_var.to_owned());
+                    }
+                }
+            }
+        }
+    }
+
     // any var that we take address of should clash with everything else,
     // to ensure safety of analysis
     insert_universal_clashes_for_address_taken_vars(&mut clash_graph, &flowgraph);
diff --git a/src/back_end/dataflow_analysis/flowgraph.rs b/src/back_end/dataflow_analysis/flowgraph.rs
index 5fbf012..6045f9a 100644
--- a/src/back_end/dataflow_analysis/flowgraph.rs
+++ b/src/back_end/dataflow_analysis/flowgraph.rs
@@ -105,6 +105,11 @@ fn add_block_to_flowgraph_and_get_entries_and_exits(
 
                 jump_exit_instrs.extend(next_jump_exit_instrs);
 
+                if successors.is_empty() {
+                    // there are no instrs in the next block, so this block is the last one
+                    return (block_entry_instrs, block_exit_instrs, jump_exit_instrs);
+                }
+
                 for successor in successors {
                     for end_of_block_instr in &block_exit_instrs {
                         flowgraph
@@ -206,9 +211,15 @@ fn add_block_to_flowgraph_and_get_entries_and_exits(
             }
 
             if let Some(next) = next {
-                let (next_entry_instrs, next_exit_instrs, next_jump_exit_instrs) =
+                let (next_entry_instrs, mut next_exit_instrs, next_jump_exit_instrs) =
                     add_block_to_flowgraph_and_get_entries_and_exits(next, flowgraph);
 
+                if next_entry_instrs.is_empty() {
+                    // there are no instrs in the next block, so the handled blocks are the last ones
+                    next_exit_instrs.extend(pre_handled_exits.to_owned());
+                    next_exit_instrs.extend(all_handled_exit_instrs.to_owned());
+                }
+
                 // could skip handled blocks and go straight to next block
                 if pre_handled_exits.is_empty() {
                     entry_instrs.extend(next_entry_instrs.to_owned());
@@ -236,6 +247,9 @@ fn add_block_to_flowgraph_and_get_entries_and_exits(
 
                 (entry_instrs, next_exit_instrs, all_handled_jump_exit_instrs)
             } else {
+                // could skip all the handled blocks
+                all_handled_exit_instrs.extend(pre_handled_exits);
+
                 (
                     entry_instrs,
                     all_handled_exit_instrs,
@@ -297,16 +311,23 @@ fn add_instrs_to_flowgraph(
                     flowgraph.add_successor(prev_instr_id.to_owned(), instr_id.to_owned());
                 }
 
-                let (instrs1_entry, instrs1_exits, instrs1_jump_exits) =
+                let (instrs1_entry, mut instrs1_exits, instrs1_jump_exits) =
                     add_instrs_to_flowgraph(instrs1, flowgraph);
-                let (instrs2_entry, instrs2_exits, instrs2_jump_exits) =
+                let (instrs2_entry, mut instrs2_exits, instrs2_jump_exits) =
                     add_instrs_to_flowgraph(instrs2, flowgraph);
 
-                if let Some(entry) = instrs1_entry {
-                    flowgraph.add_successor(instr_id.to_owned(), entry);
+                // an empty branch goes straight from the condition to whatever follows
+                match instrs1_entry {
+                    Some(entry) => flowgraph.add_successor(instr_id.to_owned(), entry),
+                    None => {
+                        instrs1_exits.insert(instr_id.to_owned());
+                    }
                 }
-                if let Some(entry) = instrs2_entry {
-                    flowgraph.add_successor(instr_id.to_owned(), entry);
+                match instrs2_entry {
+                    Some(entry) => flowgraph.add_successor(instr_id.to_owned(), entry),
+                    None => {
+                        instrs2_exits.insert(instr_id.to_owned());
+                    }
                 }
 
                 prev_instrs.clear();
-- 
2.43.0


From 6e46bb05dcc3e420bcdd9130af5e19151b2e1f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:10 +0000
Subject: [PATCH 06/64] fix: keep the sign when widening, complete the
 arithmetic conversions, and give integer constants their C types

---
 .../dataflow_analysis/instruction_def_ref.rs  |   6 +
 .../stack_allocation/get_vars_from_block.rs   |   3 +
 src/back_end/target_code_generation.rs        |  57 ++++++
 src/middle_end/ast_to_ir.rs                   |  16 +-
 src/middle_end/instructions.rs                |  25 ++-
 src/middle_end/type_conversions.rs            | 165 ++++++++++++++----
 6 files changed, 223 insertions(+), 49 deletions(-)

diff --git a/src/back_end/dataflow_analysis/instruction_def_ref.rs b/src/back_end/dataflow_analysis/instruction_def_ref.rs
index 4205ad9..447cbb0 100644
--- a/src/back_end/dataflow_analysis/instruction_def_ref.rs
+++ b/src/back_end/dataflow_analysis/instruction_def_ref.rs
@@ -57,6 +57,9 @@ pub fn def_set(instr: &Instruction) -> HashSet<VarId> {
         | Instruction::I64toF64(_, dest, _)
         | Instruction::F32toF64(_, dest, _)
         | Instruction::F64toI32(_, dest, _)
+        | Instruction::F64toI64(_, dest, _)
+        | Instruction::F64toU64(_, dest, _)
+        | Instruction::F64toF32(_, dest, _)
         | Instruction::I32toI8(_, dest, _)
         | Instruction::U32toI8(_, dest, _)
         | Instruction::I64toI8(_, dest, _)
@@ -114,6 +117,9 @@ pub fn ref_set(instr: &Instruction) -> HashSet<VarId> {
         | Instruction::I64toF64(_, _, src)
         | Instruction::F32toF64(_, _, src)
         | Instruction::F64toI32(_, _, src)
+        | Instruction::F64toI64(_, _, src)
+        | Instruction::F64toU64(_, _, src)
+        | Instruction::F64toF32(_, _, src)
         | Instruction::I32toI8(_, _, src)
         | Instruction::U32toI8(_, _, src)
         | Instruction::I64toI8(_, _, src)
diff --git a/src/back_end/stack_allocation/get_vars_from_block.rs b/src/back_end/stack_allocation/get_vars_from_block.rs
index 06cba07..668616a 100644
--- a/src/back_end/stack_allocation/get_vars_from_block.rs
+++ b/src/back_end/stack_allocation/get_vars_from_block.rs
@@ -114,6 +114,9 @@ fn get_vars_from_instrs(
             | Instruction::I64toF64(_, dest, _)
             | Instruction::F32toF64(_, dest, _)
             | Instruction::F64toI32(_, dest, _)
+            | Instruction::F64toI64(_, dest, _)
+            | Instruction::F64toU64(_, dest, _)
+            | Instruction::F64toF32(_, dest, _)
             | Instruction::I32toI8(_, dest, _)
             | Instruction::U32toI8(_, dest, _)
             | Instruction::I64toI8(_, dest, _)
diff --git a/src/back_end/target_code_generation.rs b/src/back_end/target_code_generation.rs
index 70c05d3..c5930f7 100644
--- a/src/back_end/target_code_generation.rs
+++ b/src/back_end/target_code_generation.rs
@@ -2182,6 +2182,63 @@ fn convert_ir_instr_to_wasm(
                 prog_metadata,
             );
         }
+        Instruction::F64toI64(_, dest, src) => {
+            let mut temp_instrs = Vec::new();
+            load_src(
+                src,
+                IrType::F64,
+                &mut temp_instrs,
+                function_context,
+                prog_metadata,
+            );
+            // convert f64 to i64
+            temp_instrs.push(WasmInstruction::I64TruncF64S);
+            store_var(
+                dest,
+                temp_instrs,
+                wasm_instrs,
+                function_context,
+                prog_metadata,
+            );
+        }
+        Instruction::F64toU64(_, dest, src) => {
+            let mut temp_instrs = Vec::new();
+            load_src(
+                src,
+                IrType::F64,
+                &mut temp_instrs,
+                function_context,
+                prog_metadata,
+            );
+            // convert f64 to u64
+            temp_instrs.push(WasmInstruction::I64TruncF64U);
+            store_var(
+                dest,
+                temp_instrs,
+                wasm_instrs,
+                function_context,
+                prog_metadata,
+            );
+        }
+        Instruction::F64toF32(_, dest, src) => {
+            let mut temp_instrs = Vec::new();
+            load_src(
+                src,
+                IrType::F64,
+                &mut temp_instrs,
+                function_context,
+                prog_metadata,
+            );
+            // convert f64 to f32
+            temp_instrs.push(WasmInstruction::F32DemoteF64);
+            store_var(
+                dest,
+                temp_instrs,
+                wasm_instrs,
+                function_context,
+                prog_metadata,
+            );
+        }
         Instruction::Nop(..) => {
             // do nothing
         }
diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 6b59e47..ac2fb3d 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -2131,7 +2131,21 @@ pub fn convert_expression_to_ir(
                     Some(x) => x,
                 };
             // get conversion instrs into cast type
-            let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
+            let mut expr_var = expr_var;
+            let mut expr_var_type = expr_var.get_type(&prog.program_metadata)?;
+            if expr_var_type.is_integral_type() && cast_type.is_pointer_type() {
+                // an integer can be explicitly cast to any pointer type
+                let void_ptr_type = IrType::PointerTo(Box::new(IrType::Void));
+                let (mut ptr_instrs, ptr_var) = get_type_conversion_instrs(
+                    expr_var,
+                    expr_var_type,
+                    void_ptr_type.to_owned(),
+                    prog,
+                )?;
+                instrs.append(&mut ptr_instrs);
+                expr_var = ptr_var;
+                expr_var_type = void_ptr_type;
+            }
             let (mut cast_instrs, dest) =
                 get_type_conversion_instrs(expr_var, expr_var_type, cast_type, prog)?;
             instrs.append(&mut cast_instrs);
diff --git a/src/middle_end/instructions.rs b/src/middle_end/instructions.rs
index dc5bfdd..12a186b 100644
--- a/src/middle_end/instructions.rs
+++ b/src/middle_end/instructions.rs
@@ -22,15 +22,11 @@ impl Constant {
                         return t;
                     }
                 }
+                // an integer constant has the first of these types that can represent it
                 match i {
-                    0..=255 => IrType::U8,
-                    -128..=127 => IrType::I8,
-                    0..=65_535 => IrType::U16,
-                    -32_768..=32_767 => IrType::I16,
-                    0..=4_294_967_296 => IrType::U32,
                     -2_147_483_648..=2_147_483_647 => IrType::I32,
-                    0..=18_446_744_073_709_551_615 => IrType::U64,
-                    _ => IrType::I64,
+                    -9_223_372_036_854_775_808..=9_223_372_036_854_775_807 => IrType::I64,
+                    _ => IrType::U64,
                 }
             }
             Constant::Float(_) => IrType::F64,
@@ -39,12 +35,7 @@ impl Constant {
 
     pub fn get_type_minimum_i32(&self) -> IrType {
         match self {
-            Constant::Int(i) => match i {
-                0..=4_294_967_296 => IrType::U32,
-                -2_147_483_648..=2_147_483_647 => IrType::I32,
-                0..=18_446_744_073_709_551_615 => IrType::U64,
-                _ => IrType::I64,
-            },
+            Constant::Int(_) => self.get_type(None),
             Constant::Float(_) => IrType::F64,
         }
     }
@@ -226,6 +217,11 @@ pub enum Instruction {
 
     // double to int
     F64toI32(InstructionId, Dest, Src),
+    // double to long
+    F64toI64(InstructionId, Dest, Src),
+    F64toU64(InstructionId, Dest, Src),
+    // double to float
+    F64toF32(InstructionId, Dest, Src),
 
     // integer truncation
     I32toI8(InstructionId, Dest, Src),
@@ -324,6 +320,9 @@ impl Instruction {
             | Instruction::I64toF64(id, _, _)
             | Instruction::F32toF64(id, _, _)
             | Instruction::F64toI32(id, _, _)
+            | Instruction::F64toI64(id, _, _)
+            | Instruction::F64toU64(id, _, _)
+            | Instruction::F64toF32(id, _, _)
             | Instruction::I32toI8(id, _, _)
             | Instruction::U32toI8(id, _, _)
             | Instruction::I64toI8(id, _, _)
diff --git a/src/middle_end/type_conversions.rs b/src/middle_end/type_conversions.rs
index 5f140c9..392c134 100644
--- a/src/middle_end/type_conversions.rs
+++ b/src/middle_end/type_conversions.rs
@@ -1,6 +1,6 @@
 use log::trace;
 
-use crate::middle_end::instructions::{Instruction, Src};
+use crate::middle_end::instructions::{Constant, Instruction, Src};
 use crate::middle_end::ir::Program;
 use crate::middle_end::ir_types::IrType;
 use crate::middle_end::middle_end_error::MiddleEndError;
@@ -320,23 +320,13 @@ pub fn get_type_conversion_instrs(
         // char promotions
         (IrType::I8, dest_type) => {
             let intermediate_var = prog.new_var(src.get_value_type());
-            let intermediate_type;
-            if dest_type.is_signed_integral() {
-                instrs.push(Instruction::I8toI16(
-                    prog.new_instr_id(),
-                    intermediate_var.to_owned(),
-                    src,
-                ));
-                intermediate_type = IrType::I16;
-            } else {
-                // unsigned
-                instrs.push(Instruction::I8toU16(
-                    prog.new_instr_id(),
-                    intermediate_var.to_owned(),
-                    src,
-                ));
-                intermediate_type = IrType::U16;
-            }
+            // sign-extend first, so that conversions to unsigned and float types keep the value
+            instrs.push(Instruction::I8toI16(
+                prog.new_instr_id(),
+                intermediate_var.to_owned(),
+                src,
+            ));
+            let intermediate_type = IrType::I16;
             prog.add_var_type(intermediate_var.to_owned(), intermediate_type.to_owned())?;
             let (mut convert_instrs, dest) = get_type_conversion_instrs(
                 Src::Var(intermediate_var),
@@ -384,23 +374,13 @@ pub fn get_type_conversion_instrs(
         }
         (IrType::I16, dest_type) => {
             let intermediate_var = prog.new_var(src.get_value_type());
-            let intermediate_type;
-            if dest_type.is_signed_integral() {
-                instrs.push(Instruction::I16toI32(
-                    prog.new_instr_id(),
-                    intermediate_var.to_owned(),
-                    src,
-                ));
-                intermediate_type = IrType::I32;
-            } else {
-                // unsigned
-                instrs.push(Instruction::I16toU32(
-                    prog.new_instr_id(),
-                    intermediate_var.to_owned(),
-                    src,
-                ));
-                intermediate_type = IrType::U32;
-            }
+            // sign-extend first, so that conversions to unsigned and float types keep the value
+            instrs.push(Instruction::I16toI32(
+                prog.new_instr_id(),
+                intermediate_var.to_owned(),
+                src,
+            ));
+            let intermediate_type = IrType::I32;
             prog.add_var_type(intermediate_var.to_owned(), intermediate_type.to_owned())?;
             let (mut convert_instrs, dest) = get_type_conversion_instrs(
                 Src::Var(intermediate_var),
@@ -510,6 +490,19 @@ pub fn get_type_conversion_instrs(
             ));
             Ok((instrs, Src::Var(dest)))
         }
+        // null pointer constant
+        (t, IrType::PointerTo(pointed_type))
+            if t.is_integral_type() && matches!(src, Src::Constant(Constant::Int(0))) =>
+        {
+            let dest = prog.new_var(src.get_value_type());
+            prog.add_var_type(dest.to_owned(), IrType::PointerTo(pointed_type))?;
+            instrs.push(Instruction::I32toPtr(
+                prog.new_instr_id(),
+                dest.to_owned(),
+                src,
+            ));
+            Ok((instrs, Src::Var(dest)))
+        }
         // cast to void *
         (IrType::I32, IrType::PointerTo(t)) if *t == IrType::Void => {
             let dest = prog.new_var(src.get_value_type());
@@ -727,6 +720,108 @@ pub fn get_type_conversion_instrs(
             Ok((instrs, Src::Var(dest)))
         }
 
+        (IrType::F64, IrType::F32) => {
+            let dest = prog.new_var(src.get_value_type());
+            prog.add_var_type(dest.to_owned(), IrType::F32)?;
+            instrs.push(Instruction::F64toF32(
+                prog.new_instr_id(),
+                dest.to_owned(),
+                src,
+            ));
+            Ok((instrs, Src::Var(dest)))
+        }
+        (IrType::F64, IrType::I64) => {
+            let dest = prog.new_var(src.get_value_type());
+            prog.add_var_type(dest.to_owned(), IrType::I64)?;
+            instrs.push(Instruction::F64toI64(
+                prog.new_instr_id(),
+                dest.to_owned(),
+                src,
+            ));
+            Ok((instrs, Src::Var(dest)))
+        }
+        (IrType::F64, IrType::U64) => {
+            let dest = prog.new_var(src.get_value_type());
+            prog.add_var_type(dest.to_owned(), IrType::U64)?;
+            instrs.push(Instruction::F64toU64(
+                prog.new_instr_id(),
+                dest.to_owned(),
+                src,
+            ));
+            Ok((instrs, Src::Var(dest)))
+        }
+        // double to a narrower integer type
+        (IrType::F64, dest_type) if dest_type.is_integral_type() => {
+            let intermediate_var = prog.new_var(src.get_value_type());
+            prog.add_var_type(intermediate_var.to_owned(), IrType::I64)?;
+            instrs.push(Instruction::F64toI64(
+                prog.new_instr_id(),
+                intermediate_var.to_owned(),
+                src,
+            ));
+            let (mut convert_instrs, dest) = get_type_conversion_instrs(
+                Src::Var(intermediate_var),
+                IrType::I64,
+                dest_type,
+                prog,
+            )?;
+            instrs.append(&mut convert_instrs);
+            Ok((instrs, dest))
+        }
+
+        // these have the same type on the wasm stack, and are truncated when stored
+        (IrType::I32 | IrType::U32, t @ (IrType::I16 | IrType::U16))
+        | (IrType::U32, t @ IrType::I32)
+        | (IrType::U64, t @ IrType::I64)
+        | (IrType::PointerTo(_), t @ IrType::U32) => {
+            let dest = prog.new_var(src.get_value_type());
+            prog.add_var_type(dest.to_owned(), t)?;
+            instrs.push(Instruction::SimpleAssignment(
+                prog.new_instr_id(),
+                dest.to_owned(),
+                src,
+            ));
+            Ok((instrs, Src::Var(dest)))
+        }
+        (IrType::I64, t @ (IrType::U32 | IrType::I16 | IrType::U16)) => {
+            let dest = prog.new_var(src.get_value_type());
+            prog.add_var_type(dest.to_owned(), t)?;
+            instrs.push(Instruction::I64toI32(
+                prog.new_instr_id(),
+                dest.to_owned(),
+                src,
+            ));
+            Ok((instrs, Src::Var(dest)))
+        }
+        (IrType::U64, t @ (IrType::U32 | IrType::I16 | IrType::U16)) => {
+            let dest = prog.new_var(src.get_value_type());
+            prog.add_var_type(dest.to_owned(), t)?;
+            instrs.push(Instruction::U64toI32(
+                prog.new_instr_id(),
+                dest.to_owned(),
+                src,
+            ));
+            Ok((instrs, Src::Var(dest)))
+        }
+        // float conversions to other types go via double, which represents every float exactly
+        (IrType::F32, dest_type) if dest_type.is_arithmetic_type() && dest_type != IrType::F64 => {
+            let intermediate_var = prog.new_var(src.get_value_type());
+            prog.add_var_type(intermediate_var.to_owned(), IrType::F64)?;
+            instrs.push(Instruction::F32toF64(
+                prog.new_instr_id(),
+                intermediate_var.to_owned(),
+                src,
+            ));
+            let (mut convert_instrs, dest) = get_type_conversion_instrs(
+                Src::Var(intermediate_var),
+                IrType::F64,
+                dest_type,
+                prog,
+            )?;
+            instrs.append(&mut convert_instrs);
+            Ok((instrs, dest))
+        }
+
         (IrType::Function(_, _, _), IrType::PointerTo(t))
         | (IrType::ArrayOf(_, _), IrType::PointerTo(t)) => {
             let dest = prog.new_var(src.get_value_type());
-- 
2.43.0


From 2da04be87c50b2c678c8043ac750610eda9403b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:24 +0000
Subject: [PATCH 07/64] fix: convert arguments and return values to their
 declared types, apply the default promotions to varargs, and print them as C
 does

---
 runtime/number_operations.mjs | 36 ++++++++++++++++++++++++++++++
 runtime/stdlib/stdio.mjs      | 19 ++++++++--------
 src/middle_end/ast_to_ir.rs   | 41 +++++++++++++++++++++++++++++++----
 src/middle_end/context.rs     |  3 +++
 4 files changed, 86 insertions(+), 13 deletions(-)

diff --git a/runtime/number_operations.mjs b/runtime/number_operations.mjs
index 16f9777..e26eff5 100644
--- a/runtime/number_operations.mjs
+++ b/runtime/number_operations.mjs
@@ -20,3 +20,39 @@ export function signed_to_unsigned_i64(value) {
     }
     return value;
 }
+
+// format a double in the same way as C's %f, ie. rounded (half to even) to 6 decimal places
+export function format_double(value) {
+  if (Number.isNaN(value)) {
+    return "nan";
+  }
+  const sign = value < 0 || Object.is(value, -0) ? "-" : "";
+  const magnitude = Math.abs(value);
+  if (magnitude === Infinity) {
+    return `${sign}inf`;
+  }
+  // the exact value of the double is mantissa * 2^exponent
+  const bits = new DataView(new ArrayBuffer(8));
+  bits.setFloat64(0, magnitude);
+  const raw = bits.getBigUint64(0);
+  const biased_exponent = raw >> 52n;
+  const fraction = raw & 0xfffffffffffffn;
+  const mantissa = biased_exponent === 0n ? fraction : fraction | (1n << 52n);
+  const exponent = (biased_exponent === 0n ? 1n : biased_exponent) - 1075n;
+
+  const decimal_places = 6;
+  const scaled = mantissa * 10n ** BigInt(decimal_places);
+  let rounded;
+  if (exponent >= 0n) {
+    rounded = scaled << exponent;
+  } else {
+    const divisor = 1n << -exponent;
+    rounded = scaled / divisor;
+    const double_remainder = (scaled % divisor) * 2n;
+    if (double_remainder > divisor || (double_remainder === divisor && (rounded & 1n) === 1n)) {
+      rounded += 1n;
+    }
+  }
+  const digits = rounded.toString().padStart(decimal_places + 1, "0");
+  return `${sign}${digits.slice(0, -decimal_places)}.${digits.slice(-decimal_places)}`;
+}
diff --git a/runtime/stdlib/stdio.mjs b/runtime/stdlib/stdio.mjs
index 19b5029..12f28f1 100644
--- a/runtime/stdlib/stdio.mjs
+++ b/runtime/stdlib/stdio.mjs
@@ -1,9 +1,7 @@
 import {
     F64_SIZE,
-    I16_SIZE,
     I32_SIZE,
     I64_SIZE,
-    I8_SIZE,
     PTR_SIZE,
 } from "../memory_constants.mjs";
 import {
@@ -14,7 +12,7 @@ import {
     read_string,
     read_double,
 } from "../memory_operations.mjs";
-import {signed_to_unsigned_i16, signed_to_unsigned_i32, signed_to_unsigned_i64} from "../number_operations.mjs";
+import {format_double, signed_to_unsigned_i16, signed_to_unsigned_i32, signed_to_unsigned_i64} from "../number_operations.mjs";
 
 // print a null-terminated string from memory to console
 // int printf(const char *format, ...);
@@ -74,7 +72,8 @@ export function printf(wasm_memory) {
                             if (c != "i" && c != "d" && c != "u") {
                                 console.log("Error: invalid format specifier to printf");
                             }
-                            value = next_vararg_int(I16_SIZE);
+                            // shorts are promoted to int when passed as varargs
+                            value = BigInt.asIntN(16, next_vararg_int(I32_SIZE));
                             if (c === "u") {
                                 value = signed_to_unsigned_i16(value);
                             }
@@ -92,11 +91,12 @@ export function printf(wasm_memory) {
                             break;
                         case "f":
                             // double
-                            value = next_vararg_double();
+                            value = format_double(next_vararg_double());
                             break;
                         case "c":
                             // char
-                            value = next_vararg_int(I8_SIZE);
+                            // chars are promoted to int when passed as varargs
+                            value = Number(BigInt.asUintN(8, next_vararg_int(I32_SIZE)));
                             value = String.fromCharCode(value);
                             break;
                         case "s":
@@ -118,9 +118,10 @@ export function printf(wasm_memory) {
             c = next_char();
         }
 
-        process.stdout.write(str); // only works in node.js, use console.log otherwise, but that prints newline
+        // each char of str is one byte of output
+        process.stdout.write(str, "latin1"); // only works in node.js, use console.log otherwise, but that prints newline
 
-        // write return value
-        store_int(fp + PTR_SIZE, I32_SIZE, 0n, memory);
+        // return value is the number of chars printed
+        store_int(fp + PTR_SIZE, I32_SIZE, BigInt(str.length), memory);
     };
 }
diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index ac2fb3d..f0a4a27 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -78,7 +78,22 @@ fn convert_statement_to_ir(
             Some(expr) => {
                 let (mut expr_instrs, expr_var) = convert_expression_to_ir(expr, prog, context)?;
                 instrs.append(&mut expr_instrs);
-                instrs.push(Instruction::Ret(prog.new_instr_id(), Some(expr_var)));
+                let return_src = match &context.function_return_type {
+                    Some(return_type) => {
+                        // the returned value is converted as if by assignment
+                        let expr_type = expr_var.get_type(&prog.program_metadata)?;
+                        let (mut convert_instrs, return_src) = convert_type_for_assignment(
+                            expr_var,
+                            expr_type,
+                            return_type.to_owned(),
+                            prog,
+                        )?;
+                        instrs.append(&mut convert_instrs);
+                        return_src
+                    }
+                    None => expr_var,
+                };
+                instrs.push(Instruction::Ret(prog.new_instr_id(), Some(return_src)));
             }
         },
         Statement::While(cond, body) => {
@@ -682,7 +697,11 @@ fn convert_statement_to_ir(
             let fun_id = prog.new_fun_body(name.to_owned(), fun_declaration)?;
             context.add_function_declaration(name.to_owned(), fun_id)?;
             // function body instructions
+            if let IrType::Function(return_type, _, _) = &type_info {
+                context.function_return_type = Some((**return_type).to_owned());
+            }
             let instrs = convert_statement_to_ir(*body, prog, context)?;
+            context.function_return_type = None;
             // update function in program with full body
             let fun = Function::new(instrs, type_info, param_var_mappings);
             prog.new_fun_body(name, fun)?;
@@ -847,12 +866,26 @@ pub fn convert_expression_to_ir(
             let fun_id = fun_var.require_function_id()?;
             let dest_type = fun_var.get_function_return_type(prog)?;
 
+            let param_types = match fun_var.get_type(&prog.program_metadata)? {
+                IrType::Function(_, param_types, _) => param_types,
+                _ => return Err(MiddleEndError::UnwrapNonFunctionType),
+            };
             let mut param_srcs: Vec<Src> = Vec::new();
-            for param in params {
+            for (i, param) in params.into_iter().enumerate() {
                 let (mut param_instrs, param_var) = convert_expression_to_ir(param, prog, context)?;
-                // todo function parameter passing type conversions
                 instrs.append(&mut param_instrs);
-                param_srcs.push(param_var);
+                // arguments are converted to the parameter type as if by assignment, or
+                // undergo the default argument promotions if there's no matching parameter
+                let arg_type = param_var.get_type(&prog.program_metadata)?;
+                let param_type = match param_types.get(i) {
+                    Some(param_type) => array_to_pointer_type(param_type.to_owned()),
+                    None if arg_type == IrType::F32 => IrType::F64,
+                    None => arg_type.unary_convert(),
+                };
+                let (mut convert_instrs, param_src) =
+                    convert_type_for_assignment(param_var, arg_type, param_type, prog)?;
+                instrs.append(&mut convert_instrs);
+                param_srcs.push(param_src);
             }
             let dest = prog.new_var(ValueType::RValue);
             prog.add_var_type(dest.to_owned(), dest_type)?;
diff --git a/src/middle_end/context.rs b/src/middle_end/context.rs
index 364dd08..0383eb4 100644
--- a/src/middle_end/context.rs
+++ b/src/middle_end/context.rs
@@ -15,6 +15,8 @@ pub struct Context {
     pub in_function_name_expr: bool,
     function_names: HashMap<String, FunId>,
     pub directly_on_lhs_of_assignment: bool,
+    // the return type of the function currently being converted
+    pub function_return_type: Option<IrType>,
 }
 
 pub enum IdentifierResolveResult {
@@ -30,6 +32,7 @@ impl Context {
             in_function_name_expr: false,
             function_names: HashMap::new(),
             directly_on_lhs_of_assignment: false,
+            function_return_type: None,
         }
     }
 
-- 
2.43.0


From 9dda70a1555f27fd937ce668b8e523581cc3564c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:08 +0000
Subject: [PATCH 08/64] fix: tail calls from functions with addressed
 variables, several tail calls in one function, and overlapping tail call
 parameters

---
 src/back_end/stack_frame_operations.rs        | 21 +++++++++++++++++--
 .../tail_call_optimise.rs                     | 15 ++++++++++++-
 2 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/back_end/stack_frame_operations.rs b/src/back_end/stack_frame_operations.rs
index d5b2e1b..22ae3dc 100644
--- a/src/back_end/stack_frame_operations.rs
+++ b/src/back_end/stack_frame_operations.rs
@@ -385,10 +385,27 @@ pub fn overwrite_current_stack_frame_with_new_stack_frame(
     // before we copy them to their new param position
     // use temp_fp to hold the stack ptr value, so we can offset from it while
     // constructing the new stack frame
-    // todo make sure this is definitely after the space for all the new params
     set_temp_frame_ptr_to_stack_ptr(wasm_instrs);
 
-    let mut temp_stack_ptr_offset = 0;
+    // make sure the temp space is definitely after the space for all the new params
+    let return_type_byte_size = return_type
+        .get_byte_size(prog_metadata)
+        .get_compile_time_value()
+        .unwrap();
+    let mut temp_stack_ptr_offset = PTR_SIZE as u64 + return_type_byte_size;
+    for (param_index, param) in params.iter().enumerate() {
+        let param_type = match param {
+            Src::Constant(constant) if param_index >= param_types.len() => {
+                constant.get_type_minimum_i32()
+            }
+            Src::Constant(_) => param_types.get(param_index).unwrap().to_owned(),
+            _ => param.get_type(prog_metadata).unwrap(),
+        };
+        temp_stack_ptr_offset += param_type
+            .get_byte_size(prog_metadata)
+            .get_compile_time_value()
+            .unwrap();
+    }
     let mut param_var_stack_ptr_offsets = HashMap::new();
     for param_index in 0..params.len() {
         let param = params.get(param_index).unwrap();
diff --git a/src/middle_end/middle_end_optimiser/tail_call_optimise.rs b/src/middle_end/middle_end_optimiser/tail_call_optimise.rs
index 5b2106c..2f390e2 100644
--- a/src/middle_end/middle_end_optimiser/tail_call_optimise.rs
+++ b/src/middle_end/middle_end_optimiser/tail_call_optimise.rs
@@ -8,6 +8,18 @@ pub fn tail_call_optimise(
     param_var_mappings: &[VarId],
     prog_metadata: &mut ProgramMetadata,
 ) {
+    // a tail call reuses this function's stack frame, so isn't possible if the callee
+    // might be passed the address of something in the stack frame
+    let has_addressed_vars = fun_instrs.iter().any(|instr| {
+        matches!(
+            instr,
+            Instruction::AddressOf(..) | Instruction::AllocateVariable(..)
+        )
+    });
+    if has_addressed_vars {
+        return;
+    }
+
     // find any call instructions that are the last instruction of a function
 
     // instr index, call instr parameters
@@ -97,7 +109,8 @@ pub fn tail_call_optimise(
         }
     }
 
-    for (replace_index, remove_count, new_instrs) in replace_instrs {
+    // replace from the end backwards, so that the other indices stay correct
+    for (replace_index, remove_count, new_instrs) in replace_instrs.into_iter().rev() {
         for _ in 0..remove_count {
             fun_instrs.remove(replace_index);
         }
-- 
2.43.0


From a38cafc234b77753664568fa66125212f88554f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:23 +0000
Subject: [PATCH 09/64] fix: value and type of ++, --, unary +, -, ! and
 assignment expressions

---
 src/back_end/memory_operations.rs      |   8 +-
 src/back_end/target_code_generation.rs |   6 +-
 src/middle_end/ast_to_ir.rs            | 126 ++++++++++++++++++-------
 src/middle_end/instructions.rs         |   4 +-
 4 files changed, 98 insertions(+), 46 deletions(-)

diff --git a/src/back_end/memory_operations.rs b/src/back_end/memory_operations.rs
index 06bbbac..2761865 100644
--- a/src/back_end/memory_operations.rs
+++ b/src/back_end/memory_operations.rs
@@ -182,15 +182,11 @@ pub fn load_constant(
         },
         IrType::F32 => match constant {
             Constant::Float(z) => wasm_instrs.push(WasmInstruction::F32Const { z: z as f32 }),
-            Constant::Int(_) => {
-                unreachable!()
-            }
+            Constant::Int(n) => wasm_instrs.push(WasmInstruction::F32Const { z: n as f32 }),
         },
         IrType::F64 => match constant {
             Constant::Float(z) => wasm_instrs.push(WasmInstruction::F64Const { z }),
-            Constant::Int(_) => {
-                unreachable!()
-            }
+            Constant::Int(n) => wasm_instrs.push(WasmInstruction::F64Const { z: n as f64 }),
         },
         t => {
             debug!("{}", t);
diff --git a/src/back_end/target_code_generation.rs b/src/back_end/target_code_generation.rs
index c5930f7..0cb1bc5 100644
--- a/src/back_end/target_code_generation.rs
+++ b/src/back_end/target_code_generation.rs
@@ -640,12 +640,12 @@ fn convert_ir_instr_to_wasm(
             // logical not is implemented as a test-for-zero and set
             //
             // load src
-            let dest_type = prog_metadata.get_var_type(&dest).unwrap();
+            let src_type = src.get_type(prog_metadata).unwrap();
 
             let mut temp_instrs = Vec::new();
             load_src(
                 src,
-                dest_type.to_owned(),
+                src_type.to_owned(),
                 &mut temp_instrs,
                 function_context,
                 prog_metadata,
@@ -653,7 +653,7 @@ fn convert_ir_instr_to_wasm(
 
             // logical not
             // test if src is zero
-            match dest_type {
+            match src_type {
                 IrType::I8
                 | IrType::U8
                 | IrType::I16
diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index f0a4a27..16330f7 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -718,6 +718,23 @@ fn convert_statement_to_ir(
     Ok(instrs)
 }
 
+/// the amount that ++ and -- change a value of the given type by
+fn increment_step(object_type: &IrType, prog: &Program) -> Result<Constant, MiddleEndError> {
+    match object_type {
+        IrType::F32 | IrType::F64 => Ok(Constant::Float(1.0)),
+        IrType::PointerTo(_) => {
+            // pointers move by one whole element
+            match object_type.get_pointer_object_byte_size(&prog.program_metadata)? {
+                TypeSize::CompileTime(byte_size) => Ok(Constant::Int(byte_size as i128)),
+                TypeSize::Runtime(_) => Err(MiddleEndError::InvalidOperation(
+                    "Incrementing a pointer to an object of unknown size",
+                )),
+            }
+        }
+        _ => Ok(Constant::Int(1)),
+    }
+}
+
 /// returns the list of instructions generated, and the name of the temp variable
 /// the result is assigned to
 pub fn convert_expression_to_ir(
@@ -1044,16 +1061,21 @@ pub fn convert_expression_to_ir(
             context.directly_on_lhs_of_assignment = false;
             instrs.append(&mut expr_instrs);
             let dest = prog.new_var(ValueType::RValue);
-            // propagate the type of dest: same as src
-            let (mut unary_convert_instrs, expr_var) = unary_convert(expr_var, prog)?;
-            instrs.append(&mut unary_convert_instrs);
             let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
-            // check type is valid to be incremented
-            if !expr_var_type.is_scalar_type() {
+            let object_type = match &expr_var {
+                Src::StoreAddressVar(_) => expr_var_type.dereference_pointer_type()?,
+                _ => expr_var_type.to_owned(),
+            };
+            // check type is valid to be modified
+            if !expr_var.get_value_type().is_lvalue() {
+                return Err(MiddleEndError::AttemptToModifyNonLValue);
+            }
+            if !object_type.is_scalar_type() {
                 return Err(MiddleEndError::InvalidOperation(
                     "Incrementing a non-scalar type",
                 ));
             }
+            let step = increment_step(&object_type, prog)?;
             match expr_var {
                 Src::Var(var) => {
                     // the returned value is the variable before incrementing
@@ -1068,7 +1090,7 @@ pub fn convert_expression_to_ir(
                         prog.new_instr_id(),
                         var.to_owned(),
                         Src::Var(var),
-                        Src::Constant(Constant::Int(1)),
+                        Src::Constant(step),
                     ));
                 }
                 Src::StoreAddressVar(var) => {
@@ -1102,7 +1124,7 @@ pub fn convert_expression_to_ir(
                         prog.new_instr_id(),
                         result.to_owned(),
                         Src::Var(src_to_increment),
-                        Src::Constant(Constant::Int(1)),
+                        Src::Constant(step),
                     ));
 
                     // store value back
@@ -1122,16 +1144,21 @@ pub fn convert_expression_to_ir(
             context.directly_on_lhs_of_assignment = false;
             instrs.append(&mut expr_instrs);
             let dest = prog.new_var(ValueType::RValue);
-            // propagate the type of dest: same as src
-            let (mut unary_convert_instrs, expr_var) = unary_convert(expr_var, prog)?;
-            instrs.append(&mut unary_convert_instrs);
             let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
-            // check type is valid to be incremented
-            if !expr_var_type.is_scalar_type() {
+            let object_type = match &expr_var {
+                Src::StoreAddressVar(_) => expr_var_type.dereference_pointer_type()?,
+                _ => expr_var_type.to_owned(),
+            };
+            // check type is valid to be modified
+            if !expr_var.get_value_type().is_lvalue() {
+                return Err(MiddleEndError::AttemptToModifyNonLValue);
+            }
+            if !object_type.is_scalar_type() {
                 return Err(MiddleEndError::InvalidOperation(
                     "Decrementing a non-scalar type",
                 ));
             }
+            let step = increment_step(&object_type, prog)?;
             match expr_var {
                 Src::Var(var) => {
                     // the returned value is the variable before decrementing
@@ -1146,7 +1173,7 @@ pub fn convert_expression_to_ir(
                         prog.new_instr_id(),
                         var.to_owned(),
                         Src::Var(var),
-                        Src::Constant(Constant::Int(1)),
+                        Src::Constant(step),
                     ));
                 }
                 Src::StoreAddressVar(var) => {
@@ -1180,7 +1207,7 @@ pub fn convert_expression_to_ir(
                         prog.new_instr_id(),
                         result.to_owned(),
                         Src::Var(src_to_decrement),
-                        Src::Constant(Constant::Int(1)),
+                        Src::Constant(step),
                     ));
 
                     // store value back
@@ -1202,22 +1229,28 @@ pub fn convert_expression_to_ir(
             // make sure the result is an rvalue
             let dest = prog.new_var(ValueType::RValue);
             // expr_var is the variable returned, after incrementing
-            // check type is valid to be incremented
-            let (mut unary_convert_instrs, expr_var) = unary_convert(expr_var, prog)?;
-            instrs.append(&mut unary_convert_instrs);
             let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
-            if !expr_var_type.is_scalar_type() {
+            let object_type = match &expr_var {
+                Src::StoreAddressVar(_) => expr_var_type.dereference_pointer_type()?,
+                _ => expr_var_type.to_owned(),
+            };
+            // check type is valid to be modified
+            if !expr_var.get_value_type().is_lvalue() {
+                return Err(MiddleEndError::AttemptToModifyNonLValue);
+            }
+            if !object_type.is_scalar_type() {
                 return Err(MiddleEndError::InvalidOperation(
                     "Incrementing a non-scalar type",
                 ));
             }
+            let step = increment_step(&object_type, prog)?;
             match expr_var {
                 Src::Var(var) => {
                     instrs.push(Instruction::Add(
                         prog.new_instr_id(),
                         var.to_owned(),
                         Src::Var(var.to_owned()),
-                        Src::Constant(Constant::Int(1)),
+                        Src::Constant(step),
                     ));
                     prog.add_var_type(dest.to_owned(), expr_var_type)?;
                     instrs.push(Instruction::SimpleAssignment(
@@ -1249,7 +1282,7 @@ pub fn convert_expression_to_ir(
                         prog.new_instr_id(),
                         result.to_owned(),
                         Src::Var(src_to_increment),
-                        Src::Constant(Constant::Int(1)),
+                        Src::Constant(step),
                     ));
 
                     debug!(
@@ -1285,22 +1318,28 @@ pub fn convert_expression_to_ir(
             // make sure the result is an rvalue
             let dest = prog.new_var(ValueType::RValue);
             // expr_var is the variable returned, after decrementing
-            // check type is valid to be incremented
-            let (mut unary_convert_instrs, expr_var) = unary_convert(expr_var, prog)?;
-            instrs.append(&mut unary_convert_instrs);
             let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
-            if !expr_var_type.is_scalar_type() {
+            let object_type = match &expr_var {
+                Src::StoreAddressVar(_) => expr_var_type.dereference_pointer_type()?,
+                _ => expr_var_type.to_owned(),
+            };
+            // check type is valid to be modified
+            if !expr_var.get_value_type().is_lvalue() {
+                return Err(MiddleEndError::AttemptToModifyNonLValue);
+            }
+            if !object_type.is_scalar_type() {
                 return Err(MiddleEndError::InvalidOperation(
                     "Incrementing a non-scalar type",
                 ));
             }
+            let step = increment_step(&object_type, prog)?;
             match expr_var {
                 Src::Var(var) => {
                     instrs.push(Instruction::Sub(
                         prog.new_instr_id(),
                         var.to_owned(),
                         Src::Var(var.to_owned()),
-                        Src::Constant(Constant::Int(1)),
+                        Src::Constant(step),
                     ));
                     prog.add_var_type(dest.to_owned(), expr_var_type)?;
                     instrs.push(Instruction::SimpleAssignment(
@@ -1332,7 +1371,7 @@ pub fn convert_expression_to_ir(
                         prog.new_instr_id(),
                         result.to_owned(),
                         Src::Var(src_to_decrement),
-                        Src::Constant(Constant::Int(1)),
+                        Src::Constant(step),
                     ));
 
                     debug!(
@@ -1464,10 +1503,9 @@ pub fn convert_expression_to_ir(
                 // }
                 UnaryOperator::Plus => {
                     let dest = prog.new_var(ValueType::RValue);
-                    instrs.push(Instruction::Add(
+                    instrs.push(Instruction::SimpleAssignment(
                         prog.new_instr_id(),
                         dest.to_owned(),
-                        Src::Constant(Constant::Int(0)),
                         expr_var,
                     ));
                     if !expr_var_type.is_arithmetic_type() {
@@ -1481,10 +1519,15 @@ pub fn convert_expression_to_ir(
                 }
                 UnaryOperator::Minus => {
                     let dest = prog.new_var(ValueType::RValue);
+                    let zero = match &expr_var_type {
+                        // negating zero gives negative zero for floating types
+                        IrType::F32 | IrType::F64 => Constant::Float(-0.0),
+                        _ => Constant::Int(0),
+                    };
                     instrs.push(Instruction::Sub(
                         prog.new_instr_id(),
                         dest.to_owned(),
-                        Src::Constant(Constant::Int(0)),
+                        Src::Constant(zero),
                         expr_var,
                     ));
                     if !expr_var_type.is_arithmetic_type() {
@@ -1492,8 +1535,8 @@ pub fn convert_expression_to_ir(
                             "Unary minus of a non-arithmetic type",
                         ));
                     }
-                    let dest_type = expr_var_type.smallest_signed_equivalent()?;
-                    prog.add_var_type(dest.to_owned(), dest_type)?;
+                    // type of dest is same as type of src
+                    prog.add_var_type(dest.to_owned(), expr_var_type)?;
                     Ok((instrs, Src::Var(dest)))
                 }
                 UnaryOperator::BitwiseNot => {
@@ -1524,8 +1567,8 @@ pub fn convert_expression_to_ir(
                             "Logical not of a non-scalar type",
                         ));
                     }
-                    // dest type is same as src
-                    prog.add_var_type(dest.to_owned(), expr_var_type)?;
+                    // the result is always an int
+                    prog.add_var_type(dest.to_owned(), IrType::I32)?;
                     Ok((instrs, Src::Var(dest)))
                 }
                 _ => unreachable!("other cases handled separately"),
@@ -2123,6 +2166,7 @@ pub fn convert_expression_to_ir(
                 Src::Constant(_) | Src::Fun(_) => return Err(MiddleEndError::InvalidAssignment),
             }
 
+            let stored_type = dest_var_type.to_owned();
             if src_var_type != dest_var_type {
                 let (mut convert_instrs, converted_var) =
                     convert_type_for_assignment(src_var, src_var_type, dest_var_type, prog)?;
@@ -2140,19 +2184,29 @@ pub fn convert_expression_to_ir(
             // either store to the memory address given by the pointer dest,
             // or store into the local var dest
             if is_store_to_address {
-                instrs.push(Instruction::StoreToAddress(
+                // the value of the assignment expression is the value stored, so keep it in a
+                // temporary, because dest is only a pointer to it
+                let value = prog.new_var(ValueType::RValue);
+                prog.add_var_type(value.to_owned(), stored_type)?;
+                instrs.push(Instruction::SimpleAssignment(
                     prog.new_instr_id(),
-                    dest.to_owned(),
+                    value.to_owned(),
                     src_var,
                 ));
+                instrs.push(Instruction::StoreToAddress(
+                    prog.new_instr_id(),
+                    dest,
+                    Src::Var(value.to_owned()),
+                ));
+                Ok((instrs, Src::Var(value)))
             } else {
                 instrs.push(Instruction::SimpleAssignment(
                     prog.new_instr_id(),
                     dest.to_owned(),
                     src_var,
                 ));
+                Ok((instrs, Src::Var(dest)))
             }
-            Ok((instrs, Src::Var(dest)))
         }
         Expression::Cast(cast_type_decl, expr) => {
             let (mut expr_instrs, expr_var) = convert_expression_to_ir(*expr, prog, context)?;
diff --git a/src/middle_end/instructions.rs b/src/middle_end/instructions.rs
index 12a186b..2c6f68d 100644
--- a/src/middle_end/instructions.rs
+++ b/src/middle_end/instructions.rs
@@ -75,7 +75,9 @@ impl Src {
 
     pub fn get_value_type(&self) -> ValueType {
         match self {
-            Src::Var(var) | Src::StoreAddressVar(var) => var.get_value_type(),
+            Src::Var(var) => var.get_value_type(),
+            // an object accessed through its address is an lvalue, however its address was computed
+            Src::StoreAddressVar(_) => ValueType::LValue,
             Src::Constant(_) => ValueType::RValue,
             Src::Fun(_) => ValueType::RValue,
         }
-- 
2.43.0


From 0349cb17239b662fac72969c624cfc671fafe55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:38 +0000
Subject: [PATCH 10/64] fix: case labels and declarations anywhere in a switch
 body, switch conversions, scope of for declarations, forward gotos

---
 src/middle_end/ast_to_ir.rs        | 57 ++++++++++-----------
 src/middle_end/context.rs          | 82 ++++--------------------------
 src/middle_end/ir.rs               | 21 ++++++++
 src/middle_end/middle_end_error.rs |  3 +-
 src/relooper/soupify.rs            | 24 +++++++++
 5 files changed, 86 insertions(+), 101 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 16330f7..782a4ed 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -162,6 +162,8 @@ fn convert_statement_to_ir(
             let loop_start_label = prog.new_label();
             let loop_end_label = prog.new_label();
             let loop_continue_label = prog.new_label();
+            // the scope of a declaration in the initialiser is just the loop
+            context.push_scope();
             // optional initialiser statement - runs before the loop starts
             match init {
                 None => {}
@@ -226,6 +228,7 @@ fn convert_statement_to_ir(
             // end of loop label
             instrs.push(Instruction::Label(prog.new_instr_id(), loop_end_label));
             context.pop_loop();
+            context.pop_scope();
         }
         Statement::If(cond, body) => {
             // if statement condition
@@ -273,6 +276,8 @@ fn convert_statement_to_ir(
             let (mut expr_instrs, switch_src) =
                 convert_expression_to_ir(switch_expr, prog, context)?;
             instrs.append(&mut expr_instrs);
+            let (mut unary_convert_instrs, switch_src) = unary_convert(switch_src, prog)?;
+            instrs.append(&mut unary_convert_instrs);
             let switch_var = match switch_src {
                 Src::Var(var) => var,
                 Src::Constant(c) => {
@@ -288,9 +293,8 @@ fn convert_statement_to_ir(
                 Src::Fun(_) | Src::StoreAddressVar(_) => unreachable!(),
             };
             context.push_switch(SwitchContext::new(switch_end_label.to_owned(), switch_var));
-            // convert switch body - ignore the return, because the instrs will
-            // be stored into the SwitchContext, and we'll get them from there after
-            convert_statement_to_ir(*body, prog, context)?;
+            // convert switch body - the case conditions get stored in the SwitchContext
+            let mut body_instrs = convert_statement_to_ir(*body, prog, context)?;
 
             let mut switch_context = context.pop_switch()?;
 
@@ -312,9 +316,7 @@ fn convert_statement_to_ir(
             }
 
             // add case bodies
-            for mut case_body_instrs in switch_context.case_blocks {
-                instrs.append(&mut case_body_instrs);
-            }
+            instrs.append(&mut body_instrs);
 
             // end of switch label
             instrs.push(Instruction::Label(prog.new_instr_id(), switch_end_label));
@@ -322,7 +324,11 @@ fn convert_statement_to_ir(
         Statement::Labelled(stmt) => {
             match stmt {
                 LabelledStatement::Named(Identifier(label_name), stmt) => {
-                    let label = prog.new_identifier_label(label_name);
+                    // the label might have been created already, by a goto before this
+                    let label = match prog.resolve_identifier_to_label(&label_name) {
+                        Some(label) => label.to_owned(),
+                        None => prog.new_identifier_label(label_name),
+                    };
                     instrs.push(Instruction::Label(prog.new_instr_id(), label));
                     instrs.append(&mut convert_statement_to_ir(*stmt, prog, context)?);
                 }
@@ -333,37 +339,34 @@ fn convert_statement_to_ir(
                     }
                     let (mut condition_instrs, expr_var) =
                         convert_expression_to_ir(expr, prog, context)?;
+                    // the case expression is converted to the type of the switch expression
+                    let switch_var = context.get_switch_variable().unwrap();
+                    let switch_var_type = prog.get_var_type(&switch_var)?;
+                    let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
+                    let (mut convert_instrs, expr_var) =
+                        get_type_conversion_instrs(expr_var, expr_var_type, switch_var_type, prog)?;
+                    condition_instrs.append(&mut convert_instrs);
                     let case_body_label = prog.new_label();
                     // check if case condition matches the switch expression
                     // if so, jump to the corresponding block
                     condition_instrs.push(Instruction::BrIfEq(
                         prog.new_instr_id(),
-                        Src::Var(context.get_switch_variable().unwrap()),
+                        Src::Var(switch_var),
                         expr_var,
                         case_body_label.to_owned(),
                     ));
-                    context.new_switch_case_block(
-                        case_body_label,
-                        condition_instrs,
-                        &mut prog.program_metadata,
-                    )?;
-                    // start of case body - the result of this will be automatically pushed to
-                    // the case block we just created, because we're in a switch context
-                    convert_statement_to_ir(*stmt, prog, context)?;
-                    return Ok(instrs);
+                    context.add_switch_case_condition(condition_instrs)?;
+                    // case body, which the condition jumps to
+                    instrs.push(Instruction::Label(prog.new_instr_id(), case_body_label));
+                    instrs.append(&mut convert_statement_to_ir(*stmt, prog, context)?);
                 }
                 LabelledStatement::Default(stmt) => {
                     let case_body_label = prog.new_label();
                     context.add_default_switch_block_label(case_body_label.to_owned())?;
                     // default case has no condition instruction to add, because it'll get added
                     // at the end of converting the whole switch statement
-                    context.new_switch_case_block(
-                        case_body_label,
-                        Vec::new(),
-                        &mut prog.program_metadata,
-                    )?;
-                    convert_statement_to_ir(*stmt, prog, context)?;
-                    return Ok(instrs);
+                    instrs.push(Instruction::Label(prog.new_instr_id(), case_body_label));
+                    instrs.append(&mut convert_statement_to_ir(*stmt, prog, context)?);
                 }
             }
         }
@@ -702,6 +705,7 @@ fn convert_statement_to_ir(
             }
             let instrs = convert_statement_to_ir(*body, prog, context)?;
             context.function_return_type = None;
+            prog.finish_identifier_labels(&instrs)?;
             // update function in program with full body
             let fun = Function::new(instrs, type_info, param_var_mappings);
             prog.new_fun_body(name, fun)?;
@@ -710,11 +714,6 @@ fn convert_statement_to_ir(
         Statement::Empty => {}
     }
 
-    if context.is_in_switch_context() {
-        context.push_instrs_to_switch_case_block(instrs)?;
-        return Ok(Vec::new());
-    }
-
     Ok(instrs)
 }
 
diff --git a/src/middle_end/context.rs b/src/middle_end/context.rs
index 0383eb4..ffabd84 100644
--- a/src/middle_end/context.rs
+++ b/src/middle_end/context.rs
@@ -4,7 +4,6 @@ use log::trace;
 
 use crate::middle_end::ids::{FunId, LabelId, StructId, UnionId, VarId};
 use crate::middle_end::instructions::Instruction;
-use crate::middle_end::ir::ProgramMetadata;
 use crate::middle_end::ir_types::{EnumConstant, IrType};
 use crate::middle_end::middle_end_error::MiddleEndError;
 
@@ -79,6 +78,9 @@ impl Context {
                 Some(LoopOrSwitchContext::Switch(_)) => {}
             }
             // if context was a switch context, keep looking backwards for the top loop context
+            if i == 0 {
+                return None;
+            }
             i -= 1;
         }
     }
@@ -121,66 +123,19 @@ impl Context {
         }
     }
 
-    pub fn new_switch_case_block(
+    pub fn add_switch_case_condition(
         &mut self,
-        case_body_label: LabelId,
         mut case_condition_instrs: Vec<Instruction>,
-        prog_metadata: &mut ProgramMetadata,
-    ) -> Result<(), MiddleEndError> {
-        if self.loop_stack.is_empty() {
-            return Err(MiddleEndError::CaseOutsideSwitchContext);
-        }
-        let mut i = self.loop_stack.len() - 1;
-        loop {
-            match self.loop_stack.get_mut(i) {
-                None => return Err(MiddleEndError::CaseOutsideSwitchContext),
-                Some(loop_or_switch_context) => match loop_or_switch_context {
-                    LoopOrSwitchContext::Loop(_) => {}
-                    LoopOrSwitchContext::Switch(switch_context) => {
-                        // every case block must have a label so it can be jumped to,
-                        // so enforce that by adding it here
-                        let case_instrs = vec![Instruction::Label(
-                            prog_metadata.new_instr_id(),
-                            case_body_label,
-                        )];
-                        switch_context.case_blocks.push(case_instrs);
-                        switch_context
-                            .case_condition_instrs
-                            .append(&mut case_condition_instrs);
-                        return Ok(());
-                    }
-                },
-            }
-            if i == 0 {
-                return Err(MiddleEndError::CaseOutsideSwitchContext);
-            }
-            i -= 1;
-        }
-    }
-
-    pub fn push_instrs_to_switch_case_block(
-        &mut self,
-        instrs: Vec<Instruction>,
     ) -> Result<(), MiddleEndError> {
-        if self.loop_stack.is_empty() {
-            return Err(MiddleEndError::CaseOutsideSwitchContext);
-        }
-        let mut i = self.loop_stack.len() - 1;
-        loop {
-            match self.loop_stack.get_mut(i) {
-                None => return Err(MiddleEndError::CaseOutsideSwitchContext),
-                Some(loop_or_switch_context) => match loop_or_switch_context {
-                    LoopOrSwitchContext::Loop(_) => {}
-                    LoopOrSwitchContext::Switch(switch_context) => {
-                        return switch_context.push_instrs_to_last_case_block(instrs);
-                    }
-                },
-            }
-            if i == 0 {
-                return Err(MiddleEndError::CaseOutsideSwitchContext);
+        for loop_or_switch_context in self.loop_stack.iter_mut().rev() {
+            if let LoopOrSwitchContext::Switch(switch_context) = loop_or_switch_context {
+                switch_context
+                    .case_condition_instrs
+                    .append(&mut case_condition_instrs);
+                return Ok(());
             }
-            i -= 1;
         }
+        Err(MiddleEndError::CaseOutsideSwitchContext)
     }
 
     pub fn add_default_switch_block_label(&mut self, label: LabelId) -> Result<(), MiddleEndError> {
@@ -638,7 +593,6 @@ pub struct SwitchContext {
     pub end_label: LabelId,
     pub switch_var: VarId,
     pub case_condition_instrs: Vec<Instruction>,
-    pub case_blocks: Vec<Vec<Instruction>>,
     pub default_block_label: Option<LabelId>,
 }
 
@@ -648,24 +602,10 @@ impl SwitchContext {
             end_label,
             switch_var,
             case_condition_instrs: Vec::new(),
-            case_blocks: Vec::new(),
             default_block_label: None,
         }
     }
 
-    fn push_instrs_to_last_case_block(
-        &mut self,
-        mut instrs: Vec<Instruction>,
-    ) -> Result<(), MiddleEndError> {
-        match self.case_blocks.last_mut() {
-            None => Err(MiddleEndError::NoCaseBlockToPushInstructionTo),
-            Some(block_instrs) => {
-                block_instrs.append(&mut instrs);
-                Ok(())
-            }
-        }
-    }
-
     fn add_default_block_label(&mut self, label: LabelId) -> Result<(), MiddleEndError> {
         match self.default_block_label {
             None => {
diff --git a/src/middle_end/ir.rs b/src/middle_end/ir.rs
index ac8c163..6bd6156 100644
--- a/src/middle_end/ir.rs
+++ b/src/middle_end/ir.rs
@@ -336,6 +336,27 @@ impl Program {
         self.program_metadata.new_identifier_label(name)
     }
 
+    /// Check that every label named in a function (whose body is the given instructions)
+    /// is defined exactly once in it. Labels are only visible within their function, so
+    /// they're cleared after that.
+    pub fn finish_identifier_labels(
+        &mut self,
+        function_instrs: &[Instruction],
+    ) -> Result<(), MiddleEndError> {
+        for (name, label_id) in self.program_metadata.label_ids.drain() {
+            let num_definitions = function_instrs
+                .iter()
+                .filter(|instr| matches!(instr, Instruction::Label(_, id) if *id == label_id))
+                .count();
+            match num_definitions {
+                0 => return Err(MiddleEndError::UndeclaredLabel(name)),
+                1 => {}
+                _ => return Err(MiddleEndError::DuplicateLabel(name)),
+            }
+        }
+        Ok(())
+    }
+
     pub fn resolve_identifier_to_label(&self, name: &str) -> Option<&LabelId> {
         self.program_metadata.label_ids.get(name)
     }
diff --git a/src/middle_end/middle_end_error.rs b/src/middle_end/middle_end_error.rs
index 11180d2..69ab803 100644
--- a/src/middle_end/middle_end_error.rs
+++ b/src/middle_end/middle_end_error.rs
@@ -12,7 +12,8 @@ pub enum MiddleEndError {
     CaseOutsideSwitchContext,
     DefaultOutsideSwitchContext,
     MultipleDefaultCasesInSwitch,
-    NoCaseBlockToPushInstructionTo,
+    UndeclaredLabel(String),
+    DuplicateLabel(String),
     /// in theory this should never occur
     LoopNestingError,
     UndeclaredIdentifier(String),
diff --git a/src/relooper/soupify.rs b/src/relooper/soupify.rs
index 01131cd..9d964e2 100644
--- a/src/relooper/soupify.rs
+++ b/src/relooper/soupify.rs
@@ -17,6 +17,7 @@ pub fn soupify(
         !instrs.is_empty(),
         "List of instructions to soupify should be non-empty"
     );
+    remove_instrs_after_unconditional_branches(&mut instrs);
     remove_label_fallthrough(&mut instrs, prog_metadata);
     add_block_gap_labels_after_conditionals(&mut instrs, prog_metadata);
     insert_entry_label_if_necessary(&mut instrs, prog_metadata);
@@ -28,6 +29,29 @@ pub fn soupify(
     instructions_to_soup_of_labels(instrs)
 }
 
+/// Instructions between an unconditional branch and the next label can't be reached,
+/// and a block has to end with its (only) unconditional branch, so remove them.
+/// Variable declarations get moved to the start, because what they declare can still
+/// be used after the label.
+fn remove_instrs_after_unconditional_branches(instrs: &mut Vec<Instruction>) {
+    let mut reachable_instrs = Vec::new();
+    let mut declarations = Vec::new();
+    let mut is_reachable = true;
+    for instr in instrs.drain(..) {
+        if let Instruction::Label(..) = instr {
+            is_reachable = true;
+        }
+        if is_reachable {
+            is_reachable = !matches!(instr, Instruction::Br(..));
+            reachable_instrs.push(instr);
+        } else if let Instruction::DeclareVariable(..) = instr {
+            declarations.push(instr);
+        }
+    }
+    instrs.append(&mut declarations);
+    instrs.append(&mut reachable_instrs);
+}
+
 /// Add a new label at the start of the instructions, to be our entry-point
 fn insert_entry_label_if_necessary(
     instrs: &mut Vec<Instruction>,
-- 
2.43.0


From 55a99d7cc11d5600d41e1a26f6410a2a154ccfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:38 +0000
Subject: [PATCH 11/64] fix: keep all entries of a loop block in the loop, for
 irreducible control flow

---
 src/relooper/relooper.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/relooper/relooper.rs b/src/relooper/relooper.rs
index c4e42e2..8d79a95 100644
--- a/src/relooper/relooper.rs
+++ b/src/relooper/relooper.rs
@@ -492,9 +492,11 @@ fn create_loop_block(
 ) -> Block {
     let mut inner_labels: Labels = HashMap::new();
     let mut next_labels: Labels = HashMap::new();
-    // find the labels that can return to one of the entries, and those that can't
+    // find the labels that can return to one of the entries, and those that can't.
+    // the entries themselves are always in the inner block, even if one of several
+    // entries can't return
     for (label_id, label) in labels {
-        let mut can_return = false;
+        let mut can_return = entries.contains(&label_id);
         for entry in &entries {
             if reachability.get(&label_id).unwrap().contains(entry) {
                 can_return = true;
-- 
2.43.0


From 963496bde72218ecf22582cd1eee3a4fddd70062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:16 +0000
Subject: [PATCH 12/64] fix: take addresses of array elements, members and
 dereferenced pointers directly, copy structs and unions on assignment, and
 use whole array sizes in sizeof, indexing and layout

---
 src/middle_end/aggregate_type_initialisers.rs |   2 +-
 src/middle_end/ast_to_ir.rs                   | 428 ++++++++++--------
 src/middle_end/ir_types.rs                    |  20 +-
 3 files changed, 259 insertions(+), 191 deletions(-)

diff --git a/src/middle_end/aggregate_type_initialisers.rs b/src/middle_end/aggregate_type_initialisers.rs
index 9719ab8..2a6172b 100644
--- a/src/middle_end/aggregate_type_initialisers.rs
+++ b/src/middle_end/aggregate_type_initialisers.rs
@@ -19,7 +19,7 @@ pub fn array_initialiser(
 
     let array_member_type = dest_type_info.unwrap_array_type()?;
     // sizes of array members must be known at compile time
-    let array_member_byte_size = match array_member_type.get_byte_size(&prog.program_metadata) {
+    let array_member_byte_size = match array_member_type.get_object_byte_size(&prog.program_metadata) {
         TypeSize::CompileTime(size) => size,
         TypeSize::Runtime(_) => return Err(MiddleEndError::ArrayMemberSizeNotKnownAtCompileTime),
     };
diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 782a4ed..922e9a1 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -734,6 +734,178 @@ fn increment_step(object_type: &IrType, prog: &Program) -> Result<Constant, Midd
     }
 }
 
+/// returns a new pointer to the given variable
+fn address_of(src: Src, prog: &mut Program) -> Result<(Vec<Instruction>, VarId), MiddleEndError> {
+    let src_type = src.get_type(&prog.program_metadata)?;
+    let ptr = prog.new_var(src.get_value_type());
+    prog.add_var_type(ptr.to_owned(), src_type.to_owned().wrap_with_pointer())?;
+    let instr = if src_type.is_array_type() {
+        // an array variable already is a pointer to the start of the array
+        Instruction::SimpleAssignment(prog.new_instr_id(), ptr.to_owned(), src)
+    } else {
+        Instruction::AddressOf(prog.new_instr_id(), ptr.to_owned(), src)
+    };
+    Ok((vec![instr], ptr))
+}
+
+/// Convert an expression that designates an object (ie. an lvalue) to a pointer to that object.
+/// Returns the instructions, the pointer, and the type of the object.
+fn convert_object_address(
+    expr: Expression,
+    prog: &mut Program,
+    context: &mut Context,
+) -> Result<(Vec<Instruction>, VarId, IrType), MiddleEndError> {
+    context.directly_on_lhs_of_assignment = true;
+    let (mut instrs, object) = convert_expression_to_ir(expr, prog, context)?;
+    context.directly_on_lhs_of_assignment = false;
+    let ptr = match object {
+        Src::StoreAddressVar(ptr) => ptr,
+        Src::Var(_) if object.get_value_type().is_lvalue() => {
+            let (mut address_instrs, ptr) = address_of(object, prog)?;
+            instrs.append(&mut address_instrs);
+            ptr
+        }
+        _ => return Err(MiddleEndError::InvalidLValue),
+    };
+    let object_type = prog.get_var_type(&ptr)?.dereference_pointer_type()?;
+    Ok((instrs, ptr, object_type))
+}
+
+/// Get a pointer to a member of the struct or union that obj_ptr points to.
+/// Returns the instructions, the pointer, and the type of the member.
+fn convert_member_address(
+    obj_ptr: VarId,
+    obj_type: IrType,
+    member_name: &str,
+    prog: &mut Program,
+) -> Result<(Vec<Instruction>, VarId, IrType), MiddleEndError> {
+    obj_type.require_struct_or_union_type()?;
+    let (member_type, member_byte_offset) = match obj_type {
+        IrType::Struct(struct_id) => {
+            let struct_type = prog.get_struct_type(&struct_id)?;
+            (
+                struct_type.get_member_type(member_name)?,
+                struct_type.get_member_byte_offset(member_name)?,
+            )
+        }
+        IrType::Union(union_id) => {
+            // all members of a union start at the start of the union
+            (
+                prog.get_union_type(&union_id)?
+                    .get_member_type(member_name)?,
+                0,
+            )
+        }
+        _ => unreachable!(),
+    };
+    // ptr = (address of object) + (byte offset)
+    let ptr = prog.new_var(ValueType::LValue);
+    prog.add_var_type(ptr.to_owned(), member_type.to_owned().wrap_with_pointer())?;
+    let instr = Instruction::Add(
+        prog.new_instr_id(),
+        ptr.to_owned(),
+        Src::Var(obj_ptr),
+        Src::Constant(Constant::Int(member_byte_offset as i128)),
+    );
+    Ok((vec![instr], ptr, member_type))
+}
+
+/// Load the object of the given type that ptr points to
+fn load_object(
+    ptr: VarId,
+    object_type: IrType,
+    prog: &mut Program,
+) -> Result<(Vec<Instruction>, Src), MiddleEndError> {
+    let mut instrs = Vec::new();
+    let dest = prog.new_var(ValueType::LValue);
+    prog.add_var_type(dest.to_owned(), object_type.to_owned())?;
+    match object_type {
+        IrType::ArrayOf(..) => {
+            // the value of an array is a pointer to its start
+            instrs.push(Instruction::SimpleAssignment(
+                prog.new_instr_id(),
+                dest.to_owned(),
+                Src::Var(ptr),
+            ));
+        }
+        IrType::Struct(_) | IrType::Union(_) => {
+            instrs.push(Instruction::DeclareVariable(
+                prog.new_instr_id(),
+                dest.to_owned(),
+            ));
+            let (mut address_instrs, dest_ptr) = address_of(Src::Var(dest.to_owned()), prog)?;
+            instrs.append(&mut address_instrs);
+            instrs.append(&mut copy_object(dest_ptr, ptr, &object_type, prog)?);
+        }
+        IrType::Void | IrType::Function(..) => {
+            return Err(MiddleEndError::InvalidOperation(
+                "Loading an object of void or function type",
+            ))
+        }
+        _ => {
+            instrs.push(Instruction::LoadFromAddress(
+                prog.new_instr_id(),
+                dest.to_owned(),
+                Src::Var(ptr),
+            ));
+        }
+    }
+    Ok((instrs, Src::Var(dest)))
+}
+
+/// Copy the object of the given type that src_ptr points to, to the address dest_ptr
+fn copy_object(
+    dest_ptr: VarId,
+    src_ptr: VarId,
+    object_type: &IrType,
+    prog: &mut Program,
+) -> Result<Vec<Instruction>, MiddleEndError> {
+    let mut instrs = Vec::new();
+    let byte_size = object_type
+        .get_object_byte_size(&prog.program_metadata)
+        .get_compile_time_value()?;
+    let mut offset = 0;
+    while offset < byte_size {
+        let chunk_type = match byte_size - offset {
+            1 => IrType::U8,
+            2..=3 => IrType::U16,
+            4..=7 => IrType::U32,
+            _ => IrType::U64,
+        };
+        let chunk = prog.new_var(ValueType::RValue);
+        prog.add_var_type(chunk.to_owned(), chunk_type.to_owned())?;
+        let mut chunk_ptrs = Vec::new();
+        for ptr in [&src_ptr, &dest_ptr] {
+            let chunk_ptr = prog.new_var(ValueType::RValue);
+            prog.add_var_type(
+                chunk_ptr.to_owned(),
+                chunk_type.to_owned().wrap_with_pointer(),
+            )?;
+            instrs.push(Instruction::Add(
+                prog.new_instr_id(),
+                chunk_ptr.to_owned(),
+                Src::Var(ptr.to_owned()),
+                Src::Constant(Constant::Int(offset as i128)),
+            ));
+            chunk_ptrs.push(chunk_ptr);
+        }
+        instrs.push(Instruction::LoadFromAddress(
+            prog.new_instr_id(),
+            chunk.to_owned(),
+            Src::Var(chunk_ptrs[0].to_owned()),
+        ));
+        instrs.push(Instruction::StoreToAddress(
+            prog.new_instr_id(),
+            chunk_ptrs[1].to_owned(),
+            Src::Var(chunk),
+        ));
+        offset += chunk_type
+            .get_byte_size(&prog.program_metadata)
+            .get_compile_time_value()?;
+    }
+    Ok(instrs)
+}
+
 /// returns the list of instructions generated, and the name of the temp variable
 /// the result is assigned to
 pub fn convert_expression_to_ir(
@@ -821,7 +993,7 @@ pub fn convert_expression_to_ir(
             }
 
             // multiply index by size of element, to get number of bytes to advance ptr by
-            let element_byte_size = arr_inner_type.get_byte_size(&prog.program_metadata);
+            let element_byte_size = arr_inner_type.get_object_byte_size(&prog.program_metadata);
             let byte_size_var = match element_byte_size {
                 TypeSize::CompileTime(byte_size) => Src::Constant(Constant::Int(byte_size as i128)),
                 TypeSize::Runtime(byte_size_expr) => {
@@ -859,14 +1031,9 @@ pub fn convert_expression_to_ir(
                 Ok((instrs, Src::StoreAddressVar(ptr)))
             } else {
                 // read from array index
-                let dest = prog.new_var(ValueType::LValue);
-                prog.add_var_type(dest.to_owned(), arr_inner_type)?;
-                instrs.push(Instruction::LoadFromAddress(
-                    prog.new_instr_id(),
-                    dest.to_owned(),
-                    Src::Var(ptr),
-                ));
-                Ok((instrs, Src::Var(dest)))
+                let (mut load_instrs, dest) = load_object(ptr, arr_inner_type, prog)?;
+                instrs.append(&mut load_instrs);
+                Ok((instrs, dest))
             }
         }
         Expression::FunctionCall(fun, params) => {
@@ -914,144 +1081,40 @@ pub fn convert_expression_to_ir(
             Ok((instrs, Src::Var(dest)))
         }
         Expression::DirectMemberSelection(obj, Identifier(member_name)) => {
-            let (mut obj_instrs, obj_var) = convert_expression_to_ir(*obj, prog, context)?;
+            let (mut obj_instrs, obj_ptr, obj_type) = convert_object_address(*obj, prog, context)?;
             instrs.append(&mut obj_instrs);
-            let obj_var_type = obj_var.get_type(&prog.program_metadata)?;
-            obj_var_type.require_struct_or_union_type()?;
-
-            // obj_ptr = &obj_var
-            let obj_ptr = prog.new_var(obj_var.get_value_type());
-            prog.add_var_type(
-                obj_ptr.to_owned(),
-                IrType::PointerTo(Box::new(obj_var_type.to_owned())),
-            )?;
-            instrs.push(Instruction::AddressOf(
-                prog.new_instr_id(),
-                obj_ptr.to_owned(),
-                obj_var,
-            ));
-
-            match obj_var_type {
-                IrType::Struct(struct_id) => {
-                    let struct_type = prog.get_struct_type(&struct_id)?;
-                    let member_type = struct_type.get_member_type(&member_name)?;
-                    let member_byte_offset = struct_type.get_member_byte_offset(&member_name)?;
-
-                    let ptr = prog.new_var(ValueType::LValue);
-                    prog.add_var_type(
-                        ptr.to_owned(),
-                        IrType::PointerTo(Box::new(member_type.to_owned())),
-                    )?;
-                    // ptr = obj_ptr + (byte offset)
-                    instrs.push(Instruction::Add(
-                        prog.new_instr_id(),
-                        ptr.to_owned(),
-                        Src::Var(obj_ptr),
-                        Src::Constant(Constant::Int(member_byte_offset as i128)),
-                    ));
-
-                    if this_expr_directly_on_lhs_of_assignment {
-                        // store to struct member
-                        Ok((instrs, Src::StoreAddressVar(ptr)))
-                    } else {
-                        // load from struct member
-                        let dest = prog.new_var(ValueType::LValue);
-                        prog.add_var_type(dest.to_owned(), member_type)?;
-                        // dest = *ptr
-                        instrs.push(Instruction::LoadFromAddress(
-                            prog.new_instr_id(),
-                            dest.to_owned(),
-                            Src::Var(ptr),
-                        ));
-                        Ok((instrs, Src::Var(dest)))
-                    }
-                }
-                IrType::Union(union_id) => {
-                    let union_type = prog.get_union_type(&union_id)?;
-                    let member_type = union_type.get_member_type(&member_name)?;
-
-                    if this_expr_directly_on_lhs_of_assignment {
-                        // store to union
-                        Ok((instrs, Src::StoreAddressVar(obj_ptr)))
-                    } else {
-                        // load from union
-                        let dest = prog.new_var(ValueType::LValue);
-                        prog.add_var_type(dest.to_owned(), member_type)?;
-                        // dest = *obj_ptr
-                        instrs.push(Instruction::LoadFromAddress(
-                            prog.new_instr_id(),
-                            dest.to_owned(),
-                            Src::Var(obj_ptr),
-                        ));
-                        Ok((instrs, Src::Var(dest)))
-                    }
-                }
-                _ => unreachable!(),
+            let (mut member_instrs, member_ptr, member_type) =
+                convert_member_address(obj_ptr, obj_type, &member_name, prog)?;
+            instrs.append(&mut member_instrs);
+            if this_expr_directly_on_lhs_of_assignment {
+                // store to member
+                Ok((instrs, Src::StoreAddressVar(member_ptr)))
+            } else {
+                // load from member
+                let (mut load_instrs, dest) = load_object(member_ptr, member_type, prog)?;
+                instrs.append(&mut load_instrs);
+                Ok((instrs, dest))
             }
         }
         Expression::IndirectMemberSelection(obj, Identifier(member_name)) => {
             let (mut obj_instrs, obj_var) = convert_expression_to_ir(*obj, prog, context)?;
             instrs.append(&mut obj_instrs);
-            let obj_var_type = obj_var.get_type(&prog.program_metadata)?;
-            obj_var_type.require_pointer_type()?;
-            let inner_type = obj_var_type.dereference_pointer_type()?;
-            inner_type.require_struct_or_union_type()?;
-            match inner_type {
-                IrType::Struct(struct_id) => {
-                    let struct_type = prog.get_struct_type(&struct_id)?;
-                    let member_type = struct_type.get_member_type(&member_name)?;
-                    let member_byte_offset = struct_type.get_member_byte_offset(&member_name)?;
-
-                    let ptr = prog.new_var(ValueType::LValue);
-                    prog.add_var_type(
-                        ptr.to_owned(),
-                        IrType::PointerTo(Box::new(member_type.to_owned())),
-                    )?;
-                    // ptr = (address of struct) + (byte offset)
-                    instrs.push(Instruction::Add(
-                        prog.new_instr_id(),
-                        ptr.to_owned(),
-                        obj_var,
-                        Src::Constant(Constant::Int(member_byte_offset as i128)),
-                    ));
-
-                    if this_expr_directly_on_lhs_of_assignment {
-                        // store to struct member
-                        Ok((instrs, Src::StoreAddressVar(ptr)))
-                    } else {
-                        // load from struct member
-                        let dest = prog.new_var(ValueType::LValue);
-                        prog.add_var_type(dest.to_owned(), member_type)?;
-                        // dest = *ptr
-                        instrs.push(Instruction::LoadFromAddress(
-                            prog.new_instr_id(),
-                            dest.to_owned(),
-                            Src::Var(ptr),
-                        ));
-                        Ok((instrs, Src::Var(dest)))
-                    }
-                }
-                IrType::Union(union_id) => {
-                    let union_type = prog.get_union_type(&union_id)?;
-                    let member_type = union_type.get_member_type(&member_name)?;
-
-                    if this_expr_directly_on_lhs_of_assignment {
-                        // store to union
-                        Ok((instrs, Src::StoreAddressVar(obj_var.unwrap_var()?)))
-                    } else {
-                        // load from union
-                        let dest = prog.new_var(ValueType::LValue);
-                        prog.add_var_type(dest.to_owned(), member_type)?;
-                        // dest = *obj_ptr
-                        instrs.push(Instruction::LoadFromAddress(
-                            prog.new_instr_id(),
-                            dest.to_owned(),
-                            obj_var,
-                        ));
-                        Ok((instrs, Src::Var(dest)))
-                    }
-                }
-                _ => unreachable!(),
+            let (mut unary_convert_instrs, obj_var) = unary_convert(obj_var, prog)?;
+            instrs.append(&mut unary_convert_instrs);
+            let obj_type = obj_var
+                .get_type(&prog.program_metadata)?
+                .dereference_pointer_type()?;
+            let (mut member_instrs, member_ptr, member_type) =
+                convert_member_address(obj_var.unwrap_var()?, obj_type, &member_name, prog)?;
+            instrs.append(&mut member_instrs);
+            if this_expr_directly_on_lhs_of_assignment {
+                // store to member
+                Ok((instrs, Src::StoreAddressVar(member_ptr)))
+            } else {
+                // load from member
+                let (mut load_instrs, dest) = load_object(member_ptr, member_type, prog)?;
+                instrs.append(&mut load_instrs);
+                Ok((instrs, dest))
             }
         }
         Expression::PostfixIncrement(expr) => {
@@ -1399,52 +1462,39 @@ pub fn convert_expression_to_ir(
             Ok((instrs, Src::Var(dest)))
         }
         Expression::UnaryOp(UnaryOperator::AddressOf, expr) => {
-            let (mut expr_instrs, expr_var) = convert_expression_to_ir(*expr, prog, context)?;
+            let (mut expr_instrs, ptr, _) = convert_object_address(*expr, prog, context)?;
             instrs.append(&mut expr_instrs);
-            let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
+            // make sure the result is an rvalue
             let dest = prog.new_var(ValueType::RValue);
-            instrs.push(Instruction::AddressOf(
+            let ptr_type = prog.get_var_type(&ptr)?;
+            prog.add_var_type(dest.to_owned(), ptr_type)?;
+            instrs.push(Instruction::SimpleAssignment(
                 prog.new_instr_id(),
                 dest.to_owned(),
-                expr_var,
+                Src::Var(ptr),
             ));
-            // store type of dest
-            prog.add_var_type(dest.to_owned(), IrType::PointerTo(Box::new(expr_var_type)))?;
             Ok((instrs, Src::Var(dest)))
         }
         Expression::UnaryOp(UnaryOperator::Dereference, expr) => {
             let (mut expr_instrs, expr_var) = convert_expression_to_ir(*expr, prog, context)?;
             instrs.append(&mut expr_instrs);
-            let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
+            let (mut unary_convert_instrs, expr_var) = unary_convert(expr_var, prog)?;
+            instrs.append(&mut unary_convert_instrs);
+            let object_type = expr_var
+                .get_type(&prog.program_metadata)?
+                .dereference_pointer_type()?;
+            let ptr = match expr_var {
+                Src::Var(var) => var,
+                _ => return Err(MiddleEndError::AttemptToStoreToNonVariable),
+            };
             if this_expr_directly_on_lhs_of_assignment {
                 // store to memory address
-                match expr_var_type {
-                    IrType::PointerTo(_) => {
-                        // prog.add_var_type(dest.to_owned(), expr_var_type)?;
-                        match expr_var {
-                            Src::Var(expr_var) => Ok((instrs, Src::StoreAddressVar(expr_var))),
-                            _ => Err(MiddleEndError::AttemptToStoreToNonVariable),
-                        }
-                    }
-                    _ => Err(MiddleEndError::DereferenceNonPointerType(expr_var_type)),
-                }
+                Ok((instrs, Src::StoreAddressVar(ptr)))
             } else {
                 // dereference load from memory address
-                let dest = prog.new_var(ValueType::LValue);
-                instrs.push(Instruction::LoadFromAddress(
-                    prog.new_instr_id(),
-                    dest.to_owned(),
-                    expr_var,
-                ));
-                // check whether the var is allowed to be dereferenced;
-                // if so, store the type of dest
-                match expr_var_type {
-                    IrType::PointerTo(inner_type) => {
-                        prog.add_var_type(dest.to_owned(), *inner_type)?;
-                    }
-                    _ => return Err(MiddleEndError::DereferenceNonPointerType(expr_var_type)),
-                }
-                Ok((instrs, Src::Var(dest)))
+                let (mut load_instrs, dest) = load_object(ptr, object_type, prog)?;
+                instrs.append(&mut load_instrs);
+                Ok((instrs, dest))
             }
         }
         Expression::UnaryOp(op, expr) => {
@@ -1574,15 +1624,11 @@ pub fn convert_expression_to_ir(
             }
         }
         Expression::SizeOfExpr(e) => {
-            let (mut expr_instrs, expr_var) = convert_expression_to_ir(*e, prog, context)?;
-            instrs.append(&mut expr_instrs);
+            // only the type of the expression is needed, it doesn't get evaluated
+            let (_, expr_var) = convert_expression_to_ir(*e, prog, context)?;
             let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
 
-            let type_size = if expr_var_type.is_array_type() {
-                expr_var_type.get_array_size()?
-            } else {
-                expr_var_type.get_byte_size(&prog.program_metadata)
-            };
+            let type_size = expr_var_type.get_object_byte_size(&prog.program_metadata);
             let size = match type_size {
                 TypeSize::CompileTime(size) => Src::Constant(Constant::Int(size as i128)),
                 TypeSize::Runtime(size_expr) => {
@@ -1606,11 +1652,7 @@ pub fn convert_expression_to_ir(
                 None => return Err(MiddleEndError::InvalidTypedefDeclaration),
                 Some(x) => x,
             };
-            let type_size = if type_info.is_array_type() {
-                type_info.get_array_size()?
-            } else {
-                type_info.get_byte_size(&prog.program_metadata)
-            };
+            let type_size = type_info.get_object_byte_size(&prog.program_metadata);
             let byte_size = match type_size {
                 TypeSize::CompileTime(size) => Src::Constant(Constant::Int(size as i128)),
                 TypeSize::Runtime(size_expr) => {
@@ -2174,6 +2216,22 @@ pub fn convert_expression_to_ir(
                 //todo other options of possible type combinations
             }
 
+            if stored_type.is_struct_or_union_type() {
+                // copy the whole object
+                let dest_ptr = match dest_var {
+                    Src::StoreAddressVar(ptr) => ptr,
+                    dest_var => {
+                        let (mut address_instrs, ptr) = address_of(dest_var, prog)?;
+                        instrs.append(&mut address_instrs);
+                        ptr
+                    }
+                };
+                let (mut address_instrs, src_ptr) = address_of(src_var.to_owned(), prog)?;
+                instrs.append(&mut address_instrs);
+                instrs.append(&mut copy_object(dest_ptr, src_ptr, &stored_type, prog)?);
+                return Ok((instrs, src_var));
+            }
+
             let (dest, is_store_to_address) = match dest_var {
                 Src::Var(var) => (var, false),
                 Src::StoreAddressVar(var) => (var, true),
diff --git a/src/middle_end/ir_types.rs b/src/middle_end/ir_types.rs
index 996c9cd..bf57da7 100644
--- a/src/middle_end/ir_types.rs
+++ b/src/middle_end/ir_types.rs
@@ -97,12 +97,22 @@ impl IrType {
         }
     }
 
+    /// Get the number of bytes that an object of this type takes up. In contrast to
+    /// get_byte_size(), that's the size of the whole array for an array type, rather
+    /// than of the pointer that we represent it with.
+    pub fn get_object_byte_size(&self, prog: &ProgramMetadata) -> TypeSize {
+        match self.get_array_byte_size(prog) {
+            Ok(size) => size,
+            Err(_) => self.get_byte_size(prog),
+        }
+    }
+
     pub fn get_pointer_object_byte_size(
         &self,
         prog: &ProgramMetadata,
     ) -> Result<TypeSize, MiddleEndError> {
         match self {
-            IrType::PointerTo(inner_type) => Ok(inner_type.get_byte_size(prog)),
+            IrType::PointerTo(inner_type) => Ok(inner_type.get_object_byte_size(prog)),
             t => Err(MiddleEndError::DereferenceNonPointerType(t.to_owned())),
         }
     }
@@ -110,7 +120,7 @@ impl IrType {
     pub fn get_array_byte_size(&self, prog: &ProgramMetadata) -> Result<TypeSize, MiddleEndError> {
         match self {
             IrType::ArrayOf(inner_type, count) => match count {
-                Some(TypeSize::CompileTime(count)) => match inner_type.get_byte_size(prog) {
+                Some(TypeSize::CompileTime(count)) => match inner_type.get_object_byte_size(prog) {
                     TypeSize::CompileTime(t_size) => Ok(TypeSize::CompileTime(t_size * count)),
                     TypeSize::Runtime(t_size_expr) => Ok(TypeSize::Runtime(Expression::BinaryOp(
                         BinaryOperator::Mult,
@@ -118,7 +128,7 @@ impl IrType {
                         Box::new(Expression::Constant(Constant::Int(*count as u128))),
                     ))),
                 },
-                Some(TypeSize::Runtime(count_expr)) => match inner_type.get_byte_size(prog) {
+                Some(TypeSize::Runtime(count_expr)) => match inner_type.get_object_byte_size(prog) {
                     TypeSize::CompileTime(t_size) => Ok(TypeSize::Runtime(Expression::BinaryOp(
                         BinaryOperator::Mult,
                         Box::new(count_expr.to_owned()),
@@ -458,7 +468,7 @@ impl StructType {
         if self.has_member(&member_name) {
             return Err(MiddleEndError::DuplicateStructMember);
         }
-        let byte_size = match member_type.get_byte_size(prog) {
+        let byte_size = match member_type.get_object_byte_size(prog) {
             TypeSize::CompileTime(size) => size,
             TypeSize::Runtime(_) => return Err(MiddleEndError::UndefinedStructMemberSize),
         };
@@ -578,7 +588,7 @@ impl UnionType {
         if self.has_member(&member_name) {
             return Err(MiddleEndError::DuplicateUnionMember);
         }
-        let byte_size = match member_type.get_byte_size(prog) {
+        let byte_size = match member_type.get_object_byte_size(prog) {
             TypeSize::CompileTime(size) => size,
             TypeSize::Runtime(_) => return Err(MiddleEndError::UndefinedUnionMemberSize),
         };
-- 
2.43.0


From a7d9840089e0dae9b62ab6d089c235308f8e7c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:56 +0000
Subject: [PATCH 13/64] fix: partial, nested and braced initialisers, with the
 remaining members set to zero, and null pointer initialisers

---
 src/middle_end/aggregate_type_initialisers.rs | 423 +++++++++---------
 src/middle_end/ast_to_ir.rs                   | 307 +++++--------
 src/middle_end/ir_types.rs                    |  36 +-
 3 files changed, 349 insertions(+), 417 deletions(-)

diff --git a/src/middle_end/aggregate_type_initialisers.rs b/src/middle_end/aggregate_type_initialisers.rs
index 2a6172b..47d12c4 100644
--- a/src/middle_end/aggregate_type_initialisers.rs
+++ b/src/middle_end/aggregate_type_initialisers.rs
@@ -1,5 +1,7 @@
 use crate::front_end::ast::{Constant as AstConstant, Expression, Initialiser};
-use crate::middle_end::ast_to_ir::convert_expression_to_ir;
+use crate::middle_end::ast_to_ir::{
+    convert_expression_to_ir, copy_object, object_address, offset_pointer,
+};
 use crate::middle_end::context::Context;
 use crate::middle_end::ids::{ValueType, VarId};
 use crate::middle_end::instructions::{Constant, Instruction, Src};
@@ -8,8 +10,72 @@ use crate::middle_end::ir_types::{IrType, TypeSize};
 use crate::middle_end::middle_end_error::MiddleEndError;
 use crate::middle_end::type_conversions::convert_type_for_assignment;
 
-pub fn array_initialiser(
-    dest: VarId,
+/// the number of stores above which zeroing an object uses a loop
+const MAX_UNROLLED_ZERO_STORES: u64 = 16;
+
+/// Initialise the object of the given type that dest_ptr points to.
+pub fn initialise_object(
+    dest_ptr: VarId,
+    dest_type: IrType,
+    initialiser: Initialiser,
+    prog: &mut Program,
+    context: &mut Context,
+) -> Result<Vec<Instruction>, MiddleEndError> {
+    let initialiser = match &dest_type {
+        IrType::ArrayOf(..) => string_literal_to_char_list(&dest_type, initialiser)?,
+        _ => initialiser,
+    };
+    match (dest_type, initialiser) {
+        (IrType::ArrayOf(member_type, size), Initialiser::List(initialisers)) => array_initialiser(
+            dest_ptr,
+            IrType::ArrayOf(member_type, size),
+            initialisers,
+            prog,
+            context,
+        ),
+        (IrType::Struct(struct_id), Initialiser::List(initialisers)) => struct_initialiser(
+            dest_ptr,
+            IrType::Struct(struct_id),
+            initialisers,
+            prog,
+            context,
+        ),
+        (IrType::ArrayOf(..), Initialiser::Expr(_)) => {
+            Err(MiddleEndError::AssignNonAggregateValueToAggregateType)
+        }
+        (dest_type, Initialiser::Expr(e)) => {
+            let (mut instrs, src) = convert_expression_to_ir(e, prog, context)?;
+            let src_type = src.get_type(&prog.program_metadata)?;
+            let (mut convert_instrs, src) =
+                convert_type_for_assignment(src, src_type, dest_type.to_owned(), prog)?;
+            instrs.append(&mut convert_instrs);
+            if dest_type.is_struct_or_union_type() {
+                let (mut address_instrs, src_ptr) = object_address(src, prog)?;
+                instrs.append(&mut address_instrs);
+                instrs.append(&mut copy_object(dest_ptr, src_ptr, &dest_type, prog)?);
+            } else {
+                let (offset_instr, member_ptr) = offset_pointer(dest_ptr, 0, dest_type, prog)?;
+                instrs.push(offset_instr);
+                instrs.push(Instruction::StoreToAddress(
+                    prog.new_instr_id(),
+                    member_ptr,
+                    src,
+                ));
+            }
+            Ok(instrs)
+        }
+        (dest_type, Initialiser::List(mut initialisers))
+            if dest_type.is_scalar_type() && initialisers.len() == 1 =>
+        {
+            // a scalar can be initialised by an expression in braces
+            initialise_object(dest_ptr, dest_type, initialisers.remove(0), prog, context)
+        }
+        _ => Err(MiddleEndError::InvalidInitialiserExpression),
+    }
+}
+
+fn array_initialiser(
+    dest_ptr: VarId,
     dest_type_info: IrType,
     initialiser_list: Vec<Initialiser>,
     prog: &mut Program,
@@ -19,115 +85,55 @@ pub fn array_initialiser(
 
     let array_member_type = dest_type_info.unwrap_array_type()?;
     // sizes of array members must be known at compile time
-    let array_member_byte_size = match array_member_type.get_object_byte_size(&prog.program_metadata) {
+    let array_member_byte_size = match array_member_type
+        .get_object_byte_size(&prog.program_metadata)
+    {
         TypeSize::CompileTime(size) => size,
         TypeSize::Runtime(_) => return Err(MiddleEndError::ArrayMemberSizeNotKnownAtCompileTime),
     };
 
-    // pointer to the array member we're currently initialising
-    let member_ptr_var = prog.new_var(ValueType::LValue);
-    prog.add_var_type(
-        member_ptr_var.to_owned(),
-        IrType::PointerTo(Box::new(array_member_type.to_owned())),
-    )?;
-    instrs.push(Instruction::SimpleAssignment(
-        prog.new_instr_id(),
-        member_ptr_var.to_owned(),
-        Src::Var(dest),
-    ));
-
     // array length should be known at compile time (either explicitly, or inferred
     // from initialiser list)
     let array_size = match dest_type_info.get_array_size()? {
         TypeSize::CompileTime(size) => size,
         TypeSize::Runtime(_) => return Err(MiddleEndError::UndefinedArraySize),
     };
-    // check that the array length matches the number of initialisers
-    if array_size as usize != initialiser_list.len() {
+    // check that there aren't too many initialisers
+    let num_initialisers = initialiser_list.len() as u64;
+    if num_initialisers > array_size {
         return Err(MiddleEndError::MismatchedArrayInitialiserLength);
     }
 
-    for array_member_initialiser in initialiser_list {
-        match array_member_initialiser {
-            Initialiser::Expr(e) => {
-                if array_member_type.is_aggregate_type() {
-                    return Err(MiddleEndError::AssignNonAggregateValueToAggregateType);
-                }
-                let (mut expr_instrs, mut expr_var) = convert_expression_to_ir(e, prog, context)?;
-                instrs.append(&mut expr_instrs);
-
-                // check type of the expression and convert if necessary
-                let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
-                if expr_var_type != array_member_type {
-                    if let Src::Constant(c) = &expr_var {
-                        let temp = prog.new_var(ValueType::RValue);
-                        prog.add_var_type(
-                            temp.to_owned(),
-                            c.get_type(Some(array_member_type.to_owned())),
-                        )?;
-                        instrs.push(Instruction::SimpleAssignment(
-                            prog.new_instr_id(),
-                            temp.to_owned(),
-                            expr_var,
-                        ));
-                        expr_var = Src::Var(temp);
-                    }
-                    let (mut convert_instrs, converted_var) = convert_type_for_assignment(
-                        expr_var.to_owned(),
-                        expr_var.get_type(&prog.program_metadata)?,
-                        array_member_type.to_owned(),
-                        prog,
-                    )?;
-                    instrs.append(&mut convert_instrs);
-                    expr_var = converted_var;
-                }
-
-                instrs.push(Instruction::StoreToAddress(
-                    prog.new_instr_id(),
-                    member_ptr_var.to_owned(),
-                    expr_var,
-                ));
-            }
-            Initialiser::List(sub_member_initialisers) => match array_member_type.to_owned() {
-                IrType::ArrayOf(sub_member_type, size) => {
-                    // initialise nested array
-                    let mut init_instrs = array_initialiser(
-                        member_ptr_var.to_owned(),
-                        IrType::ArrayOf(sub_member_type, size),
-                        sub_member_initialisers,
-                        prog,
-                        context,
-                    )?;
-                    instrs.append(&mut init_instrs);
-                }
-                IrType::Struct(struct_id) => {
-                    // initialise nested struct
-                    let mut init_instrs = struct_initialiser(
-                        member_ptr_var.to_owned(),
-                        IrType::Struct(struct_id),
-                        sub_member_initialisers,
-                        prog,
-                        context,
-                    )?;
-                    instrs.append(&mut init_instrs);
-                }
-                _ => return Err(MiddleEndError::InvalidInitialiserExpression),
-            },
-        }
-        // increment pointer to the next member
-        instrs.push(Instruction::Add(
-            prog.new_instr_id(),
-            member_ptr_var.to_owned(),
-            Src::Var(member_ptr_var.to_owned()),
-            Src::Constant(Constant::Int(array_member_byte_size as i128)),
-        ));
+    for (index, array_member_initialiser) in initialiser_list.into_iter().enumerate() {
+        // pointer to the array member we're currently initialising
+        let (offset_instr, member_ptr) = offset_pointer(
+            dest_ptr.to_owned(),
+            index as u64 * array_member_byte_size,
+            array_member_type.to_owned(),
+            prog,
+        )?;
+        instrs.push(offset_instr);
+        instrs.append(&mut initialise_object(
+            member_ptr,
+            array_member_type.to_owned(),
+            array_member_initialiser,
+            prog,
+            context,
+        )?);
     }
+    // all members without an initialiser are zero
+    instrs.append(&mut zero_memory(
+        dest_ptr,
+        num_initialisers * array_member_byte_size,
+        (array_size - num_initialisers) * array_member_byte_size,
+        prog,
+    )?);
 
     Ok(instrs)
 }
 
-pub fn struct_initialiser(
-    dest: VarId,
+fn struct_initialiser(
+    dest_ptr: VarId,
     dest_type_info: IrType,
     initialiser_list: Vec<Initialiser>,
     prog: &mut Program,
@@ -137,141 +143,142 @@ pub fn struct_initialiser(
 
     let struct_type = dest_type_info.unwrap_struct_type(prog)?;
 
-    // check that the number of initialisers matches the number of struct members
-    if struct_type.member_count() != initialiser_list.len() {
+    // check that there aren't more initialisers than struct members
+    let num_initialisers = initialiser_list.len();
+    if num_initialisers > struct_type.member_count() {
         return Err(MiddleEndError::MismatchedArrayInitialiserLength);
     }
 
-    for member_index in 0..struct_type.member_count() {
-        let mut member_initialiser = initialiser_list.get(member_index).unwrap().to_owned();
+    for (member_index, member_initialiser) in initialiser_list.into_iter().enumerate() {
         let member_type = struct_type.get_member_type_by_index(member_index)?;
         let member_byte_offset = struct_type.get_member_byte_offset_by_index(member_index)?;
 
         // pointer to the struct member we're currently initialising
-        let member_ptr_var = prog.new_var(ValueType::LValue);
-        prog.add_var_type(
-            member_ptr_var.to_owned(),
-            IrType::PointerTo(Box::new(member_type.to_owned())),
+        let (offset_instr, member_ptr) = offset_pointer(
+            dest_ptr.to_owned(),
+            member_byte_offset,
+            member_type.to_owned(),
+            prog,
         )?;
-        // member_ptr_var = &dest + byte_offset
-        instrs.push(Instruction::AddressOf(
+        instrs.push(offset_instr);
+        instrs.append(&mut initialise_object(
+            member_ptr,
+            member_type,
+            member_initialiser,
+            prog,
+            context,
+        )?);
+    }
+    // all members without an initialiser are zero
+    if num_initialisers < struct_type.member_count() {
+        let offset = struct_type.get_member_byte_offset_by_index(num_initialisers)?;
+        instrs.append(&mut zero_memory(
+            dest_ptr,
+            offset,
+            struct_type.total_byte_size - offset,
+            prog,
+        )?);
+    }
+
+    Ok(instrs)
+}
+
+/// Set the given number of bytes to zero, starting at the given offset from dest_ptr
+fn zero_memory(
+    dest_ptr: VarId,
+    mut offset: u64,
+    byte_size: u64,
+    prog: &mut Program,
+) -> Result<Vec<Instruction>, MiddleEndError> {
+    let mut instrs = Vec::new();
+    let end = offset + byte_size;
+
+    if byte_size / 8 > MAX_UNROLLED_ZERO_STORES {
+        // loop over all of it, except the last few bytes
+        let loop_end = offset + byte_size / 8 * 8;
+        let (offset_instr, chunk_ptr) =
+            offset_pointer(dest_ptr.to_owned(), offset, IrType::U64, prog)?;
+        instrs.push(offset_instr);
+        let (offset_instr, end_ptr) =
+            offset_pointer(dest_ptr.to_owned(), loop_end, IrType::U64, prog)?;
+        instrs.push(offset_instr);
+        let loop_label = prog.new_label();
+        instrs.push(Instruction::Label(
+            prog.new_instr_id(),
+            loop_label.to_owned(),
+        ));
+        instrs.push(Instruction::StoreToAddress(
             prog.new_instr_id(),
-            member_ptr_var.to_owned(),
-            Src::Var(dest.to_owned()),
+            chunk_ptr.to_owned(),
+            Src::Constant(Constant::Int(0)),
         ));
         instrs.push(Instruction::Add(
             prog.new_instr_id(),
-            member_ptr_var.to_owned(),
-            Src::Var(member_ptr_var.to_owned()),
-            Src::Constant(Constant::Int(member_byte_offset as i128)),
+            chunk_ptr.to_owned(),
+            Src::Var(chunk_ptr.to_owned()),
+            Src::Constant(Constant::Int(8)),
         ));
-
-        // check for case of initialising a char array with a string literal
-        if member_type.is_array_type() {
-            match member_initialiser.to_owned() {
-                Initialiser::Expr(e) => {
-                    if let Expression::StringLiteral(s) = e.to_owned() {
-                        // convert string literal to array of chars
-                        member_initialiser = convert_string_literal_to_init_list_of_chars_ast(s);
-                    }
-                }
-                Initialiser::List(inits) => {
-                    if inits.len() == 1 {
-                        if let Initialiser::Expr(e) = inits.first().unwrap() {
-                            if let Expression::StringLiteral(s) = e.to_owned() {
-                                // convert string literal in braces to array of chars
-                                member_initialiser =
-                                    convert_string_literal_to_init_list_of_chars_ast(s);
-                            }
-                        }
-                    }
-                }
-            }
-        }
-
-        match member_initialiser {
-            Initialiser::Expr(e) => {
-                if member_type.is_aggregate_type() {
-                    return Err(MiddleEndError::AssignNonAggregateValueToAggregateType);
-                }
-
-                let (mut expr_instrs, mut expr_var) = convert_expression_to_ir(e, prog, context)?;
-                instrs.append(&mut expr_instrs);
-
-                // check type of the expression and convert if necessary
-                let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
-                if expr_var_type != member_type {
-                    if let Src::Constant(c) = &expr_var {
-                        let temp = prog.new_var(ValueType::RValue);
-                        prog.add_var_type(
-                            temp.to_owned(),
-                            c.get_type(Some(member_type.to_owned())),
-                        )?;
-                        instrs.push(Instruction::SimpleAssignment(
-                            prog.new_instr_id(),
-                            temp.to_owned(),
-                            expr_var,
-                        ));
-                        expr_var = Src::Var(temp);
-                    }
-                    let (mut convert_instrs, converted_var) = convert_type_for_assignment(
-                        expr_var.to_owned(),
-                        expr_var.get_type(&prog.program_metadata)?,
-                        member_type.to_owned(),
-                        prog,
-                    )?;
-                    instrs.append(&mut convert_instrs);
-                    expr_var = converted_var;
-                }
-
-                instrs.push(Instruction::StoreToAddress(
-                    prog.new_instr_id(),
-                    member_ptr_var,
-                    expr_var,
-                ));
-            }
-            Initialiser::List(sub_member_initialisers) => match member_type.to_owned() {
-                IrType::ArrayOf(sub_member_type, size) => {
-                    // initialise nested array
-                    let mut init_instrs = array_initialiser(
-                        member_ptr_var,
-                        IrType::ArrayOf(sub_member_type, size),
-                        sub_member_initialisers,
-                        prog,
-                        context,
-                    )?;
-                    instrs.append(&mut init_instrs);
-                }
-                IrType::Struct(struct_id) => {
-                    // initialise nested struct
-                    let mut init_instrs = struct_initialiser(
-                        member_ptr_var,
-                        IrType::Struct(struct_id),
-                        sub_member_initialisers,
-                        prog,
-                        context,
-                    )?;
-                    instrs.append(&mut init_instrs);
-                }
-                _ => return Err(MiddleEndError::InvalidInitialiserExpression),
-            },
-        }
+        instrs.push(Instruction::BrIfNotEq(
+            prog.new_instr_id(),
+            Src::Var(chunk_ptr),
+            Src::Var(end_ptr),
+            loop_label,
+        ));
+        offset = loop_end;
     }
 
+    while offset < end {
+        let (chunk_type, chunk_size) = match end - offset {
+            1 => (IrType::U8, 1),
+            2..=3 => (IrType::U16, 2),
+            4..=7 => (IrType::U32, 4),
+            _ => (IrType::U64, 8),
+        };
+        let (offset_instr, chunk_ptr) =
+            offset_pointer(dest_ptr.to_owned(), offset, chunk_type, prog)?;
+        instrs.push(offset_instr);
+        instrs.push(Instruction::StoreToAddress(
+            prog.new_instr_id(),
+            chunk_ptr,
+            Src::Constant(Constant::Int(0)),
+        ));
+        offset += chunk_size;
+    }
     Ok(instrs)
 }
 
-/// convert a string literal to an array of chars, for array initialiser
-pub fn convert_string_literal_to_init_list_of_chars_ast(s: String) -> Initialiser {
+/// If an array is initialised with a string literal (which can be in braces), convert it
+/// to a list of chars.
+pub fn string_literal_to_char_list(
+    array_type: &IrType,
+    initialiser: Initialiser,
+) -> Result<Initialiser, MiddleEndError> {
+    if !matches!(array_type.unwrap_array_type()?, IrType::I8 | IrType::U8) {
+        return Ok(initialiser);
+    }
+    let string = match &initialiser {
+        Initialiser::Expr(Expression::StringLiteral(s)) => s.to_owned(),
+        Initialiser::List(inits) => match &inits[..] {
+            [Initialiser::Expr(Expression::StringLiteral(s))] => s.to_owned(),
+            _ => return Ok(initialiser),
+        },
+        _ => return Ok(initialiser),
+    };
     let mut char_initialisers = Vec::new();
-    for c in s.chars() {
+    for c in string.chars() {
         char_initialisers.push(Initialiser::Expr(Expression::Constant(AstConstant::Char(
             c,
         ))));
     }
-    // string terminating char
-    char_initialisers.push(Initialiser::Expr(Expression::Constant(AstConstant::Char(
-        '\0',
-    ))));
-    Initialiser::List(char_initialisers)
+    // string terminating char, which is left out if there's exactly no space for it
+    let array_size = match array_type {
+        IrType::ArrayOf(_, Some(TypeSize::CompileTime(size))) => Some(*size),
+        _ => None,
+    };
+    if array_size != Some(char_initialisers.len() as u64) {
+        char_initialisers.push(Initialiser::Expr(Expression::Constant(AstConstant::Char(
+            '\0',
+        ))));
+    }
+    Ok(Initialiser::List(char_initialisers))
 }
diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 922e9a1..8da908d 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -6,7 +6,7 @@ use crate::front_end::ast::{
     Initialiser, LabelledStatement, Program as AstProgram, Statement, TypeSpecifier, UnaryOperator,
 };
 use crate::middle_end::aggregate_type_initialisers::{
-    array_initialiser, convert_string_literal_to_init_list_of_chars_ast, struct_initialiser,
+    initialise_object, string_literal_to_char_list,
 };
 use crate::middle_end::context::{Context, IdentifierResolveResult, LoopContext, SwitchContext};
 use crate::middle_end::get_ast_type_info::get_type_info;
@@ -465,187 +465,98 @@ fn convert_statement_to_ir(
 
                         // check for case of initialising a char array with a string literal
                         if dest_type_info.is_array_type() {
-                            match init_expr.to_owned() {
-                                Initialiser::Expr(e) => {
-                                    if let Expression::StringLiteral(s) = e.to_owned() {
-                                        // convert string literal to array of chars
-                                        init_expr =
-                                            convert_string_literal_to_init_list_of_chars_ast(s);
-                                    }
-                                }
-                                Initialiser::List(inits) => {
-                                    if inits.len() == 1 {
-                                        if let Initialiser::Expr(e) = inits.first().unwrap() {
-                                            if let Expression::StringLiteral(s) = e.to_owned() {
-                                                // convert string literal in braces to array of chars
-                                                init_expr = convert_string_literal_to_init_list_of_chars_ast(s);
-                                            }
-                                        }
-                                    }
-                                }
-                            }
+                            init_expr = string_literal_to_char_list(&dest_type_info, init_expr)?;
                         }
 
                         // if array type, get array size from number of initialisers (recursively)
                         let dest_type_info =
                             dest_type_info.resolve_array_size_from_initialiser(&init_expr)?;
 
-                        match name {
+                        let name = match name {
                             None => return Err(MiddleEndError::InvalidAbstractDeclarator),
-                            Some(name) => {
-                                match init_expr {
-                                    Initialiser::Expr(e) => {
-                                        let (mut expr_instrs, expr_var) =
-                                            convert_expression_to_ir(e, prog, context)?;
-                                        instrs.append(&mut expr_instrs);
-                                        let mut src = match expr_var {
-                                            Src::Var(var) => Src::Var(var),
-                                            Src::Constant(c) => Src::Constant(c),
-                                            Src::Fun(_) | Src::StoreAddressVar(_) => {
-                                                return Err(
-                                                    MiddleEndError::InvalidInitialiserExpression,
-                                                )
-                                            }
-                                        };
-
-                                        // convert src to dest type
-                                        let src_type = src.get_type(&prog.program_metadata)?;
-                                        if src_type != dest_type_info {
-                                            if let Src::Constant(c) = &src {
-                                                let temp = prog.new_var(ValueType::RValue);
-                                                prog.add_var_type(
-                                                    temp.to_owned(),
-                                                    c.get_type(Some(dest_type_info.to_owned())),
-                                                )?;
-                                                instrs.push(Instruction::SimpleAssignment(
-                                                    prog.new_instr_id(),
-                                                    temp.to_owned(),
-                                                    src,
-                                                ));
-                                                src = Src::Var(temp);
-                                            }
-                                            let (mut convert_instrs, converted_var) =
-                                                convert_type_for_assignment(
-                                                    src.to_owned(),
-                                                    src.get_type(&prog.program_metadata)?,
-                                                    dest_type_info.to_owned(),
-                                                    prog,
-                                                )?;
-                                            instrs.append(&mut convert_instrs);
-                                            src = converted_var;
-                                        }
-
-                                        let dest = prog.new_var(ValueType::LValue);
-                                        prog.add_var_type(
-                                            dest.to_owned(),
-                                            src.get_type(&prog.program_metadata)?,
-                                        )?;
-                                        instrs.push(Instruction::SimpleAssignment(
-                                            prog.new_instr_id(),
-                                            dest.to_owned(),
-                                            src,
-                                        ));
-                                        context.add_variable_to_scope(
-                                            name,
-                                            dest.to_owned(),
-                                            dest_type_info.to_owned(),
-                                        )?;
-                                    }
-                                    Initialiser::List(initialisers) => match dest_type_info {
-                                        IrType::ArrayOf(member_type, size) => {
-                                            let dest = prog.new_var(ValueType::LValue);
-                                            let dest_type = IrType::ArrayOf(member_type, size);
-                                            prog.add_var_type(
-                                                dest.to_owned(),
-                                                dest_type.to_owned(),
-                                            )?;
-                                            context.add_variable_to_scope(
-                                                name,
-                                                dest.to_owned(),
-                                                dest_type.to_owned(),
-                                            )?;
-
-                                            let array_byte_size = match dest_type
-                                                .get_array_byte_size(&prog.program_metadata)?
-                                            {
-                                                TypeSize::CompileTime(size) => {
-                                                    Src::Constant(Constant::Int(size as i128))
-                                                }
-                                                TypeSize::Runtime(size_expr) => {
-                                                    let (mut size_expr_instrs, size_var) =
-                                                        convert_expression_to_ir(
-                                                            size_expr, prog, context,
-                                                        )?;
-                                                    instrs.append(&mut size_expr_instrs);
-                                                    size_var
-                                                }
-                                            };
-                                            instrs.push(Instruction::AllocateVariable(
-                                                prog.new_instr_id(),
-                                                dest.to_owned(),
-                                                array_byte_size,
-                                            ));
-
-                                            let mut init_instrs = array_initialiser(
-                                                dest,
-                                                dest_type,
-                                                initialisers,
-                                                prog,
-                                                context,
-                                            )?;
-                                            instrs.append(&mut init_instrs);
-                                        }
-                                        IrType::Struct(struct_id) => {
-                                            let dest = prog.new_var(ValueType::LValue);
-                                            let dest_type = IrType::Struct(struct_id);
-                                            prog.add_var_type(
-                                                dest.to_owned(),
-                                                dest_type.to_owned(),
-                                            )?;
-                                            context.add_variable_to_scope(
-                                                name,
-                                                dest.to_owned(),
-                                                dest_type.to_owned(),
-                                            )?;
-
-                                            let byte_size = match dest_type
-                                                .get_byte_size(&prog.program_metadata)
-                                            {
-                                                TypeSize::CompileTime(size) => {
-                                                    Src::Constant(Constant::Int(size as i128))
-                                                }
-                                                TypeSize::Runtime(size_expr) => {
-                                                    let (mut size_expr_instrs, size_var) =
-                                                        convert_expression_to_ir(
-                                                            size_expr, prog, context,
-                                                        )?;
-                                                    instrs.append(&mut size_expr_instrs);
-                                                    size_var
-                                                }
-                                            };
-                                            instrs.push(Instruction::AllocateVariable(
-                                                prog.new_instr_id(),
-                                                dest.to_owned(),
-                                                byte_size,
-                                            ));
-
-                                            let mut init_instrs = struct_initialiser(
-                                                dest,
-                                                dest_type,
-                                                initialisers,
-                                                prog,
-                                                context,
-                                            )?;
-                                            instrs.append(&mut init_instrs);
+                            Some(name) => name,
+                        };
+                        // a scalar can be initialised by an expression in braces
+                        if let (true, Initialiser::List(inits)) =
+                            (dest_type_info.is_scalar_type(), &init_expr)
+                        {
+                            if let [Initialiser::Expr(e)] = &inits[..] {
+                                init_expr = Initialiser::Expr(e.to_owned());
+                            }
+                        }
+                        let dest = prog.new_var(ValueType::LValue);
+                        prog.add_var_type(dest.to_owned(), dest_type_info.to_owned())?;
+
+                        match (dest_type_info, init_expr) {
+                            (dest_type_info, Initialiser::Expr(e))
+                                if dest_type_info.is_scalar_type() =>
+                            {
+                                let (mut expr_instrs, src) =
+                                    convert_expression_to_ir(e, prog, context)?;
+                                instrs.append(&mut expr_instrs);
+
+                                // convert src to dest type
+                                let src_type = src.get_type(&prog.program_metadata)?;
+                                let (mut convert_instrs, src) = convert_type_for_assignment(
+                                    src,
+                                    src_type,
+                                    dest_type_info.to_owned(),
+                                    prog,
+                                )?;
+                                instrs.append(&mut convert_instrs);
+                                instrs.push(Instruction::SimpleAssignment(
+                                    prog.new_instr_id(),
+                                    dest.to_owned(),
+                                    src,
+                                ));
+                                context.add_variable_to_scope(name, dest, dest_type_info)?;
+                            }
+                            (dest_type_info, init_expr)
+                                if dest_type_info.is_aggregate_type()
+                                    || dest_type_info.is_struct_or_union_type() =>
+                            {
+                                context.add_variable_to_scope(
+                                    name,
+                                    dest.to_owned(),
+                                    dest_type_info.to_owned(),
+                                )?;
+                                if dest_type_info.is_array_type() {
+                                    let array_byte_size = match dest_type_info
+                                        .get_array_byte_size(&prog.program_metadata)?
+                                    {
+                                        TypeSize::CompileTime(size) => {
+                                            Src::Constant(Constant::Int(size as i128))
                                         }
-                                        _ => {
-                                            return Err(
-                                                MiddleEndError::InvalidInitialiserExpression,
-                                            )
+                                        TypeSize::Runtime(size_expr) => {
+                                            let (mut size_expr_instrs, size_var) =
+                                                convert_expression_to_ir(size_expr, prog, context)?;
+                                            instrs.append(&mut size_expr_instrs);
+                                            size_var
                                         }
-                                    },
-                                };
+                                    };
+                                    instrs.push(Instruction::AllocateVariable(
+                                        prog.new_instr_id(),
+                                        dest.to_owned(),
+                                        array_byte_size,
+                                    ));
+                                } else {
+                                    instrs.push(Instruction::DeclareVariable(
+                                        prog.new_instr_id(),
+                                        dest.to_owned(),
+                                    ));
+                                }
+                                let (mut address_instrs, dest_ptr) =
+                                    object_address(Src::Var(dest), prog)?;
+                                instrs.append(&mut address_instrs);
+                                instrs.append(&mut initialise_object(
+                                    dest_ptr,
+                                    dest_type_info,
+                                    init_expr,
+                                    prog,
+                                    context,
+                                )?);
                             }
+                            _ => return Err(MiddleEndError::InvalidInitialiserExpression),
                         }
                     }
                 }
@@ -735,7 +646,10 @@ fn increment_step(object_type: &IrType, prog: &Program) -> Result<Constant, Midd
 }
 
 /// returns a new pointer to the given variable
-fn address_of(src: Src, prog: &mut Program) -> Result<(Vec<Instruction>, VarId), MiddleEndError> {
+pub fn object_address(
+    src: Src,
+    prog: &mut Program,
+) -> Result<(Vec<Instruction>, VarId), MiddleEndError> {
     let src_type = src.get_type(&prog.program_metadata)?;
     let ptr = prog.new_var(src.get_value_type());
     prog.add_var_type(ptr.to_owned(), src_type.to_owned().wrap_with_pointer())?;
@@ -761,7 +675,7 @@ fn convert_object_address(
     let ptr = match object {
         Src::StoreAddressVar(ptr) => ptr,
         Src::Var(_) if object.get_value_type().is_lvalue() => {
-            let (mut address_instrs, ptr) = address_of(object, prog)?;
+            let (mut address_instrs, ptr) = object_address(object, prog)?;
             instrs.append(&mut address_instrs);
             ptr
         }
@@ -799,15 +713,26 @@ fn convert_member_address(
         _ => unreachable!(),
     };
     // ptr = (address of object) + (byte offset)
-    let ptr = prog.new_var(ValueType::LValue);
-    prog.add_var_type(ptr.to_owned(), member_type.to_owned().wrap_with_pointer())?;
+    let (instr, ptr) = offset_pointer(obj_ptr, member_byte_offset, member_type.to_owned(), prog)?;
+    Ok((vec![instr], ptr, member_type))
+}
+
+/// Get a pointer to an object of the given type, at the given byte offset from ptr
+pub fn offset_pointer(
+    ptr: VarId,
+    byte_offset: u64,
+    object_type: IrType,
+    prog: &mut Program,
+) -> Result<(Instruction, VarId), MiddleEndError> {
+    let dest = prog.new_var(ValueType::LValue);
+    prog.add_var_type(dest.to_owned(), object_type.wrap_with_pointer())?;
     let instr = Instruction::Add(
         prog.new_instr_id(),
-        ptr.to_owned(),
-        Src::Var(obj_ptr),
-        Src::Constant(Constant::Int(member_byte_offset as i128)),
+        dest.to_owned(),
+        Src::Var(ptr),
+        Src::Constant(Constant::Int(byte_offset as i128)),
     );
-    Ok((vec![instr], ptr, member_type))
+    Ok((instr, dest))
 }
 
 /// Load the object of the given type that ptr points to
@@ -833,7 +758,7 @@ fn load_object(
                 prog.new_instr_id(),
                 dest.to_owned(),
             ));
-            let (mut address_instrs, dest_ptr) = address_of(Src::Var(dest.to_owned()), prog)?;
+            let (mut address_instrs, dest_ptr) = object_address(Src::Var(dest.to_owned()), prog)?;
             instrs.append(&mut address_instrs);
             instrs.append(&mut copy_object(dest_ptr, ptr, &object_type, prog)?);
         }
@@ -854,7 +779,7 @@ fn load_object(
 }
 
 /// Copy the object of the given type that src_ptr points to, to the address dest_ptr
-fn copy_object(
+pub fn copy_object(
     dest_ptr: VarId,
     src_ptr: VarId,
     object_type: &IrType,
@@ -876,17 +801,9 @@ fn copy_object(
         prog.add_var_type(chunk.to_owned(), chunk_type.to_owned())?;
         let mut chunk_ptrs = Vec::new();
         for ptr in [&src_ptr, &dest_ptr] {
-            let chunk_ptr = prog.new_var(ValueType::RValue);
-            prog.add_var_type(
-                chunk_ptr.to_owned(),
-                chunk_type.to_owned().wrap_with_pointer(),
-            )?;
-            instrs.push(Instruction::Add(
-                prog.new_instr_id(),
-                chunk_ptr.to_owned(),
-                Src::Var(ptr.to_owned()),
-                Src::Constant(Constant::Int(offset as i128)),
-            ));
+            let (instr, chunk_ptr) =
+                offset_pointer(ptr.to_owned(), offset, chunk_type.to_owned(), prog)?;
+            instrs.push(instr);
             chunk_ptrs.push(chunk_ptr);
         }
         instrs.push(Instruction::LoadFromAddress(
@@ -2221,12 +2138,12 @@ pub fn convert_expression_to_ir(
                 let dest_ptr = match dest_var {
                     Src::StoreAddressVar(ptr) => ptr,
                     dest_var => {
-                        let (mut address_instrs, ptr) = address_of(dest_var, prog)?;
+                        let (mut address_instrs, ptr) = object_address(dest_var, prog)?;
                         instrs.append(&mut address_instrs);
                         ptr
                     }
                 };
-                let (mut address_instrs, src_ptr) = address_of(src_var.to_owned(), prog)?;
+                let (mut address_instrs, src_ptr) = object_address(src_var.to_owned(), prog)?;
                 instrs.append(&mut address_instrs);
                 instrs.append(&mut copy_object(dest_ptr, src_ptr, &stored_type, prog)?);
                 return Ok((instrs, src_var));
diff --git a/src/middle_end/ir_types.rs b/src/middle_end/ir_types.rs
index bf57da7..24f322c 100644
--- a/src/middle_end/ir_types.rs
+++ b/src/middle_end/ir_types.rs
@@ -128,18 +128,24 @@ impl IrType {
                         Box::new(Expression::Constant(Constant::Int(*count as u128))),
                     ))),
                 },
-                Some(TypeSize::Runtime(count_expr)) => match inner_type.get_object_byte_size(prog) {
-                    TypeSize::CompileTime(t_size) => Ok(TypeSize::Runtime(Expression::BinaryOp(
-                        BinaryOperator::Mult,
-                        Box::new(count_expr.to_owned()),
-                        Box::new(Expression::Constant(Constant::Int(t_size as u128))),
-                    ))),
-                    TypeSize::Runtime(t_size_expr) => Ok(TypeSize::Runtime(Expression::BinaryOp(
-                        BinaryOperator::Mult,
-                        Box::new(t_size_expr),
-                        Box::new(count_expr.to_owned()),
-                    ))),
-                },
+                Some(TypeSize::Runtime(count_expr)) => {
+                    match inner_type.get_object_byte_size(prog) {
+                        TypeSize::CompileTime(t_size) => {
+                            Ok(TypeSize::Runtime(Expression::BinaryOp(
+                                BinaryOperator::Mult,
+                                Box::new(count_expr.to_owned()),
+                                Box::new(Expression::Constant(Constant::Int(t_size as u128))),
+                            )))
+                        }
+                        TypeSize::Runtime(t_size_expr) => {
+                            Ok(TypeSize::Runtime(Expression::BinaryOp(
+                                BinaryOperator::Mult,
+                                Box::new(t_size_expr),
+                                Box::new(count_expr.to_owned()),
+                            )))
+                        }
+                    }
+                }
                 None => Ok(TypeSize::CompileTime(0)),
             },
             t => Err(MiddleEndError::UnwrapNonArrayType(t.to_owned())),
@@ -351,8 +357,10 @@ impl IrType {
                 if size.is_none() {
                     size = Some(TypeSize::CompileTime(initialisers.len() as u64));
                 }
-                let resolved_member_type =
-                    t.resolve_array_size_from_initialiser(initialisers.first().unwrap())?;
+                let resolved_member_type = match initialisers.first() {
+                    Some(initialiser) => t.resolve_array_size_from_initialiser(initialiser)?,
+                    None => *t,
+                };
                 Ok(IrType::ArrayOf(Box::new(resolved_member_type), size))
             }
             (t, _) => Ok(t),
-- 
2.43.0


From 9c7d9d1cd950d2ac9039dec400f6f925b31da6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:16 +0000
Subject: [PATCH 14/64] fix: self-referential structs and unions, and
 completing forward declared ones

---
 src/middle_end/context.rs           |  14 ++++
 src/middle_end/get_ast_type_info.rs | 107 ++++++++++++++++++++++++----
 src/middle_end/ir.rs                |  54 ++++++++++++++
 src/middle_end/ir_types.rs          |  16 +++++
 4 files changed, 176 insertions(+), 15 deletions(-)

diff --git a/src/middle_end/context.rs b/src/middle_end/context.rs
index ffabd84..5aed598 100644
--- a/src/middle_end/context.rs
+++ b/src/middle_end/context.rs
@@ -292,6 +292,13 @@ impl Context {
         }
     }
 
+    pub fn resolve_struct_tag_in_current_scope(&self, identifier_name: &str) -> Option<StructId> {
+        self.scope_stack
+            .last()?
+            .resolve_struct_tag_to_struct_id(identifier_name)
+            .ok()
+    }
+
     pub fn resolve_struct_tag_to_struct_id(
         &self,
         identifier_name: &str,
@@ -325,6 +332,13 @@ impl Context {
         }
     }
 
+    pub fn resolve_union_tag_in_current_scope(&self, identifier_name: &str) -> Option<UnionId> {
+        self.scope_stack
+            .last()?
+            .resolve_union_tag_to_union_id(identifier_name)
+            .ok()
+    }
+
     pub fn resolve_union_tag_to_union_id(
         &self,
         identifier_name: &str,
diff --git a/src/middle_end/get_ast_type_info.rs b/src/middle_end/get_ast_type_info.rs
index 837eace..22d921e 100644
--- a/src/middle_end/get_ast_type_info.rs
+++ b/src/middle_end/get_ast_type_info.rs
@@ -48,8 +48,8 @@ pub fn get_type_info(
                 match context.resolve_struct_tag_to_struct_id(struct_name) {
                     Ok(struct_id) => IrType::Struct(struct_id),
                     Err(MiddleEndError::UndeclaredStructTag(_)) => {
-                        let struct_type_id =
-                            prog.add_struct_type(StructType::named(struct_name.to_owned()))?;
+                        let struct_type_id = prog
+                            .new_incomplete_struct_type(StructType::named(struct_name.to_owned()));
                         context
                             .add_struct_tag(struct_name.to_owned(), struct_type_id.to_owned())?;
                         IrType::Struct(struct_type_id)
@@ -58,16 +58,46 @@ pub fn get_type_info(
                 }
             }
             AstStructType::Definition(struct_name, members) => {
+                // the tag is in scope already in the definitions of the members
+                let mut tagged_id = None;
+                if let Some(Identifier(name)) = struct_name {
+                    let id = match context.resolve_struct_tag_in_current_scope(name) {
+                        Some(id) => {
+                            if prog.get_struct_type(&id)?.is_complete() {
+                                if is_duplicate_specifier {
+                                    return finish_type_info(
+                                        specifier,
+                                        declarator,
+                                        IrType::Struct(id),
+                                        prog,
+                                        context,
+                                    );
+                                }
+                                return Err(MiddleEndError::DuplicateTypeDeclaration(
+                                    name.to_owned(),
+                                ));
+                            }
+                            id
+                        }
+                        None => {
+                            let id =
+                                prog.new_incomplete_struct_type(StructType::named(name.to_owned()));
+                            context.add_struct_tag(name.to_owned(), id.to_owned())?;
+                            id
+                        }
+                    };
+                    tagged_id = Some(id);
+                }
                 let mut struct_type = match struct_name {
                     Some(Identifier(name)) => StructType::named(name.to_owned()),
                     None => StructType::unnamed(),
                 };
                 for member in members {
-                    for decl in &member.1 {
+                    for (i, decl) in member.1.iter().enumerate() {
                         let (member_type_info, member_name, _params) = match get_type_info(
                             &member.0,
                             Some(decl.to_owned()),
-                            false,
+                            i > 0,
                             prog,
                             context,
                         )? {
@@ -84,10 +114,13 @@ pub fn get_type_info(
                         )?;
                     }
                 }
-                let struct_type_id = prog.add_struct_type(struct_type)?;
-                if let Some(Identifier(name)) = struct_name {
-                    context.add_struct_tag(name.to_owned(), struct_type_id.to_owned())?;
-                }
+                let struct_type_id = match tagged_id {
+                    Some(id) => {
+                        prog.complete_struct_type(&id, struct_type);
+                        id
+                    }
+                    None => prog.add_struct_type(struct_type)?,
+                };
                 IrType::Struct(struct_type_id)
             }
         },
@@ -98,7 +131,7 @@ pub fn get_type_info(
                     Ok(union_id) => IrType::Union(union_id),
                     Err(MiddleEndError::UndeclaredUnionTag(_)) => {
                         let union_type_id =
-                            prog.add_union_type(UnionType::named(union_name.to_owned()))?;
+                            prog.new_incomplete_union_type(UnionType::named(union_name.to_owned()));
                         context.add_union_tag(union_name.to_owned(), union_type_id.to_owned())?;
                         IrType::Union(union_type_id)
                     }
@@ -106,16 +139,46 @@ pub fn get_type_info(
                 }
             }
             AstUnionType::Definition(union_name, members) => {
+                // the tag is in scope already in the definitions of the members
+                let mut tagged_id = None;
+                if let Some(Identifier(name)) = union_name {
+                    let id = match context.resolve_union_tag_in_current_scope(name) {
+                        Some(id) => {
+                            if prog.get_union_type(&id)?.is_complete() {
+                                if is_duplicate_specifier {
+                                    return finish_type_info(
+                                        specifier,
+                                        declarator,
+                                        IrType::Union(id),
+                                        prog,
+                                        context,
+                                    );
+                                }
+                                return Err(MiddleEndError::DuplicateTypeDeclaration(
+                                    name.to_owned(),
+                                ));
+                            }
+                            id
+                        }
+                        None => {
+                            let id =
+                                prog.new_incomplete_union_type(UnionType::named(name.to_owned()));
+                            context.add_union_tag(name.to_owned(), id.to_owned())?;
+                            id
+                        }
+                    };
+                    tagged_id = Some(id);
+                }
                 let mut union_type = match union_name {
                     Some(Identifier(name)) => UnionType::named(name.to_owned()),
                     None => UnionType::unnamed(),
                 };
                 for member in members {
-                    for decl in &member.1 {
+                    for (i, decl) in member.1.iter().enumerate() {
                         let (member_type_info, member_name, _params) = match get_type_info(
                             &member.0,
                             Some(decl.to_owned()),
-                            false,
+                            i > 0,
                             prog,
                             context,
                         )? {
@@ -132,10 +195,13 @@ pub fn get_type_info(
                         )?;
                     }
                 }
-                let union_type_id = prog.add_union_type(union_type)?;
-                if let Some(Identifier(name)) = union_name {
-                    context.add_union_tag(name.to_owned(), union_type_id.to_owned())?;
-                }
+                let union_type_id = match tagged_id {
+                    Some(id) => {
+                        prog.complete_union_type(&id, union_type);
+                        id
+                    }
+                    None => prog.add_union_type(union_type)?,
+                };
                 IrType::Union(union_type_id)
             }
         },
@@ -184,6 +250,17 @@ pub fn get_type_info(
         TypeSpecifier::CustomType(Identifier(name)) => context.resolve_typedef(name)?,
     };
 
+    finish_type_info(specifier, declarator, ir_type, prog, context)
+}
+
+/// Apply the storage class specifiers and the declarator to the type
+fn finish_type_info(
+    specifier: &SpecifierQualifier,
+    declarator: Option<Declarator>,
+    ir_type: IrType,
+    prog: &mut Program,
+    context: &mut Context,
+) -> Result<Option<(IrType, Option<String>, Option<FunctionParameterBindings>)>, MiddleEndError> {
     let mut is_typedef = false;
     match specifier.storage_class_specifier {
         None => {}
diff --git a/src/middle_end/ir.rs b/src/middle_end/ir.rs
index 6bd6156..d9829d3 100644
--- a/src/middle_end/ir.rs
+++ b/src/middle_end/ir.rs
@@ -215,6 +215,30 @@ impl ProgramMetadata {
         Ok(struct_id)
     }
 
+    /// whether the size of an object of this type is known
+    pub fn is_complete_type(&self, ir_type: &IrType) -> bool {
+        match ir_type {
+            IrType::Struct(id) => self.structs.get(id).map_or(false, |t| t.is_complete()),
+            IrType::Union(id) => self.unions.get(id).map_or(false, |t| t.is_complete()),
+            IrType::ArrayOf(member_type, size) => {
+                size.is_some() && self.is_complete_type(member_type)
+            }
+            IrType::Void => false,
+            _ => true,
+        }
+    }
+
+    /// Add a struct type that doesn't have its members yet
+    pub fn new_incomplete_struct_type(&mut self, struct_type: StructType) -> StructId {
+        let struct_id = self.struct_id_generator.new_id();
+        self.structs.insert(struct_id.to_owned(), struct_type);
+        struct_id
+    }
+
+    pub fn complete_struct_type(&mut self, struct_id: &StructId, struct_type: StructType) {
+        self.structs.insert(struct_id.to_owned(), struct_type);
+    }
+
     pub fn get_struct_type(&self, struct_id: &StructId) -> Result<StructType, MiddleEndError> {
         match self.structs.get(struct_id) {
             None => Err(MiddleEndError::TypeNotFound),
@@ -234,6 +258,17 @@ impl ProgramMetadata {
         Ok(union_id)
     }
 
+    /// Add a union type that doesn't have its members yet
+    pub fn new_incomplete_union_type(&mut self, union_type: UnionType) -> UnionId {
+        let union_id = self.union_id_generator.new_id();
+        self.unions.insert(union_id.to_owned(), union_type);
+        union_id
+    }
+
+    pub fn complete_union_type(&mut self, union_id: &UnionId, union_type: UnionType) {
+        self.unions.insert(union_id.to_owned(), union_type);
+    }
+
     pub fn get_union_type(&self, union_id: &UnionId) -> Result<UnionType, MiddleEndError> {
         match self.unions.get(union_id) {
             None => Err(MiddleEndError::TypeNotFound),
@@ -429,6 +464,16 @@ impl Program {
         self.program_metadata.add_struct_type(struct_type)
     }
 
+    pub fn new_incomplete_struct_type(&mut self, struct_type: StructType) -> StructId {
+        self.program_metadata
+            .new_incomplete_struct_type(struct_type)
+    }
+
+    pub fn complete_struct_type(&mut self, struct_id: &StructId, struct_type: StructType) {
+        self.program_metadata
+            .complete_struct_type(struct_id, struct_type)
+    }
+
     pub fn get_struct_type(&self, struct_id: &StructId) -> Result<StructType, MiddleEndError> {
         self.program_metadata.get_struct_type(struct_id)
     }
@@ -437,6 +482,15 @@ impl Program {
         self.program_metadata.add_union_type(union_type)
     }
 
+    pub fn new_incomplete_union_type(&mut self, union_type: UnionType) -> UnionId {
+        self.program_metadata.new_incomplete_union_type(union_type)
+    }
+
+    pub fn complete_union_type(&mut self, union_id: &UnionId, union_type: UnionType) {
+        self.program_metadata
+            .complete_union_type(union_id, union_type)
+    }
+
     pub fn get_union_type(&self, union_id: &UnionId) -> Result<UnionType, MiddleEndError> {
         self.program_metadata.get_union_type(union_id)
     }
diff --git a/src/middle_end/ir_types.rs b/src/middle_end/ir_types.rs
index 24f322c..725fa54 100644
--- a/src/middle_end/ir_types.rs
+++ b/src/middle_end/ir_types.rs
@@ -466,6 +466,11 @@ impl StructType {
         }
     }
 
+    /// a struct type is incomplete until its members are known
+    pub fn is_complete(&self) -> bool {
+        !self.members.is_empty()
+    }
+
     pub fn push_member(
         &mut self,
         member_name: String,
@@ -476,6 +481,9 @@ impl StructType {
         if self.has_member(&member_name) {
             return Err(MiddleEndError::DuplicateStructMember);
         }
+        if !prog.is_complete_type(&member_type) {
+            return Err(MiddleEndError::UndefinedStructMemberSize);
+        }
         let byte_size = match member_type.get_object_byte_size(prog) {
             TypeSize::CompileTime(size) => size,
             TypeSize::Runtime(_) => return Err(MiddleEndError::UndefinedStructMemberSize),
@@ -586,6 +594,11 @@ impl UnionType {
         }
     }
 
+    /// a union type is incomplete until its members are known
+    pub fn is_complete(&self) -> bool {
+        !self.member_types.is_empty()
+    }
+
     pub fn push_member(
         &mut self,
         member_name: String,
@@ -596,6 +609,9 @@ impl UnionType {
         if self.has_member(&member_name) {
             return Err(MiddleEndError::DuplicateUnionMember);
         }
+        if !prog.is_complete_type(&member_type) {
+            return Err(MiddleEndError::UndefinedUnionMemberSize);
+        }
         let byte_size = match member_type.get_object_byte_size(prog) {
             TypeSize::CompileTime(size) => size,
             TypeSize::Runtime(_) => return Err(MiddleEndError::UndefinedUnionMemberSize),
-- 
2.43.0


From d85225356723fa34c8031d29ce42ffcd6ad11bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:49 +0000
Subject: [PATCH 15/64] fix: recognise single letter typedef names, and several
 names in one typedef

---
 src/front_end/lexer.rs | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/src/front_end/lexer.rs b/src/front_end/lexer.rs
index 687f9a2..c5d5fb7 100644
--- a/src/front_end/lexer.rs
+++ b/src/front_end/lexer.rs
@@ -318,14 +318,14 @@ impl Lexer<'_> {
     fn parse_typedef_name(&mut self) -> Result<(), LexError> {
         let result = c_parser::DeclarationParser::new().parse(self.typedef_stmt_buffer.to_vec());
         if let Ok(ast::Statement::Declaration(_, ds)) = result {
-            if ds.len() == 1 {
-                if let Some(name) = ds[0].get_identifier_name() {
-                    trace!("Found typedef identifier: {:?}", name);
-                    self.typedef_names.push(name);
-                    trace!("Typedef names so far: {:?}", self.typedef_names);
-                    self.typedef_stmt_buffer = vec![];
-                    return Ok(());
-                }
+            let names: Option<Vec<TypedefName>> =
+                ds.iter().map(|d| d.get_identifier_name()).collect();
+            if let Some(mut names) = names {
+                trace!("Found typedef identifiers: {:?}", names);
+                self.typedef_names.append(&mut names);
+                trace!("Typedef names so far: {:?}", self.typedef_names);
+                self.typedef_stmt_buffer = vec![];
+                return Ok(());
             }
         }
         self.typedef_stmt_buffer = vec![];
@@ -556,14 +556,9 @@ impl Fsm {
                     token: None,
                 }),
                 // identifiers only start with letters or underscore, not number
-                c if c.is_ascii_alphabetic() => Some(Fsm {
-                    state: State::Identifier,
-                    token: Some(Token::Identifier(c.to_string())),
-                }),
-                '_' => Some(Fsm {
-                    state: State::Identifier,
-                    token: Some(Token::Identifier("_".to_owned())),
-                }),
+                c if c.is_ascii_alphabetic() || c == '_' => {
+                    Some(lex_identifier(c.to_string(), typedef_names))
+                }
                 '0' => Some(Fsm {
                     state: State::Oct1,
                     token: Some(Token::OctalConstant("0".to_owned())),
-- 
2.43.0


From 18d4edf77f99c4fba5b2fa8a72e4f360fa42314a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:58 +0000
Subject: [PATCH 16/64] fix: scale pointer differences and offsets of any
 integer type by the element size

---
 src/middle_end/aggregate_type_initialisers.rs |   2 +-
 src/middle_end/ast_to_ir.rs                   | 177 ++++++++----------
 2 files changed, 84 insertions(+), 95 deletions(-)

diff --git a/src/middle_end/aggregate_type_initialisers.rs b/src/middle_end/aggregate_type_initialisers.rs
index 47d12c4..715207b 100644
--- a/src/middle_end/aggregate_type_initialisers.rs
+++ b/src/middle_end/aggregate_type_initialisers.rs
@@ -3,7 +3,7 @@ use crate::middle_end::ast_to_ir::{
     convert_expression_to_ir, copy_object, object_address, offset_pointer,
 };
 use crate::middle_end::context::Context;
-use crate::middle_end::ids::{ValueType, VarId};
+use crate::middle_end::ids::VarId;
 use crate::middle_end::instructions::{Constant, Instruction, Src};
 use crate::middle_end::ir::Program;
 use crate::middle_end::ir_types::{IrType, TypeSize};
diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 8da908d..bd959d8 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -735,6 +735,48 @@ pub fn offset_pointer(
     Ok((instr, dest))
 }
 
+/// The byte size of an object of the given type, as an int
+fn convert_object_byte_size(
+    object_type: &IrType,
+    prog: &mut Program,
+    context: &mut Context,
+) -> Result<(Vec<Instruction>, Src), MiddleEndError> {
+    match object_type.get_object_byte_size(&prog.program_metadata) {
+        TypeSize::CompileTime(size) => Ok((Vec::new(), Src::Constant(Constant::Int(size as i128)))),
+        TypeSize::Runtime(size_expr) => {
+            let (mut instrs, size_var) = convert_expression_to_ir(size_expr, prog, context)?;
+            let size_type = size_var.get_type(&prog.program_metadata)?;
+            let (mut convert_instrs, size_var) =
+                get_type_conversion_instrs(size_var, size_type, IrType::I32, prog)?;
+            instrs.append(&mut convert_instrs);
+            Ok((instrs, size_var))
+        }
+    }
+}
+
+/// Get the number of bytes that a pointer to the given type moves by when index is added to it
+fn convert_pointer_offset(
+    index: Src,
+    object_type: &IrType,
+    prog: &mut Program,
+    context: &mut Context,
+) -> Result<(Vec<Instruction>, Src), MiddleEndError> {
+    // addresses have the size of an int, so the offset should be an int too
+    let index_type = index.get_type(&prog.program_metadata)?;
+    let (mut instrs, index) = get_type_conversion_instrs(index, index_type, IrType::I32, prog)?;
+    let (mut size_instrs, object_byte_size) = convert_object_byte_size(object_type, prog, context)?;
+    instrs.append(&mut size_instrs);
+    let offset = prog.new_var(ValueType::RValue);
+    prog.add_var_type(offset.to_owned(), IrType::I32)?;
+    instrs.push(Instruction::Mult(
+        prog.new_instr_id(),
+        offset.to_owned(),
+        index,
+        object_byte_size,
+    ));
+    Ok((instrs, Src::Var(offset)))
+}
+
 /// Load the object of the given type that ptr points to
 fn load_object(
     ptr: VarId,
@@ -874,7 +916,7 @@ pub fn convert_expression_to_ir(
             // unary conversion
             let (mut unary_convert_arr_instrs, arr_var) = unary_convert(arr_var, prog)?;
             instrs.append(&mut unary_convert_arr_instrs);
-            let (mut unary_convert_index_instrs, mut index_var) = unary_convert(index_var, prog)?;
+            let (mut unary_convert_index_instrs, index_var) = unary_convert(index_var, prog)?;
             instrs.append(&mut unary_convert_index_instrs);
             let arr_var_type = arr_var.get_type(&prog.program_metadata)?;
             arr_var_type.require_pointer_type()?;
@@ -883,56 +925,10 @@ pub fn convert_expression_to_ir(
             let index_var_type = index_var.get_type(&prog.program_metadata)?;
             index_var_type.require_integral_type()?;
 
-            match index_var_type {
-                IrType::I64 => {
-                    // index should be int not long, so we can add it to ptr
-                    let temp_index_var = prog.new_var(index_var.get_value_type());
-                    prog.add_var_type(temp_index_var.to_owned(), IrType::I32)?;
-                    instrs.push(Instruction::U64toI32(
-                        prog.new_instr_id(),
-                        temp_index_var.to_owned(),
-                        index_var,
-                    ));
-                    index_var = Src::Var(temp_index_var);
-                }
-                IrType::U64 => {
-                    // index should be int not long, so we can add it to ptr
-                    let temp_index_var = prog.new_var(index_var.get_value_type());
-                    prog.add_var_type(temp_index_var.to_owned(), IrType::I32)?;
-                    instrs.push(Instruction::I64toI32(
-                        prog.new_instr_id(),
-                        temp_index_var.to_owned(),
-                        index_var,
-                    ));
-                    index_var = Src::Var(temp_index_var);
-                }
-                _ => {}
-            }
-
             // multiply index by size of element, to get number of bytes to advance ptr by
-            let element_byte_size = arr_inner_type.get_object_byte_size(&prog.program_metadata);
-            let byte_size_var = match element_byte_size {
-                TypeSize::CompileTime(byte_size) => Src::Constant(Constant::Int(byte_size as i128)),
-                TypeSize::Runtime(byte_size_expr) => {
-                    let (mut byte_size_instrs, byte_size_var) =
-                        convert_expression_to_ir(byte_size_expr, prog, context)?;
-                    instrs.append(&mut byte_size_instrs);
-                    byte_size_var
-                }
-            };
-            let (mut binary_convert_instrs, left_var, right_var) =
-                binary_convert(index_var, byte_size_var, prog)?;
-            instrs.append(&mut binary_convert_instrs);
-            let ptr_offset_var = prog.new_var(ValueType::RValue);
-            // left and right vars have same type cos of binary conversion
-            let left_var_type = left_var.get_type(&prog.program_metadata)?;
-            prog.add_var_type(ptr_offset_var.to_owned(), left_var_type)?;
-            instrs.push(Instruction::Mult(
-                prog.new_instr_id(),
-                ptr_offset_var.to_owned(),
-                left_var,
-                right_var,
-            ));
+            let (mut offset_instrs, ptr_offset_var) =
+                convert_pointer_offset(index_var, &arr_inner_type, prog, context)?;
+            instrs.append(&mut offset_instrs);
 
             // array variable is a pointer to the start of the array
             let ptr = prog.new_var(ValueType::LValue);
@@ -941,7 +937,7 @@ pub fn convert_expression_to_ir(
                 prog.new_instr_id(),
                 ptr.to_owned(),
                 arr_var,
-                Src::Var(ptr_offset_var),
+                ptr_offset_var,
             ));
             if this_expr_directly_on_lhs_of_assignment {
                 // store to array index
@@ -1678,28 +1674,14 @@ pub fn convert_expression_to_ir(
                         // result is the pointer type
                         prog.add_var_type(dest.to_owned(), left_var_type.to_owned())?;
                         // add to pointer in multiples of the byte size of the type it points to
-                        let temp = prog.new_var(right_var.get_value_type());
-                        prog.add_var_type(temp.to_owned(), right_var_type)?;
-                        let ptr_object_byte_size = match left_var_type
-                            .get_pointer_object_byte_size(&prog.program_metadata)?
-                        {
-                            TypeSize::CompileTime(size) => {
-                                Src::Constant(Constant::Int(size as i128))
-                            }
-                            TypeSize::Runtime(size_expr) => {
-                                let (mut size_expr_instrs, size_var) =
-                                    convert_expression_to_ir(size_expr, prog, context)?;
-                                instrs.append(&mut size_expr_instrs);
-                                size_var
-                            }
-                        };
-                        instrs.push(Instruction::Mult(
-                            prog.new_instr_id(),
-                            temp.to_owned(),
+                        let (mut offset_instrs, offset) = convert_pointer_offset(
                             right_var,
-                            ptr_object_byte_size,
-                        ));
-                        right_var = Src::Var(temp);
+                            &left_var_type.dereference_pointer_type()?,
+                            prog,
+                            context,
+                        )?;
+                        instrs.append(&mut offset_instrs);
+                        right_var = offset;
                     }
                     instrs.push(Instruction::Add(
                         prog.new_instr_id(),
@@ -1733,28 +1715,14 @@ pub fn convert_expression_to_ir(
                         prog.add_var_type(dest.to_owned(), left_var_type.to_owned())?;
 
                         // subtract from pointer in multiples of the byte size it points to
-                        let temp_right_var = prog.new_var(right_var.get_value_type());
-                        prog.add_var_type(temp_right_var.to_owned(), right_var_type)?;
-                        let ptr_object_byte_size = match left_var_type
-                            .get_pointer_object_byte_size(&prog.program_metadata)?
-                        {
-                            TypeSize::CompileTime(size) => {
-                                Src::Constant(Constant::Int(size as i128))
-                            }
-                            TypeSize::Runtime(size_expr) => {
-                                let (mut size_expr_instrs, size_var) =
-                                    convert_expression_to_ir(size_expr, prog, context)?;
-                                instrs.append(&mut size_expr_instrs);
-                                size_var
-                            }
-                        };
-                        instrs.push(Instruction::Mult(
-                            prog.new_instr_id(),
-                            temp_right_var.to_owned(),
+                        let (mut offset_instrs, offset) = convert_pointer_offset(
                             right_var,
-                            ptr_object_byte_size,
-                        ));
-                        right_var = Src::Var(temp_right_var);
+                            &left_var_type.dereference_pointer_type()?,
+                            prog,
+                            context,
+                        )?;
+                        instrs.append(&mut offset_instrs);
+                        right_var = offset;
 
                         // convert ptr to i32
                         let temp_left_var = prog.new_var(left_var.get_value_type());
@@ -1766,8 +1734,29 @@ pub fn convert_expression_to_ir(
                         ));
                         left_var = Src::Var(temp_left_var);
                     } else {
-                        // pointer - pointer -> int
+                        // pointer - pointer -> int, the number of elements in between
                         prog.add_var_type(dest.to_owned(), IrType::I32)?;
+                        let byte_difference = prog.new_var(ValueType::RValue);
+                        prog.add_var_type(byte_difference.to_owned(), IrType::I32)?;
+                        instrs.push(Instruction::Sub(
+                            prog.new_instr_id(),
+                            byte_difference.to_owned(),
+                            left_var,
+                            right_var,
+                        ));
+                        let (mut size_instrs, object_byte_size) = convert_object_byte_size(
+                            &left_var_type.dereference_pointer_type()?,
+                            prog,
+                            context,
+                        )?;
+                        instrs.append(&mut size_instrs);
+                        instrs.push(Instruction::Div(
+                            prog.new_instr_id(),
+                            dest.to_owned(),
+                            Src::Var(byte_difference),
+                            object_byte_size,
+                        ));
+                        return Ok((instrs, Src::Var(dest)));
                     }
                     instrs.push(Instruction::Sub(
                         prog.new_instr_id(),
-- 
2.43.0


From 65ad6ee318b6402c854f2b69485496901ea00efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:30 +0000
Subject: [PATCH 17/64] fix: accept every spelling of the integer types, such
 as plain unsigned

---
 src/front_end/ast.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/front_end/ast.rs b/src/front_end/ast.rs
index 0d98dd7..f7f7fb4 100644
--- a/src/front_end/ast.rs
+++ b/src/front_end/ast.rs
@@ -602,17 +602,17 @@ impl ArithmeticType {
             // unsigned char
             0b00_10_0001 => Ok(ArithmeticType::U8),
             // signed short
-            0b00_00_0010 | 0b00_01_0010 => Ok(ArithmeticType::I16),
+            0b00_00_0010 | 0b00_01_0010 | 0b00_00_0110 | 0b00_01_0110 => Ok(ArithmeticType::I16),
             // unsigned short
-            0b00_10_0010 => Ok(ArithmeticType::U16),
+            0b00_10_0010 | 0b00_10_0110 => Ok(ArithmeticType::U16),
             // signed int
-            0b00_00_0100 | 0b00_01_0100 => Ok(ArithmeticType::I32),
+            0b00_00_0100 | 0b00_01_0100 | 0b00_01_0000 => Ok(ArithmeticType::I32),
             // unsigned int
-            0b00_10_0100 => Ok(ArithmeticType::U32),
+            0b00_10_0100 | 0b00_10_0000 => Ok(ArithmeticType::U32),
             // signed long
-            0b00_00_1000 | 0b00_01_1000 => Ok(ArithmeticType::I64),
+            0b00_00_1000 | 0b00_01_1000 | 0b00_00_1100 | 0b00_01_1100 => Ok(ArithmeticType::I64),
             // unsigned long
-            0b00_10_1000 => Ok(ArithmeticType::U64),
+            0b00_10_1000 | 0b00_10_1100 => Ok(ArithmeticType::U64),
             // float
             0b01_00_0000 => Ok(ArithmeticType::F32),
             // double
-- 
2.43.0


From 91f821683079c20413769980cb441de5fcf582bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:51 +0000
Subject: [PATCH 18/64] fix: report malformed tokens and declarations as
 errors, concatenate adjacent string literals, and complete the escape
 sequences

---
 src/front_end/c_parser.lalrpop    | 38 ++++++++++++++++++-------------
 src/front_end/interpret_string.rs |  8 +++++--
 src/front_end/lexer.rs            | 13 ++++++++++-
 3 files changed, 40 insertions(+), 19 deletions(-)

diff --git a/src/front_end/c_parser.lalrpop b/src/front_end/c_parser.lalrpop
index b679a5a..1b7ba58 100644
--- a/src/front_end/c_parser.lalrpop
+++ b/src/front_end/c_parser.lalrpop
@@ -1,6 +1,7 @@
 use crate::front_end::ast;
 use crate::front_end::lexer;
 use crate::front_end::interpret_string::interpret_string;
+use crate::front_end::lexer::invalid_syntax as invalid;
 
 grammar;
 
@@ -150,20 +151,25 @@ IntegerConstant: u128 = {
   HexConstant,
 };
 
-DecimalConstant: u128 = "DecimalConstant" => u128::from_str_radix(&<>, 10).unwrap();
+DecimalConstant: u128 = "DecimalConstant" =>? u128::from_str_radix(&<>, 10).map_err(invalid);
 
-BinaryConstant: u128 = "BinaryConstant" => u128::from_str_radix(&<>[2..], 2).unwrap();
+BinaryConstant: u128 = "BinaryConstant" =>? u128::from_str_radix(&<>[2..], 2).map_err(invalid);
 
-OctalConstant: u128 = "OctalConstant" => u128::from_str_radix(&<>, 8).unwrap();
+OctalConstant: u128 = "OctalConstant" =>? u128::from_str_radix(&<>, 8).map_err(invalid);
 
-HexConstant: u128 = "HexConstant" => u128::from_str_radix(&<>[2..], 16).unwrap();
+HexConstant: u128 = "HexConstant" =>? u128::from_str_radix(&<>[2..], 16).map_err(invalid);
 
-DecimalFloatingConstant: f64 = "FloatingConstant" => <>.parse::<f64>().unwrap();
+DecimalFloatingConstant: f64 = "FloatingConstant" =>? <>.parse::<f64>().map_err(invalid);
 
 // remove leading and trailing double quote using slice
-pub StringLiteral: String = "StringLiteral" => interpret_string(&<>).unwrap();
+// adjacent string literals are concatenated
+pub StringLiteral: String = <SingleStringLiteral+> => <>.concat();
 
-CharConstant: char = "CharConstant" => interpret_string(&<>).unwrap().chars().nth(0).unwrap();
+SingleStringLiteral: String = "StringLiteral" =>? interpret_string(&<>).map_err(invalid);
+
+CharConstant: char = "CharConstant" =>? {
+  interpret_string(&<>).map_err(invalid)?.chars().next().ok_or_else(|| invalid("Empty character constant"))
+};
 
 // STATEMENTS -------------------------------
 
@@ -213,16 +219,16 @@ Block: ast::Statement = {
 #[inline]
 ExpressionOrDeclaration: ast::ExpressionOrDeclaration = {
   <Expression> => ast::ExpressionOrDeclaration::Expression(<>),
-  <sqs:SpecifierQualifier+> <d:DeclaratorInitialiserList> => ast::ExpressionOrDeclaration::Declaration(Box::new(ast::Statement::Declaration(ast::SpecifierQualifier::create(sqs).unwrap(), d))),
+  <sqs:SpecifierQualifier+> <d:DeclaratorInitialiserList> =>? Ok(ast::ExpressionOrDeclaration::Declaration(Box::new(ast::Statement::Declaration(ast::SpecifierQualifier::create(sqs).map_err(invalid)?, d)))),
 };
 
 // DECLARATIONS -----------------------------
 
 pub Declaration: ast::Statement = {
-  <sqs:SpecifierQualifier+> <d:DeclaratorInitialiserList> ";" => ast::Statement::Declaration(ast::SpecifierQualifier::create(sqs).unwrap(), d),
-  <sqs:SpecifierQualifier+> <d:Declarator> <b:Block> => ast::Statement::FunctionDeclaration(ast::SpecifierQualifier::create(sqs).unwrap(), d, Box::new(b)),
+  <sqs:SpecifierQualifier+> <d:DeclaratorInitialiserList> ";" =>? Ok(ast::Statement::Declaration(ast::SpecifierQualifier::create(sqs).map_err(invalid)?, d)),
+  <sqs:SpecifierQualifier+> <d:Declarator> <b:Block> =>? Ok(ast::Statement::FunctionDeclaration(ast::SpecifierQualifier::create(sqs).map_err(invalid)?, d, Box::new(b))),
   // for structs, unions, enums
-  <SpecifierQualifier+> ";" => ast::Statement::EmptyDeclaration(ast::SpecifierQualifier::create(<>).unwrap()),
+  <SpecifierQualifier+> ";" =>? Ok(ast::Statement::EmptyDeclaration(ast::SpecifierQualifier::create(<>).map_err(invalid)?)),
 };
 
 pub SpecifierQualifier: ast::SpecifierQualifierToken = {
@@ -276,7 +282,7 @@ StructDeclaration: ast::StructType = {
 };
 
 StructMemberDeclaration: ast::StructMemberDeclaration = {
-  <sqs:SpecifierQualifier+> <d:DeclaratorList> ";" => ast::StructMemberDeclaration(ast::SpecifierQualifier::create(sqs).unwrap(), d),
+  <sqs:SpecifierQualifier+> <d:DeclaratorList> ";" =>? Ok(ast::StructMemberDeclaration(ast::SpecifierQualifier::create(sqs).map_err(invalid)?, d)),
 };
 
 UnionDeclaration: ast::UnionType = {
@@ -328,8 +334,8 @@ ParameterTypeList: ast::ParameterTypeList = {
 ParameterList = CommaSepList<ParameterDeclaration>;
 
 ParameterDeclaration: ast::ParameterDeclaration = {
-  <sqs:SpecifierQualifier+> <d:Declarator?> => {
-    ast::ParameterDeclaration(ast::SpecifierQualifier::create(sqs).unwrap(), d)
+  <sqs:SpecifierQualifier+> <d:Declarator?> =>? {
+    Ok(ast::ParameterDeclaration(ast::SpecifierQualifier::create(sqs).map_err(invalid)?, d))
   }
 };
 
@@ -475,7 +481,7 @@ MultiplicativeExpression: ast::Expression = {
 
 CastExpression: ast::Expression = {
   UnaryExpression,
-  "(" <sqs:SpecifierQualifier+> <d:Declarator?> ")" <e:CastExpression> => ast::Expression::Cast(ast::TypeName(ast::SpecifierQualifier::create(sqs).unwrap(), d), Box::new(e)),
+  "(" <sqs:SpecifierQualifier+> <d:Declarator?> ")" <e:CastExpression> =>? Ok(ast::Expression::Cast(ast::TypeName(ast::SpecifierQualifier::create(sqs).map_err(invalid)?, d), Box::new(e))),
 };
 
 UnaryExpression: ast::Expression = {
@@ -484,7 +490,7 @@ UnaryExpression: ast::Expression = {
   "--" <UnaryExpression> => ast::Expression::PrefixDecrement(Box::new(<>)),
   <op:UnaryOperator> <e:CastExpression> => ast::Expression::UnaryOp(op, Box::new(e)),
   "sizeof" <UnaryExpression> => ast::Expression::SizeOfExpr(Box::new(<>)),
-   "sizeof" "(" <sqs:SpecifierQualifier+> <d:Declarator?> ")" => ast::Expression::SizeOfType(ast::TypeName(ast::SpecifierQualifier::create(sqs).unwrap(), d)),
+   "sizeof" "(" <sqs:SpecifierQualifier+> <d:Declarator?> ")" =>? Ok(ast::Expression::SizeOfType(ast::TypeName(ast::SpecifierQualifier::create(sqs).map_err(invalid)?, d))),
 };
 
 UnaryOperator: ast::UnaryOperator = {
diff --git a/src/front_end/interpret_string.rs b/src/front_end/interpret_string.rs
index 0b846ef..573910e 100644
--- a/src/front_end/interpret_string.rs
+++ b/src/front_end/interpret_string.rs
@@ -34,6 +34,10 @@ impl Iterator for InterpretString<'_> {
                     Some('n') => Ok('\n'),
                     Some('r') => Ok('\r'),
                     Some('t') => Ok('\t'),
+                    Some('a') => Ok('\x07'),
+                    Some('b') => Ok('\x08'),
+                    Some('f') => Ok('\x0C'),
+                    Some('v') => Ok('\x0B'),
                     Some('x') => {
                         // hex char code
                         // check whether the next digit is a valid hex digit,
@@ -54,8 +58,8 @@ impl Iterator for InterpretString<'_> {
                                 }
                                 // convert the hex code to an int, and then to
                                 // the corresponding char
-                                let hex_code = u32::from_str_radix(&buffer, 16).unwrap();
-                                match char::from_u32(hex_code) {
+                                let hex_code = u32::from_str_radix(&buffer, 16).ok();
+                                match hex_code.and_then(char::from_u32) {
                                     Some(c) => Ok(c),
                                     None => Err(Error::InvalidCharCode(buffer)),
                                 }
diff --git a/src/front_end/lexer.rs b/src/front_end/lexer.rs
index c5d5fb7..790915a 100644
--- a/src/front_end/lexer.rs
+++ b/src/front_end/lexer.rs
@@ -1,7 +1,8 @@
 use std::error::Error;
-use std::fmt::Formatter;
+use std::fmt::{Debug, Formatter};
 use std::{fmt, iter::Peekable, str::CharIndices};
 
+use lalrpop_util::ParseError;
 use log::trace;
 
 use crate::front_end::lexer::LexError::InvalidTypedefDeclaration;
@@ -338,6 +339,15 @@ pub enum LexError {
     InvalidToken(usize, usize),
     InvalidEOF,
     InvalidTypedefDeclaration,
+    InvalidSyntax(String),
+}
+
+/// Turn the error from a part of the syntax that can't be given a meaning into an
+/// error of the parser
+pub fn invalid_syntax<E: Debug>(error: E) -> ParseError<usize, Token, LexError> {
+    ParseError::User {
+        error: LexError::InvalidSyntax(format!("{error:?}")),
+    }
 }
 
 impl fmt::Display for LexError {
@@ -348,6 +358,7 @@ impl fmt::Display for LexError {
             }
             LexError::InvalidEOF => write!(f, "Invalid end of file"),
             InvalidTypedefDeclaration => write!(f, "Invalid typedef declaration"),
+            LexError::InvalidSyntax(msg) => write!(f, "Invalid syntax: {msg}"),
         }
     }
 }
-- 
2.43.0


From 2d916211c617f91863d03f5205df2eae7583c52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:51 +0000
Subject: [PATCH 19/64] fix: evaluate enum constants, sizeof and casts in
 constant expressions, reject invalid ones, duplicate cases and negative array
 sizes, and sign extend character constants

---
 src/middle_end/ast_to_ir.rs         |  14 +++-
 src/middle_end/compile_time_eval.rs | 114 ++++++++++++++++++++++------
 src/middle_end/context.rs           |  18 ++++-
 src/middle_end/get_ast_type_info.rs |  23 +++---
 src/middle_end/ir_types.rs          |  15 ++++
 src/middle_end/middle_end_error.rs  |   2 +
 6 files changed, 148 insertions(+), 38 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index bd959d8..3137985 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -8,6 +8,9 @@ use crate::front_end::ast::{
 use crate::middle_end::aggregate_type_initialisers::{
     initialise_object, string_literal_to_char_list,
 };
+use crate::middle_end::compile_time_eval::{
+    char_constant_value, eval_integral_constant_expression,
+};
 use crate::middle_end::context::{Context, IdentifierResolveResult, LoopContext, SwitchContext};
 use crate::middle_end::get_ast_type_info::get_type_info;
 use crate::middle_end::ids::{ValueType, VarId};
@@ -337,11 +340,13 @@ fn convert_statement_to_ir(
                     if !context.is_in_switch_context() {
                         return Err(MiddleEndError::CaseOutsideSwitchContext);
                     }
-                    let (mut condition_instrs, expr_var) =
-                        convert_expression_to_ir(expr, prog, context)?;
+                    let mut condition_instrs = Vec::new();
+                    let case_value = eval_integral_constant_expression(expr, prog, context)?;
+                    let expr_var = Src::Constant(Constant::Int(case_value));
                     // the case expression is converted to the type of the switch expression
                     let switch_var = context.get_switch_variable().unwrap();
                     let switch_var_type = prog.get_var_type(&switch_var)?;
+                    context.add_switch_case_value(switch_var_type.wrap_integer(case_value))?;
                     let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
                     let (mut convert_instrs, expr_var) =
                         get_type_conversion_instrs(expr_var, expr_var_type, switch_var_type, prog)?;
@@ -893,7 +898,10 @@ pub fn convert_expression_to_ir(
         Expression::Constant(c) => match c {
             ast::Constant::Int(i) => Ok((instrs, Src::Constant(Constant::Int(i as i128)))),
             ast::Constant::Float(f) => Ok((instrs, Src::Constant(Constant::Float(f)))),
-            ast::Constant::Char(ch) => Ok((instrs, Src::Constant(Constant::Int(ch as i128)))),
+            ast::Constant::Char(ch) => Ok((
+                instrs,
+                Src::Constant(Constant::Int(char_constant_value(ch))),
+            )),
         },
         Expression::StringLiteral(s) => {
             let string_id = prog.new_string_literal(s);
diff --git a/src/middle_end/compile_time_eval.rs b/src/middle_end/compile_time_eval.rs
index 41dcc1f..5e88dc1 100644
--- a/src/middle_end/compile_time_eval.rs
+++ b/src/middle_end/compile_time_eval.rs
@@ -1,12 +1,19 @@
-use crate::front_end::ast::{BinaryOperator, Expression};
+use crate::front_end::ast::{BinaryOperator, Expression, Identifier, TypeName};
 use crate::front_end::ast::{Constant as AstConstant, UnaryOperator};
+use crate::middle_end::context::{Context, IdentifierResolveResult};
+use crate::middle_end::get_ast_type_info::get_type_info;
 use crate::middle_end::instructions::Constant as IrConstant;
+use crate::middle_end::ir::Program;
 use crate::middle_end::middle_end_error::MiddleEndError;
 
 /// constant expression used for array bounds, explicit enum values,
 /// values of case labels. Must evaluate to an integer
-pub fn eval_integral_constant_expression(expr: Expression) -> Result<i128, MiddleEndError> {
-    match eval(expr)? {
+pub fn eval_integral_constant_expression(
+    expr: Expression,
+    prog: &mut Program,
+    context: &mut Context,
+) -> Result<i128, MiddleEndError> {
+    match eval(expr, prog, context)? {
         ConstantExpressionType::Int(i) => Ok(i),
         _ => Err(MiddleEndError::InvalidConstantExpression),
     }
@@ -14,32 +21,65 @@ pub fn eval_integral_constant_expression(expr: Expression) -> Result<i128, Middl
 
 pub fn eval_initialiser_constant_expression(
     expr: Expression,
+    prog: &mut Program,
+    context: &mut Context,
 ) -> Result<IrConstant, MiddleEndError> {
-    match eval(expr)? {
+    match eval(expr, prog, context)? {
         ConstantExpressionType::Int(i) => Ok(IrConstant::Int(i)),
         ConstantExpressionType::Float(f) => Ok(IrConstant::Float(f)),
     }
 }
 
+/// Characters have the value of a (signed) char
+pub fn char_constant_value(c: char) -> i128 {
+    match u8::try_from(c as u32) {
+        Ok(byte) => (byte as i8) as i128,
+        Err(_) => c as i128,
+    }
+}
+
+fn checked_shift(shift: i128) -> Option<u32> {
+    u32::try_from(shift).ok().filter(|shift| *shift < 64)
+}
+
 enum ConstantExpressionType {
     Int(i128),
     Float(f64),
 }
 
-fn eval(expr: Expression) -> Result<ConstantExpressionType, MiddleEndError> {
+/// The result of an integer operation, or an error if it doesn't have one
+fn int_result(result: Option<i128>) -> Result<ConstantExpressionType, MiddleEndError> {
+    match result {
+        Some(i) => Ok(ConstantExpressionType::Int(i)),
+        None => Err(MiddleEndError::InvalidConstantExpression),
+    }
+}
+
+fn eval(
+    expr: Expression,
+    prog: &mut Program,
+    context: &mut Context,
+) -> Result<ConstantExpressionType, MiddleEndError> {
     match expr {
-        Expression::Identifier(_) => Err(MiddleEndError::CantEvaluateAtCompileTime),
+        Expression::Identifier(Identifier(name)) => {
+            match context.resolve_identifier_to_var_or_const(&name)? {
+                IdentifierResolveResult::EnumConst(value) => {
+                    Ok(ConstantExpressionType::Int(value as i128))
+                }
+                IdentifierResolveResult::Var(_) => Err(MiddleEndError::CantEvaluateAtCompileTime),
+            }
+        }
         Expression::Constant(c) => match c {
             AstConstant::Int(i) => Ok(ConstantExpressionType::Int(i as i128)),
             AstConstant::Float(f) => Ok(ConstantExpressionType::Float(f)),
-            AstConstant::Char(c) => Ok(ConstantExpressionType::Int(c as i128)),
+            AstConstant::Char(c) => Ok(ConstantExpressionType::Int(char_constant_value(c))),
         },
         Expression::StringLiteral(_) => Err(MiddleEndError::InvalidConstantExpression),
         Expression::Index(_, _) => Err(MiddleEndError::CantEvaluateAtCompileTime),
         Expression::DirectMemberSelection(_, _) => Err(MiddleEndError::CantEvaluateAtCompileTime),
         Expression::IndirectMemberSelection(_, _) => Err(MiddleEndError::CantEvaluateAtCompileTime),
         Expression::UnaryOp(op, expr) => {
-            let expr_result = eval(*expr)?;
+            let expr_result = eval(*expr, prog, context)?;
             match op {
                 UnaryOperator::AddressOf => Err(MiddleEndError::CantEvaluateAtCompileTime),
                 UnaryOperator::Dereference => Err(MiddleEndError::CantEvaluateAtCompileTime),
@@ -49,7 +89,7 @@ fn eval(expr: Expression) -> Result<ConstantExpressionType, MiddleEndError> {
                     }
                 },
                 UnaryOperator::Minus => match expr_result {
-                    ConstantExpressionType::Int(i) => Ok(ConstantExpressionType::Int(-i)),
+                    ConstantExpressionType::Int(i) => int_result(i.checked_neg()),
                     ConstantExpressionType::Float(f) => Ok(ConstantExpressionType::Float(-f)),
                 },
                 UnaryOperator::BitwiseNot => match expr_result {
@@ -58,23 +98,33 @@ fn eval(expr: Expression) -> Result<ConstantExpressionType, MiddleEndError> {
                 },
                 UnaryOperator::LogicalNot => match expr_result {
                     ConstantExpressionType::Int(i) => {
-                        Ok(ConstantExpressionType::Int(!(i > 0) as i128))
+                        Ok(ConstantExpressionType::Int((i == 0) as i128))
                     }
                     ConstantExpressionType::Float(f) => {
-                        Ok(ConstantExpressionType::Int(!(f > 0.) as i128))
+                        Ok(ConstantExpressionType::Int((f == 0.) as i128))
                     }
                 },
             }
         }
         Expression::SizeOfExpr(_) => Err(MiddleEndError::CantEvaluateAtCompileTime),
-        Expression::SizeOfType(_) => Err(MiddleEndError::CantEvaluateAtCompileTime),
+        Expression::SizeOfType(TypeName(specifier, declarator)) => {
+            match get_type_info(&specifier, declarator, false, prog, context)? {
+                Some((type_info, _, _)) => {
+                    let byte_size = type_info.get_object_byte_size(&prog.program_metadata);
+                    Ok(ConstantExpressionType::Int(
+                        byte_size.get_compile_time_value()? as i128,
+                    ))
+                }
+                None => Err(MiddleEndError::InvalidConstantExpression),
+            }
+        }
         Expression::BinaryOp(op, left, right) => {
-            let left_result = eval(*left)?;
-            let right_result = eval(*right)?;
+            let left_result = eval(*left, prog, context)?;
+            let right_result = eval(*right, prog, context)?;
             match op {
                 BinaryOperator::Mult => match (left_result, right_result) {
                     (ConstantExpressionType::Int(l), ConstantExpressionType::Int(r)) => {
-                        Ok(ConstantExpressionType::Int(l * r))
+                        int_result(l.checked_mul(r))
                     }
                     (ConstantExpressionType::Float(f), ConstantExpressionType::Int(i))
                     | (ConstantExpressionType::Int(i), ConstantExpressionType::Float(f)) => {
@@ -86,7 +136,7 @@ fn eval(expr: Expression) -> Result<ConstantExpressionType, MiddleEndError> {
                 },
                 BinaryOperator::Div => match (left_result, right_result) {
                     (ConstantExpressionType::Int(l), ConstantExpressionType::Int(r)) => {
-                        Ok(ConstantExpressionType::Int(l / r))
+                        int_result(l.checked_div(r))
                     }
                     (ConstantExpressionType::Float(l), ConstantExpressionType::Int(r)) => {
                         Ok(ConstantExpressionType::Float(l / r as f64))
@@ -100,13 +150,13 @@ fn eval(expr: Expression) -> Result<ConstantExpressionType, MiddleEndError> {
                 },
                 BinaryOperator::Mod => match (left_result, right_result) {
                     (ConstantExpressionType::Int(l), ConstantExpressionType::Int(r)) => {
-                        Ok(ConstantExpressionType::Int(l % r))
+                        int_result(l.checked_rem(r))
                     }
                     _ => Err(MiddleEndError::InvalidConstantExpression),
                 },
                 BinaryOperator::Add => match (left_result, right_result) {
                     (ConstantExpressionType::Int(l), ConstantExpressionType::Int(r)) => {
-                        Ok(ConstantExpressionType::Int(l + r))
+                        int_result(l.checked_add(r))
                     }
                     (ConstantExpressionType::Float(f), ConstantExpressionType::Int(i))
                     | (ConstantExpressionType::Int(i), ConstantExpressionType::Float(f)) => {
@@ -118,7 +168,7 @@ fn eval(expr: Expression) -> Result<ConstantExpressionType, MiddleEndError> {
                 },
                 BinaryOperator::Sub => match (left_result, right_result) {
                     (ConstantExpressionType::Int(l), ConstantExpressionType::Int(r)) => {
-                        Ok(ConstantExpressionType::Int(l - r))
+                        int_result(l.checked_sub(r))
                     }
                     (ConstantExpressionType::Float(l), ConstantExpressionType::Int(r)) => {
                         Ok(ConstantExpressionType::Float(l - r as f64))
@@ -132,13 +182,13 @@ fn eval(expr: Expression) -> Result<ConstantExpressionType, MiddleEndError> {
                 },
                 BinaryOperator::LeftShift => match (left_result, right_result) {
                     (ConstantExpressionType::Int(l), ConstantExpressionType::Int(r)) => {
-                        Ok(ConstantExpressionType::Int(l << r))
+                        int_result(checked_shift(r).and_then(|r| l.checked_mul(1 << r)))
                     }
                     _ => Err(MiddleEndError::InvalidConstantExpression),
                 },
                 BinaryOperator::RightShift => match (left_result, right_result) {
                     (ConstantExpressionType::Int(l), ConstantExpressionType::Int(r)) => {
-                        Ok(ConstantExpressionType::Int(l >> r))
+                        int_result(checked_shift(r).map(|r| l >> r))
                     }
                     _ => Err(MiddleEndError::InvalidConstantExpression),
                 },
@@ -259,18 +309,32 @@ fn eval(expr: Expression) -> Result<ConstantExpressionType, MiddleEndError> {
             }
         }
         Expression::Ternary(cond, true_expr, false_expr) => {
-            let cond_result = eval(*cond)?;
+            let cond_result = eval(*cond, prog, context)?;
             let cond_value = match cond_result {
                 ConstantExpressionType::Int(i) => i != 0,
                 ConstantExpressionType::Float(f) => f != 0.,
             };
             if cond_value {
-                eval(*true_expr)
+                eval(*true_expr, prog, context)
             } else {
-                eval(*false_expr)
+                eval(*false_expr, prog, context)
+            }
+        }
+        Expression::Cast(TypeName(specifier, declarator), expr) => {
+            let cast_type = match get_type_info(&specifier, declarator, false, prog, context)? {
+                Some((cast_type, _, _)) => cast_type,
+                None => return Err(MiddleEndError::InvalidConstantExpression),
+            };
+            match eval(*expr, prog, context)? {
+                ConstantExpressionType::Int(i) if cast_type.is_integral_type() => {
+                    Ok(ConstantExpressionType::Int(cast_type.wrap_integer(i)))
+                }
+                ConstantExpressionType::Float(f) if cast_type.is_integral_type() => Ok(
+                    ConstantExpressionType::Int(cast_type.wrap_integer(f as i128)),
+                ),
+                _ => Err(MiddleEndError::CantEvaluateAtCompileTime),
             }
         }
-        Expression::Cast(_, _) => Err(MiddleEndError::CantEvaluateAtCompileTime),
 
         Expression::ExpressionList(_, _)
         | Expression::FunctionCall(_, _)
diff --git a/src/middle_end/context.rs b/src/middle_end/context.rs
index 5aed598..a0de25a 100644
--- a/src/middle_end/context.rs
+++ b/src/middle_end/context.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 
 use log::trace;
 
@@ -138,6 +138,20 @@ impl Context {
         Err(MiddleEndError::CaseOutsideSwitchContext)
     }
 
+    /// Every case of a switch has to have a different value
+    pub fn add_switch_case_value(&mut self, value: i128) -> Result<(), MiddleEndError> {
+        for loop_or_switch_context in self.loop_stack.iter_mut().rev() {
+            if let LoopOrSwitchContext::Switch(switch_context) = loop_or_switch_context {
+                return if switch_context.case_values.insert(value) {
+                    Ok(())
+                } else {
+                    Err(MiddleEndError::DuplicateCaseInSwitch)
+                };
+            }
+        }
+        Err(MiddleEndError::CaseOutsideSwitchContext)
+    }
+
     pub fn add_default_switch_block_label(&mut self, label: LabelId) -> Result<(), MiddleEndError> {
         if self.loop_stack.is_empty() {
             return Err(MiddleEndError::DefaultOutsideSwitchContext);
@@ -607,6 +621,7 @@ pub struct SwitchContext {
     pub end_label: LabelId,
     pub switch_var: VarId,
     pub case_condition_instrs: Vec<Instruction>,
+    pub case_values: HashSet<i128>,
     pub default_block_label: Option<LabelId>,
 }
 
@@ -616,6 +631,7 @@ impl SwitchContext {
             end_label,
             switch_var,
             case_condition_instrs: Vec::new(),
+            case_values: HashSet::new(),
             default_block_label: None,
         }
     }
diff --git a/src/middle_end/get_ast_type_info.rs b/src/middle_end/get_ast_type_info.rs
index 22d921e..3a0dfbe 100644
--- a/src/middle_end/get_ast_type_info.rs
+++ b/src/middle_end/get_ast_type_info.rs
@@ -213,11 +213,10 @@ pub fn get_type_info(
                     IrType::I32
                 }
                 EnumType::Definition(enum_name, enum_constants) => {
-                    let mut skip_constant_definition = false;
+                    let skip_constant_definition = is_duplicate_specifier;
                     if let Some(Identifier(enum_name)) = enum_name {
                         if is_duplicate_specifier {
                             context.resolve_identifier_to_enum_tag(enum_name)?;
-                            skip_constant_definition = true;
                         } else {
                             context.add_enum_tag(enum_name.to_owned())?;
                         }
@@ -232,9 +231,12 @@ pub fn get_type_info(
                                     next_constant_value += 1;
                                 }
                                 Enumerator::WithValue(Identifier(name), value_expr) => {
-                                    let value =
-                                        eval_integral_constant_expression(value_expr.to_owned())?
-                                            as EnumConstant;
+                                    let value = eval_integral_constant_expression(
+                                        value_expr.to_owned(),
+                                        prog,
+                                        context,
+                                    )?
+                                        as EnumConstant;
                                     context.add_enum_constant(name.to_owned(), value)?;
                                     // value of next constant without explicit value is one more than
                                     // the last constant
@@ -320,10 +322,13 @@ fn add_type_info_from_declarator(
         Declarator::ArrayDeclarator(d, size_expr) => {
             let size = match size_expr {
                 None => None,
-                Some(size_expr) => match eval_integral_constant_expression(*size_expr.to_owned()) {
-                    Ok(size) => Some(TypeSize::CompileTime(size as u64)),
-                    Err(_) => Some(TypeSize::Runtime(*size_expr)),
-                },
+                Some(size_expr) => {
+                    match eval_integral_constant_expression(*size_expr.to_owned(), prog, context) {
+                        Ok(size) if size < 0 => return Err(MiddleEndError::NegativeArraySize),
+                        Ok(size) => Some(TypeSize::CompileTime(size as u64)),
+                        Err(_) => Some(TypeSize::Runtime(*size_expr)),
+                    }
+                }
             };
             add_type_info_from_declarator(*d, type_info.wrap_with_array(size), prog, context)
         }
diff --git a/src/middle_end/ir_types.rs b/src/middle_end/ir_types.rs
index 725fa54..cdffb71 100644
--- a/src/middle_end/ir_types.rs
+++ b/src/middle_end/ir_types.rs
@@ -189,6 +189,21 @@ impl IrType {
         }
     }
 
+    /// The value that an integer has after converting it to this type
+    pub fn wrap_integer(&self, value: i128) -> i128 {
+        match self {
+            IrType::I8 => value as i8 as i128,
+            IrType::U8 => value as u8 as i128,
+            IrType::I16 => value as i16 as i128,
+            IrType::U16 => value as u16 as i128,
+            IrType::I32 => value as i32 as i128,
+            IrType::U32 => value as u32 as i128,
+            IrType::I64 => value as i64 as i128,
+            IrType::U64 => value as u64 as i128,
+            _ => value,
+        }
+    }
+
     pub fn is_integral_type(&self) -> bool {
         matches!(
             self,
diff --git a/src/middle_end/middle_end_error.rs b/src/middle_end/middle_end_error.rs
index 69ab803..a4dd9cd 100644
--- a/src/middle_end/middle_end_error.rs
+++ b/src/middle_end/middle_end_error.rs
@@ -12,6 +12,7 @@ pub enum MiddleEndError {
     CaseOutsideSwitchContext,
     DefaultOutsideSwitchContext,
     MultipleDefaultCasesInSwitch,
+    DuplicateCaseInSwitch,
     UndeclaredLabel(String),
     DuplicateLabel(String),
     /// in theory this should never occur
@@ -47,6 +48,7 @@ pub enum MiddleEndError {
     InvalidAssignment,
     AttemptToModifyNonLValue,
     UndefinedArraySize,
+    NegativeArraySize,
     ArrayMemberSizeNotKnownAtCompileTime,
     UndefinedStructMemberSize,
     UndefinedUnionMemberSize,
-- 
2.43.0


From 65408d3b3373e0c596f3b2f4e3aa4b66f46ce00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:05 +0000
Subject: [PATCH 20/64] fix: short-circuit && and ||, evaluate the destination
 of a compound assignment once, promote shift operands separately, comma
 expressions, null pointers and void operands in conditional expressions,
 (void) parameter lists

---
 src/front_end/ast.rs                |    9 +
 src/front_end/c_parser.lalrpop      |   20 +-
 src/middle_end/ast_to_ir.rs         | 1221 ++++++++++++++++-----------
 src/middle_end/compile_time_eval.rs |    3 +-
 src/middle_end/get_ast_type_info.rs |    5 +
 5 files changed, 734 insertions(+), 524 deletions(-)

diff --git a/src/front_end/ast.rs b/src/front_end/ast.rs
index f7f7fb4..d8e2c52 100644
--- a/src/front_end/ast.rs
+++ b/src/front_end/ast.rs
@@ -247,6 +247,7 @@ pub enum Expression {
     BinaryOp(BinaryOperator, Box<Expression>, Box<Expression>),
     Ternary(Box<Expression>, Box<Expression>, Box<Expression>),
     Assignment(Box<Expression>, Box<Expression>),
+    CompoundAssignment(BinaryOperator, Box<Expression>, Box<Expression>),
     Cast(TypeName, Box<Expression>),
     ExpressionList(Box<Expression>, Box<Expression>),
 }
@@ -299,6 +300,14 @@ impl AstNode for Expression {
                 t.reconstruct_source(),
                 f.reconstruct_source()
             ),
+            Expression::CompoundAssignment(op, l, r) => {
+                format!(
+                    "{} {}= {}",
+                    l.reconstruct_source(),
+                    op.reconstruct_source(),
+                    r.reconstruct_source()
+                )
+            }
             Expression::Assignment(l, r) => {
                 format!("{} = {}", l.reconstruct_source(), r.reconstruct_source())
             }
diff --git a/src/front_end/c_parser.lalrpop b/src/front_end/c_parser.lalrpop
index 1b7ba58..c84a44e 100644
--- a/src/front_end/c_parser.lalrpop
+++ b/src/front_end/c_parser.lalrpop
@@ -376,25 +376,25 @@ AssignmentExpression: ast::Expression = {
   <dest:ConditionalExpression> "=" <src:AssignmentExpression>
     => ast::Expression::Assignment(Box::new(dest), Box::new(src)),
   <dest:ConditionalExpression> "*=" <src:AssignmentExpression>
-    => ast::Expression::Assignment(Box::new(dest.to_owned()), Box::new(ast::Expression::BinaryOp(ast::BinaryOperator::Mult, Box::new(dest), Box::new(src)))),
+    => ast::Expression::CompoundAssignment(ast::BinaryOperator::Mult, Box::new(dest), Box::new(src)),
   <dest:ConditionalExpression> "/=" <src:AssignmentExpression>
-    => ast::Expression::Assignment(Box::new(dest.to_owned()), Box::new(ast::Expression::BinaryOp(ast::BinaryOperator::Div, Box::new(dest), Box::new(src)))),
+    => ast::Expression::CompoundAssignment(ast::BinaryOperator::Div, Box::new(dest), Box::new(src)),
   <dest:ConditionalExpression> "%=" <src:AssignmentExpression>
-    => ast::Expression::Assignment(Box::new(dest.to_owned()), Box::new(ast::Expression::BinaryOp(ast::BinaryOperator::Mod, Box::new(dest), Box::new(src)))),
+    => ast::Expression::CompoundAssignment(ast::BinaryOperator::Mod, Box::new(dest), Box::new(src)),
   <dest:ConditionalExpression> "+=" <src:AssignmentExpression>
-    => ast::Expression::Assignment(Box::new(dest.to_owned()), Box::new(ast::Expression::BinaryOp(ast::BinaryOperator::Add, Box::new(dest), Box::new(src)))),
+    => ast::Expression::CompoundAssignment(ast::BinaryOperator::Add, Box::new(dest), Box::new(src)),
   <dest:ConditionalExpression> "-=" <src:AssignmentExpression>
-    => ast::Expression::Assignment(Box::new(dest.to_owned()), Box::new(ast::Expression::BinaryOp(ast::BinaryOperator::Sub, Box::new(dest), Box::new(src)))),
+    => ast::Expression::CompoundAssignment(ast::BinaryOperator::Sub, Box::new(dest), Box::new(src)),
   <dest:ConditionalExpression> "<<=" <src:AssignmentExpression>
-    => ast::Expression::Assignment(Box::new(dest.to_owned()), Box::new(ast::Expression::BinaryOp(ast::BinaryOperator::LeftShift, Box::new(dest), Box::new(src)))),
+    => ast::Expression::CompoundAssignment(ast::BinaryOperator::LeftShift, Box::new(dest), Box::new(src)),
   <dest:ConditionalExpression> ">>=" <src:AssignmentExpression>
-    => ast::Expression::Assignment(Box::new(dest.to_owned()), Box::new(ast::Expression::BinaryOp(ast::BinaryOperator::RightShift, Box::new(dest), Box::new(src)))),
+    => ast::Expression::CompoundAssignment(ast::BinaryOperator::RightShift, Box::new(dest), Box::new(src)),
   <dest:ConditionalExpression> "&=" <src:AssignmentExpression>
-    => ast::Expression::Assignment(Box::new(dest.to_owned()), Box::new(ast::Expression::BinaryOp(ast::BinaryOperator::BitwiseAnd, Box::new(dest), Box::new(src)))),
+    => ast::Expression::CompoundAssignment(ast::BinaryOperator::BitwiseAnd, Box::new(dest), Box::new(src)),
   <dest:ConditionalExpression> "^=" <src:AssignmentExpression>
-    => ast::Expression::Assignment(Box::new(dest.to_owned()), Box::new(ast::Expression::BinaryOp(ast::BinaryOperator::BitwiseXor, Box::new(dest), Box::new(src)))),
+    => ast::Expression::CompoundAssignment(ast::BinaryOperator::BitwiseXor, Box::new(dest), Box::new(src)),
   <dest:ConditionalExpression> "|=" <src:AssignmentExpression>
-    => ast::Expression::Assignment(Box::new(dest.to_owned()), Box::new(ast::Expression::BinaryOp(ast::BinaryOperator::BitwiseOr, Box::new(dest), Box::new(src)))),
+    => ast::Expression::CompoundAssignment(ast::BinaryOperator::BitwiseOr, Box::new(dest), Box::new(src)),
 }
 
 ConditionalExpression: ast::Expression = {
diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 3137985..9ef722d 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -1592,445 +1592,26 @@ pub fn convert_expression_to_ir(
             ));
             Ok((instrs, Src::Var(dest)))
         }
+        Expression::BinaryOp(
+            op @ (BinaryOperator::LogicalAnd | BinaryOperator::LogicalOr),
+            left,
+            right,
+        ) => convert_logical_op_to_ir(op, *left, *right, prog, context),
         Expression::BinaryOp(op, left, right) => {
             let (mut left_instrs, left_var) = convert_expression_to_ir(*left, prog, context)?;
             instrs.append(&mut left_instrs);
             let (mut right_instrs, right_var) = convert_expression_to_ir(*right, prog, context)?;
             instrs.append(&mut right_instrs);
-            let dest = prog.new_var(ValueType::RValue);
-            let left_var_type = left_var.get_type(&prog.program_metadata)?;
-            let right_var_type = right_var.get_type(&prog.program_metadata)?;
-            match op {
-                BinaryOperator::Mult => {
-                    let (mut convert_instrs, left_var, right_var) =
-                        binary_convert(left_var, right_var, prog)?;
-                    instrs.append(&mut convert_instrs);
-                    let left_var_type = left_var.get_type(&prog.program_metadata)?;
-                    let right_var_type = right_var.get_type(&prog.program_metadata)?;
-                    left_var_type.require_arithmetic_type()?;
-                    right_var_type.require_arithmetic_type()?;
-                    // left_var_type and right_var_type are the same cos of binary conversion
-                    prog.add_var_type(dest.to_owned(), left_var_type)?;
-                    instrs.push(Instruction::Mult(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        left_var,
-                        right_var,
-                    ));
-                }
-                BinaryOperator::Div => {
-                    let (mut convert_instrs, left_var, right_var) =
-                        binary_convert(left_var, right_var, prog)?;
-                    instrs.append(&mut convert_instrs);
-                    let left_var_type = left_var.get_type(&prog.program_metadata)?;
-                    let right_var_type = right_var.get_type(&prog.program_metadata)?;
-                    left_var_type.require_arithmetic_type()?;
-                    right_var_type.require_arithmetic_type()?;
-                    prog.add_var_type(dest.to_owned(), left_var_type)?;
-                    instrs.push(Instruction::Div(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        left_var,
-                        right_var,
-                    ));
-                }
-                BinaryOperator::Mod => {
-                    let (mut convert_instrs, left_var, right_var) =
-                        binary_convert(left_var, right_var, prog)?;
-                    instrs.append(&mut convert_instrs);
-                    let left_var_type = left_var.get_type(&prog.program_metadata)?;
-                    let right_var_type = right_var.get_type(&prog.program_metadata)?;
-                    left_var_type.require_integral_type()?;
-                    right_var_type.require_integral_type()?;
-                    prog.add_var_type(dest.to_owned(), left_var_type)?;
-                    instrs.push(Instruction::Mod(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        left_var,
-                        right_var,
-                    ));
-                }
-                BinaryOperator::Add => {
-                    let (mut convert_instrs, mut left_var, mut right_var) =
-                        binary_convert(left_var, right_var, prog)?;
-                    instrs.append(&mut convert_instrs);
-                    let mut left_var_type = left_var.get_type(&prog.program_metadata)?;
-                    let mut right_var_type = right_var.get_type(&prog.program_metadata)?;
-                    // must be either two arithmetic types, or a pointer and an integer
-                    if !(left_var_type.is_arithmetic_type() && right_var_type.is_arithmetic_type())
-                        && !(left_var_type.is_object_pointer_type()
-                            && right_var_type.is_integral_type())
-                        && !(left_var_type.is_integral_type()
-                            && right_var_type.is_object_pointer_type())
-                    {
-                        return Err(MiddleEndError::InvalidOperation(
-                            "Invalid addition operand types",
-                        ));
-                    }
-
-                    // if adding int and pointer, make sure left_var is always the
-                    // pointer and right_var is the int
-                    if right_var_type.is_object_pointer_type() {
-                        std::mem::swap(&mut right_var, &mut left_var);
-                        std::mem::swap(&mut right_var_type, &mut left_var_type);
-                    }
-
-                    if left_var_type.is_arithmetic_type() {
-                        prog.add_var_type(dest.to_owned(), left_var_type)?;
-                    } else {
-                        // pointer + int
-                        // result is the pointer type
-                        prog.add_var_type(dest.to_owned(), left_var_type.to_owned())?;
-                        // add to pointer in multiples of the byte size of the type it points to
-                        let (mut offset_instrs, offset) = convert_pointer_offset(
-                            right_var,
-                            &left_var_type.dereference_pointer_type()?,
-                            prog,
-                            context,
-                        )?;
-                        instrs.append(&mut offset_instrs);
-                        right_var = offset;
-                    }
-                    instrs.push(Instruction::Add(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        left_var,
-                        right_var,
-                    ));
-                }
-                BinaryOperator::Sub => {
-                    let (mut convert_instrs, mut left_var, mut right_var) =
-                        binary_convert(left_var, right_var, prog)?;
-                    instrs.append(&mut convert_instrs);
-                    let left_var_type = left_var.get_type(&prog.program_metadata)?;
-                    let right_var_type = right_var.get_type(&prog.program_metadata)?;
-                    // must be either arithmetic - arithmetic, or pointer - integer, or pointer - pointer
-                    // todo check for pointers being compatible types
-                    if !(left_var_type.is_arithmetic_type() && right_var_type.is_arithmetic_type())
-                        && !(left_var_type.is_object_pointer_type()
-                            && right_var_type.is_integral_type())
-                        && !(left_var_type.is_object_pointer_type()
-                            && right_var_type.is_object_pointer_type())
-                    {
-                        return Err(MiddleEndError::InvalidOperation(
-                            "Invalid addition operand types",
-                        ));
-                    }
-                    if left_var_type.is_arithmetic_type() {
-                        prog.add_var_type(dest.to_owned(), left_var_type)?;
-                    } else if right_var_type.is_integral_type() {
-                        // pointer - integer
-                        prog.add_var_type(dest.to_owned(), left_var_type.to_owned())?;
-
-                        // subtract from pointer in multiples of the byte size it points to
-                        let (mut offset_instrs, offset) = convert_pointer_offset(
-                            right_var,
-                            &left_var_type.dereference_pointer_type()?,
-                            prog,
-                            context,
-                        )?;
-                        instrs.append(&mut offset_instrs);
-                        right_var = offset;
-
-                        // convert ptr to i32
-                        let temp_left_var = prog.new_var(left_var.get_value_type());
-                        prog.add_var_type(temp_left_var.to_owned(), IrType::I32)?;
-                        instrs.push(Instruction::PtrToI32(
-                            prog.new_instr_id(),
-                            temp_left_var.to_owned(),
-                            left_var,
-                        ));
-                        left_var = Src::Var(temp_left_var);
-                    } else {
-                        // pointer - pointer -> int, the number of elements in between
-                        prog.add_var_type(dest.to_owned(), IrType::I32)?;
-                        let byte_difference = prog.new_var(ValueType::RValue);
-                        prog.add_var_type(byte_difference.to_owned(), IrType::I32)?;
-                        instrs.push(Instruction::Sub(
-                            prog.new_instr_id(),
-                            byte_difference.to_owned(),
-                            left_var,
-                            right_var,
-                        ));
-                        let (mut size_instrs, object_byte_size) = convert_object_byte_size(
-                            &left_var_type.dereference_pointer_type()?,
-                            prog,
-                            context,
-                        )?;
-                        instrs.append(&mut size_instrs);
-                        instrs.push(Instruction::Div(
-                            prog.new_instr_id(),
-                            dest.to_owned(),
-                            Src::Var(byte_difference),
-                            object_byte_size,
-                        ));
-                        return Ok((instrs, Src::Var(dest)));
-                    }
-                    instrs.push(Instruction::Sub(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        left_var,
-                        right_var,
-                    ));
-                }
-                BinaryOperator::LeftShift => {
-                    let (mut convert_instrs, left_var, right_var) =
-                        binary_convert(left_var, right_var, prog)?;
-                    instrs.append(&mut convert_instrs);
-                    let left_var_type = left_var.get_type(&prog.program_metadata)?;
-                    let right_var_type = right_var.get_type(&prog.program_metadata)?;
-                    left_var_type.require_integral_type()?;
-                    right_var_type.require_integral_type()?;
-                    prog.add_var_type(dest.to_owned(), left_var_type)?;
-                    instrs.push(Instruction::LeftShift(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        left_var,
-                        right_var,
-                    ));
-                }
-                BinaryOperator::RightShift => {
-                    let (mut convert_instrs, left_var, right_var) =
-                        binary_convert(left_var, right_var, prog)?;
-                    instrs.append(&mut convert_instrs);
-                    let left_var_type = left_var.get_type(&prog.program_metadata)?;
-                    let right_var_type = right_var.get_type(&prog.program_metadata)?;
-                    left_var_type.require_integral_type()?;
-                    right_var_type.require_integral_type()?;
-                    prog.add_var_type(dest.to_owned(), left_var_type)?;
-                    instrs.push(Instruction::RightShift(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        left_var,
-                        right_var,
-                    ));
-                }
-                BinaryOperator::LessThan => {
-                    let (mut convert_instrs, left_var, right_var) =
-                        binary_convert(left_var, right_var, prog)?;
-                    instrs.append(&mut convert_instrs);
-                    let left_var_type = left_var.get_type(&prog.program_metadata)?;
-                    let right_var_type = right_var.get_type(&prog.program_metadata)?;
-                    // either both arithmetic or both pointers
-                    // todo check pointer types are compatible
-                    if !(left_var_type.is_arithmetic_type() && right_var_type.is_arithmetic_type())
-                        && !(left_var_type.is_pointer_type() && right_var_type.is_pointer_type())
-                    {
-                        return Err(MiddleEndError::InvalidOperation(
-                            "Invalid comparison operand types",
-                        ));
-                    }
-                    // result of comparison is always int
-                    prog.add_var_type(dest.to_owned(), IrType::I32)?;
-                    instrs.push(Instruction::LessThan(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        left_var,
-                        right_var,
-                    ));
-                }
-                BinaryOperator::GreaterThan => {
-                    let (mut convert_instrs, left_var, right_var) =
-                        binary_convert(left_var, right_var, prog)?;
-                    instrs.append(&mut convert_instrs);
-                    let left_var_type = left_var.get_type(&prog.program_metadata)?;
-                    let right_var_type = right_var.get_type(&prog.program_metadata)?;
-                    // either both arithmetic or both pointers
-                    // todo check pointer types are compatible
-                    if !(left_var_type.is_arithmetic_type() && right_var_type.is_arithmetic_type())
-                        && !(left_var_type.is_pointer_type() && right_var_type.is_pointer_type())
-                    {
-                        return Err(MiddleEndError::InvalidOperation(
-                            "Invalid comparison operand types",
-                        ));
-                    }
-                    // result of comparison is always int
-                    prog.add_var_type(dest.to_owned(), IrType::I32)?;
-                    instrs.push(Instruction::GreaterThan(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        left_var,
-                        right_var,
-                    ));
-                }
-                BinaryOperator::LessThanEq => {
-                    let (mut convert_instrs, left_var, right_var) =
-                        binary_convert(left_var, right_var, prog)?;
-                    instrs.append(&mut convert_instrs);
-                    let left_var_type = left_var.get_type(&prog.program_metadata)?;
-                    let right_var_type = right_var.get_type(&prog.program_metadata)?;
-                    // either both arithmetic or both pointers
-                    // todo check pointer types are compatible
-                    if !(left_var_type.is_arithmetic_type() && right_var_type.is_arithmetic_type())
-                        && !(left_var_type.is_pointer_type() && right_var_type.is_pointer_type())
-                    {
-                        return Err(MiddleEndError::InvalidOperation(
-                            "Invalid comparison operand types",
-                        ));
-                    }
-                    // result of comparison is always int
-                    prog.add_var_type(dest.to_owned(), IrType::I32)?;
-                    instrs.push(Instruction::LessThanEq(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        left_var,
-                        right_var,
-                    ));
-                }
-                BinaryOperator::GreaterThanEq => {
-                    let (mut convert_instrs, left_var, right_var) =
-                        binary_convert(left_var, right_var, prog)?;
-                    instrs.append(&mut convert_instrs);
-                    let left_var_type = left_var.get_type(&prog.program_metadata)?;
-                    let right_var_type = right_var.get_type(&prog.program_metadata)?;
-                    // either both arithmetic or both pointers
-                    // todo check pointer types are compatible
-                    if !(left_var_type.is_arithmetic_type() && right_var_type.is_arithmetic_type())
-                        && !(left_var_type.is_pointer_type() && right_var_type.is_pointer_type())
-                    {
-                        return Err(MiddleEndError::InvalidOperation(
-                            "Invalid comparison operand types",
-                        ));
-                    }
-                    // result of comparison is always int
-                    prog.add_var_type(dest.to_owned(), IrType::I32)?;
-                    instrs.push(Instruction::GreaterThanEq(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        left_var,
-                        right_var,
-                    ));
-                }
-                BinaryOperator::Equal => {
-                    let (mut convert_instrs, left_var, right_var) =
-                        binary_convert(left_var, right_var, prog)?;
-                    instrs.append(&mut convert_instrs);
-                    let left_var_type = left_var.get_type(&prog.program_metadata)?;
-                    let right_var_type = right_var.get_type(&prog.program_metadata)?;
-                    // both arithmetic, both pointer, or pointer compared to NULL (int 0)
-                    if !(left_var_type.is_arithmetic_type() && right_var_type.is_arithmetic_type())
-                        && !(left_var_type.is_pointer_type() && right_var_type.is_pointer_type())
-                        && !(left_var_type.is_pointer_type() && right_var_type.is_integral_type())
-                        && !(left_var_type.is_integral_type() && right_var_type.is_pointer_type())
-                    {
-                        return Err(MiddleEndError::InvalidOperation(
-                            "Invalid equality comparison operand types",
-                        ));
-                    }
-                    // result of comparison is always int
-                    prog.add_var_type(dest.to_owned(), IrType::I32)?;
-                    instrs.push(Instruction::Equal(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        left_var,
-                        right_var,
-                    ));
-                }
-                BinaryOperator::NotEqual => {
-                    let (mut convert_instrs, left_var, right_var) =
-                        binary_convert(left_var, right_var, prog)?;
-                    instrs.append(&mut convert_instrs);
-                    let left_var_type = left_var.get_type(&prog.program_metadata)?;
-                    let right_var_type = right_var.get_type(&prog.program_metadata)?;
-                    // both arithmetic, both pointer, or pointer compared to NULL (int 0)
-                    if !(left_var_type.is_arithmetic_type() && right_var_type.is_arithmetic_type())
-                        && !(left_var_type.is_pointer_type() && right_var_type.is_pointer_type())
-                        && !(left_var_type.is_pointer_type() && right_var_type.is_integral_type())
-                        && !(left_var_type.is_integral_type() && right_var_type.is_pointer_type())
-                    {
-                        return Err(MiddleEndError::InvalidOperation(
-                            "Invalid equality comparison operand types",
-                        ));
-                    }
-                    // result of comparison is always int
-                    prog.add_var_type(dest.to_owned(), IrType::I32)?;
-                    instrs.push(Instruction::NotEqual(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        left_var,
-                        right_var,
-                    ));
-                }
-                BinaryOperator::BitwiseAnd => {
-                    let (mut convert_instrs, left_var, right_var) =
-                        binary_convert(left_var, right_var, prog)?;
-                    instrs.append(&mut convert_instrs);
-                    let left_var_type = left_var.get_type(&prog.program_metadata)?;
-                    let right_var_type = right_var.get_type(&prog.program_metadata)?;
-                    left_var_type.require_integral_type()?;
-                    right_var_type.require_integral_type()?;
-                    prog.add_var_type(dest.to_owned(), left_var_type)?;
-                    instrs.push(Instruction::BitwiseAnd(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        left_var,
-                        right_var,
-                    ));
-                }
-                BinaryOperator::BitwiseOr => {
-                    let (mut convert_instrs, left_var, right_var) =
-                        binary_convert(left_var, right_var, prog)?;
-                    instrs.append(&mut convert_instrs);
-                    let left_var_type = left_var.get_type(&prog.program_metadata)?;
-                    let right_var_type = right_var.get_type(&prog.program_metadata)?;
-                    left_var_type.require_integral_type()?;
-                    right_var_type.require_integral_type()?;
-                    prog.add_var_type(dest.to_owned(), left_var_type)?;
-                    instrs.push(Instruction::BitwiseOr(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        left_var,
-                        right_var,
-                    ));
-                }
-                BinaryOperator::BitwiseXor => {
-                    let (mut convert_instrs, left_var, right_var) =
-                        binary_convert(left_var, right_var, prog)?;
-                    instrs.append(&mut convert_instrs);
-                    let left_var_type = left_var.get_type(&prog.program_metadata)?;
-                    let right_var_type = right_var.get_type(&prog.program_metadata)?;
-                    left_var_type.require_integral_type()?;
-                    right_var_type.require_integral_type()?;
-                    prog.add_var_type(dest.to_owned(), left_var_type)?;
-                    instrs.push(Instruction::BitwiseXor(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        left_var,
-                        right_var,
-                    ));
-                }
-                BinaryOperator::LogicalAnd => {
-                    // no binary conversion for logical AND and OR
-                    left_var_type.require_scalar_type()?;
-                    right_var_type.require_scalar_type()?;
-                    // result is always int 0 or 1
-                    prog.add_var_type(dest.to_owned(), IrType::I32)?;
-                    instrs.push(Instruction::LogicalAnd(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        left_var,
-                        right_var,
-                    ));
-                }
-                BinaryOperator::LogicalOr => {
-                    // no binary conversion for logical AND and OR
-                    left_var_type.require_scalar_type()?;
-                    right_var_type.require_scalar_type()?;
-                    // result is always int 0 or 1
-                    prog.add_var_type(dest.to_owned(), IrType::I32)?;
-                    instrs.push(Instruction::LogicalOr(
-                        prog.new_instr_id(),
-                        dest.to_owned(),
-                        left_var,
-                        right_var,
-                    ));
-                }
-            }
-            Ok((instrs, Src::Var(dest)))
+            let (mut op_instrs, dest) =
+                convert_binary_op_to_ir(op, left_var, right_var, prog, context)?;
+            instrs.append(&mut op_instrs);
+            Ok((instrs, dest))
         }
         Expression::Ternary(cond, true_expr, false_expr) => {
             let (mut cond_instrs, cond_var) = convert_expression_to_ir(*cond, prog, context)?;
             instrs.append(&mut cond_instrs);
+            let (mut truth_instrs, cond_var) = convert_to_truth_value(cond_var, prog)?;
+            instrs.append(&mut truth_instrs);
             let dest = prog.new_var(ValueType::RValue);
             let false_label = prog.new_label();
             let end_label = prog.new_label();
@@ -2057,8 +1638,26 @@ pub fn convert_expression_to_ir(
             let (mut unary_convert_false_instrs, mut false_var) = unary_convert(false_var, prog)?;
             let false_var_type = false_var.get_type(&prog.program_metadata)?;
 
+            let is_null = |src: &Src| matches!(src, Src::Constant(Constant::Int(0)));
             let mut false_binary_convert_instrs = Vec::new();
-            if true_var_type != false_var_type {
+            let mut dest_type = true_var_type.to_owned();
+            if true_var_type.is_pointer_type() || false_var_type.is_pointer_type() {
+                // the result is a pointer, and a null pointer or void pointer takes on the type
+                // that the other one gives it
+                let void_ptr_type = IrType::PointerTo(Box::new(IrType::Void));
+                if is_null(&true_var) || false_var_type == void_ptr_type {
+                    dest_type = false_var_type;
+                } else if !is_null(&false_var) && !false_var_type.is_pointer_type() {
+                    return Err(MiddleEndError::InvalidOperation(
+                        "Pointer type mismatch in conditional expression",
+                    ));
+                }
+                if !dest_type.is_pointer_type() {
+                    return Err(MiddleEndError::InvalidOperation(
+                        "Pointer type mismatch in conditional expression",
+                    ));
+                }
+            } else if true_var_type != false_var_type {
                 let (
                     mut true_binary_convert_instrs,
                     false_convert_instrs,
@@ -2069,15 +1668,18 @@ pub fn convert_expression_to_ir(
                 false_var = converted_false_var;
                 false_binary_convert_instrs = false_convert_instrs;
                 instrs.append(&mut true_binary_convert_instrs);
+                dest_type = true_var.get_type(&prog.program_metadata)?;
             }
-            prog.add_var_type(dest.to_owned(), true_var.get_type(&prog.program_metadata)?)?;
+            prog.add_var_type(dest.to_owned(), dest_type.to_owned())?;
 
             // assign the result to dest
-            instrs.push(Instruction::SimpleAssignment(
-                prog.new_instr_id(),
-                dest.to_owned(),
-                true_var,
-            ));
+            if dest_type != IrType::Void {
+                instrs.push(Instruction::SimpleAssignment(
+                    prog.new_instr_id(),
+                    dest.to_owned(),
+                    true_var,
+                ));
+            }
             // jump over the false instructions
             instrs.push(Instruction::Br(prog.new_instr_id(), end_label.to_owned()));
             // false instructions
@@ -2086,20 +1688,21 @@ pub fn convert_expression_to_ir(
             instrs.append(&mut unary_convert_false_instrs);
             instrs.append(&mut false_binary_convert_instrs);
             // assign the result to dest
-            instrs.push(Instruction::SimpleAssignment(
-                prog.new_instr_id(),
-                dest.to_owned(),
-                false_var,
-            ));
+            if dest_type != IrType::Void {
+                instrs.push(Instruction::SimpleAssignment(
+                    prog.new_instr_id(),
+                    dest.to_owned(),
+                    false_var,
+                ));
+            }
             instrs.push(Instruction::Label(prog.new_instr_id(), end_label));
 
             Ok((instrs, Src::Var(dest)))
         }
         Expression::Assignment(dest_expr, src_expr) => {
-            let (mut src_expr_instrs, mut src_var) =
+            let (mut src_expr_instrs, src_var) =
                 convert_expression_to_ir(*src_expr, prog, context)?;
             instrs.append(&mut src_expr_instrs);
-            let src_var_type = src_var.get_type(&prog.program_metadata)?;
 
             context.directly_on_lhs_of_assignment = true;
             let (mut dest_expr_instrs, dest_var) =
@@ -2107,77 +1710,38 @@ pub fn convert_expression_to_ir(
             context.directly_on_lhs_of_assignment = false;
             instrs.append(&mut dest_expr_instrs);
 
-            // check that we're assigning to an lvalue
-            if !dest_var.get_value_type().is_lvalue() {
-                return Err(MiddleEndError::AttemptToModifyNonLValue);
-            }
-
-            let mut dest_var_type = dest_var.get_type(&prog.program_metadata)?;
-            match dest_var {
-                Src::Var(_) => {}
-                Src::StoreAddressVar(_) => {
-                    dest_var_type = dest_var_type.dereference_pointer_type()?
-                }
-                Src::Constant(_) | Src::Fun(_) => return Err(MiddleEndError::InvalidAssignment),
-            }
-
-            let stored_type = dest_var_type.to_owned();
-            if src_var_type != dest_var_type {
-                let (mut convert_instrs, converted_var) =
-                    convert_type_for_assignment(src_var, src_var_type, dest_var_type, prog)?;
-                instrs.append(&mut convert_instrs);
-                src_var = converted_var;
-                //todo other options of possible type combinations
-            }
+            let (mut assign_instrs, value) = convert_assignment_to_ir(dest_var, src_var, prog)?;
+            instrs.append(&mut assign_instrs);
+            Ok((instrs, value))
+        }
+        Expression::CompoundAssignment(op, dest_expr, src_expr) => {
+            let (mut src_expr_instrs, src_var) =
+                convert_expression_to_ir(*src_expr, prog, context)?;
+            instrs.append(&mut src_expr_instrs);
 
-            if stored_type.is_struct_or_union_type() {
-                // copy the whole object
-                let dest_ptr = match dest_var {
-                    Src::StoreAddressVar(ptr) => ptr,
-                    dest_var => {
-                        let (mut address_instrs, ptr) = object_address(dest_var, prog)?;
-                        instrs.append(&mut address_instrs);
-                        ptr
-                    }
-                };
-                let (mut address_instrs, src_ptr) = object_address(src_var.to_owned(), prog)?;
-                instrs.append(&mut address_instrs);
-                instrs.append(&mut copy_object(dest_ptr, src_ptr, &stored_type, prog)?);
-                return Ok((instrs, src_var));
-            }
+            // the destination is only evaluated once
+            context.directly_on_lhs_of_assignment = true;
+            let (mut dest_expr_instrs, dest_var) =
+                convert_expression_to_ir(*dest_expr, prog, context)?;
+            context.directly_on_lhs_of_assignment = false;
+            instrs.append(&mut dest_expr_instrs);
 
-            let (dest, is_store_to_address) = match dest_var {
-                Src::Var(var) => (var, false),
-                Src::StoreAddressVar(var) => (var, true),
-                Src::Constant(_) | Src::Fun(_) => return Err(MiddleEndError::InvalidAssignment),
+            let dest_value = match &dest_var {
+                Src::StoreAddressVar(ptr) => {
+                    let object_type = prog.get_var_type(ptr)?.dereference_pointer_type()?;
+                    let (mut load_instrs, value) = load_object(ptr.to_owned(), object_type, prog)?;
+                    instrs.append(&mut load_instrs);
+                    value
+                }
+                dest_var => dest_var.to_owned(),
             };
+            let (mut op_instrs, result) =
+                convert_binary_op_to_ir(op, dest_value, src_var, prog, context)?;
+            instrs.append(&mut op_instrs);
 
-            // either store to the memory address given by the pointer dest,
-            // or store into the local var dest
-            if is_store_to_address {
-                // the value of the assignment expression is the value stored, so keep it in a
-                // temporary, because dest is only a pointer to it
-                let value = prog.new_var(ValueType::RValue);
-                prog.add_var_type(value.to_owned(), stored_type)?;
-                instrs.push(Instruction::SimpleAssignment(
-                    prog.new_instr_id(),
-                    value.to_owned(),
-                    src_var,
-                ));
-                instrs.push(Instruction::StoreToAddress(
-                    prog.new_instr_id(),
-                    dest,
-                    Src::Var(value.to_owned()),
-                ));
-                Ok((instrs, Src::Var(value)))
-            } else {
-                instrs.push(Instruction::SimpleAssignment(
-                    prog.new_instr_id(),
-                    dest.to_owned(),
-                    src_var,
-                ));
-                Ok((instrs, Src::Var(dest)))
-            }
+            let (mut assign_instrs, value) = convert_assignment_to_ir(dest_var, result, prog)?;
+            instrs.append(&mut assign_instrs);
+            Ok((instrs, value))
         }
         Expression::Cast(cast_type_decl, expr) => {
             let (mut expr_instrs, expr_var) = convert_expression_to_ir(*expr, prog, context)?;
@@ -2209,8 +1773,639 @@ pub fn convert_expression_to_ir(
             instrs.append(&mut cast_instrs);
             Ok((instrs, dest))
         }
-        Expression::ExpressionList(_, _) => {
-            todo!("expression lists")
+        Expression::ExpressionList(left, right) => {
+            // the value of the left expression is discarded
+            let (mut left_instrs, _) = convert_expression_to_ir(*left, prog, context)?;
+            instrs.append(&mut left_instrs);
+            let (mut right_instrs, right_var) = convert_expression_to_ir(*right, prog, context)?;
+            instrs.append(&mut right_instrs);
+            let (mut rvalue_instrs, right_var) = convert_to_rvalue(right_var, prog)?;
+            instrs.append(&mut rvalue_instrs);
+            Ok((instrs, right_var))
+        }
+    }
+}
+
+/// Apply a binary operator, other than && and ||, to its evaluated operands
+fn convert_binary_op_to_ir(
+    op: BinaryOperator,
+    left_var: Src,
+    right_var: Src,
+    prog: &mut Program,
+    context: &mut Context,
+) -> Result<(Vec<Instruction>, Src), MiddleEndError> {
+    let mut instrs = Vec::new();
+    let dest = prog.new_var(ValueType::RValue);
+    match op {
+        BinaryOperator::Mult => {
+            let (mut convert_instrs, left_var, right_var) =
+                binary_convert(left_var, right_var, prog)?;
+            instrs.append(&mut convert_instrs);
+            let left_var_type = left_var.get_type(&prog.program_metadata)?;
+            let right_var_type = right_var.get_type(&prog.program_metadata)?;
+            left_var_type.require_arithmetic_type()?;
+            right_var_type.require_arithmetic_type()?;
+            // left_var_type and right_var_type are the same cos of binary conversion
+            prog.add_var_type(dest.to_owned(), left_var_type)?;
+            instrs.push(Instruction::Mult(
+                prog.new_instr_id(),
+                dest.to_owned(),
+                left_var,
+                right_var,
+            ));
+        }
+        BinaryOperator::Div => {
+            let (mut convert_instrs, left_var, right_var) =
+                binary_convert(left_var, right_var, prog)?;
+            instrs.append(&mut convert_instrs);
+            let left_var_type = left_var.get_type(&prog.program_metadata)?;
+            let right_var_type = right_var.get_type(&prog.program_metadata)?;
+            left_var_type.require_arithmetic_type()?;
+            right_var_type.require_arithmetic_type()?;
+            prog.add_var_type(dest.to_owned(), left_var_type)?;
+            instrs.push(Instruction::Div(
+                prog.new_instr_id(),
+                dest.to_owned(),
+                left_var,
+                right_var,
+            ));
+        }
+        BinaryOperator::Mod => {
+            let (mut convert_instrs, left_var, right_var) =
+                binary_convert(left_var, right_var, prog)?;
+            instrs.append(&mut convert_instrs);
+            let left_var_type = left_var.get_type(&prog.program_metadata)?;
+            let right_var_type = right_var.get_type(&prog.program_metadata)?;
+            left_var_type.require_integral_type()?;
+            right_var_type.require_integral_type()?;
+            prog.add_var_type(dest.to_owned(), left_var_type)?;
+            instrs.push(Instruction::Mod(
+                prog.new_instr_id(),
+                dest.to_owned(),
+                left_var,
+                right_var,
+            ));
         }
+        BinaryOperator::Add => {
+            let (mut convert_instrs, mut left_var, mut right_var) =
+                binary_convert(left_var, right_var, prog)?;
+            instrs.append(&mut convert_instrs);
+            let mut left_var_type = left_var.get_type(&prog.program_metadata)?;
+            let mut right_var_type = right_var.get_type(&prog.program_metadata)?;
+            // must be either two arithmetic types, or a pointer and an integer
+            if !(left_var_type.is_arithmetic_type() && right_var_type.is_arithmetic_type())
+                && !(left_var_type.is_object_pointer_type() && right_var_type.is_integral_type())
+                && !(left_var_type.is_integral_type() && right_var_type.is_object_pointer_type())
+            {
+                return Err(MiddleEndError::InvalidOperation(
+                    "Invalid addition operand types",
+                ));
+            }
+
+            // if adding int and pointer, make sure left_var is always the
+            // pointer and right_var is the int
+            if right_var_type.is_object_pointer_type() {
+                std::mem::swap(&mut right_var, &mut left_var);
+                std::mem::swap(&mut right_var_type, &mut left_var_type);
+            }
+
+            if left_var_type.is_arithmetic_type() {
+                prog.add_var_type(dest.to_owned(), left_var_type)?;
+            } else {
+                // pointer + int
+                // result is the pointer type
+                prog.add_var_type(dest.to_owned(), left_var_type.to_owned())?;
+                // add to pointer in multiples of the byte size of the type it points to
+                let (mut offset_instrs, offset) = convert_pointer_offset(
+                    right_var,
+                    &left_var_type.dereference_pointer_type()?,
+                    prog,
+                    context,
+                )?;
+                instrs.append(&mut offset_instrs);
+                right_var = offset;
+            }
+            instrs.push(Instruction::Add(
+                prog.new_instr_id(),
+                dest.to_owned(),
+                left_var,
+                right_var,
+            ));
+        }
+        BinaryOperator::Sub => {
+            let (mut convert_instrs, mut left_var, mut right_var) =
+                binary_convert(left_var, right_var, prog)?;
+            instrs.append(&mut convert_instrs);
+            let left_var_type = left_var.get_type(&prog.program_metadata)?;
+            let right_var_type = right_var.get_type(&prog.program_metadata)?;
+            // must be either arithmetic - arithmetic, or pointer - integer, or pointer - pointer
+            // todo check for pointers being compatible types
+            if !(left_var_type.is_arithmetic_type() && right_var_type.is_arithmetic_type())
+                && !(left_var_type.is_object_pointer_type() && right_var_type.is_integral_type())
+                && !(left_var_type.is_object_pointer_type()
+                    && right_var_type.is_object_pointer_type())
+            {
+                return Err(MiddleEndError::InvalidOperation(
+                    "Invalid addition operand types",
+                ));
+            }
+            if left_var_type.is_arithmetic_type() {
+                prog.add_var_type(dest.to_owned(), left_var_type)?;
+            } else if right_var_type.is_integral_type() {
+                // pointer - integer
+                prog.add_var_type(dest.to_owned(), left_var_type.to_owned())?;
+
+                // subtract from pointer in multiples of the byte size it points to
+                let (mut offset_instrs, offset) = convert_pointer_offset(
+                    right_var,
+                    &left_var_type.dereference_pointer_type()?,
+                    prog,
+                    context,
+                )?;
+                instrs.append(&mut offset_instrs);
+                right_var = offset;
+
+                // convert ptr to i32
+                let temp_left_var = prog.new_var(left_var.get_value_type());
+                prog.add_var_type(temp_left_var.to_owned(), IrType::I32)?;
+                instrs.push(Instruction::PtrToI32(
+                    prog.new_instr_id(),
+                    temp_left_var.to_owned(),
+                    left_var,
+                ));
+                left_var = Src::Var(temp_left_var);
+            } else {
+                // pointer - pointer -> int, the number of elements in between
+                prog.add_var_type(dest.to_owned(), IrType::I32)?;
+                let byte_difference = prog.new_var(ValueType::RValue);
+                prog.add_var_type(byte_difference.to_owned(), IrType::I32)?;
+                instrs.push(Instruction::Sub(
+                    prog.new_instr_id(),
+                    byte_difference.to_owned(),
+                    left_var,
+                    right_var,
+                ));
+                let (mut size_instrs, object_byte_size) = convert_object_byte_size(
+                    &left_var_type.dereference_pointer_type()?,
+                    prog,
+                    context,
+                )?;
+                instrs.append(&mut size_instrs);
+                instrs.push(Instruction::Div(
+                    prog.new_instr_id(),
+                    dest.to_owned(),
+                    Src::Var(byte_difference),
+                    object_byte_size,
+                ));
+                return Ok((instrs, Src::Var(dest)));
+            }
+            instrs.push(Instruction::Sub(
+                prog.new_instr_id(),
+                dest.to_owned(),
+                left_var,
+                right_var,
+            ));
+        }
+        BinaryOperator::LeftShift => {
+            let (mut convert_instrs, left_var, right_var) =
+                convert_shift_operands(left_var, right_var, prog)?;
+            instrs.append(&mut convert_instrs);
+            let left_var_type = left_var.get_type(&prog.program_metadata)?;
+            let right_var_type = right_var.get_type(&prog.program_metadata)?;
+            left_var_type.require_integral_type()?;
+            right_var_type.require_integral_type()?;
+            prog.add_var_type(dest.to_owned(), left_var_type)?;
+            instrs.push(Instruction::LeftShift(
+                prog.new_instr_id(),
+                dest.to_owned(),
+                left_var,
+                right_var,
+            ));
+        }
+        BinaryOperator::RightShift => {
+            let (mut convert_instrs, left_var, right_var) =
+                convert_shift_operands(left_var, right_var, prog)?;
+            instrs.append(&mut convert_instrs);
+            let left_var_type = left_var.get_type(&prog.program_metadata)?;
+            let right_var_type = right_var.get_type(&prog.program_metadata)?;
+            left_var_type.require_integral_type()?;
+            right_var_type.require_integral_type()?;
+            prog.add_var_type(dest.to_owned(), left_var_type)?;
+            instrs.push(Instruction::RightShift(
+                prog.new_instr_id(),
+                dest.to_owned(),
+                left_var,
+                right_var,
+            ));
+        }
+        BinaryOperator::LessThan => {
+            let (mut convert_instrs, left_var, right_var) =
+                binary_convert(left_var, right_var, prog)?;
+            instrs.append(&mut convert_instrs);
+            let left_var_type = left_var.get_type(&prog.program_metadata)?;
+            let right_var_type = right_var.get_type(&prog.program_metadata)?;
+            // either both arithmetic or both pointers
+            // todo check pointer types are compatible
+            if !(left_var_type.is_arithmetic_type() && right_var_type.is_arithmetic_type())
+                && !(left_var_type.is_pointer_type() && right_var_type.is_pointer_type())
+            {
+                return Err(MiddleEndError::InvalidOperation(
+                    "Invalid comparison operand types",
+                ));
+            }
+            // result of comparison is always int
+            prog.add_var_type(dest.to_owned(), IrType::I32)?;
+            instrs.push(Instruction::LessThan(
+                prog.new_instr_id(),
+                dest.to_owned(),
+                left_var,
+                right_var,
+            ));
+        }
+        BinaryOperator::GreaterThan => {
+            let (mut convert_instrs, left_var, right_var) =
+                binary_convert(left_var, right_var, prog)?;
+            instrs.append(&mut convert_instrs);
+            let left_var_type = left_var.get_type(&prog.program_metadata)?;
+            let right_var_type = right_var.get_type(&prog.program_metadata)?;
+            // either both arithmetic or both pointers
+            // todo check pointer types are compatible
+            if !(left_var_type.is_arithmetic_type() && right_var_type.is_arithmetic_type())
+                && !(left_var_type.is_pointer_type() && right_var_type.is_pointer_type())
+            {
+                return Err(MiddleEndError::InvalidOperation(
+                    "Invalid comparison operand types",
+                ));
+            }
+            // result of comparison is always int
+            prog.add_var_type(dest.to_owned(), IrType::I32)?;
+            instrs.push(Instruction::GreaterThan(
+                prog.new_instr_id(),
+                dest.to_owned(),
+                left_var,
+                right_var,
+            ));
+        }
+        BinaryOperator::LessThanEq => {
+            let (mut convert_instrs, left_var, right_var) =
+                binary_convert(left_var, right_var, prog)?;
+            instrs.append(&mut convert_instrs);
+            let left_var_type = left_var.get_type(&prog.program_metadata)?;
+            let right_var_type = right_var.get_type(&prog.program_metadata)?;
+            // either both arithmetic or both pointers
+            // todo check pointer types are compatible
+            if !(left_var_type.is_arithmetic_type() && right_var_type.is_arithmetic_type())
+                && !(left_var_type.is_pointer_type() && right_var_type.is_pointer_type())
+            {
+                return Err(MiddleEndError::InvalidOperation(
+                    "Invalid comparison operand types",
+                ));
+            }
+            // result of comparison is always int
+            prog.add_var_type(dest.to_owned(), IrType::I32)?;
+            instrs.push(Instruction::LessThanEq(
+                prog.new_instr_id(),
+                dest.to_owned(),
+                left_var,
+                right_var,
+            ));
+        }
+        BinaryOperator::GreaterThanEq => {
+            let (mut convert_instrs, left_var, right_var) =
+                binary_convert(left_var, right_var, prog)?;
+            instrs.append(&mut convert_instrs);
+            let left_var_type = left_var.get_type(&prog.program_metadata)?;
+            let right_var_type = right_var.get_type(&prog.program_metadata)?;
+            // either both arithmetic or both pointers
+            // todo check pointer types are compatible
+            if !(left_var_type.is_arithmetic_type() && right_var_type.is_arithmetic_type())
+                && !(left_var_type.is_pointer_type() && right_var_type.is_pointer_type())
+            {
+                return Err(MiddleEndError::InvalidOperation(
+                    "Invalid comparison operand types",
+                ));
+            }
+            // result of comparison is always int
+            prog.add_var_type(dest.to_owned(), IrType::I32)?;
+            instrs.push(Instruction::GreaterThanEq(
+                prog.new_instr_id(),
+                dest.to_owned(),
+                left_var,
+                right_var,
+            ));
+        }
+        BinaryOperator::Equal => {
+            let (mut convert_instrs, left_var, right_var) =
+                binary_convert(left_var, right_var, prog)?;
+            instrs.append(&mut convert_instrs);
+            let left_var_type = left_var.get_type(&prog.program_metadata)?;
+            let right_var_type = right_var.get_type(&prog.program_metadata)?;
+            // both arithmetic, both pointer, or pointer compared to NULL (int 0)
+            if !(left_var_type.is_arithmetic_type() && right_var_type.is_arithmetic_type())
+                && !(left_var_type.is_pointer_type() && right_var_type.is_pointer_type())
+                && !(left_var_type.is_pointer_type() && right_var_type.is_integral_type())
+                && !(left_var_type.is_integral_type() && right_var_type.is_pointer_type())
+            {
+                return Err(MiddleEndError::InvalidOperation(
+                    "Invalid equality comparison operand types",
+                ));
+            }
+            // result of comparison is always int
+            prog.add_var_type(dest.to_owned(), IrType::I32)?;
+            instrs.push(Instruction::Equal(
+                prog.new_instr_id(),
+                dest.to_owned(),
+                left_var,
+                right_var,
+            ));
+        }
+        BinaryOperator::NotEqual => {
+            let (mut convert_instrs, left_var, right_var) =
+                binary_convert(left_var, right_var, prog)?;
+            instrs.append(&mut convert_instrs);
+            let left_var_type = left_var.get_type(&prog.program_metadata)?;
+            let right_var_type = right_var.get_type(&prog.program_metadata)?;
+            // both arithmetic, both pointer, or pointer compared to NULL (int 0)
+            if !(left_var_type.is_arithmetic_type() && right_var_type.is_arithmetic_type())
+                && !(left_var_type.is_pointer_type() && right_var_type.is_pointer_type())
+                && !(left_var_type.is_pointer_type() && right_var_type.is_integral_type())
+                && !(left_var_type.is_integral_type() && right_var_type.is_pointer_type())
+            {
+                return Err(MiddleEndError::InvalidOperation(
+                    "Invalid equality comparison operand types",
+                ));
+            }
+            // result of comparison is always int
+            prog.add_var_type(dest.to_owned(), IrType::I32)?;
+            instrs.push(Instruction::NotEqual(
+                prog.new_instr_id(),
+                dest.to_owned(),
+                left_var,
+                right_var,
+            ));
+        }
+        BinaryOperator::BitwiseAnd => {
+            let (mut convert_instrs, left_var, right_var) =
+                binary_convert(left_var, right_var, prog)?;
+            instrs.append(&mut convert_instrs);
+            let left_var_type = left_var.get_type(&prog.program_metadata)?;
+            let right_var_type = right_var.get_type(&prog.program_metadata)?;
+            left_var_type.require_integral_type()?;
+            right_var_type.require_integral_type()?;
+            prog.add_var_type(dest.to_owned(), left_var_type)?;
+            instrs.push(Instruction::BitwiseAnd(
+                prog.new_instr_id(),
+                dest.to_owned(),
+                left_var,
+                right_var,
+            ));
+        }
+        BinaryOperator::BitwiseOr => {
+            let (mut convert_instrs, left_var, right_var) =
+                binary_convert(left_var, right_var, prog)?;
+            instrs.append(&mut convert_instrs);
+            let left_var_type = left_var.get_type(&prog.program_metadata)?;
+            let right_var_type = right_var.get_type(&prog.program_metadata)?;
+            left_var_type.require_integral_type()?;
+            right_var_type.require_integral_type()?;
+            prog.add_var_type(dest.to_owned(), left_var_type)?;
+            instrs.push(Instruction::BitwiseOr(
+                prog.new_instr_id(),
+                dest.to_owned(),
+                left_var,
+                right_var,
+            ));
+        }
+        BinaryOperator::BitwiseXor => {
+            let (mut convert_instrs, left_var, right_var) =
+                binary_convert(left_var, right_var, prog)?;
+            instrs.append(&mut convert_instrs);
+            let left_var_type = left_var.get_type(&prog.program_metadata)?;
+            let right_var_type = right_var.get_type(&prog.program_metadata)?;
+            left_var_type.require_integral_type()?;
+            right_var_type.require_integral_type()?;
+            prog.add_var_type(dest.to_owned(), left_var_type)?;
+            instrs.push(Instruction::BitwiseXor(
+                prog.new_instr_id(),
+                dest.to_owned(),
+                left_var,
+                right_var,
+            ));
+        }
+        BinaryOperator::LogicalAnd | BinaryOperator::LogicalOr => {
+            // the right operand might not be evaluated
+            unreachable!("handled by convert_logical_op_to_ir()")
+        }
+    }
+    Ok((instrs, Src::Var(dest)))
+}
+
+/// && and || only evaluate their right operand if the left one doesn't decide the result
+fn convert_logical_op_to_ir(
+    op: BinaryOperator,
+    left: Expression,
+    right: Expression,
+    prog: &mut Program,
+    context: &mut Context,
+) -> Result<(Vec<Instruction>, Src), MiddleEndError> {
+    let is_and = matches!(op, BinaryOperator::LogicalAnd);
+    let (mut instrs, left_var) = convert_expression_to_ir(left, prog, context)?;
+    let (mut left_truth_instrs, left_var) = convert_to_truth_value(left_var, prog)?;
+    instrs.append(&mut left_truth_instrs);
+    let (mut right_instrs, right_var) = convert_expression_to_ir(right, prog, context)?;
+    let evaluate_right_conditionally = !right_instrs.is_empty();
+    let (mut right_truth_instrs, right_var) = convert_to_truth_value(right_var, prog)?;
+    right_instrs.append(&mut right_truth_instrs);
+
+    // result is always int 0 or 1
+    let dest = prog.new_var(ValueType::RValue);
+    prog.add_var_type(dest.to_owned(), IrType::I32)?;
+
+    if !evaluate_right_conditionally {
+        instrs.append(&mut right_instrs);
+        instrs.push(if is_and {
+            Instruction::LogicalAnd(prog.new_instr_id(), dest.to_owned(), left_var, right_var)
+        } else {
+            Instruction::LogicalOr(prog.new_instr_id(), dest.to_owned(), left_var, right_var)
+        });
+        return Ok((instrs, Src::Var(dest)));
+    }
+
+    let zero = Src::Constant(Constant::Int(0));
+    let decided_label = prog.new_label();
+    let end_label = prog.new_label();
+    let (instr_id, label) = (prog.new_instr_id(), decided_label.to_owned());
+    instrs.push(if is_and {
+        Instruction::BrIfEq(instr_id, left_var, zero.to_owned(), label)
+    } else {
+        Instruction::BrIfNotEq(instr_id, left_var, zero.to_owned(), label)
+    });
+    instrs.append(&mut right_instrs);
+    instrs.push(Instruction::NotEqual(
+        prog.new_instr_id(),
+        dest.to_owned(),
+        right_var,
+        zero,
+    ));
+    instrs.push(Instruction::Br(prog.new_instr_id(), end_label.to_owned()));
+    // the left operand decides the result
+    instrs.push(Instruction::Label(prog.new_instr_id(), decided_label));
+    instrs.push(Instruction::SimpleAssignment(
+        prog.new_instr_id(),
+        dest.to_owned(),
+        Src::Constant(Constant::Int(!is_and as i128)),
+    ));
+    instrs.push(Instruction::Label(prog.new_instr_id(), end_label));
+    Ok((instrs, Src::Var(dest)))
+}
+
+/// Convert a scalar to an int that's zero if and only if the scalar is
+fn convert_to_truth_value(
+    src: Src,
+    prog: &mut Program,
+) -> Result<(Vec<Instruction>, Src), MiddleEndError> {
+    let (mut instrs, src) = unary_convert(src, prog)?;
+    let src_type = src.get_type(&prog.program_metadata)?;
+    src_type.require_scalar_type()?;
+    let (src, zero) = match src_type {
+        IrType::I32 | IrType::U32 => return Ok((instrs, src)),
+        IrType::F32 | IrType::F64 => {
+            // same type as the constant that it's compared to
+            let (mut convert_instrs, src) =
+                get_type_conversion_instrs(src, src_type, IrType::F64, prog)?;
+            instrs.append(&mut convert_instrs);
+            (src, Constant::Float(0.0))
+        }
+        _ => (src, Constant::Int(0)),
+    };
+    let dest = prog.new_var(ValueType::RValue);
+    prog.add_var_type(dest.to_owned(), IrType::I32)?;
+    instrs.push(Instruction::NotEqual(
+        prog.new_instr_id(),
+        dest.to_owned(),
+        src,
+        Src::Constant(zero),
+    ));
+    Ok((instrs, Src::Var(dest)))
+}
+
+/// The operands of a shift are promoted separately, and the result has the type of the left one.
+/// The right operand is given that type too, because that's what the shift instructions take
+fn convert_shift_operands(
+    left: Src,
+    right: Src,
+    prog: &mut Program,
+) -> Result<(Vec<Instruction>, Src, Src), MiddleEndError> {
+    let (mut instrs, left) = unary_convert(left, prog)?;
+    let (mut right_instrs, right) = unary_convert(right, prog)?;
+    instrs.append(&mut right_instrs);
+    let left_type = left.get_type(&prog.program_metadata)?;
+    let right_type = right.get_type(&prog.program_metadata)?;
+    left_type.require_integral_type()?;
+    right_type.require_integral_type()?;
+    let (mut convert_instrs, right) =
+        get_type_conversion_instrs(right, right_type, left_type, prog)?;
+    instrs.append(&mut convert_instrs);
+    Ok((instrs, left, right))
+}
+
+/// Copy the value of a scalar variable, so that it can't be modified through the result
+fn convert_to_rvalue(
+    src: Src,
+    prog: &mut Program,
+) -> Result<(Vec<Instruction>, Src), MiddleEndError> {
+    let src_type = src.get_type(&prog.program_metadata)?;
+    if !src.get_value_type().is_lvalue() || !src_type.is_scalar_type() {
+        return Ok((Vec::new(), src));
+    }
+    let dest = prog.new_var(ValueType::RValue);
+    prog.add_var_type(dest.to_owned(), src_type)?;
+    let instrs = vec![Instruction::SimpleAssignment(
+        prog.new_instr_id(),
+        dest.to_owned(),
+        src,
+    )];
+    Ok((instrs, Src::Var(dest)))
+}
+
+/// Assign the evaluated source to the evaluated destination
+fn convert_assignment_to_ir(
+    dest_var: Src,
+    mut src_var: Src,
+    prog: &mut Program,
+) -> Result<(Vec<Instruction>, Src), MiddleEndError> {
+    let mut instrs = Vec::new();
+    let src_var_type = src_var.get_type(&prog.program_metadata)?;
+
+    // check that we're assigning to an lvalue
+    if !dest_var.get_value_type().is_lvalue() {
+        return Err(MiddleEndError::AttemptToModifyNonLValue);
+    }
+
+    let mut dest_var_type = dest_var.get_type(&prog.program_metadata)?;
+    match dest_var {
+        Src::Var(_) => {}
+        Src::StoreAddressVar(_) => dest_var_type = dest_var_type.dereference_pointer_type()?,
+        Src::Constant(_) | Src::Fun(_) => return Err(MiddleEndError::InvalidAssignment),
+    }
+
+    let stored_type = dest_var_type.to_owned();
+    if src_var_type != dest_var_type {
+        let (mut convert_instrs, converted_var) =
+            convert_type_for_assignment(src_var, src_var_type, dest_var_type, prog)?;
+        instrs.append(&mut convert_instrs);
+        src_var = converted_var;
+        //todo other options of possible type combinations
+    }
+
+    if stored_type.is_struct_or_union_type() {
+        // copy the whole object
+        let dest_ptr = match dest_var {
+            Src::StoreAddressVar(ptr) => ptr,
+            dest_var => {
+                let (mut address_instrs, ptr) = object_address(dest_var, prog)?;
+                instrs.append(&mut address_instrs);
+                ptr
+            }
+        };
+        let (mut address_instrs, src_ptr) = object_address(src_var.to_owned(), prog)?;
+        instrs.append(&mut address_instrs);
+        instrs.append(&mut copy_object(dest_ptr, src_ptr, &stored_type, prog)?);
+        return Ok((instrs, src_var));
+    }
+
+    let (dest, is_store_to_address) = match dest_var {
+        Src::Var(var) => (var, false),
+        Src::StoreAddressVar(var) => (var, true),
+        Src::Constant(_) | Src::Fun(_) => return Err(MiddleEndError::InvalidAssignment),
+    };
+
+    // either store to the memory address given by the pointer dest,
+    // or store into the local var dest
+    if is_store_to_address {
+        // the value of the assignment expression is the value stored, so keep it in a
+        // temporary, because dest is only a pointer to it
+        let value = prog.new_var(ValueType::RValue);
+        prog.add_var_type(value.to_owned(), stored_type)?;
+        instrs.push(Instruction::SimpleAssignment(
+            prog.new_instr_id(),
+            value.to_owned(),
+            src_var,
+        ));
+        instrs.push(Instruction::StoreToAddress(
+            prog.new_instr_id(),
+            dest,
+            Src::Var(value.to_owned()),
+        ));
+        Ok((instrs, Src::Var(value)))
+    } else {
+        instrs.push(Instruction::SimpleAssignment(
+            prog.new_instr_id(),
+            dest.to_owned(),
+            src_var,
+        ));
+        let (mut rvalue_instrs, value) = convert_to_rvalue(Src::Var(dest), prog)?;
+        instrs.append(&mut rvalue_instrs);
+        Ok((instrs, value))
     }
 }
diff --git a/src/middle_end/compile_time_eval.rs b/src/middle_end/compile_time_eval.rs
index 5e88dc1..6b145d5 100644
--- a/src/middle_end/compile_time_eval.rs
+++ b/src/middle_end/compile_time_eval.rs
@@ -342,6 +342,7 @@ fn eval(
         | Expression::PostfixDecrement(_)
         | Expression::PrefixIncrement(_)
         | Expression::PrefixDecrement(_)
-        | Expression::Assignment(_, _) => Err(MiddleEndError::InvalidConstantExpression),
+        | Expression::Assignment(_, _)
+        | Expression::CompoundAssignment(_, _, _) => Err(MiddleEndError::InvalidConstantExpression),
     }
 }
diff --git a/src/middle_end/get_ast_type_info.rs b/src/middle_end/get_ast_type_info.rs
index 3a0dfbe..5388fd1 100644
--- a/src/middle_end/get_ast_type_info.rs
+++ b/src/middle_end/get_ast_type_info.rs
@@ -345,6 +345,7 @@ fn add_type_info_from_declarator(
                 },
             };
 
+            let has_one_param = param_decls.len() == 1;
             let mut param_types: Vec<IrType> = Vec::new();
             let mut param_bindings: FunctionParameterBindings = Vec::new();
             for p in param_decls {
@@ -353,6 +354,10 @@ fn add_type_info_from_declarator(
                         None => return Err(MiddleEndError::InvalidTypedefDeclaration),
                         Some(x) => x,
                     };
+                if param_type == IrType::Void && param_name.is_none() && has_one_param {
+                    // (void) means that there aren't any parameters
+                    break;
+                }
                 param_types.push(param_type.to_owned());
                 if let Some(name) = param_name {
                     param_bindings.push((name, param_type));
-- 
2.43.0


From 14f624fb33072adcc13fc83cf03e9f425aab580a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:05 +0000
Subject: [PATCH 21/64] fix: static local variables, repeated declarations of
 global variables, and reject duplicate definitions, incomplete variables and
 wrong argument counts

---
 src/middle_end/ast_to_ir.rs        | 47 ++++++++++++++++++++++++++----
 src/middle_end/context.rs          | 32 +++++++++++++++++++-
 src/middle_end/middle_end_error.rs |  2 ++
 3 files changed, 75 insertions(+), 6 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 9ef722d..c40477c 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -3,7 +3,7 @@ use log::{debug, trace};
 use crate::front_end::ast;
 use crate::front_end::ast::{
     BinaryOperator, DeclaratorInitialiser, Expression, ExpressionOrDeclaration, Identifier,
-    Initialiser, LabelledStatement, Program as AstProgram, Statement, TypeSpecifier, UnaryOperator,
+    Initialiser, LabelledStatement, Program as AstProgram, Statement, StorageClassSpecifier, TypeSpecifier, UnaryOperator,
 };
 use crate::middle_end::aggregate_type_initialisers::{
     initialise_object, string_literal_to_char_list,
@@ -380,6 +380,12 @@ fn convert_statement_to_ir(
             instrs.append(&mut expr_instrs);
         }
         Statement::Declaration(sq, declarators) => {
+            // a static local variable is only initialised once, when the global variables are
+            let is_static_local = context.function_return_type.is_some()
+                && matches!(
+                    sq.storage_class_specifier,
+                    Some(StorageClassSpecifier::Static)
+                );
             let mut is_initial_declarator = true;
             for declarator in declarators {
                 match declarator {
@@ -415,6 +421,17 @@ fn convert_statement_to_ir(
                                 // non-function declaration (normal variable)
                                 Some(name) => {
                                     trace!("Variable declaration: {}", name);
+                                    if let Some(var) = context.get_previous_declaration(&name) {
+                                        if prog.get_var_type(&var)? != type_info {
+                                            return Err(
+                                                MiddleEndError::DuplicateVariableDeclaration(name),
+                                            );
+                                        }
+                                        continue;
+                                    }
+                                    if !prog.program_metadata.is_complete_type(&type_info) {
+                                        return Err(MiddleEndError::InvalidDeclaration);
+                                    }
                                     let var = prog.new_var(ValueType::LValue);
                                     context.add_variable_to_scope(
                                         name,
@@ -489,8 +506,19 @@ fn convert_statement_to_ir(
                                 init_expr = Initialiser::Expr(e.to_owned());
                             }
                         }
-                        let dest = prog.new_var(ValueType::LValue);
-                        prog.add_var_type(dest.to_owned(), dest_type_info.to_owned())?;
+                        let dest = match context.get_previous_declaration(&name) {
+                            Some(var) => {
+                                if prog.get_var_type(&var)? != dest_type_info {
+                                    return Err(MiddleEndError::DuplicateVariableDeclaration(name));
+                                }
+                                var
+                            }
+                            None => {
+                                let var = prog.new_var(ValueType::LValue);
+                                prog.add_var_type(var.to_owned(), dest_type_info.to_owned())?;
+                                var
+                            }
+                        };
 
                         match (dest_type_info, init_expr) {
                             (dest_type_info, Initialiser::Expr(e))
@@ -567,6 +595,9 @@ fn convert_statement_to_ir(
                 }
                 is_initial_declarator = false;
             }
+            if is_static_local {
+                prog.program_instructions.global_instrs.append(&mut instrs);
+            }
         }
         Statement::EmptyDeclaration(sq) => {
             match get_type_info(&sq, None, false, prog, context)? {
@@ -615,6 +646,7 @@ fn convert_statement_to_ir(
             let fun_declaration = Function::declaration(type_info.to_owned());
             let fun_id = prog.new_fun_body(name.to_owned(), fun_declaration)?;
             context.add_function_declaration(name.to_owned(), fun_id)?;
+            context.add_function_body(name.to_owned())?;
             // function body instructions
             if let IrType::Function(return_type, _, _) = &type_info {
                 context.function_return_type = Some((**return_type).to_owned());
@@ -970,10 +1002,15 @@ pub fn convert_expression_to_ir(
             let fun_id = fun_var.require_function_id()?;
             let dest_type = fun_var.get_function_return_type(prog)?;
 
-            let param_types = match fun_var.get_type(&prog.program_metadata)? {
-                IrType::Function(_, param_types, _) => param_types,
+            let (param_types, is_variadic) = match fun_var.get_type(&prog.program_metadata)? {
+                IrType::Function(_, param_types, is_variadic) => (param_types, is_variadic),
                 _ => return Err(MiddleEndError::UnwrapNonFunctionType),
             };
+            if params.len() < param_types.len()
+                || (params.len() > param_types.len() && !is_variadic)
+            {
+                return Err(MiddleEndError::WrongNumberOfArguments(params.len()));
+            }
             let mut param_srcs: Vec<Src> = Vec::new();
             for (i, param) in params.into_iter().enumerate() {
                 let (mut param_instrs, param_var) = convert_expression_to_ir(param, prog, context)?;
diff --git a/src/middle_end/context.rs b/src/middle_end/context.rs
index a0de25a..c43ca8f 100644
--- a/src/middle_end/context.rs
+++ b/src/middle_end/context.rs
@@ -13,6 +13,8 @@ pub struct Context {
     scope_stack: Vec<Scope>,
     pub in_function_name_expr: bool,
     function_names: HashMap<String, FunId>,
+    // the functions that we've seen the body of
+    defined_functions: HashSet<String>,
     pub directly_on_lhs_of_assignment: bool,
     // the return type of the function currently being converted
     pub function_return_type: Option<IrType>,
@@ -30,6 +32,7 @@ impl Context {
             scope_stack: vec![Scope::new()], // start with a global scope
             in_function_name_expr: false,
             function_names: HashMap::new(),
+            defined_functions: HashSet::new(),
             directly_on_lhs_of_assignment: false,
             function_return_type: None,
         }
@@ -189,12 +192,39 @@ impl Context {
         type_info: IrType,
     ) -> Result<(), MiddleEndError> {
         trace!("adding variable \"{}\" to scope", name);
+        let is_global_scope = self.is_global_scope();
         match self.scope_stack.last_mut() {
             None => Err(MiddleEndError::ScopeError),
-            Some(scope) => scope.add_var(name, var, type_info),
+            Some(scope) => {
+                if !is_global_scope && scope.resolve_identifier_to_var(&name).is_some() {
+                    return Err(MiddleEndError::DuplicateVariableDeclaration(name));
+                }
+                scope.add_var(name, var, type_info)
+            }
         }
     }
 
+    fn is_global_scope(&self) -> bool {
+        self.scope_stack.len() == 1
+    }
+
+    /// A variable can be declared more than once in the global scope, but it's always the same
+    /// variable
+    pub fn get_previous_declaration(&self, name: &str) -> Option<VarId> {
+        if !self.is_global_scope() {
+            return None;
+        }
+        self.scope_stack.last()?.resolve_identifier_to_var(name)
+    }
+
+    pub fn add_function_body(&mut self, name: String) -> Result<(), MiddleEndError> {
+        if self.defined_functions.contains(&name) {
+            return Err(MiddleEndError::DuplicateFunctionDeclaration(name));
+        }
+        self.defined_functions.insert(name);
+        Ok(())
+    }
+
     // pub fn resolve_identifier_to_var(
     //     &self,
     //     identifier_name: &str,
diff --git a/src/middle_end/middle_end_error.rs b/src/middle_end/middle_end_error.rs
index a4dd9cd..aa6f769 100644
--- a/src/middle_end/middle_end_error.rs
+++ b/src/middle_end/middle_end_error.rs
@@ -24,6 +24,8 @@ pub enum MiddleEndError {
     UndeclaredUnionTag(String),
     InvalidLValue,
     DuplicateFunctionDeclaration(String),
+    DuplicateVariableDeclaration(String),
+    WrongNumberOfArguments(usize),
     DuplicateTypeDeclaration(String),
     DuplicateEnumConstantDeclaration(String),
     InvalidDeclaration,
-- 
2.43.0


From dc0323f01599bfd745300109464fd0c26719a577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:40 +0000
Subject: [PATCH 22/64] fix: parse integers as strtol and strtoul do, with
 signs, prefixes, clamping and end pointers

---
 runtime/stdlib/stdlib.mjs | 95 ++++++++++++++++++++++++++-------------
 1 file changed, 64 insertions(+), 31 deletions(-)

diff --git a/runtime/stdlib/stdlib.mjs b/runtime/stdlib/stdlib.mjs
index e15cdea..1e00d96 100644
--- a/runtime/stdlib/stdlib.mjs
+++ b/runtime/stdlib/stdlib.mjs
@@ -1,6 +1,48 @@
 import {I32_SIZE, I64_SIZE, NULL, PTR_SIZE} from "../memory_constants.mjs";
 import {read_frame_ptr, read_int, read_ptr, read_string, store_int, store_ptr} from "../memory_operations.mjs";
-import {signed_to_unsigned_i64} from "../number_operations.mjs";
+
+const MAX_SIGNED_I64 = (1n << 63n) - 1n;
+const MIN_SIGNED_I64 = -(1n << 63n);
+const MAX_UNSIGNED_I64 = (1n << 64n) - 1n;
+
+// parse the initial part of str as an integer, in the same way as strtol and strtoul.
+// returns the magnitude and sign of the integer, and the index of the first char after it
+// (or 0, if there isn't an integer)
+function parse_integer(str, base) {
+    let i = 0;
+    // skip initial whitespace
+    while (i < str.length && /[ \t\n\v\f\r]/.test(str[i])) {
+        i++;
+    }
+    let is_negative = false;
+    if (str[i] === "-" || str[i] === "+") {
+        is_negative = str[i] === "-";
+        i++;
+    }
+    const digit_at = (index, base) => {
+        const is_digit = index < str.length && /[0-9a-zA-Z]/.test(str[index]);
+        const digit = is_digit ? parseInt(str[index], 36) : NaN;
+        return digit < base ? digit : undefined;
+    };
+    const has_hex_prefix = str[i] === "0" && (str[i + 1] === "x" || str[i + 1] === "X")
+        && digit_at(i + 2, 16) !== undefined;
+    if ((base === 0 || base === 16) && has_hex_prefix) {
+        base = 16;
+        i += 2;
+    } else if (base === 0) {
+        base = str[i] === "0" ? 8 : 10;
+    }
+    let magnitude = 0n;
+    let end = 0;
+    let digit = digit_at(i, base);
+    while (digit !== undefined) {
+        magnitude = magnitude * BigInt(base) + BigInt(digit);
+        i++;
+        end = i;
+        digit = digit_at(i, base);
+    }
+    return {magnitude, is_negative, end};
+}
 
 // long strtol(const char *str, char **endptr, int base);
 export function strtol(wasm_memory) {
@@ -13,24 +55,20 @@ export function strtol(wasm_memory) {
         param_ptr += PTR_SIZE;
         const end_ptr = read_ptr(param_ptr, memory);
         param_ptr += PTR_SIZE;
-        const base = read_int(param_ptr, I32_SIZE, memory);
+        const base = Number(read_int(param_ptr, I32_SIZE, memory));
 
-        const str = read_string(str_ptr, memory);
+        const {magnitude, is_negative, end} = parse_integer(read_string(str_ptr, memory), base);
 
-        const result = BigInt(parseInt(str, Number(base)));
+        // values that don't fit are clamped
+        let result = is_negative ? -magnitude : magnitude;
+        if (result > MAX_SIGNED_I64) {
+            result = MAX_SIGNED_I64;
+        } else if (result < MIN_SIGNED_I64) {
+            result = MIN_SIGNED_I64;
+        }
 
         if (end_ptr != NULL) {
-            let i = 0;
-            // skip initial whitespace
-            while (i < str.length && /\s/.test(str[i])) {
-                i++;
-            }
-            // skip to end of number
-            while (i < str.length && str[i] >= "0" && str[i] <= "9") {
-                i++;
-            }
-            let end_ptr_value = str_ptr + i;
-            store_ptr(end_ptr, end_ptr_value, memory);
+            store_ptr(end_ptr, str_ptr + end, memory);
         }
 
         // write return value
@@ -49,28 +87,23 @@ export function strtoul(wasm_memory) {
         param_ptr += PTR_SIZE;
         const end_ptr = read_ptr(param_ptr, memory);
         param_ptr += PTR_SIZE;
-        const base = read_int(param_ptr, I32_SIZE, memory);
+        const base = Number(read_int(param_ptr, I32_SIZE, memory));
 
-        const str = read_string(str_ptr, memory);
+        const {magnitude, is_negative, end} = parse_integer(read_string(str_ptr, memory), base);
 
-        const result = parseInt(str, Number(base));
-        const unsigned_result = signed_to_unsigned_i64(BigInt(result));
+        // values that don't fit are clamped
+        let result = magnitude;
+        if (magnitude > MAX_UNSIGNED_I64) {
+            result = MAX_UNSIGNED_I64;
+        } else if (is_negative) {
+            result = BigInt.asUintN(64, -magnitude);
+        }
 
         if (end_ptr != NULL) {
-            let i = 0;
-            // skip initial whitespace
-            while (i < str.length && /\s/.test(str[i])) {
-                i++;
-            }
-            // skip to end of number
-            while (i < str.length && str[i] >= "0" && str[i] <= "9") {
-                i++;
-            }
-            let end_ptr_value = str_ptr + i;
-            store_ptr(end_ptr, end_ptr_value, memory);
+            store_ptr(end_ptr, str_ptr + end, memory);
         }
 
         // write return value
-        store_int(fp + PTR_SIZE, I64_SIZE, unsigned_result, memory);
+        store_int(fp + PTR_SIZE, I64_SIZE, result, memory);
     }
 }
-- 
2.43.0


From 8f48060c36ae727302efa6cacc2f87eb44287982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:40 +0000
Subject: [PATCH 23/64] fix: ctype.h for control characters and values that
 aren't ascii, limits.h values, including stddef.h with string.h

---
 headers/ctype.h  | 56 ++++++++++++++++++++++++------------------------
 headers/limits.h | 14 ++++++------
 headers/stddef.h |  3 +++
 headers/string.h |  3 +++
 4 files changed, 41 insertions(+), 35 deletions(-)

diff --git a/headers/ctype.h b/headers/ctype.h
index 4e5d50e..442a716 100644
--- a/headers/ctype.h
+++ b/headers/ctype.h
@@ -1,72 +1,72 @@
 #ifndef _CTYPE_H
 #define _CTYPE_H
 
-int isalnum(char c);
-int isalpha(char c);
-int iscntrl(char c);
-int isdigit(char c);
-int isxdigit(char c);
-int isgraph(char c);
-int ispunct(char c);
-int isprint(char c);
-int islower(char c);
-int isupper(char c);
-int isspace(char c);
-char tolower(char c);
-char toupper(char c);
+int isalnum(int c);
+int isalpha(int c);
+int iscntrl(int c);
+int isdigit(int c);
+int isxdigit(int c);
+int isgraph(int c);
+int ispunct(int c);
+int isprint(int c);
+int islower(int c);
+int isupper(int c);
+int isspace(int c);
+int tolower(int c);
+int toupper(int c);
 
-int isalnum(char c) {
+int isalnum(int c) {
     return isalpha(c) || isdigit(c);
 }
 
-int isalpha(char c) {
+int isalpha(int c) {
     return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z');
 }
 
-int iscntrl(char c) {
+int iscntrl(int c) {
     return (c >= 0 && c <= 31) || c == 127;
 }
 
-int isdigit(char c) {
+int isdigit(int c) {
     return (c >= '0' && c <= '9');
 }
 
-int isxdigit(char c) {
+int isxdigit(int c) {
     return isdigit(c) || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f');
 }
 
-int isgraph(char c) {
+int isgraph(int c) {
     return isprint(c) && (c != ' ');
 }
 
-int ispunct(char c) {
+int ispunct(int c) {
     return isgraph(c) && !isalnum(c);
 }
 
-int isprint(char c) {
-    return !iscntrl(c);
+int isprint(int c) {
+    return c >= 32 && c <= 126;
 }
 
-int islower(char c) {
+int islower(int c) {
     return c >= 'a' && c <= 'z';
 }
 
-int isupper(char c) {
+int isupper(int c) {
     return c >= 'A' && c <= 'Z';
 }
 
-int isspace(char c) {
-    return c == '\t' || c == '\r' || c == '\n' || c == ' ';
+int isspace(int c) {
+    return c == ' ' || (c >= '\t' && c <= '\r');
 }
 
-char tolower(char c) {
+int tolower(int c) {
     if (isupper(c)) {
         return c - 'A' + 'a';
     }
     return c;
 }
 
-char toupper(char c) {
+int toupper(int c) {
     if (islower(c)) {
         return c - 'a' + 'A';
     }
diff --git a/headers/limits.h b/headers/limits.h
index a8ae41d..b4d82db 100644
--- a/headers/limits.h
+++ b/headers/limits.h
@@ -2,26 +2,26 @@
 #define _LIMITS_H
 
 #define CHAR_BIT 8
-#define SCHAR_MIN -128
+#define SCHAR_MIN (-128)
 #define SCHAR_MAX 127
 #define UCHAR_MAX 255
-#define CHAR_MIN -128
+#define CHAR_MIN (-128)
 #define CHAR_MAX 127
 
-#define SHRT_MIN -32768
+#define SHRT_MIN (-32768)
 #define SHRT_MAX 32767
 #define USHRT_MAX 65535
 
-#define INT_MIN -2147483648
+#define INT_MIN (-2147483647 - 1)
 #define INT_MAX 2147483647
-#define UINT_MAX 4294967296
+#define UINT_MAX 0xffffffff
 
-#define LONG_MIN -9223372036854775808
+#define LONG_MIN (-9223372036854775807 - 1)
 #define LONG_MAX 9223372036854775807
 #define ULONG_MAX 18446744073709551615
 
 // same as long
-#define LLONG_MIN -9223372036854775808
+#define LLONG_MIN (-9223372036854775807 - 1)
 #define LLONG_MAX 9223372036854775807
 #define ULLONG_MAX 18446744073709551615
 
diff --git a/headers/stddef.h b/headers/stddef.h
index bada4d3..5cfded6 100644
--- a/headers/stddef.h
+++ b/headers/stddef.h
@@ -3,7 +3,10 @@
 
 #define NULL ((void*)0)
 
+#ifndef _SIZE_T
+#define _SIZE_T
 typedef int size_t;
+#endif
 typedef int ptrdiff_t;
 typedef int wchar_t;
 
diff --git a/headers/string.h b/headers/string.h
index 7bb19d1..96b590e 100644
--- a/headers/string.h
+++ b/headers/string.h
@@ -3,7 +3,10 @@
 
 #define NULL ((void*)0)
 
+#ifndef _SIZE_T
+#define _SIZE_T
 typedef int size_t;
+#endif
 
 size_t strlen(const char *s);
 
-- 
2.43.0


From ddd13c39dd08489562feca4b36b8ee5a54f768de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:40 +0000
Subject: [PATCH 24/64] fix: non-decimal constants that don't fit into an int
 are unsigned if possible

---
 src/front_end/ast.rs           | 18 ++++++++++++++++++
 src/front_end/c_parser.lalrpop | 14 +++++++-------
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/front_end/ast.rs b/src/front_end/ast.rs
index d8e2c52..f6d8b53 100644
--- a/src/front_end/ast.rs
+++ b/src/front_end/ast.rs
@@ -252,6 +252,24 @@ pub enum Expression {
     ExpressionList(Box<Expression>, Box<Expression>),
 }
 
+impl Expression {
+    /// Unlike decimal ones, binary, octal and hexadecimal constants that don't fit into an int
+    /// are unsigned ints if they fit into that
+    pub fn non_decimal_constant(value: u128) -> Self {
+        let constant = Expression::Constant(Constant::Int(value));
+        if value <= i32::MAX as u128 || value > u32::MAX as u128 {
+            return constant;
+        }
+        let unsigned_int = SpecifierQualifier {
+            storage_class_specifier: None,
+            type_specifier: TypeSpecifier::ArithmeticType(ArithmeticType::U32),
+            const_: false,
+            inline: false,
+        };
+        Expression::Cast(TypeName(unsigned_int, None), Box::new(constant))
+    }
+}
+
 impl AstNode for Expression {
     fn reconstruct_source(&self) -> String {
         match self {
diff --git a/src/front_end/c_parser.lalrpop b/src/front_end/c_parser.lalrpop
index c84a44e..f563c1c 100644
--- a/src/front_end/c_parser.lalrpop
+++ b/src/front_end/c_parser.lalrpop
@@ -138,14 +138,14 @@ CommaSepListWithTrailing<T>: Vec<T> = {
 
 pub Identifier: ast::Identifier = "Identifier" => ast::Identifier(<>.to_owned());
 
-pub Constant: ast::Constant = {
-  IntegerConstant => ast::Constant::Int(<>),
-  DecimalFloatingConstant => ast::Constant::Float(<>),
-  CharConstant => ast::Constant::Char(<>),
+pub Constant: ast::Expression = {
+  DecimalConstant => ast::Expression::Constant(ast::Constant::Int(<>)),
+  NonDecimalConstant => ast::Expression::non_decimal_constant(<>),
+  DecimalFloatingConstant => ast::Expression::Constant(ast::Constant::Float(<>)),
+  CharConstant => ast::Expression::Constant(ast::Constant::Char(<>)),
 };
 
-IntegerConstant: u128 = {
-  DecimalConstant,
+NonDecimalConstant: u128 = {
   BinaryConstant,
   OctalConstant,
   HexConstant,
@@ -521,7 +521,7 @@ ArgumentExpressionList = CommaSepList<AssignmentExpression>;
 
 PrimaryExpression: ast::Expression = {
   <Identifier> => ast::Expression::Identifier(<>),
-  <Constant> => ast::Expression::Constant(<>),
+  <Constant>,
   <StringLiteral> => ast::Expression::StringLiteral(<>),
   "(" <Expression> ")",
 };
-- 
2.43.0


From e144d12caac9192e5c08fc051844fe1bfa79cfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:40 +0000
Subject: [PATCH 25/64] fix: recognise #include directives however they're
 spaced, and report preprocessor failures as errors

---
 src/preprocessor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/preprocessor.rs b/src/preprocessor.rs
index 5957077..b8bc153 100644
--- a/src/preprocessor.rs
+++ b/src/preprocessor.rs
@@ -63,7 +63,7 @@ fn remove_include_directives(filepath: &Path) -> Result<(String, Vec<String>), P
 /// If so, returns the name of the header file included, or None otherwise
 fn check_for_include(line: &str) -> Option<String> {
     lazy_static! {
-        static ref INCLUDE_RE: Regex = Regex::new(r#"^#include\s[<"](.*)[>"]"#).unwrap();
+        static ref INCLUDE_RE: Regex = Regex::new(r#"^\s*#\s*include\s*[<"]([^>"]*)[>"]"#).unwrap();
     }
 
     if let Some(captures) = INCLUDE_RE.captures(line) {
@@ -176,7 +176,7 @@ fn run_c_preprocessor(source: String) -> Result<String, Box<dyn Error>> {
     } else {
         // terminate the program if the preprocessor can't parse the file
         let err = String::from_utf8(output.stderr)?;
-        panic!("C preprocessor failed:\n{err}");
+        Err(format!("C preprocessor failed:\n{err}").into())
     }
 }
 
-- 
2.43.0


From 55b7bf741b0c720ee8708b600c3957ab7dac8e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:49 +0000
Subject: [PATCH 26/64] fix: truth value of constants wider than int

---
 src/middle_end/ast_to_ir.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index c40477c..54e58b2 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -2301,6 +2301,16 @@ fn convert_to_truth_value(
     src: Src,
     prog: &mut Program,
 ) -> Result<(Vec<Instruction>, Src), MiddleEndError> {
+    if let Src::Constant(constant) = src {
+        let truth_value = match constant {
+            Constant::Int(n) => n != 0,
+            Constant::Float(z) => z != 0.0,
+        };
+        return Ok((
+            Vec::new(),
+            Src::Constant(Constant::Int(truth_value as i128)),
+        ));
+    }
     let (mut instrs, src) = unary_convert(src, prog)?;
     let src_type = src.get_type(&prog.program_metadata)?;
     src_type.require_scalar_type()?;
-- 
2.43.0


From 807d6fb11eee1387174d1ca1e2f4a4c9a923fa8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:40 +0000
Subject: [PATCH 27/64] fix: float constants are encoded in four bytes

---
 src/back_end/wasm_instructions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/back_end/wasm_instructions.rs b/src/back_end/wasm_instructions.rs
index 91f1d49..8fd7766 100644
--- a/src/back_end/wasm_instructions.rs
+++ b/src/back_end/wasm_instructions.rs
@@ -745,7 +745,7 @@ impl ToBytes for WasmInstruction {
             }
             WasmInstruction::F32Const { z } => {
                 let mut bytes = vec![0x43];
-                bytes.append(&mut encode_float(*z as f64));
+                bytes.extend_from_slice(&z.to_le_bytes());
                 bytes
             }
             WasmInstruction::F64Const { z } => {
-- 
2.43.0


From d8045439e0af0d86d550a9d0a05835d08fcc52e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:43 +0000
Subject: [PATCH 28/64] fix: remove unreachable code before restructuring
 control flow

---
 src/relooper/soupify.rs | 47 +++++++++++++++++++++++++++++++----------
 1 file changed, 36 insertions(+), 11 deletions(-)

diff --git a/src/relooper/soupify.rs b/src/relooper/soupify.rs
index 9d964e2..bf6602b 100644
--- a/src/relooper/soupify.rs
+++ b/src/relooper/soupify.rs
@@ -17,7 +17,7 @@ pub fn soupify(
         !instrs.is_empty(),
         "List of instructions to soupify should be non-empty"
     );
-    remove_instrs_after_unconditional_branches(&mut instrs);
+    remove_unreachable_instrs(&mut instrs);
     remove_label_fallthrough(&mut instrs, prog_metadata);
     add_block_gap_labels_after_conditionals(&mut instrs, prog_metadata);
     insert_entry_label_if_necessary(&mut instrs, prog_metadata);
@@ -29,20 +29,45 @@ pub fn soupify(
     instructions_to_soup_of_labels(instrs)
 }
 
-/// Instructions between an unconditional branch and the next label can't be reached,
-/// and a block has to end with its (only) unconditional branch, so remove them.
+/// Remove the instructions that can't be reached from the first one. The relooper relies on
+/// every label being reachable, and on blocks ending with their (only) unconditional branch.
 /// Variable declarations get moved to the start, because what they declare can still
-/// be used after the label.
-fn remove_instrs_after_unconditional_branches(instrs: &mut Vec<Instruction>) {
+/// be used by reachable instructions.
+fn remove_unreachable_instrs(instrs: &mut Vec<Instruction>) {
+    let mut label_positions = HashMap::new();
+    for (i, instr) in instrs.iter().enumerate() {
+        if let Instruction::Label(_, label_id) = instr {
+            label_positions.insert(label_id.to_owned(), i);
+        }
+    }
+
+    let mut is_reachable = vec![false; instrs.len()];
+    let mut to_visit = vec![0];
+    while let Some(start) = to_visit.pop() {
+        for (i, instr) in instrs.iter().enumerate().skip(start) {
+            if is_reachable[i] {
+                break;
+            }
+            is_reachable[i] = true;
+            match instr {
+                Instruction::Br(_, label_id) => {
+                    to_visit.push(label_positions[label_id]);
+                    break;
+                }
+                Instruction::BrIfEq(_, _, _, label_id)
+                | Instruction::BrIfNotEq(_, _, _, label_id) => {
+                    to_visit.push(label_positions[label_id]);
+                }
+                Instruction::Ret(..) | Instruction::TailCall(..) => break,
+                _ => {}
+            }
+        }
+    }
+
     let mut reachable_instrs = Vec::new();
     let mut declarations = Vec::new();
-    let mut is_reachable = true;
-    for instr in instrs.drain(..) {
-        if let Instruction::Label(..) = instr {
-            is_reachable = true;
-        }
+    for (instr, is_reachable) in instrs.drain(..).zip(is_reachable) {
         if is_reachable {
-            is_reachable = !matches!(instr, Instruction::Br(..));
             reachable_instrs.push(instr);
         } else if let Instruction::DeclareVariable(..) = instr {
             declarations.push(instr);
-- 
2.43.0


From 33bafdbe97fa09ffd5a60de6ac0370e33c9a4712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:53 +0000
Subject: [PATCH 29/64] fix: branches in the initialiser of a global use a
 label variable of their own

---
 src/back_end/target_code_generation.rs         | 5 ++++-
 src/back_end/target_code_generation_context.rs | 5 ++---
 src/relooper/relooper.rs                       | 4 ++++
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/back_end/target_code_generation.rs b/src/back_end/target_code_generation.rs
index 0cb1bc5..3c83c6d 100644
--- a/src/back_end/target_code_generation.rs
+++ b/src/back_end/target_code_generation.rs
@@ -121,7 +121,10 @@ pub fn generate_target_code(
         //     &prog.program_metadata,
         // );
 
-        let mut global_context = FunctionContext::global_context(global_var_addrs.to_owned());
+        let mut global_context = FunctionContext::global_context(
+            global_var_addrs.to_owned(),
+            prog.program_blocks.global_label_variable.unwrap(),
+        );
 
         global_wasm_instrs.append(&mut convert_block_to_wasm(
             global_block,
diff --git a/src/back_end/target_code_generation_context.rs b/src/back_end/target_code_generation_context.rs
index 7966938..802f122 100644
--- a/src/back_end/target_code_generation_context.rs
+++ b/src/back_end/target_code_generation_context.rs
@@ -1,7 +1,6 @@
 use std::collections::HashMap;
 
 use crate::back_end::wasm_indices::{FuncIdx, WasmIdx};
-use crate::id::Id;
 use crate::middle_end::ids::{FunId, StringLiteralId, VarId};
 use crate::program_config::enabled_profiling::EnabledProfiling;
 use crate::relooper::blocks::{LoopBlockId, MultipleBlockId};
@@ -90,11 +89,11 @@ impl FunctionContext {
         }
     }
 
-    pub fn global_context(global_var_addrs: HashMap<VarId, u32>) -> Self {
+    pub fn global_context(global_var_addrs: HashMap<VarId, u32>, label_variable: VarId) -> Self {
         FunctionContext {
             var_fp_offsets: HashMap::new(),
             global_var_addrs,
-            label_variable: VarId::initial_id(), // dummy var, because global instrs don't have any control flow
+            label_variable,
             control_flow_stack: Vec::new(),
         }
     }
diff --git a/src/relooper/relooper.rs b/src/relooper/relooper.rs
index 8d79a95..f3ce9f2 100644
--- a/src/relooper/relooper.rs
+++ b/src/relooper/relooper.rs
@@ -47,6 +47,8 @@ pub struct ReloopedFunction {
 pub struct ProgramBlocks {
     pub functions: HashMap<FunId, ReloopedFunction>,
     pub global_instrs: Option<Block>,
+    // only None if global_instrs is None
+    pub global_label_variable: Option<VarId>,
 }
 
 impl ProgramBlocks {
@@ -54,6 +56,7 @@ impl ProgramBlocks {
         ProgramBlocks {
             functions: HashMap::new(),
             global_instrs: None,
+            global_label_variable: None,
         }
     }
 }
@@ -141,6 +144,7 @@ pub fn reloop(mut prog: Program) -> ReloopedProgram {
                 info!("Created block for global instructions:\n{}", block);
                 assert_no_branch_instrs_left(&block);
                 program_blocks.global_instrs = Some(block);
+                program_blocks.global_label_variable = Some(label_var);
             }
             None => error!("No block created for global instructions, even though non-empty"),
         }
-- 
2.43.0


From a35cb05f251ef389ee395f039bd7be0b994da516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:41 +0000
Subject: [PATCH 30/64] fix: the scope of a scalar includes its own initialiser

---
 src/middle_end/ast_to_ir.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 54e58b2..d2bac98 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -524,6 +524,12 @@ fn convert_statement_to_ir(
                             (dest_type_info, Initialiser::Expr(e))
                                 if dest_type_info.is_scalar_type() =>
                             {
+                                // the scope of the variable includes its own initialiser
+                                context.add_variable_to_scope(
+                                    name,
+                                    dest.to_owned(),
+                                    dest_type_info.to_owned(),
+                                )?;
                                 let (mut expr_instrs, src) =
                                     convert_expression_to_ir(e, prog, context)?;
                                 instrs.append(&mut expr_instrs);
@@ -539,10 +545,9 @@ fn convert_statement_to_ir(
                                 instrs.append(&mut convert_instrs);
                                 instrs.push(Instruction::SimpleAssignment(
                                     prog.new_instr_id(),
-                                    dest.to_owned(),
+                                    dest,
                                     src,
                                 ));
-                                context.add_variable_to_scope(name, dest, dest_type_info)?;
                             }
                             (dest_type_info, init_expr)
                                 if dest_type_info.is_aggregate_type()
-- 
2.43.0


From c70f5f6cfbb34bcc0fb3aa12cd64ec941aaded64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:13 +0000
Subject: [PATCH 31/64] fix: a block-scope extern declaration refers to the
 global variable

---
 src/middle_end/ast_to_ir.rs | 17 +++++++++++++++++
 src/middle_end/context.rs   |  4 ++++
 2 files changed, 21 insertions(+)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index d2bac98..2344585 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -386,6 +386,11 @@ fn convert_statement_to_ir(
                     sq.storage_class_specifier,
                     Some(StorageClassSpecifier::Static)
                 );
+            let is_extern_local = context.function_return_type.is_some()
+                && matches!(
+                    sq.storage_class_specifier,
+                    Some(StorageClassSpecifier::Extern)
+                );
             let mut is_initial_declarator = true;
             for declarator in declarators {
                 match declarator {
@@ -421,6 +426,18 @@ fn convert_statement_to_ir(
                                 // non-function declaration (normal variable)
                                 Some(name) => {
                                     trace!("Variable declaration: {}", name);
+                                    if is_extern_local {
+                                        // refers to the global variable of the same name
+                                        let var = context
+                                            .get_global_variable(&name)
+                                            .filter(|var| {
+                                                prog.get_var_type(var)
+                                                    .is_ok_and(|var_type| var_type == type_info)
+                                            })
+                                            .ok_or(MiddleEndError::InvalidDeclaration)?;
+                                        context.add_variable_to_scope(name, var, type_info)?;
+                                        continue;
+                                    }
                                     if let Some(var) = context.get_previous_declaration(&name) {
                                         if prog.get_var_type(&var)? != type_info {
                                             return Err(
diff --git a/src/middle_end/context.rs b/src/middle_end/context.rs
index c43ca8f..79405e3 100644
--- a/src/middle_end/context.rs
+++ b/src/middle_end/context.rs
@@ -217,6 +217,10 @@ impl Context {
         self.scope_stack.last()?.resolve_identifier_to_var(name)
     }
 
+    pub fn get_global_variable(&self, name: &str) -> Option<VarId> {
+        self.scope_stack.first()?.resolve_identifier_to_var(name)
+    }
+
     pub fn add_function_body(&mut self, name: String) -> Result<(), MiddleEndError> {
         if self.defined_functions.contains(&name) {
             return Err(MiddleEndError::DuplicateFunctionDeclaration(name));
-- 
2.43.0


From babadd0d73545d210150eee6dc0079ca30874b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 32/64] fix: a repeated declaration of a global array keeps its
 space

---
 src/middle_end/ast_to_ir.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 2344585..f6a588f 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -523,7 +523,9 @@ fn convert_statement_to_ir(
                                 init_expr = Initialiser::Expr(e.to_owned());
                             }
                         }
-                        let dest = match context.get_previous_declaration(&name) {
+                        let previous_declaration = context.get_previous_declaration(&name);
+                        let is_allocated = previous_declaration.is_some();
+                        let dest = match previous_declaration {
                             Some(var) => {
                                 if prog.get_var_type(&var)? != dest_type_info {
                                     return Err(MiddleEndError::DuplicateVariableDeclaration(name));
@@ -575,7 +577,9 @@ fn convert_statement_to_ir(
                                     dest.to_owned(),
                                     dest_type_info.to_owned(),
                                 )?;
-                                if dest_type_info.is_array_type() {
+                                if is_allocated {
+                                    // the previous declaration has given it its space
+                                } else if dest_type_info.is_array_type() {
                                     let array_byte_size = match dest_type_info
                                         .get_array_byte_size(&prog.program_metadata)?
                                     {
-- 
2.43.0


From 7e402ae8b65da549568d3ee1229c23a3ca98abcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:36 +0000
Subject: [PATCH 33/64] fix: tags, members and labels can have the name of a
 type

---
 src/front_end/c_parser.lalrpop | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/front_end/c_parser.lalrpop b/src/front_end/c_parser.lalrpop
index f563c1c..70a2693 100644
--- a/src/front_end/c_parser.lalrpop
+++ b/src/front_end/c_parser.lalrpop
@@ -138,6 +138,12 @@ CommaSepListWithTrailing<T>: Vec<T> = {
 
 pub Identifier: ast::Identifier = "Identifier" => ast::Identifier(<>.to_owned());
 
+// tags, members and labels have name spaces of their own, so they can have the same name as a type
+NameSpacedIdentifier: ast::Identifier = {
+  Identifier,
+  "TypedefName" => ast::Identifier(<>.to_owned()),
+};
+
 pub Constant: ast::Expression = {
   DecimalConstant => ast::Expression::Constant(ast::Constant::Int(<>)),
   NonDecimalConstant => ast::Expression::non_decimal_constant(<>),
@@ -188,12 +194,12 @@ OpenStatement: ast::Statement = {
   "switch" "(" <e:Expression> ")" <s:OpenStatement> => ast::Statement::Switch(e, Box::new(s)),
   "case" <e:ConditionalExpression> ":" <s:OpenStatement> => ast::Statement::Labelled(ast::LabelledStatement::Case(e, Box::new(s))),
   "default" ":" <OpenStatement> => ast::Statement::Labelled(ast::LabelledStatement::Default(Box::new(<>))),
-  <i:Identifier> ":" <s:OpenStatement> => ast::Statement::Labelled(ast::LabelledStatement::Named(i, Box::new(s))),
+  <i:NameSpacedIdentifier> ":" <s:OpenStatement> => ast::Statement::Labelled(ast::LabelledStatement::Named(i, Box::new(s))),
 };
 
 ClosedStatement: ast::Statement = {
   "if" "(" <e:Expression> ")" <s1:ClosedStatement> "else" <s2:ClosedStatement> => ast::Statement::IfElse(e, Box::new(s1), Box::new(s2)),
-  "goto" <Identifier> ";" => ast::Statement::Goto(<>),
+  "goto" <NameSpacedIdentifier> ";" => ast::Statement::Goto(<>),
   "continue" ";" => ast::Statement::Continue,
   "break" ";" => ast::Statement::Break,
   "return" <Expression?> ";" => ast::Statement::Return(<>),
@@ -206,7 +212,7 @@ ClosedStatement: ast::Statement = {
   <Declaration>,
   "case" <e:ConditionalExpression> ":" <s:ClosedStatement> => ast::Statement::Labelled(ast::LabelledStatement::Case(e, Box::new(s))),
   "default" ":" <ClosedStatement> => ast::Statement::Labelled(ast::LabelledStatement::Default(Box::new(<>))),
-  <i:Identifier> ":" <s:ClosedStatement> => ast::Statement::Labelled(ast::LabelledStatement::Named(i, Box::new(s))),
+  <i:NameSpacedIdentifier> ":" <s:ClosedStatement> => ast::Statement::Labelled(ast::LabelledStatement::Named(i, Box::new(s))),
   ";" => ast::Statement::Empty,
 };
 
@@ -277,8 +283,8 @@ ArithmeticTypeSpecifier: ast::ArithmeticTypeSpecifierToken = {
 };
 
 StructDeclaration: ast::StructType = {
-  "struct" <Identifier> => ast::StructType::Declaration(<>),
-  "struct" <Identifier?> "{" <StructMemberDeclaration+> "}" => ast::StructType::Definition(<>),
+  "struct" <NameSpacedIdentifier> => ast::StructType::Declaration(<>),
+  "struct" <NameSpacedIdentifier?> "{" <StructMemberDeclaration+> "}" => ast::StructType::Definition(<>),
 };
 
 StructMemberDeclaration: ast::StructMemberDeclaration = {
@@ -286,13 +292,13 @@ StructMemberDeclaration: ast::StructMemberDeclaration = {
 };
 
 UnionDeclaration: ast::UnionType = {
-  "union" <Identifier> => ast::UnionType::Declaration(<>),
-  "union" <Identifier?> "{" <StructMemberDeclaration+> "}" => ast::UnionType::Definition(<>),
+  "union" <NameSpacedIdentifier> => ast::UnionType::Declaration(<>),
+  "union" <NameSpacedIdentifier?> "{" <StructMemberDeclaration+> "}" => ast::UnionType::Definition(<>),
 };
 
 EnumDeclaration: ast::EnumType = {
-  "enum" <Identifier> => ast::EnumType::Declaration(<>),
-  "enum" <Identifier?> "{" <EnumeratorList> "}" => ast::EnumType::Definition(<>),
+  "enum" <NameSpacedIdentifier> => ast::EnumType::Declaration(<>),
+  "enum" <NameSpacedIdentifier?> "{" <EnumeratorList> "}" => ast::EnumType::Definition(<>),
 };
 
 EnumeratorList = CommaSepListAllowTrailing<Enumerator>;
@@ -511,8 +517,8 @@ PostfixExpression: ast::Expression = {
         None => ast::Expression::FunctionCall(Box::new(e), vec![]),
     }
   },
-  <e:PostfixExpression> "." <i:Identifier> => ast::Expression::DirectMemberSelection(Box::new(e), i),
-  <e:PostfixExpression> "->" <i:Identifier> => ast::Expression::IndirectMemberSelection(Box::new(e), i),
+  <e:PostfixExpression> "." <i:NameSpacedIdentifier> => ast::Expression::DirectMemberSelection(Box::new(e), i),
+  <e:PostfixExpression> "->" <i:NameSpacedIdentifier> => ast::Expression::IndirectMemberSelection(Box::new(e), i),
   <PostfixExpression> "++" => ast::Expression::PostfixIncrement(Box::new(<>)),
   <PostfixExpression> "--" => ast::Expression::PostfixDecrement(Box::new(<>)),
 };
-- 
2.43.0


From f94e28963f9d414967a5bcd64db2c7b4101e27db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:11 +0000
Subject: [PATCH 34/64] fix: a function can be declared repeatedly with the
 same type

---
 src/middle_end/ir.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/middle_end/ir.rs b/src/middle_end/ir.rs
index d9829d3..b3e044f 100644
--- a/src/middle_end/ir.rs
+++ b/src/middle_end/ir.rs
@@ -401,6 +401,12 @@ impl Program {
         name: String,
         fun: Function,
     ) -> Result<FunId, MiddleEndError> {
+        if let Some(existing_fun_id) = self.program_metadata.function_ids.get(&name) {
+            // a function can be declared repeatedly, with the same type
+            if self.program_metadata.function_types.get(existing_fun_id) == Some(&fun.type_info) {
+                return Ok(existing_fun_id.to_owned());
+            }
+        }
         let fun_id = self.program_metadata.new_fun_declaration(name)?;
         self.program_metadata
             .function_types
-- 
2.43.0


From 3ceef1bf60ea765b43a8bb9091f1969bb88d2f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:39 +0000
Subject: [PATCH 35/64] fix: a program's own function is not replaced by a
 runtime function of the same name

---
 src/back_end/profiler.rs               | 4 ++++
 src/back_end/target_code_generation.rs | 5 +++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/back_end/profiler.rs b/src/back_end/profiler.rs
index 7b2dd4d..2d0f219 100644
--- a/src/back_end/profiler.rs
+++ b/src/back_end/profiler.rs
@@ -10,6 +10,10 @@ pub fn initialise_profiler(module_context: &mut ModuleContext, prog: &mut Reloop
         .enabled_profiling
         .is_stack_ptr_logging_enabled()
     {
+        // the program can have a function of the same name
+        prog.program_metadata
+            .function_ids
+            .remove(LOG_STACK_PTR_IMPORT_NAME);
         // declare new fun for log fun
         let log_stack_ptr_fun_id = prog
             .program_metadata
diff --git a/src/back_end/target_code_generation.rs b/src/back_end/target_code_generation.rs
index 3c83c6d..7c46b01 100644
--- a/src/back_end/target_code_generation.rs
+++ b/src/back_end/target_code_generation.rs
@@ -357,10 +357,11 @@ fn separate_imported_and_defined_functions(
     for (fun_id, function) in functions {
         // check if this function is an imported one
         match imported_function_ids.get(&fun_id) {
-            Some(fun_name) => {
+            // the program's own definition takes precedence
+            Some(fun_name) if !function.body_is_defined => {
                 imported_functions.push((fun_id, fun_name.to_owned(), function));
             }
-            None => {
+            _ => {
                 defined_functions.push((fun_id, function));
             }
         }
-- 
2.43.0


From edb2c190c8c546d88a7e73ffd86ac28f8505051d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:04 +0000
Subject: [PATCH 36/64] fix: constant expressions are evaluated in the types
 that their operands have

---
 src/middle_end/compile_time_eval.rs | 176 +++++++++++++++++++++-------
 1 file changed, 134 insertions(+), 42 deletions(-)

diff --git a/src/middle_end/compile_time_eval.rs b/src/middle_end/compile_time_eval.rs
index 6b145d5..5194f0e 100644
--- a/src/middle_end/compile_time_eval.rs
+++ b/src/middle_end/compile_time_eval.rs
@@ -1,9 +1,11 @@
 use crate::front_end::ast::{BinaryOperator, Expression, Identifier, TypeName};
 use crate::front_end::ast::{Constant as AstConstant, UnaryOperator};
+use crate::middle_end::ast_to_ir::convert_expression_to_ir;
 use crate::middle_end::context::{Context, IdentifierResolveResult};
 use crate::middle_end::get_ast_type_info::get_type_info;
 use crate::middle_end::instructions::Constant as IrConstant;
 use crate::middle_end::ir::Program;
+use crate::middle_end::ir_types::IrType;
 use crate::middle_end::middle_end_error::MiddleEndError;
 
 /// constant expression used for array bounds, explicit enum values,
@@ -13,7 +15,7 @@ pub fn eval_integral_constant_expression(
     prog: &mut Program,
     context: &mut Context,
 ) -> Result<i128, MiddleEndError> {
-    match eval(expr, prog, context)? {
+    match eval(expr, prog, context)?.0 {
         ConstantExpressionType::Int(i) => Ok(i),
         _ => Err(MiddleEndError::InvalidConstantExpression),
     }
@@ -24,7 +26,7 @@ pub fn eval_initialiser_constant_expression(
     prog: &mut Program,
     context: &mut Context,
 ) -> Result<IrConstant, MiddleEndError> {
-    match eval(expr, prog, context)? {
+    match eval(expr, prog, context)?.0 {
         ConstantExpressionType::Int(i) => Ok(IrConstant::Int(i)),
         ConstantExpressionType::Float(f) => Ok(IrConstant::Float(f)),
     }
@@ -47,6 +49,37 @@ enum ConstantExpressionType {
     Float(f64),
 }
 
+impl ConstantExpressionType {
+    fn is_true(&self) -> bool {
+        match self {
+            ConstantExpressionType::Int(i) => *i != 0,
+            ConstantExpressionType::Float(f) => *f != 0.,
+        }
+    }
+
+    /// An integer that doesn't fit into the type it has is converted to it
+    fn in_type(self, ir_type: &IrType) -> Self {
+        match self {
+            ConstantExpressionType::Int(i) => ConstantExpressionType::Int(ir_type.wrap_integer(i)),
+            f => f,
+        }
+    }
+}
+
+/// The type that the operands of an arithmetic operation are converted to
+fn common_type(left_type: &IrType, right_type: &IrType) -> IrType {
+    [
+        IrType::F64,
+        IrType::F32,
+        IrType::U64,
+        IrType::I64,
+        IrType::U32,
+    ]
+    .into_iter()
+    .find(|ir_type| ir_type == left_type || ir_type == right_type)
+    .unwrap_or(IrType::I32)
+}
+
 /// The result of an integer operation, or an error if it doesn't have one
 fn int_result(result: Option<i128>) -> Result<ConstantExpressionType, MiddleEndError> {
     match result {
@@ -55,32 +88,43 @@ fn int_result(result: Option<i128>) -> Result<ConstantExpressionType, MiddleEndE
     }
 }
 
+/// The value and the type of a constant expression
 fn eval(
     expr: Expression,
     prog: &mut Program,
     context: &mut Context,
-) -> Result<ConstantExpressionType, MiddleEndError> {
+) -> Result<(ConstantExpressionType, IrType), MiddleEndError> {
     match expr {
         Expression::Identifier(Identifier(name)) => {
             match context.resolve_identifier_to_var_or_const(&name)? {
                 IdentifierResolveResult::EnumConst(value) => {
-                    Ok(ConstantExpressionType::Int(value as i128))
+                    Ok((ConstantExpressionType::Int(value as i128), IrType::I32))
                 }
                 IdentifierResolveResult::Var(_) => Err(MiddleEndError::CantEvaluateAtCompileTime),
             }
         }
         Expression::Constant(c) => match c {
-            AstConstant::Int(i) => Ok(ConstantExpressionType::Int(i as i128)),
-            AstConstant::Float(f) => Ok(ConstantExpressionType::Float(f)),
-            AstConstant::Char(c) => Ok(ConstantExpressionType::Int(char_constant_value(c))),
+            AstConstant::Int(i) => Ok((
+                ConstantExpressionType::Int(i as i128),
+                IrConstant::Int(i as i128).get_type(None),
+            )),
+            AstConstant::Float(f) => Ok((ConstantExpressionType::Float(f), IrType::F64)),
+            AstConstant::Char(c) => Ok((
+                ConstantExpressionType::Int(char_constant_value(c)),
+                IrType::I32,
+            )),
         },
         Expression::StringLiteral(_) => Err(MiddleEndError::InvalidConstantExpression),
         Expression::Index(_, _) => Err(MiddleEndError::CantEvaluateAtCompileTime),
         Expression::DirectMemberSelection(_, _) => Err(MiddleEndError::CantEvaluateAtCompileTime),
         Expression::IndirectMemberSelection(_, _) => Err(MiddleEndError::CantEvaluateAtCompileTime),
         Expression::UnaryOp(op, expr) => {
-            let expr_result = eval(*expr, prog, context)?;
-            match op {
+            let (expr_result, expr_type) = eval(*expr, prog, context)?;
+            let result_type = match op {
+                UnaryOperator::LogicalNot => IrType::I32,
+                _ => expr_type.unary_convert(),
+            };
+            let result = match op {
                 UnaryOperator::AddressOf => Err(MiddleEndError::CantEvaluateAtCompileTime),
                 UnaryOperator::Dereference => Err(MiddleEndError::CantEvaluateAtCompileTime),
                 UnaryOperator::Plus => match expr_result {
@@ -104,24 +148,72 @@ fn eval(
                         Ok(ConstantExpressionType::Int((f == 0.) as i128))
                     }
                 },
-            }
+            }?;
+            Ok((result.in_type(&result_type), result_type))
+        }
+        Expression::SizeOfExpr(expr) => {
+            // only the type of the expression is needed, it doesn't get evaluated
+            let (_, expr_var) = convert_expression_to_ir(*expr, prog, context)?;
+            let byte_size = expr_var
+                .get_type(&prog.program_metadata)?
+                .get_object_byte_size(&prog.program_metadata);
+            Ok((
+                ConstantExpressionType::Int(byte_size.get_compile_time_value()? as i128),
+                IrType::I32,
+            ))
         }
-        Expression::SizeOfExpr(_) => Err(MiddleEndError::CantEvaluateAtCompileTime),
         Expression::SizeOfType(TypeName(specifier, declarator)) => {
             match get_type_info(&specifier, declarator, false, prog, context)? {
                 Some((type_info, _, _)) => {
                     let byte_size = type_info.get_object_byte_size(&prog.program_metadata);
-                    Ok(ConstantExpressionType::Int(
-                        byte_size.get_compile_time_value()? as i128,
+                    Ok((
+                        ConstantExpressionType::Int(byte_size.get_compile_time_value()? as i128),
+                        IrType::I32,
                     ))
                 }
                 None => Err(MiddleEndError::InvalidConstantExpression),
             }
         }
         Expression::BinaryOp(op, left, right) => {
-            let left_result = eval(*left, prog, context)?;
-            let right_result = eval(*right, prog, context)?;
-            match op {
+            let (left_result, left_type) = eval(*left, prog, context)?;
+            match (&op, left_result.is_true()) {
+                // the right operand isn't evaluated
+                (BinaryOperator::LogicalAnd, false) => {
+                    return Ok((ConstantExpressionType::Int(0), IrType::I32))
+                }
+                (BinaryOperator::LogicalOr, true) => {
+                    return Ok((ConstantExpressionType::Int(1), IrType::I32))
+                }
+                _ => {}
+            }
+            let (right_result, right_type) = eval(*right, prog, context)?;
+            let (operand_type, result_type) = match op {
+                BinaryOperator::LeftShift | BinaryOperator::RightShift => {
+                    (left_type.unary_convert(), left_type.unary_convert())
+                }
+                BinaryOperator::LessThan
+                | BinaryOperator::GreaterThan
+                | BinaryOperator::LessThanEq
+                | BinaryOperator::GreaterThanEq
+                | BinaryOperator::Equal
+                | BinaryOperator::NotEqual => (common_type(&left_type, &right_type), IrType::I32),
+                BinaryOperator::LogicalAnd | BinaryOperator::LogicalOr => {
+                    return Ok((
+                        ConstantExpressionType::Int(right_result.is_true() as i128),
+                        IrType::I32,
+                    ))
+                }
+                _ => {
+                    let operand_type = common_type(&left_type, &right_type);
+                    (operand_type.to_owned(), operand_type)
+                }
+            };
+            let left_result = left_result.in_type(&operand_type);
+            let right_result = match op {
+                BinaryOperator::LeftShift | BinaryOperator::RightShift => right_result,
+                _ => right_result.in_type(&operand_type),
+            };
+            let result = match op {
                 BinaryOperator::Mult => match (left_result, right_result) {
                     (ConstantExpressionType::Int(l), ConstantExpressionType::Int(r)) => {
                         int_result(l.checked_mul(r))
@@ -294,30 +386,28 @@ fn eval(
                     }
                     _ => Err(MiddleEndError::InvalidConstantExpression),
                 },
-                BinaryOperator::LogicalAnd => match (left_result, right_result) {
-                    (ConstantExpressionType::Int(l), ConstantExpressionType::Int(r)) => {
-                        Ok(ConstantExpressionType::Int(((l != 0) && (r != 0)) as i128))
-                    }
-                    _ => Err(MiddleEndError::InvalidConstantExpression),
-                },
-                BinaryOperator::LogicalOr => match (left_result, right_result) {
-                    (ConstantExpressionType::Int(l), ConstantExpressionType::Int(r)) => {
-                        Ok(ConstantExpressionType::Int(((l != 0) || (r != 0)) as i128))
-                    }
-                    _ => Err(MiddleEndError::InvalidConstantExpression),
-                },
-            }
+                BinaryOperator::LogicalAnd | BinaryOperator::LogicalOr => {
+                    unreachable!("handled separately")
+                }
+            }?;
+            Ok((result.in_type(&result_type), result_type))
         }
         Expression::Ternary(cond, true_expr, false_expr) => {
-            let cond_result = eval(*cond, prog, context)?;
-            let cond_value = match cond_result {
-                ConstantExpressionType::Int(i) => i != 0,
-                ConstantExpressionType::Float(f) => f != 0.,
+            let (cond_result, _) = eval(*cond, prog, context)?;
+            let (result_expr, other_expr) = match cond_result.is_true() {
+                true => (true_expr, false_expr),
+                false => (false_expr, true_expr),
             };
-            if cond_value {
-                eval(*true_expr, prog, context)
-            } else {
-                eval(*false_expr, prog, context)
+            let (result, mut result_type) = eval(*result_expr, prog, context)?;
+            // the other operand isn't evaluated, but it contributes to the type
+            if let Ok((_, other_type)) = eval(*other_expr, prog, context) {
+                result_type = common_type(&result_type, &other_type);
+            }
+            match (result, &result_type) {
+                (ConstantExpressionType::Int(i), IrType::F64) => {
+                    Ok((ConstantExpressionType::Float(i as f64), result_type))
+                }
+                (result, _) => Ok((result.in_type(&result_type), result_type)),
             }
         }
         Expression::Cast(TypeName(specifier, declarator), expr) => {
@@ -325,13 +415,15 @@ fn eval(
                 Some((cast_type, _, _)) => cast_type,
                 None => return Err(MiddleEndError::InvalidConstantExpression),
             };
-            match eval(*expr, prog, context)? {
+            match eval(*expr, prog, context)?.0 {
                 ConstantExpressionType::Int(i) if cast_type.is_integral_type() => {
-                    Ok(ConstantExpressionType::Int(cast_type.wrap_integer(i)))
+                    let value = cast_type.wrap_integer(i);
+                    Ok((ConstantExpressionType::Int(value), cast_type))
+                }
+                ConstantExpressionType::Float(f) if cast_type.is_integral_type() => {
+                    let value = cast_type.wrap_integer(f as i128);
+                    Ok((ConstantExpressionType::Int(value), cast_type))
                 }
-                ConstantExpressionType::Float(f) if cast_type.is_integral_type() => Ok(
-                    ConstantExpressionType::Int(cast_type.wrap_integer(f as i128)),
-                ),
                 _ => Err(MiddleEndError::CantEvaluateAtCompileTime),
             }
         }
-- 
2.43.0


From 32c2348e5e4d74d051b48aab331c5821998fe10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:22 +0000
Subject: [PATCH 37/64] fix: products in constant expressions wrap around as at
 run time

---
 src/middle_end/compile_time_eval.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/middle_end/compile_time_eval.rs b/src/middle_end/compile_time_eval.rs
index 5194f0e..86893b5 100644
--- a/src/middle_end/compile_time_eval.rs
+++ b/src/middle_end/compile_time_eval.rs
@@ -216,7 +216,7 @@ fn eval(
             let result = match op {
                 BinaryOperator::Mult => match (left_result, right_result) {
                     (ConstantExpressionType::Int(l), ConstantExpressionType::Int(r)) => {
-                        int_result(l.checked_mul(r))
+                        int_result(Some(l.wrapping_mul(r)))
                     }
                     (ConstantExpressionType::Float(f), ConstantExpressionType::Int(i))
                     | (ConstantExpressionType::Int(i), ConstantExpressionType::Float(f)) => {
@@ -274,7 +274,7 @@ fn eval(
                 },
                 BinaryOperator::LeftShift => match (left_result, right_result) {
                     (ConstantExpressionType::Int(l), ConstantExpressionType::Int(r)) => {
-                        int_result(checked_shift(r).and_then(|r| l.checked_mul(1 << r)))
+                        int_result(checked_shift(r).map(|r| l.wrapping_shl(r)))
                     }
                     _ => Err(MiddleEndError::InvalidConstantExpression),
                 },
-- 
2.43.0


From f89dddff334d46f1d58889ff17e40bf876c034bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:26 +0000
Subject: [PATCH 38/64] fix: an enumerator can have the largest value of an int

---
 src/middle_end/get_ast_type_info.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/middle_end/get_ast_type_info.rs b/src/middle_end/get_ast_type_info.rs
index 5388fd1..99aea12 100644
--- a/src/middle_end/get_ast_type_info.rs
+++ b/src/middle_end/get_ast_type_info.rs
@@ -222,12 +222,13 @@ pub fn get_type_info(
                         }
                     }
                     if !skip_constant_definition {
-                        let mut next_constant_value = 0;
+                        let mut next_constant_value: i128 = 0;
                         for enum_constant in enum_constants {
                             match enum_constant {
                                 Enumerator::Simple(Identifier(name)) => {
-                                    context
-                                        .add_enum_constant(name.to_owned(), next_constant_value)?;
+                                    let value = EnumConstant::try_from(next_constant_value)
+                                        .map_err(|_| MiddleEndError::InvalidConstantExpression)?;
+                                    context.add_enum_constant(name.to_owned(), value)?;
                                     next_constant_value += 1;
                                 }
                                 Enumerator::WithValue(Identifier(name), value_expr) => {
@@ -240,7 +241,7 @@ pub fn get_type_info(
                                     context.add_enum_constant(name.to_owned(), value)?;
                                     // value of next constant without explicit value is one more than
                                     // the last constant
-                                    next_constant_value = value + 1;
+                                    next_constant_value = value as i128 + 1;
                                 }
                             }
                         }
-- 
2.43.0


From d9d6158385339285f149df04716f2f01a2ac5353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:05 +0000
Subject: [PATCH 39/64] fix: floating constants can start with a zero followed
 by an 8 or 9

---
 src/front_end/lexer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/front_end/lexer.rs b/src/front_end/lexer.rs
index 790915a..e6fecdd 100644
--- a/src/front_end/lexer.rs
+++ b/src/front_end/lexer.rs
@@ -898,7 +898,8 @@ impl Fsm {
                     state: State::Hex1,
                     token: Some(Token::HexConstant("0x".to_owned())),
                 }),
-                c if c.is_digit(8) => {
+                // 8 and 9 can only be digits of a floating constant
+                c if c.is_ascii_digit() => {
                     let s = format!("0{c}");
                     Some(Fsm {
                         state: State::Oct2,
@@ -928,7 +929,8 @@ impl Fsm {
                     }
                     _ => None,
                 },
-                c if c.is_digit(8) => match self.token {
+                // 8 and 9 can only be digits of a floating constant
+                c if c.is_ascii_digit() => match self.token {
                     Some(Token::OctalConstant(mut s)) => {
                         s.push(c);
                         Some(Fsm {
-- 
2.43.0


From 739dd53fbdf7f971be5ef642773b98a1cb0da28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:05 +0000
Subject: [PATCH 40/64] fix: source lines that can't be read are reported, not
 left out

---
 src/preprocessor.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/preprocessor.rs b/src/preprocessor.rs
index b8bc153..06f38ca 100644
--- a/src/preprocessor.rs
+++ b/src/preprocessor.rs
@@ -38,15 +38,14 @@ fn remove_include_directives(filepath: &Path) -> Result<(String, Vec<String>), P
     match read_lines(filepath) {
         Ok(lines) => {
             for line in lines {
-                if let Ok(l) = line {
-                    // check if line is a #include directive
-                    if let Some(include) = check_for_include(&l) {
-                        includes.push(include);
-                        continue;
-                    }
-                    output.push_str(&l);
-                    output.push('\n');
+                let l = line.map_err(PreprocessorError::IoError)?;
+                // check if line is a #include directive
+                if let Some(include) = check_for_include(&l) {
+                    includes.push(include);
+                    continue;
                 }
+                output.push_str(&l);
+                output.push('\n');
             }
             Ok((output, includes))
         }
-- 
2.43.0


From 793f3d333c176da19e5b7ffbef6de311c8304a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:30 +0000
Subject: [PATCH 41/64] fix: the escape sequences a, b, f and v in character
 constants

---
 src/front_end/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/front_end/lexer.rs b/src/front_end/lexer.rs
index e6fecdd..daeb156 100644
--- a/src/front_end/lexer.rs
+++ b/src/front_end/lexer.rs
@@ -1032,7 +1032,7 @@ impl Fsm {
                 }),
             },
             State::Char2 => match input {
-                c @ '\'' | c @ '"' | c @ '?' | c @ '\\' | c @ 'n' | c @ 'r' | c @ 't' => {
+                c @ ('\'' | '"' | '?' | '\\' | 'n' | 'r' | 't' | 'a' | 'b' | 'f' | 'v') => {
                     match self.token {
                         Some(Token::CharConstant(mut s)) => {
                             s.push(c);
-- 
2.43.0


From 7b6d706f6d84250bf4f9fc9e361be64698af22fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:50 +0000
Subject: [PATCH 42/64] fix: escape sequences in strings denote single bytes

---
 src/back_end/initialise_memory.rs |  2 +-
 src/front_end/interpret_string.rs | 19 ++++++++++---------
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/back_end/initialise_memory.rs b/src/back_end/initialise_memory.rs
index b9a33ff..1d59e33 100644
--- a/src/back_end/initialise_memory.rs
+++ b/src/back_end/initialise_memory.rs
@@ -36,7 +36,7 @@ pub fn initialise_memory(
             .string_literal_id_to_ptr_map
             .insert(string_literal_id.to_owned(), ptr_to_string as u32);
         // insert the string
-        data.append(&mut string.as_bytes().to_vec());
+        data.extend(string.chars().map(|byte| byte as u8));
         // null terminate the string
         data.push(0x00);
     }
diff --git a/src/front_end/interpret_string.rs b/src/front_end/interpret_string.rs
index 573910e..1a2d90e 100644
--- a/src/front_end/interpret_string.rs
+++ b/src/front_end/interpret_string.rs
@@ -4,8 +4,11 @@ use std::{iter::Peekable, str::Chars};
 #[path = "interpret_string_tests.rs"]
 mod interpret_string_tests;
 
+/// Each char of the result stands for one byte of the string, so that bytes given by escape
+/// sequences are kept as they are. Source characters that aren't ascii are several bytes long.
 pub fn interpret_string(s: &str) -> Result<String, Error> {
-    InterpretString::new(s).collect()
+    let bytes: String = s.bytes().map(char::from).collect();
+    InterpretString::new(&bytes).collect()
 }
 
 struct InterpretString<'a> {
@@ -58,10 +61,9 @@ impl Iterator for InterpretString<'_> {
                                 }
                                 // convert the hex code to an int, and then to
                                 // the corresponding char
-                                let hex_code = u32::from_str_radix(&buffer, 16).ok();
-                                match hex_code.and_then(char::from_u32) {
-                                    Some(c) => Ok(c),
-                                    None => Err(Error::InvalidCharCode(buffer)),
+                                match u8::from_str_radix(&buffer, 16) {
+                                    Ok(byte) => Ok(char::from(byte)),
+                                    Err(_) => Err(Error::InvalidCharCode(buffer)),
                                 }
                             }
                             Some(c) => Err(Error::InvalidEscapeChar(*c)),
@@ -90,10 +92,9 @@ impl Iterator for InterpretString<'_> {
                         }
                         // convert the octal code to an int, and then to the
                         // corresponding char
-                        let oct_code = u32::from_str_radix(&buffer, 8).unwrap();
-                        match char::from_u32(oct_code) {
-                            Some(c) => Ok(c),
-                            None => Err(Error::InvalidCharCode(buffer)),
+                        match u8::from_str_radix(&buffer, 8) {
+                            Ok(byte) => Ok(char::from(byte)),
+                            Err(_) => Err(Error::InvalidCharCode(buffer)),
                         }
                     }
                     Some(c) => Err(Error::InvalidEscapeChar(c)),
-- 
2.43.0


From 2ffb88303bdfa1bab7f48fc3106c6a960fe82772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:18 +0000
Subject: [PATCH 43/64] fix: size of a string literal

---
 src/middle_end/ast_to_ir.rs         | 6 ++++++
 src/middle_end/compile_time_eval.rs | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index f6a588f..d09833c 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -1607,6 +1607,12 @@ pub fn convert_expression_to_ir(
                 _ => unreachable!("other cases handled separately"),
             }
         }
+        Expression::SizeOfExpr(e) if matches!(*e, Expression::StringLiteral(_)) => {
+            // the type of the expression is that of an array, rather than a pointer
+            let e = Expression::SizeOfExpr(e);
+            let size = eval_integral_constant_expression(e, prog, context)?;
+            Ok((instrs, Src::Constant(Constant::Int(size))))
+        }
         Expression::SizeOfExpr(e) => {
             // only the type of the expression is needed, it doesn't get evaluated
             let (_, expr_var) = convert_expression_to_ir(*e, prog, context)?;
diff --git a/src/middle_end/compile_time_eval.rs b/src/middle_end/compile_time_eval.rs
index 86893b5..86588bf 100644
--- a/src/middle_end/compile_time_eval.rs
+++ b/src/middle_end/compile_time_eval.rs
@@ -152,6 +152,11 @@ fn eval(
             Ok((result.in_type(&result_type), result_type))
         }
         Expression::SizeOfExpr(expr) => {
+            if let Expression::StringLiteral(s) = &*expr {
+                // the size of the array, including the terminating null
+                let byte_size = s.chars().count() as i128 + 1;
+                return Ok((ConstantExpressionType::Int(byte_size), IrType::I32));
+            }
             // only the type of the expression is needed, it doesn't get evaluated
             let (_, expr_var) = convert_expression_to_ir(*expr, prog, context)?;
             let byte_size = expr_var
-- 
2.43.0


From d212e0869a10fa1cdcf83b5b4b4528331056c675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:30 +0000
Subject: [PATCH 44/64] fix: argv ends with a null pointer

---
 runtime/init_memory.mjs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/runtime/init_memory.mjs b/runtime/init_memory.mjs
index 62c9b4d..3541a11 100644
--- a/runtime/init_memory.mjs
+++ b/runtime/init_memory.mjs
@@ -10,8 +10,9 @@ export const put_args_into_memory = (args, wasm_memory) => {
     const argc = args.length;
     const argv = stack_ptr;
 
-    // allocate space for each pointer in argv
-    stack_ptr += PTR_SIZE * argc;
+    // allocate space for each pointer in argv, and for the null pointer at its end
+    stack_ptr += PTR_SIZE * (argc + 1);
+    store_ptr(argv + (argc * PTR_SIZE), 0, memory);
 
     // store each arg after each other in memory and null-terminate
     for (let i = 0; i < argc; i++) {
-- 
2.43.0


From d50d79e818a46f824da70951e17f8c0972163045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:25 +0000
Subject: [PATCH 45/64] fix: the preprocessor handles #include directives in
 place, so they see earlier macros and conditionals

---
 src/preprocessor.rs | 192 +++++++++-----------------------------------
 1 file changed, 36 insertions(+), 156 deletions(-)

diff --git a/src/preprocessor.rs b/src/preprocessor.rs
index 06f38ca..ad36f6b 100644
--- a/src/preprocessor.rs
+++ b/src/preprocessor.rs
@@ -1,26 +1,28 @@
 use std::error::Error;
-use std::io;
-use std::io::{BufRead, ErrorKind, Write};
-use std::path::{Path, PathBuf};
+use std::io::ErrorKind;
+use std::path::Path;
 use std::process::{Command, Stdio};
-use std::{fmt, fs};
+use std::{fmt, fs, io};
 
-use lazy_static::lazy_static;
 use log::info;
-use regex::Regex;
+
+/// The directory of the standard library headers we support
+const HEADERS_DIR: &str = "headers";
 
 pub fn preprocess(filepath: &Path) -> Result<String, PreprocessorError> {
     info!("Running preprocessor");
 
-    let (mut file_contents, includes) = remove_include_directives(filepath)?;
-
-    info!("Includes: {:?}", includes);
-
-    file_contents = include_headers(file_contents, includes, filepath)?;
-
-    info!("Included headers:\n{file_contents}");
+    // check the file can be read before passing it to cpp
+    if let Err(e) = fs::File::open(filepath) {
+        return match e.kind() {
+            ErrorKind::NotFound => Err(PreprocessorError::FileNotFound(
+                filepath.to_string_lossy().into_owned(),
+            )),
+            _ => Err(PreprocessorError::IoError(e)),
+        };
+    }
 
-    let processed_source = match run_c_preprocessor(file_contents) {
+    let processed_source = match run_c_preprocessor(filepath) {
         Ok(s) => s,
         Err(e) => return Err(PreprocessorError::CppError(e)),
     };
@@ -30,151 +32,33 @@ pub fn preprocess(filepath: &Path) -> Result<String, PreprocessorError> {
     Ok(processed_source)
 }
 
-fn remove_include_directives(filepath: &Path) -> Result<(String, Vec<String>), PreprocessorError> {
-    // store the includes we remove from the file
-    let mut includes: Vec<String> = Vec::new();
-    let mut output = String::new();
-
-    match read_lines(filepath) {
-        Ok(lines) => {
-            for line in lines {
-                let l = line.map_err(PreprocessorError::IoError)?;
-                // check if line is a #include directive
-                if let Some(include) = check_for_include(&l) {
-                    includes.push(include);
-                    continue;
-                }
-                output.push_str(&l);
-                output.push('\n');
-            }
-            Ok((output, includes))
-        }
-        Err(e) => match e.kind() {
-            ErrorKind::NotFound => Err(PreprocessorError::FileNotFound(
-                filepath.to_str().unwrap().to_owned(),
-            )),
-            _ => Err(PreprocessorError::IoError(e)),
-        },
-    }
-}
-
-/// Checks if the given line is a #include directive.
-/// If so, returns the name of the header file included, or None otherwise
-fn check_for_include(line: &str) -> Option<String> {
-    lazy_static! {
-        static ref INCLUDE_RE: Regex = Regex::new(r#"^\s*#\s*include\s*[<"]([^>"]*)[>"]"#).unwrap();
-    }
-
-    if let Some(captures) = INCLUDE_RE.captures(line) {
-        // store what the include was that we're removing
-        if let Some(captured_include) = captures.get(1) {
-            return Some(captured_include.as_str().to_owned());
+/// Runs the C preprocessor over the given source file.
+///
+/// Included headers are searched for in our own headers directory, not in the system's.
+fn run_c_preprocessor(filepath: &Path) -> Result<String, Box<dyn Error>> {
+    let mut cpp = Command::new("cpp");
+    cpp.arg("-P") // don't include line marker information
+        .arg("-nostdinc") // don't use the system's headers
+        .arg("-I")
+        .arg(HEADERS_DIR);
+    // headers next to the source file
+    if let Some(source_dir) = filepath.parent() {
+        if !source_dir.as_os_str().is_empty() {
+            cpp.arg("-I").arg(source_dir);
         }
     }
-
-    None
-}
-
-/// Returns an iterator over the lines of the file
-fn read_lines(filepath: &Path) -> io::Result<io::Lines<io::BufReader<fs::File>>> {
-    let file = fs::File::open(filepath)?;
-    Ok(io::BufReader::new(file).lines())
-}
-
-fn include_headers(
-    mut source: String,
-    mut includes: Vec<String>,
-    filepath: &Path,
-) -> Result<String, PreprocessorError> {
-    loop {
-        if includes.is_empty() {
-            break;
-        }
-        let include_name = includes.pop().unwrap();
-        let header =
-            if include_name == format!("{}.h", filepath.file_stem().unwrap().to_str().unwrap()) {
-                match load_program_header(filepath, &include_name) {
-                    Err(e) => {
-                        return match e {
-                            PreprocessorError::FileNotFound(f) => {
-                                Err(PreprocessorError::UnsupportedHeaderInclude(f))
-                            }
-                            _ => Err(e),
-                        }
-                    }
-                    Ok(s) => s,
-                }
-            } else {
-                match load_header_file(&include_name) {
-                    Err(e) => {
-                        return match e {
-                            PreprocessorError::FileNotFound(f) => {
-                                Err(PreprocessorError::UnsupportedHeaderInclude(f))
-                            }
-                            _ => Err(e),
-                        }
-                    }
-                    Ok(s) => s,
-                }
-            };
-        let (header_source, mut new_includes) = header;
-        info!("New includes: {:?}", new_includes);
-        includes.append(&mut new_includes);
-        source.insert(0, '\n');
-        source.insert_str(0, header_source.as_str())
-    }
-    Ok(source)
-}
-
-fn load_program_header(
-    source_filepath: &Path,
-    header_name: &String,
-) -> Result<(String, Vec<String>), PreprocessorError> {
-    let path = match source_filepath.parent() {
-        Some(p) => {
-            let mut path = PathBuf::from(p);
-            path.push(header_name);
-            path
-        }
-        None => PathBuf::from(&header_name),
-    };
-    remove_include_directives(path.as_path())
-}
-
-fn load_header_file(header_name: &String) -> Result<(String, Vec<String>), PreprocessorError> {
-    let mut path = PathBuf::from("headers");
-    path.push(header_name);
-    remove_include_directives(path.as_path())
-}
-
-/// Runs the C preprocessor over the given source.
-fn run_c_preprocessor(source: String) -> Result<String, Box<dyn Error>> {
-    let mut cpp_child = Command::new("cpp")
-        // capture input, output, and error
-        .stdin(Stdio::piped())
-        .stdout(Stdio::piped())
-        .stderr(Stdio::piped())
-        // args to cpp
-        .arg("-") // process from stdin
-        .arg("-") // output to stdout
-        .arg("-P") // don't include line marker information
-        .spawn()?;
-
-    // write the contents of source to stdin for cpp
-    cpp_child
-        .stdin
-        .as_mut()
-        .ok_or("Child process stdin hasn't been captured")?
-        .write_all(source.as_bytes())?;
-
-    // capture the output from cpp
-    let output = cpp_child.wait_with_output()?;
+    let output = cpp
+        .arg("-x")
+        .arg("c") // whatever the name of the file is
+        .arg(filepath)
+        .stdin(Stdio::null())
+        .output()?;
 
     if output.status.success() {
         Ok(String::from_utf8(output.stdout)?)
     } else {
         // terminate the program if the preprocessor can't parse the file
-        let err = String::from_utf8(output.stderr)?;
+        let err = String::from_utf8_lossy(&output.stderr);
         Err(format!("C preprocessor failed:\n{err}").into())
     }
 }
@@ -182,7 +66,6 @@ fn run_c_preprocessor(source: String) -> Result<String, Box<dyn Error>> {
 #[derive(Debug)]
 pub enum PreprocessorError {
     FileNotFound(String),
-    UnsupportedHeaderInclude(String),
     IoError(io::Error),
     CppError(Box<dyn Error>),
 }
@@ -190,9 +73,6 @@ pub enum PreprocessorError {
 impl fmt::Display for PreprocessorError {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         match self {
-            PreprocessorError::UnsupportedHeaderInclude(h) => {
-                write!(f, "Header \"{h}\" not supported")
-            }
             PreprocessorError::IoError(e) => {
                 write!(f, "IO Error occurred during preprocessor: {e}")
             }
-- 
2.43.0


From 1eab4f58002410faeb74b3e4a206c23030ed66c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 46/64] fix: deep expressions and long operator chains don't
 overflow the compiler's stack

---
 src/main.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 0c08733..6d6a9ee 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -6,7 +6,11 @@ extern crate log;
 
 use c_to_wasm_compiler::CliConfig;
 use clap::Parser;
-use std::process;
+use std::{process, thread};
+
+/// The compiler recurses over the program's syntax tree, so needs enough stack for deeply
+/// nested programs
+const STACK_SIZE: usize = 1 << 30;
 
 fn main() {
     pretty_env_logger::init();
@@ -16,8 +20,17 @@ fn main() {
     debug!("Cli arguments: {:?}", args);
 
     // run program and handle error
-    if let Err(e) = c_to_wasm_compiler::run(args) {
-        error!("Compile error: {e}");
-        process::exit(1);
+    let compiler = thread::Builder::new()
+        .stack_size(STACK_SIZE)
+        .spawn(move || {
+            if let Err(e) = c_to_wasm_compiler::run(args) {
+                error!("Compile error: {e}");
+                process::exit(1);
+            }
+        })
+        .expect("failed to start the compiler's thread");
+    if compiler.join().is_err() {
+        // the thread panicked, and has already reported why
+        process::exit(101);
     }
 }
-- 
2.43.0


From 6afbff78b8b32ab24e5309f1803685e88d85429f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:01 +0000
Subject: [PATCH 47/64] fix: conditions have to be scalar, and the switch
 expression an integer

---
 src/middle_end/ast_to_ir.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index d09833c..200debc 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -112,7 +112,7 @@ fn convert_statement_to_ir(
                 loop_end_label.to_owned(),
             ));
             // while condition
-            let (mut cond_instrs, cond_var) = convert_expression_to_ir(cond, prog, context)?;
+            let (mut cond_instrs, cond_var) = convert_condition_to_ir(cond, prog, context)?;
             instrs.append(&mut cond_instrs);
             // jump out of loop if condition false
             instrs.push(Instruction::BrIfEq(
@@ -147,7 +147,7 @@ fn convert_statement_to_ir(
             // continue label
             instrs.push(Instruction::Label(prog.new_instr_id(), loop_continue_label));
             // loop condition
-            let (mut cond_instrs, cond_var) = convert_expression_to_ir(cond, prog, context)?;
+            let (mut cond_instrs, cond_var) = convert_condition_to_ir(cond, prog, context)?;
             instrs.append(&mut cond_instrs);
             // jump back to start of loop if condition true
 
@@ -203,7 +203,7 @@ fn convert_statement_to_ir(
                     Src::Var(temp)
                 }
                 Some(e) => {
-                    let (mut expr_instrs, expr_var) = convert_expression_to_ir(e, prog, context)?;
+                    let (mut expr_instrs, expr_var) = convert_condition_to_ir(e, prog, context)?;
                     instrs.append(&mut expr_instrs);
                     expr_var
                 }
@@ -235,7 +235,7 @@ fn convert_statement_to_ir(
         }
         Statement::If(cond, body) => {
             // if statement condition
-            let (mut cond_instrs, cond_var) = convert_expression_to_ir(cond, prog, context)?;
+            let (mut cond_instrs, cond_var) = convert_condition_to_ir(cond, prog, context)?;
             instrs.append(&mut cond_instrs);
             // if condition is false, jump to after body
             let if_end_label = prog.new_label();
@@ -251,7 +251,7 @@ fn convert_statement_to_ir(
             instrs.push(Instruction::Label(prog.new_instr_id(), if_end_label));
         }
         Statement::IfElse(cond, true_body, false_body) => {
-            let (mut cond_instrs, cond_var) = convert_expression_to_ir(cond, prog, context)?;
+            let (mut cond_instrs, cond_var) = convert_condition_to_ir(cond, prog, context)?;
             instrs.append(&mut cond_instrs);
             // if condition is false, jump to else body
             let else_label = prog.new_label();
@@ -281,6 +281,9 @@ fn convert_statement_to_ir(
             instrs.append(&mut expr_instrs);
             let (mut unary_convert_instrs, switch_src) = unary_convert(switch_src, prog)?;
             instrs.append(&mut unary_convert_instrs);
+            switch_src
+                .get_type(&prog.program_metadata)?
+                .require_integral_type()?;
             let switch_var = match switch_src {
                 Src::Var(var) => var,
                 Src::Constant(c) => {
@@ -691,6 +694,18 @@ fn convert_statement_to_ir(
     Ok(instrs)
 }
 
+/// Convert the controlling expression of an if statement or a loop, which has to be a scalar
+fn convert_condition_to_ir(
+    cond: Expression,
+    prog: &mut Program,
+    context: &mut Context,
+) -> Result<(Vec<Instruction>, Src), MiddleEndError> {
+    let (instrs, cond_var) = convert_expression_to_ir(cond, prog, context)?;
+    let cond_type = cond_var.get_type(&prog.program_metadata)?;
+    array_to_pointer_type(cond_type).require_scalar_type()?;
+    Ok((instrs, cond_var))
+}
+
 /// the amount that ++ and -- change a value of the given type by
 fn increment_step(object_type: &IrType, prog: &Program) -> Result<Constant, MiddleEndError> {
     match object_type {
-- 
2.43.0


From 77ecacc7c2df7d7bef0bef580d67efcda470e8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:37 +0000
Subject: [PATCH 48/64] fix: an array can be a condition, and a cast isn't an
 lvalue

---
 src/middle_end/ast_to_ir.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 200debc..f759d68 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -700,9 +700,15 @@ fn convert_condition_to_ir(
     prog: &mut Program,
     context: &mut Context,
 ) -> Result<(Vec<Instruction>, Src), MiddleEndError> {
-    let (instrs, cond_var) = convert_expression_to_ir(cond, prog, context)?;
-    let cond_type = cond_var.get_type(&prog.program_metadata)?;
-    array_to_pointer_type(cond_type).require_scalar_type()?;
+    let (mut instrs, mut cond_var) = convert_expression_to_ir(cond, prog, context)?;
+    if cond_var.get_type(&prog.program_metadata)?.is_array_type() {
+        let (mut convert_instrs, pointer) = unary_convert(cond_var, prog)?;
+        instrs.append(&mut convert_instrs);
+        cond_var = pointer;
+    }
+    cond_var
+        .get_type(&prog.program_metadata)?
+        .require_scalar_type()?;
     Ok((instrs, cond_var))
 }
 
@@ -1855,6 +1861,9 @@ pub fn convert_expression_to_ir(
             let (mut cast_instrs, dest) =
                 get_type_conversion_instrs(expr_var, expr_var_type, cast_type, prog)?;
             instrs.append(&mut cast_instrs);
+            // a cast isn't an lvalue, even if it doesn't change the type of its operand
+            let (mut rvalue_instrs, dest) = convert_to_rvalue(dest, prog)?;
+            instrs.append(&mut rvalue_instrs);
             Ok((instrs, dest))
         }
         Expression::ExpressionList(left, right) => {
-- 
2.43.0


From ed2b898c0daea047f138bc5f13976e927e3b6b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:22 +0000
Subject: [PATCH 49/64] fix: an expression can be cast to void

---
 src/middle_end/ast_to_ir.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index f759d68..a093c51 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -1842,6 +1842,12 @@ pub fn convert_expression_to_ir(
                     None => return Err(MiddleEndError::InvalidTypedefDeclaration),
                     Some(x) => x,
                 };
+            if cast_type == IrType::Void {
+                // the value of the expression is discarded
+                let dest = prog.new_var(ValueType::RValue);
+                prog.add_var_type(dest.to_owned(), IrType::Void)?;
+                return Ok((instrs, Src::Var(dest)));
+            }
             // get conversion instrs into cast type
             let mut expr_var = expr_var;
             let mut expr_var_type = expr_var.get_type(&prog.program_metadata)?;
-- 
2.43.0


From 4958ffdf1071c107cbf35f14ff1eea5e38a06874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:52 +0000
Subject: [PATCH 50/64] fix: a name can't be redeclared as a different kind of
 symbol or tag in the same scope

---
 src/middle_end/ast_to_ir.rs        | 12 ++++++-
 src/middle_end/context.rs          | 51 ++++++++++++++++++++++++++++--
 src/middle_end/middle_end_error.rs |  1 +
 3 files changed, 60 insertions(+), 4 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index a093c51..a3f3bea 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -680,7 +680,17 @@ fn convert_statement_to_ir(
             if let IrType::Function(return_type, _, _) = &type_info {
                 context.function_return_type = Some((**return_type).to_owned());
             }
-            let instrs = convert_statement_to_ir(*body, prog, context)?;
+            let instrs = match *body {
+                // the parameters are in the same scope as the body
+                Statement::Block(stmts) => {
+                    let mut instrs = Vec::new();
+                    for s in stmts {
+                        instrs.append(&mut convert_statement_to_ir(s, prog, context)?);
+                    }
+                    instrs
+                }
+                body => convert_statement_to_ir(body, prog, context)?,
+            };
             context.function_return_type = None;
             prog.finish_identifier_labels(&instrs)?;
             // update function in program with full body
diff --git a/src/middle_end/context.rs b/src/middle_end/context.rs
index 79405e3..3b3899a 100644
--- a/src/middle_end/context.rs
+++ b/src/middle_end/context.rs
@@ -193,17 +193,31 @@ impl Context {
     ) -> Result<(), MiddleEndError> {
         trace!("adding variable \"{}\" to scope", name);
         let is_global_scope = self.is_global_scope();
+        self.check_not_function_name(&name)?;
         match self.scope_stack.last_mut() {
             None => Err(MiddleEndError::ScopeError),
             Some(scope) => {
                 if !is_global_scope && scope.resolve_identifier_to_var(&name).is_some() {
                     return Err(MiddleEndError::DuplicateVariableDeclaration(name));
                 }
+                if scope.resolve_identifier_to_enum_constant(&name).is_some()
+                    || scope.resolve_identifier_to_type(&name).is_some()
+                {
+                    return Err(MiddleEndError::RedeclaredAsDifferentKind(name));
+                }
                 scope.add_var(name, var, type_info)
             }
         }
     }
 
+    /// Functions are in the global scope, where their names can't be used for anything else
+    fn check_not_function_name(&self, name: &str) -> Result<(), MiddleEndError> {
+        if self.is_global_scope() && self.function_names.contains_key(name) {
+            return Err(MiddleEndError::RedeclaredAsDifferentKind(name.to_owned()));
+        }
+        Ok(())
+    }
+
     fn is_global_scope(&self) -> bool {
         self.scope_stack.len() == 1
     }
@@ -291,6 +305,7 @@ impl Context {
         name: String,
         value: EnumConstant,
     ) -> Result<(), MiddleEndError> {
+        self.check_not_function_name(&name)?;
         match self.scope_stack.last_mut() {
             None => Err(MiddleEndError::ScopeError),
             Some(scope) => scope.add_enum_constant(name, value),
@@ -426,6 +441,13 @@ impl Context {
             }
             return Err(MiddleEndError::DuplicateFunctionDeclaration(name));
         }
+        let is_other_kind = self
+            .scope_stack
+            .first()
+            .is_some_and(|global_scope| global_scope.declares_identifier(&name));
+        if is_other_kind {
+            return Err(MiddleEndError::RedeclaredAsDifferentKind(name));
+        }
         self.function_names.insert(name, fun_id);
         Ok(())
     }
@@ -453,6 +475,7 @@ impl Context {
                 return Err(MiddleEndError::DuplicateTypeDeclaration(typedef_name));
             }
         }
+        self.check_not_function_name(&typedef_name)?;
         match self.scope_stack.last_mut() {
             None => Err(MiddleEndError::ScopeError),
             Some(scope) => scope.add_typedef(typedef_name, type_info),
@@ -533,10 +556,29 @@ impl Scope {
         typedef_name: String,
         type_info: IrType,
     ) -> Result<(), MiddleEndError> {
+        if self.variable_names.contains_key(&typedef_name)
+            || self.enum_constants.contains_key(&typedef_name)
+        {
+            return Err(MiddleEndError::RedeclaredAsDifferentKind(typedef_name));
+        }
         self.typedef_types.insert(typedef_name, type_info);
         Ok(())
     }
 
+    /// Whether the scope has a variable, typedef or enum constant of the given name
+    fn declares_identifier(&self, identifier_name: &str) -> bool {
+        self.variable_names.contains_key(identifier_name)
+            || self.typedef_types.contains_key(identifier_name)
+            || self.enum_constants.contains_key(identifier_name)
+    }
+
+    /// Whether the scope has a struct, union or enum of the given name
+    fn declares_tag(&self, tag_name: &str) -> bool {
+        self.struct_tags.contains_key(tag_name)
+            || self.union_tags.contains_key(tag_name)
+            || self.enum_tags.iter().any(|tag| tag == tag_name)
+    }
+
     fn resolve_identifier_to_type(&self, typedef_name: &str) -> Option<IrType> {
         self.typedef_types.get(typedef_name).map(|t| t.to_owned())
     }
@@ -549,13 +591,16 @@ impl Scope {
         if self.enum_constants.contains_key(&name) {
             return Err(MiddleEndError::DuplicateEnumConstantDeclaration(name));
         }
+        if self.variable_names.contains_key(&name) || self.typedef_types.contains_key(&name) {
+            return Err(MiddleEndError::RedeclaredAsDifferentKind(name));
+        }
         trace!("Setting enum constant {} = {}", name, value);
         self.enum_constants.insert(name, value);
         Ok(())
     }
 
     fn add_enum_tag(&mut self, name: String) -> Result<(), MiddleEndError> {
-        if self.enum_tags.contains(&name) {
+        if self.declares_tag(&name) {
             return Err(MiddleEndError::DuplicateTypeDeclaration(name));
         }
         self.enum_tags.push(name);
@@ -573,7 +618,7 @@ impl Scope {
     }
 
     fn add_struct_tag(&mut self, name: String, struct_id: StructId) -> Result<(), MiddleEndError> {
-        if self.struct_tags.contains_key(&name) {
+        if self.declares_tag(&name) {
             return Err(MiddleEndError::DuplicateTypeDeclaration(name));
         }
         self.struct_tags.insert(name, struct_id);
@@ -593,7 +638,7 @@ impl Scope {
     }
 
     fn add_union_tag(&mut self, name: String, union_id: UnionId) -> Result<(), MiddleEndError> {
-        if self.union_tags.contains_key(&name) {
+        if self.declares_tag(&name) {
             return Err(MiddleEndError::DuplicateTypeDeclaration(name));
         }
         self.union_tags.insert(name, union_id);
diff --git a/src/middle_end/middle_end_error.rs b/src/middle_end/middle_end_error.rs
index aa6f769..5d07239 100644
--- a/src/middle_end/middle_end_error.rs
+++ b/src/middle_end/middle_end_error.rs
@@ -25,6 +25,7 @@ pub enum MiddleEndError {
     InvalidLValue,
     DuplicateFunctionDeclaration(String),
     DuplicateVariableDeclaration(String),
+    RedeclaredAsDifferentKind(String),
     WrongNumberOfArguments(usize),
     DuplicateTypeDeclaration(String),
     DuplicateEnumConstantDeclaration(String),
-- 
2.43.0


From cbf91ad4dab2a4dfdf5d42f5ef116b580c1dfe85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:09 +0000
Subject: [PATCH 51/64] fix: string and character literals need their closing
 quote on the same line

---
 src/front_end/lexer.rs | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/front_end/lexer.rs b/src/front_end/lexer.rs
index daeb156..ad46659 100644
--- a/src/front_end/lexer.rs
+++ b/src/front_end/lexer.rs
@@ -249,6 +249,7 @@ impl<'input> Iterator for Lexer<'input> {
                     return match fsm.state {
                         // EOF
                         State::Start => None,
+                        _ if fsm.is_in_literal() => Some(Err(LexError::InvalidEOF)),
                         _ => match fsm.token {
                             Some(t) => Some(Ok((start.unwrap(), t, end.unwrap() + 1))),
                             None => Some(Err(LexError::InvalidEOF)),
@@ -265,7 +266,11 @@ impl<'input> Iterator for Lexer<'input> {
                 start = Some(i.to_owned());
             }
             end = Some(i.to_owned());
-            let current_token = fsm.token.to_owned();
+            // a string or character literal isn't a token without its closing quote
+            let current_token = match fsm.is_in_literal() {
+                true => None,
+                false => fsm.token.to_owned(),
+            };
             let new_state = fsm.step(c.to_owned(), &self.typedef_names);
             match new_state {
                 Some(f) => {
@@ -459,6 +464,25 @@ impl Fsm {
         }
     }
 
+    /// Whether this is inside a string or character literal, before its closing quote
+    fn is_in_literal(&self) -> bool {
+        matches!(
+            self.state,
+            State::String1
+                | State::String2
+                | State::String3
+                | State::Char1
+                | State::Char2
+                | State::Char3
+                | State::Char4
+                | State::Char5
+                | State::Char6
+                | State::Char7
+                | State::Char8
+                | State::Char9
+        )
+    }
+
     fn step(self, input: char, typedef_names: &[String]) -> Option<Self> {
         match self.state {
             State::Start => match input {
@@ -969,6 +993,7 @@ impl Fsm {
                 _ => None,
             },
             State::String1 => match input {
+                '\n' => None,
                 '\\' => Some(Fsm {
                     state: State::String2,
                     token: Some(Token::StringLiteral("\\".to_owned())),
@@ -993,6 +1018,7 @@ impl Fsm {
                 _ => None,
             },
             State::String3 => match input {
+                '\n' => None,
                 '\\' => match self.token {
                     Some(Token::StringLiteral(s)) => Some(Fsm {
                         state: State::String2,
@@ -1020,6 +1046,7 @@ impl Fsm {
             },
             State::String4 => None,
             State::Char1 => match input {
+                '\n' => None,
                 '\\' => Some(Fsm {
                     state: State::Char2,
                     token: Some(Token::CharConstant("\\".to_owned())),
-- 
2.43.0


From ad5efa367ec25157f19790df88976630d7c1af76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:26 +0000
Subject: [PATCH 52/64] fix: type specifiers other than long can't be repeated

---
 src/front_end/ast.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/front_end/ast.rs b/src/front_end/ast.rs
index f6d8b53..dddd01e 100644
--- a/src/front_end/ast.rs
+++ b/src/front_end/ast.rs
@@ -600,13 +600,18 @@ impl ArithmeticType {
     fn create_from_type_specifiers(types: Vec<TypeSpecifierToken>) -> Result<Self, AstError> {
         // bitfield: double float | unsigned signed | long int short char
         let mut bitfield = 0;
+        let mut long_count = 0;
         for t in types {
+            let previous_bitfield = bitfield;
             match t {
                 TypeSpecifierToken::ArithmeticType(at) => match at {
                     ArithmeticTypeSpecifierToken::Char => bitfield |= 0b1,
                     ArithmeticTypeSpecifierToken::Short => bitfield |= 0b10,
                     ArithmeticTypeSpecifierToken::Int => bitfield |= 0b100,
-                    ArithmeticTypeSpecifierToken::Long => bitfield |= 0b1000,
+                    ArithmeticTypeSpecifierToken::Long => {
+                        bitfield |= 0b1000;
+                        long_count += 1;
+                    }
                     ArithmeticTypeSpecifierToken::Signed => bitfield |= 0b1_0000,
                     ArithmeticTypeSpecifierToken::Unsigned => bitfield |= 0b10_0000,
                     ArithmeticTypeSpecifierToken::Float => bitfield |= 0b100_0000,
@@ -622,6 +627,12 @@ impl ArithmeticType {
                     ))
                 }
             }
+            // only long can be repeated, once
+            if bitfield == previous_bitfield && long_count != 2 {
+                return Err(AstError::InvalidTypeDeclaration(
+                    "Duplicate type specifier",
+                ));
+            }
         }
         match bitfield {
             // signed char (make char by itself be signed, like GCC)
-- 
2.43.0


From 8e53aedac35f4ca0225e78d4fcb478f6a536b520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:26 +0000
Subject: [PATCH 53/64] fix: array sizes are evaluated once, when the array is
 declared, and have to be integers; incomplete types have no size; arrays and
 string literals can't be assigned to

---
 src/middle_end/ast_to_ir.rs         | 112 +++++++++++++++++++---------
 src/middle_end/compile_time_eval.rs |   3 +
 2 files changed, 81 insertions(+), 34 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index a3f3bea..ad7fb84 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -452,6 +452,9 @@ fn convert_statement_to_ir(
                                     if !prog.program_metadata.is_complete_type(&type_info) {
                                         return Err(MiddleEndError::InvalidDeclaration);
                                     }
+                                    let (mut size_instrs, type_info) =
+                                        evaluate_array_sizes(type_info, prog, context)?;
+                                    instrs.append(&mut size_instrs);
                                     let var = prog.new_var(ValueType::LValue);
                                     context.add_variable_to_scope(
                                         name,
@@ -462,21 +465,9 @@ fn convert_statement_to_ir(
 
                                     // if we're declaring an array, allocate space at the end of the stack
                                     if type_info.is_array_type() {
-                                        let array_byte_size = match type_info
-                                            .get_array_byte_size(&prog.program_metadata)?
-                                        {
-                                            TypeSize::CompileTime(size) => {
-                                                Src::Constant(Constant::Int(size as i128))
-                                            }
-                                            TypeSize::Runtime(size_expr) => {
-                                                let (mut size_expr_instrs, size_var) =
-                                                    convert_expression_to_ir(
-                                                        size_expr, prog, context,
-                                                    )?;
-                                                instrs.append(&mut size_expr_instrs);
-                                                size_var
-                                            }
-                                        };
+                                        let (mut size_instrs, array_byte_size) =
+                                            convert_object_byte_size(&type_info, prog, context)?;
+                                        instrs.append(&mut size_instrs);
                                         instrs.push(Instruction::AllocateVariable(
                                             prog.new_instr_id(),
                                             var,
@@ -504,6 +495,9 @@ fn convert_statement_to_ir(
                             None => return Err(MiddleEndError::InvalidTypedefDeclaration),
                             Some(x) => x,
                         };
+                        let (mut size_instrs, dest_type_info) =
+                            evaluate_array_sizes(dest_type_info, prog, context)?;
+                        instrs.append(&mut size_instrs);
 
                         // check for case of initialising a char array with a string literal
                         if dest_type_info.is_array_type() {
@@ -583,19 +577,9 @@ fn convert_statement_to_ir(
                                 if is_allocated {
                                     // the previous declaration has given it its space
                                 } else if dest_type_info.is_array_type() {
-                                    let array_byte_size = match dest_type_info
-                                        .get_array_byte_size(&prog.program_metadata)?
-                                    {
-                                        TypeSize::CompileTime(size) => {
-                                            Src::Constant(Constant::Int(size as i128))
-                                        }
-                                        TypeSize::Runtime(size_expr) => {
-                                            let (mut size_expr_instrs, size_var) =
-                                                convert_expression_to_ir(size_expr, prog, context)?;
-                                            instrs.append(&mut size_expr_instrs);
-                                            size_var
-                                        }
-                                    };
+                                    let (mut size_instrs, array_byte_size) =
+                                        convert_object_byte_size(&dest_type_info, prog, context)?;
+                                    instrs.append(&mut size_instrs);
                                     instrs.push(Instruction::AllocateVariable(
                                         prog.new_instr_id(),
                                         dest.to_owned(),
@@ -657,12 +641,15 @@ fn convert_statement_to_ir(
             context.push_scope();
             // for each parameter, store which var it maps to
             let mut param_var_mappings: Vec<VarId> = Vec::new();
+            let mut instrs = Vec::new();
             // put parameter names into scope
             if let Some(param_bindings) = param_bindings {
                 for (param_name, param_type) in param_bindings {
                     let param_var = prog.new_var(ValueType::LValue);
                     param_var_mappings.push(param_var.to_owned());
-                    let param_type = array_to_pointer_type(param_type);
+                    let (mut size_instrs, param_type) =
+                        evaluate_array_sizes(array_to_pointer_type(param_type), prog, context)?;
+                    instrs.append(&mut size_instrs);
                     context.add_variable_to_scope(
                         param_name,
                         param_var.to_owned(),
@@ -680,16 +667,14 @@ fn convert_statement_to_ir(
             if let IrType::Function(return_type, _, _) = &type_info {
                 context.function_return_type = Some((**return_type).to_owned());
             }
-            let instrs = match *body {
+            match *body {
                 // the parameters are in the same scope as the body
                 Statement::Block(stmts) => {
-                    let mut instrs = Vec::new();
                     for s in stmts {
                         instrs.append(&mut convert_statement_to_ir(s, prog, context)?);
                     }
-                    instrs
                 }
-                body => convert_statement_to_ir(body, prog, context)?,
+                body => instrs.append(&mut convert_statement_to_ir(body, prog, context)?),
             };
             context.function_return_type = None;
             prog.finish_identifier_labels(&instrs)?;
@@ -829,6 +814,60 @@ pub fn offset_pointer(
     Ok((instr, dest))
 }
 
+/// The sizes of the arrays in the type of a variable are evaluated only once, when it's declared.
+/// Returns the type with each of its runtime sizes replaced by a variable that holds the size.
+fn evaluate_array_sizes(
+    var_type: IrType,
+    prog: &mut Program,
+    context: &mut Context,
+) -> Result<(Vec<Instruction>, IrType), MiddleEndError> {
+    match var_type {
+        IrType::PointerTo(inner_type) => {
+            let (instrs, inner_type) = evaluate_array_sizes(*inner_type, prog, context)?;
+            Ok((instrs, inner_type.wrap_with_pointer()))
+        }
+        IrType::ArrayOf(inner_type, size) => {
+            let mut instrs = Vec::new();
+            let size = match size {
+                Some(TypeSize::Runtime(size_expr)) => {
+                    let (mut size_instrs, size_src) =
+                        convert_expression_to_ir(size_expr, prog, context)?;
+                    instrs.append(&mut size_instrs);
+                    let size_type = size_src.get_type(&prog.program_metadata)?;
+                    size_type.require_integral_type()?;
+                    let (mut convert_instrs, size_src) =
+                        get_type_conversion_instrs(size_src, size_type, IrType::I32, prog)?;
+                    instrs.append(&mut convert_instrs);
+                    let size_var = prog.new_var(ValueType::LValue);
+                    prog.add_var_type(size_var.to_owned(), IrType::I32)?;
+                    instrs.push(Instruction::SimpleAssignment(
+                        prog.new_instr_id(),
+                        size_var.to_owned(),
+                        size_src,
+                    ));
+                    // not an identifier that the program can contain
+                    let name = format!("<array size {size_var}>");
+                    context.add_variable_to_scope(name.to_owned(), size_var, IrType::I32)?;
+                    Some(TypeSize::Runtime(Expression::Identifier(Identifier(name))))
+                }
+                size => size,
+            };
+            let (mut inner_instrs, inner_type) = evaluate_array_sizes(*inner_type, prog, context)?;
+            instrs.append(&mut inner_instrs);
+            Ok((instrs, inner_type.wrap_with_array(size)))
+        }
+        var_type => Ok((Vec::new(), var_type)),
+    }
+}
+
+/// Returns an error if the type is one that doesn't have a size
+fn require_complete_type(object_type: &IrType, prog: &Program) -> Result<(), MiddleEndError> {
+    match prog.program_metadata.is_complete_type(object_type) {
+        true => Ok(()),
+        false => Err(MiddleEndError::InvalidOperation("Incomplete type")),
+    }
+}
+
 /// The byte size of an object of the given type, as an int
 fn convert_object_byte_size(
     object_type: &IrType,
@@ -994,7 +1033,7 @@ pub fn convert_expression_to_ir(
         },
         Expression::StringLiteral(s) => {
             let string_id = prog.new_string_literal(s);
-            let dest = prog.new_var(ValueType::LValue);
+            let dest = prog.new_var(ValueType::RValue);
             instrs.push(Instruction::PointerToStringLiteral(
                 prog.new_instr_id(),
                 dest.to_owned(),
@@ -1648,6 +1687,7 @@ pub fn convert_expression_to_ir(
             // only the type of the expression is needed, it doesn't get evaluated
             let (_, expr_var) = convert_expression_to_ir(*e, prog, context)?;
             let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
+            require_complete_type(&expr_var_type, prog)?;
 
             let type_size = expr_var_type.get_object_byte_size(&prog.program_metadata);
             let size = match type_size {
@@ -1673,6 +1713,7 @@ pub fn convert_expression_to_ir(
                 None => return Err(MiddleEndError::InvalidTypedefDeclaration),
                 Some(x) => x,
             };
+            require_complete_type(&type_info, prog)?;
             let type_size = type_info.get_object_byte_size(&prog.program_metadata);
             let byte_size = match type_size {
                 TypeSize::CompileTime(size) => Src::Constant(Constant::Int(size as i128)),
@@ -2467,6 +2508,9 @@ fn convert_assignment_to_ir(
         Src::StoreAddressVar(_) => dest_var_type = dest_var_type.dereference_pointer_type()?,
         Src::Constant(_) | Src::Fun(_) => return Err(MiddleEndError::InvalidAssignment),
     }
+    if dest_var_type.is_array_type() {
+        return Err(MiddleEndError::InvalidAssignment);
+    }
 
     let stored_type = dest_var_type.to_owned();
     if src_var_type != dest_var_type {
diff --git a/src/middle_end/compile_time_eval.rs b/src/middle_end/compile_time_eval.rs
index 86588bf..e651753 100644
--- a/src/middle_end/compile_time_eval.rs
+++ b/src/middle_end/compile_time_eval.rs
@@ -170,6 +170,9 @@ fn eval(
         Expression::SizeOfType(TypeName(specifier, declarator)) => {
             match get_type_info(&specifier, declarator, false, prog, context)? {
                 Some((type_info, _, _)) => {
+                    if !prog.program_metadata.is_complete_type(&type_info) {
+                        return Err(MiddleEndError::InvalidConstantExpression);
+                    }
                     let byte_size = type_info.get_object_byte_size(&prog.program_metadata);
                     Ok((
                         ConstantExpressionType::Int(byte_size.get_compile_time_value()? as i128),
-- 
2.43.0


From a90adad0289f92696f13faaa6608ce31296ebf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:39 +0000
Subject: [PATCH 54/64] fix: an enum needs at least one enumerator

---
 src/middle_end/get_ast_type_info.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/middle_end/get_ast_type_info.rs b/src/middle_end/get_ast_type_info.rs
index 99aea12..a647814 100644
--- a/src/middle_end/get_ast_type_info.rs
+++ b/src/middle_end/get_ast_type_info.rs
@@ -213,6 +213,9 @@ pub fn get_type_info(
                     IrType::I32
                 }
                 EnumType::Definition(enum_name, enum_constants) => {
+                    if enum_constants.is_empty() {
+                        return Err(MiddleEndError::InvalidDeclaration);
+                    }
                     let skip_constant_definition = is_duplicate_specifier;
                     if let Some(Identifier(enum_name)) = enum_name {
                         if is_duplicate_specifier {
-- 
2.43.0


From a8e28157bf21942113684e0431ffadc4076982eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:39 +0000
Subject: [PATCH 55/64] fix: undefined functions, statements outside functions
 and repeated initialisers are reported as errors

---
 src/middle_end/ast_to_ir.rs        | 39 ++++++++++++++++++++++++++++++
 src/middle_end/context.rs          |  3 +++
 src/middle_end/middle_end_error.rs |  2 ++
 3 files changed, 44 insertions(+)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index ad7fb84..1dc1727 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -19,6 +19,7 @@ use crate::middle_end::instructions::{Constant, Src};
 use crate::middle_end::ir::{Function, Program};
 use crate::middle_end::ir_types::{array_to_pointer_type, IrType, TypeSize};
 use crate::middle_end::middle_end_error::MiddleEndError;
+use crate::program_config::program_constants::get_imported_function_names;
 use crate::middle_end::type_conversions::{
     binary_convert, binary_convert_separately, convert_type_for_assignment,
     get_type_conversion_instrs, unary_convert,
@@ -28,15 +29,47 @@ pub fn convert_to_ir(ast: AstProgram) -> Result<Program, MiddleEndError> {
     let mut prog = Program::new();
     let mut context = Context::new();
     for stmt in ast.0 {
+        match stmt {
+            Statement::Declaration(..)
+            | Statement::EmptyDeclaration(_)
+            | Statement::FunctionDeclaration(..)
+            | Statement::Empty => {}
+            _ => return Err(MiddleEndError::StatementOutsideFunction),
+        }
         let global_instrs = convert_statement_to_ir(stmt, &mut prog, &mut context);
         match global_instrs {
             Ok(mut instrs) => prog.program_instructions.global_instrs.append(&mut instrs),
             Err(e) => return Err(e),
         }
     }
+    check_called_functions_are_defined(&prog)?;
     Ok(prog)
 }
 
+/// Every function that's called has to be defined by the program or the runtime
+fn check_called_functions_are_defined(prog: &Program) -> Result<(), MiddleEndError> {
+    let runtime_functions = get_imported_function_names();
+    let functions = &prog.program_instructions.functions;
+    let global_instrs = &prog.program_instructions.global_instrs;
+    let bodies = functions.values().map(|function| &function.instrs);
+    for instr in bodies.chain([global_instrs]).flatten() {
+        if let Instruction::Call(_, _, fun_id, _) = instr {
+            let is_defined = functions
+                .get(fun_id)
+                .map_or(false, |function| function.body_is_defined);
+            let function_ids = &prog.program_metadata.function_ids;
+            let name = function_ids.iter().find(|(_, id)| *id == fun_id);
+            match name {
+                Some((name, _)) if !is_defined && !runtime_functions.contains(name) => {
+                    return Err(MiddleEndError::UndefinedFunction(name.to_owned()));
+                }
+                _ => {}
+            }
+        }
+    }
+    Ok(())
+}
+
 fn convert_statement_to_ir(
     stmt: Statement,
     prog: &mut Program,
@@ -535,6 +568,9 @@ fn convert_statement_to_ir(
                                 var
                             }
                         };
+                        if !context.initialised_variables.insert(dest.to_owned()) {
+                            return Err(MiddleEndError::DuplicateVariableDeclaration(name));
+                        }
 
                         match (dest_type_info, init_expr) {
                             (dest_type_info, Initialiser::Expr(e))
@@ -638,6 +674,9 @@ fn convert_statement_to_ir(
                 None => return Err(MiddleEndError::InvalidFunctionDeclaration),
                 Some(n) => n,
             };
+            if !matches!(type_info, IrType::Function(..)) {
+                return Err(MiddleEndError::InvalidFunctionDeclaration);
+            }
             context.push_scope();
             // for each parameter, store which var it maps to
             let mut param_var_mappings: Vec<VarId> = Vec::new();
diff --git a/src/middle_end/context.rs b/src/middle_end/context.rs
index 3b3899a..33a4264 100644
--- a/src/middle_end/context.rs
+++ b/src/middle_end/context.rs
@@ -15,6 +15,8 @@ pub struct Context {
     function_names: HashMap<String, FunId>,
     // the functions that we've seen the body of
     defined_functions: HashSet<String>,
+    // the variables that were declared with an initialiser
+    pub initialised_variables: HashSet<VarId>,
     pub directly_on_lhs_of_assignment: bool,
     // the return type of the function currently being converted
     pub function_return_type: Option<IrType>,
@@ -33,6 +35,7 @@ impl Context {
             in_function_name_expr: false,
             function_names: HashMap::new(),
             defined_functions: HashSet::new(),
+            initialised_variables: HashSet::new(),
             directly_on_lhs_of_assignment: false,
             function_return_type: None,
         }
diff --git a/src/middle_end/middle_end_error.rs b/src/middle_end/middle_end_error.rs
index 5d07239..1e9cd31 100644
--- a/src/middle_end/middle_end_error.rs
+++ b/src/middle_end/middle_end_error.rs
@@ -27,6 +27,8 @@ pub enum MiddleEndError {
     DuplicateVariableDeclaration(String),
     RedeclaredAsDifferentKind(String),
     WrongNumberOfArguments(usize),
+    UndefinedFunction(String),
+    StatementOutsideFunction,
     DuplicateTypeDeclaration(String),
     DuplicateEnumConstantDeclaration(String),
     InvalidDeclaration,
-- 
2.43.0


From 18f5092d8844f28c740badf58f75a763f999e5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:13 +0000
Subject: [PATCH 56/64] fix: main() needs a definition; invalid function
 declarators and definitions are reported as errors

---
 src/middle_end/ast_to_ir.rs         | 18 +++++++++++++++---
 src/middle_end/get_ast_type_info.rs |  6 ++++++
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 1dc1727..ab0e151 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -46,11 +46,16 @@ pub fn convert_to_ir(ast: AstProgram) -> Result<Program, MiddleEndError> {
     Ok(prog)
 }
 
-/// Every function that's called has to be defined by the program or the runtime
+/// Every function that's called has to be defined by the program or the runtime, and main() by
+/// the program
 fn check_called_functions_are_defined(prog: &Program) -> Result<(), MiddleEndError> {
     let runtime_functions = get_imported_function_names();
     let functions = &prog.program_instructions.functions;
     let global_instrs = &prog.program_instructions.global_instrs;
+    match functions.get(&prog.program_metadata.get_main_fun_id()?) {
+        Some(main) if main.body_is_defined => {}
+        _ => return Err(MiddleEndError::NoMainFunctionDefined),
+    }
     let bodies = functions.values().map(|function| &function.instrs);
     for instr in bodies.chain([global_instrs]).flatten() {
         if let Instruction::Call(_, _, fun_id, _) = instr {
@@ -674,8 +679,11 @@ fn convert_statement_to_ir(
                 None => return Err(MiddleEndError::InvalidFunctionDeclaration),
                 Some(n) => n,
             };
-            if !matches!(type_info, IrType::Function(..)) {
-                return Err(MiddleEndError::InvalidFunctionDeclaration);
+            match (&type_info, &param_bindings) {
+                // in a definition, every parameter has a name
+                (IrType::Function(_, param_types, _), Some(param_bindings))
+                    if param_types.len() == param_bindings.len() => {}
+                _ => return Err(MiddleEndError::InvalidFunctionDeclaration),
             }
             context.push_scope();
             // for each parameter, store which var it maps to
@@ -689,6 +697,7 @@ fn convert_statement_to_ir(
                     let (mut size_instrs, param_type) =
                         evaluate_array_sizes(array_to_pointer_type(param_type), prog, context)?;
                     instrs.append(&mut size_instrs);
+                    require_complete_type(&param_type, prog)?;
                     context.add_variable_to_scope(
                         param_name,
                         param_var.to_owned(),
@@ -704,6 +713,9 @@ fn convert_statement_to_ir(
             context.add_function_body(name.to_owned())?;
             // function body instructions
             if let IrType::Function(return_type, _, _) = &type_info {
+                if **return_type != IrType::Void {
+                    require_complete_type(return_type, prog)?;
+                }
                 context.function_return_type = Some((**return_type).to_owned());
             }
             match *body {
diff --git a/src/middle_end/get_ast_type_info.rs b/src/middle_end/get_ast_type_info.rs
index a647814..0f06329 100644
--- a/src/middle_end/get_ast_type_info.rs
+++ b/src/middle_end/get_ast_type_info.rs
@@ -324,6 +324,9 @@ fn add_type_info_from_declarator(
             Ok((type_info.wrap_with_pointer(), None, None))
         }
         Declarator::ArrayDeclarator(d, size_expr) => {
+            if matches!(type_info, IrType::Function(..)) {
+                return Err(MiddleEndError::InvalidDeclaration);
+            }
             let size = match size_expr {
                 None => None,
                 Some(size_expr) => {
@@ -337,6 +340,9 @@ fn add_type_info_from_declarator(
             add_type_info_from_declarator(*d, type_info.wrap_with_array(size), prog, context)
         }
         Declarator::FunctionDeclarator(d, params) => {
+            if matches!(type_info, IrType::Function(..) | IrType::ArrayOf(..)) {
+                return Err(MiddleEndError::InvalidFunctionDeclaration);
+            }
             let mut is_variadic = false;
             let param_decls = match params {
                 None => Vec::new(),
-- 
2.43.0


From 4788c3b15898e3683467cd2403a652efd6aa47ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:31 +0000
Subject: [PATCH 57/64] fix: structs passed or returned by value are reported
 as unsupported, instead of a panic

---
 src/middle_end/ast_to_ir.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index ab0e151..fff3e4d 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -685,6 +685,15 @@ fn convert_statement_to_ir(
                     if param_types.len() == param_bindings.len() => {}
                 _ => return Err(MiddleEndError::InvalidFunctionDeclaration),
             }
+            if let IrType::Function(return_type, param_types, _) = &type_info {
+                if param_types.iter().any(|t| t.is_struct_or_union_type())
+                    || return_type.is_struct_or_union_type()
+                {
+                    return Err(MiddleEndError::InvalidOperation(
+                        "Passing or returning a struct or union by value isn't supported",
+                    ));
+                }
+            }
             context.push_scope();
             // for each parameter, store which var it maps to
             let mut param_var_mappings: Vec<VarId> = Vec::new();
-- 
2.43.0


From eb5e8afcba64fd5ac1e6b47bbaafe0b0ba68d16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:14 +0000
Subject: [PATCH 58/64] fix: array parameters in function declarations are
 pointers, whichever way they're written

---
 src/middle_end/get_ast_type_info.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/middle_end/get_ast_type_info.rs b/src/middle_end/get_ast_type_info.rs
index 0f06329..a0e6f8f 100644
--- a/src/middle_end/get_ast_type_info.rs
+++ b/src/middle_end/get_ast_type_info.rs
@@ -8,7 +8,9 @@ use crate::front_end::ast::{
 use crate::middle_end::compile_time_eval::eval_integral_constant_expression;
 use crate::middle_end::context::Context;
 use crate::middle_end::ir::Program;
-use crate::middle_end::ir_types::{EnumConstant, IrType, StructType, TypeSize, UnionType};
+use crate::middle_end::ir_types::{
+    array_to_pointer_type, EnumConstant, IrType, StructType, TypeSize, UnionType,
+};
 use crate::middle_end::middle_end_error::MiddleEndError;
 
 pub type FunctionParameterBindings = Vec<(String, IrType)>;
@@ -368,7 +370,8 @@ fn add_type_info_from_declarator(
                     // (void) means that there aren't any parameters
                     break;
                 }
-                param_types.push(param_type.to_owned());
+                // an array parameter is a pointer
+                param_types.push(array_to_pointer_type(param_type.to_owned()));
                 if let Some(name) = param_name {
                     param_bindings.push((name, param_type));
                 }
-- 
2.43.0


From 621372127939ca8689f2fa723dc38a6180ae8417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:31 +0000
Subject: [PATCH 59/64] fix: reaching the end of main() returns 0, also when
 the program has called it itself

---
 src/middle_end/ast_to_ir.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index fff3e4d..46af006 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -19,11 +19,13 @@ use crate::middle_end::instructions::{Constant, Src};
 use crate::middle_end::ir::{Function, Program};
 use crate::middle_end::ir_types::{array_to_pointer_type, IrType, TypeSize};
 use crate::middle_end::middle_end_error::MiddleEndError;
-use crate::program_config::program_constants::get_imported_function_names;
 use crate::middle_end::type_conversions::{
     binary_convert, binary_convert_separately, convert_type_for_assignment,
     get_type_conversion_instrs, unary_convert,
 };
+use crate::program_config::program_constants::{
+    get_imported_function_names, MAIN_FUNCTION_SOURCE_NAME,
+};
 
 pub fn convert_to_ir(ast: AstProgram) -> Result<Program, MiddleEndError> {
     let mut prog = Program::new();
@@ -736,6 +738,17 @@ fn convert_statement_to_ir(
                 }
                 body => instrs.append(&mut convert_statement_to_ir(body, prog, context)?),
             };
+            // reaching the end of main() returns 0
+            if name == MAIN_FUNCTION_SOURCE_NAME
+                && context.function_return_type == Some(IrType::I32)
+            {
+                let zero = Expression::Constant(ast::Constant::Int(0));
+                instrs.append(&mut convert_statement_to_ir(
+                    Statement::Return(Some(zero)),
+                    prog,
+                    context,
+                )?);
+            }
             context.function_return_type = None;
             prog.finish_identifier_labels(&instrs)?;
             // update function in program with full body
-- 
2.43.0


From 24b0754430bab861eb8d66d800cf270ebaefaf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:03 +0000
Subject: [PATCH 60/64] fix: pragmas, which the preprocessor leaves in the
 source, are ignored instead of a parse error

---
 src/preprocessor.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/preprocessor.rs b/src/preprocessor.rs
index ad36f6b..569f174 100644
--- a/src/preprocessor.rs
+++ b/src/preprocessor.rs
@@ -55,7 +55,7 @@ fn run_c_preprocessor(filepath: &Path) -> Result<String, Box<dyn Error>> {
         .output()?;
 
     if output.status.success() {
-        Ok(String::from_utf8(output.stdout)?)
+        Ok(remove_pragmas(&String::from_utf8(output.stdout)?))
     } else {
         // terminate the program if the preprocessor can't parse the file
         let err = String::from_utf8_lossy(&output.stderr);
@@ -63,6 +63,18 @@ fn run_c_preprocessor(filepath: &Path) -> Result<String, Box<dyn Error>> {
     }
 }
 
+/// The preprocessor leaves pragmas in the source for the compiler, which doesn't know any
+fn remove_pragmas(source: &str) -> String {
+    source
+        .split('\n')
+        .map(|line| match line.split_whitespace().next() {
+            Some("#pragma") | Some("#ident") => "",
+            _ => line,
+        })
+        .collect::<Vec<_>>()
+        .join("\n")
+}
+
 #[derive(Debug)]
 pub enum PreprocessorError {
     FileNotFound(String),
-- 
2.43.0


From 59b41010bfbe655f419f0271e8f1fc1fedeb2505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:32 +0000
Subject: [PATCH 61/64] fix: nameless declarators, struct and void arguments,
 and an unmatched bracket in a typedef are reported as errors, instead of a
 panic

---
 src/front_end/lexer.rs              |  4 +++-
 src/middle_end/ast_to_ir.rs         | 19 ++++++++++++-------
 src/middle_end/get_ast_type_info.rs |  3 ++-
 3 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/front_end/lexer.rs b/src/front_end/lexer.rs
index ad46659..7c4325e 100644
--- a/src/front_end/lexer.rs
+++ b/src/front_end/lexer.rs
@@ -307,7 +307,9 @@ impl<'input> Iterator for Lexer<'input> {
                                 } else if t == Token::LeftCurly {
                                     self.typedef_stmt_nesting_depth += 1;
                                 } else if t == Token::RightCurly {
-                                    self.typedef_stmt_nesting_depth -= 1;
+                                    // (an unmatched bracket is for the parser to report)
+                                    self.typedef_stmt_nesting_depth =
+                                        self.typedef_stmt_nesting_depth.saturating_sub(1);
                                 }
                             }
                             Some(Ok((start.unwrap(), t, end.unwrap())))
diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 46af006..4afb902 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -458,12 +458,7 @@ fn convert_statement_to_ir(
                                         prog.new_fun_declaration(name.to_owned(), fun_declaration)?;
                                     context.add_function_declaration(name, fun_id)?;
                                 }
-                                None => {
-                                    // If declarator has no name, it should be a
-                                    // Statement::EmptyDeclaration, so this case should never
-                                    // be reached
-                                    unreachable!()
-                                }
+                                None => return Err(MiddleEndError::InvalidDeclaration),
                             },
                             Some((type_info, name, None)) => match name {
                                 // non-function declaration (normal variable)
@@ -520,7 +515,7 @@ fn convert_statement_to_ir(
                                         ));
                                     }
                                 }
-                                None => unreachable!(),
+                                None => return Err(MiddleEndError::InvalidDeclaration),
                             },
                         };
                     }
@@ -1187,6 +1182,16 @@ pub fn convert_expression_to_ir(
                 // arguments are converted to the parameter type as if by assignment, or
                 // undergo the default argument promotions if there's no matching parameter
                 let arg_type = param_var.get_type(&prog.program_metadata)?;
+                if arg_type == IrType::Void {
+                    return Err(MiddleEndError::InvalidOperation(
+                        "The argument of a call has no value",
+                    ));
+                }
+                if arg_type.is_struct_or_union_type() {
+                    return Err(MiddleEndError::InvalidOperation(
+                        "Passing or returning a struct or union by value isn't supported",
+                    ));
+                }
                 let param_type = match param_types.get(i) {
                     Some(param_type) => array_to_pointer_type(param_type.to_owned()),
                     None if arg_type == IrType::F32 => IrType::F64,
diff --git a/src/middle_end/get_ast_type_info.rs b/src/middle_end/get_ast_type_info.rs
index a0e6f8f..fa3d978 100644
--- a/src/middle_end/get_ast_type_info.rs
+++ b/src/middle_end/get_ast_type_info.rs
@@ -298,7 +298,8 @@ fn finish_type_info(
             let (ir_type, decl_name, param_bindings) =
                 add_type_info_from_declarator(decl, ir_type, prog, context)?;
             if is_typedef {
-                context.add_typedef(decl_name.unwrap(), ir_type)?;
+                let name = decl_name.ok_or(MiddleEndError::InvalidTypedefDeclaration)?;
+                context.add_typedef(name, ir_type)?;
                 return Ok(None);
             }
             Ok(Some((ir_type, decl_name, param_bindings)))
-- 
2.43.0


From ea3d507a22ad0bf85862146dee3a61a7af9adea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:32 +0000
Subject: [PATCH 62/64] fix: an array that doesn't fit into the address space
 is an error, instead of an overflow panic

---
 src/middle_end/get_ast_type_info.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/middle_end/get_ast_type_info.rs b/src/middle_end/get_ast_type_info.rs
index fa3d978..e828bcb 100644
--- a/src/middle_end/get_ast_type_info.rs
+++ b/src/middle_end/get_ast_type_info.rs
@@ -335,7 +335,21 @@ fn add_type_info_from_declarator(
                 Some(size_expr) => {
                     match eval_integral_constant_expression(*size_expr.to_owned(), prog, context) {
                         Ok(size) if size < 0 => return Err(MiddleEndError::NegativeArraySize),
-                        Ok(size) => Some(TypeSize::CompileTime(size as u64)),
+                        Ok(size) => {
+                            let member_size =
+                                match type_info.get_object_byte_size(&prog.program_metadata) {
+                                    TypeSize::CompileTime(member_size) => member_size,
+                                    TypeSize::Runtime(_) => 1,
+                                };
+                            // the address space is 32 bits
+                            let max_size = i32::MAX as i128 / (member_size as i128).max(1);
+                            if size > max_size {
+                                return Err(MiddleEndError::InvalidOperation(
+                                    "Size of array is too large",
+                                ));
+                            }
+                            Some(TypeSize::CompileTime(size as u64))
+                        }
                         Err(_) => Some(TypeSize::Runtime(*size_expr)),
                     }
                 }
-- 
2.43.0


From c1b8481bf5b6e1650769a3682454428036bd200a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:32 +0000
Subject: [PATCH 63/64] fix: static locals initialised from automatic
 variables, and assignments to struct values, are errors; conditional
 expressions of struct type work, and those mixing void or struct operands
 with others are errors

---
 src/middle_end/ast_to_ir.rs | 62 ++++++++++++++++++++++++++++++++++++-
 src/middle_end/context.rs   | 12 +++++++
 2 files changed, 73 insertions(+), 1 deletion(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 4afb902..06b3b3e 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -434,6 +434,7 @@ fn convert_statement_to_ir(
                     sq.storage_class_specifier,
                     Some(StorageClassSpecifier::Extern)
                 );
+            context.in_static_local_declaration = is_static_local;
             let mut is_initial_declarator = true;
             for declarator in declarators {
                 match declarator {
@@ -491,6 +492,9 @@ fn convert_statement_to_ir(
                                         evaluate_array_sizes(type_info, prog, context)?;
                                     instrs.append(&mut size_instrs);
                                     let var = prog.new_var(ValueType::LValue);
+                                    if is_static_local {
+                                        context.static_local_variables.insert(var.to_owned());
+                                    }
                                     context.add_variable_to_scope(
                                         name,
                                         var.to_owned(),
@@ -573,6 +577,9 @@ fn convert_statement_to_ir(
                         if !context.initialised_variables.insert(dest.to_owned()) {
                             return Err(MiddleEndError::DuplicateVariableDeclaration(name));
                         }
+                        if is_static_local {
+                            context.static_local_variables.insert(dest.to_owned());
+                        }
 
                         match (dest_type_info, init_expr) {
                             (dest_type_info, Initialiser::Expr(e))
@@ -646,6 +653,7 @@ fn convert_statement_to_ir(
                 }
                 is_initial_declarator = false;
             }
+            context.in_static_local_declaration = false;
             if is_static_local {
                 prog.program_instructions.global_instrs.append(&mut instrs);
             }
@@ -809,6 +817,20 @@ pub fn object_address(
     Ok((vec![instr], ptr))
 }
 
+/// Returns an error if the expression isn't one that designates an object, eg. if it's the value
+/// of an assignment
+fn require_lvalue_expression(expr: &Expression) -> Result<(), MiddleEndError> {
+    match expr {
+        Expression::Identifier(_)
+        | Expression::StringLiteral(_)
+        | Expression::Index(..)
+        | Expression::IndirectMemberSelection(..)
+        | Expression::UnaryOp(UnaryOperator::Dereference, _) => Ok(()),
+        Expression::DirectMemberSelection(object, _) => require_lvalue_expression(object),
+        _ => Err(MiddleEndError::AttemptToModifyNonLValue),
+    }
+}
+
 /// Convert an expression that designates an object (ie. an lvalue) to a pointer to that object.
 /// Returns the instructions, the pointer, and the type of the object.
 fn convert_object_address(
@@ -1084,7 +1106,15 @@ pub fn convert_expression_to_ir(
                 Ok((instrs, Src::Fun(fun)))
             } else {
                 match context.resolve_identifier_to_var_or_const(&name)? {
-                    IdentifierResolveResult::Var(var) => Ok((instrs, Src::Var(var))),
+                    IdentifierResolveResult::Var(var) => {
+                        // the initialiser runs before the function does
+                        if context.in_static_local_declaration
+                            && context.is_automatic_variable(&name, &var)
+                        {
+                            return Err(MiddleEndError::InvalidConstantExpression);
+                        }
+                        Ok((instrs, Src::Var(var)))
+                    }
                     IdentifierResolveResult::EnumConst(c) => {
                         Ok((instrs, Src::Constant(Constant::Int(c as i128))))
                     }
@@ -1594,6 +1624,7 @@ pub fn convert_expression_to_ir(
             Ok((instrs, Src::Var(dest)))
         }
         Expression::UnaryOp(UnaryOperator::AddressOf, expr) => {
+            require_lvalue_expression(&expr)?;
             let (mut expr_instrs, ptr, _) = convert_object_address(*expr, prog, context)?;
             instrs.append(&mut expr_instrs);
             // make sure the result is an rvalue
@@ -1763,7 +1794,10 @@ pub fn convert_expression_to_ir(
         }
         Expression::SizeOfExpr(e) => {
             // only the type of the expression is needed, it doesn't get evaluated
+            let in_static_local_declaration = context.in_static_local_declaration;
+            context.in_static_local_declaration = false;
             let (_, expr_var) = convert_expression_to_ir(*e, prog, context)?;
+            context.in_static_local_declaration = in_static_local_declaration;
             let expr_var_type = expr_var.get_type(&prog.program_metadata)?;
             require_complete_type(&expr_var_type, prog)?;
 
@@ -1857,6 +1891,17 @@ pub fn convert_expression_to_ir(
             let (mut unary_convert_false_instrs, mut false_var) = unary_convert(false_var, prog)?;
             let false_var_type = false_var.get_type(&prog.program_metadata)?;
 
+            // void operands, or structs or unions, can't be mixed with other types
+            let is_mixable =
+                |t: &IrType| t.is_arithmetic_type() || t.is_pointer_type() || t.is_array_type();
+            if true_var_type != false_var_type
+                && !(is_mixable(&true_var_type) && is_mixable(&false_var_type))
+            {
+                return Err(MiddleEndError::InvalidOperation(
+                    "Type mismatch in conditional expression",
+                ));
+            }
+
             let is_null = |src: &Src| matches!(src, Src::Constant(Constant::Int(0)));
             let mut false_binary_convert_instrs = Vec::new();
             let mut dest_type = true_var_type.to_owned();
@@ -1888,6 +1933,15 @@ pub fn convert_expression_to_ir(
                 false_binary_convert_instrs = false_convert_instrs;
                 instrs.append(&mut true_binary_convert_instrs);
                 dest_type = true_var.get_type(&prog.program_metadata)?;
+            } else if true_var_type.is_struct_or_union_type() {
+                // choose between the addresses of the objects
+                let (mut true_address_instrs, true_ptr) = object_address(true_var, prog)?;
+                instrs.append(&mut true_address_instrs);
+                let (mut false_address_instrs, false_ptr) = object_address(false_var, prog)?;
+                false_binary_convert_instrs.append(&mut false_address_instrs);
+                true_var = Src::Var(true_ptr);
+                false_var = Src::Var(false_ptr);
+                dest_type = true_var_type.to_owned().wrap_with_pointer();
             }
             prog.add_var_type(dest.to_owned(), dest_type.to_owned())?;
 
@@ -1916,9 +1970,15 @@ pub fn convert_expression_to_ir(
             }
             instrs.push(Instruction::Label(prog.new_instr_id(), end_label));
 
+            if true_var_type.is_struct_or_union_type() {
+                let (mut load_instrs, object) = load_object(dest, true_var_type, prog)?;
+                instrs.append(&mut load_instrs);
+                return Ok((instrs, object));
+            }
             Ok((instrs, Src::Var(dest)))
         }
         Expression::Assignment(dest_expr, src_expr) => {
+            require_lvalue_expression(&dest_expr)?;
             let (mut src_expr_instrs, src_var) =
                 convert_expression_to_ir(*src_expr, prog, context)?;
             instrs.append(&mut src_expr_instrs);
diff --git a/src/middle_end/context.rs b/src/middle_end/context.rs
index 33a4264..b623c98 100644
--- a/src/middle_end/context.rs
+++ b/src/middle_end/context.rs
@@ -20,6 +20,10 @@ pub struct Context {
     pub directly_on_lhs_of_assignment: bool,
     // the return type of the function currently being converted
     pub function_return_type: Option<IrType>,
+    // the static local variables that we've seen the declaration of
+    pub static_local_variables: HashSet<VarId>,
+    // whether we're converting the declaration of a static local variable
+    pub in_static_local_declaration: bool,
 }
 
 pub enum IdentifierResolveResult {
@@ -38,6 +42,8 @@ impl Context {
             initialised_variables: HashSet::new(),
             directly_on_lhs_of_assignment: false,
             function_return_type: None,
+            static_local_variables: HashSet::new(),
+            in_static_local_declaration: false,
         }
     }
 
@@ -238,6 +244,12 @@ impl Context {
         self.scope_stack.first()?.resolve_identifier_to_var(name)
     }
 
+    /// Whether the variable is one that only exists while its function is running
+    pub fn is_automatic_variable(&self, name: &str, var: &VarId) -> bool {
+        !self.static_local_variables.contains(var)
+            && self.get_global_variable(name).as_ref() != Some(var)
+    }
+
     pub fn add_function_body(&mut self, name: String) -> Result<(), MiddleEndError> {
         if self.defined_functions.contains(&name) {
             return Err(MiddleEndError::DuplicateFunctionDeclaration(name));
-- 
2.43.0


From b0d8e6796993c44253c0731001efa6becca1a5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:00 +0000
Subject: [PATCH 64/64] fix: comparing a long to a pointer, a conditional
 expression of a long and a void pointer, and returning a value from a void
 function, no longer give an invalid module or a panic

---
 src/middle_end/ast_to_ir.rs | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/middle_end/ast_to_ir.rs b/src/middle_end/ast_to_ir.rs
index 06b3b3e..742e3a0 100644
--- a/src/middle_end/ast_to_ir.rs
+++ b/src/middle_end/ast_to_ir.rs
@@ -123,6 +123,11 @@ fn convert_statement_to_ir(
                 instrs.append(&mut expr_instrs);
                 let return_src = match &context.function_return_type {
                     Some(return_type) => {
+                        if *return_type == IrType::Void {
+                            return Err(MiddleEndError::InvalidOperation(
+                                "Returning a value from a void function",
+                            ));
+                        }
                         // the returned value is converted as if by assignment
                         let expr_type = expr_var.get_type(&prog.program_metadata)?;
                         let (mut convert_instrs, return_src) = convert_type_for_assignment(
@@ -765,6 +770,25 @@ fn convert_statement_to_ir(
     Ok(instrs)
 }
 
+/// A pointer is only as wide as an int, so an integer that's compared to one has to be as well
+fn convert_integer_compared_to_pointer(
+    left: Src,
+    right: Src,
+    prog: &mut Program,
+) -> Result<(Vec<Instruction>, Src, Src), MiddleEndError> {
+    let left_type = left.get_type(&prog.program_metadata)?;
+    let right_type = right.get_type(&prog.program_metadata)?;
+    if left_type.is_pointer_type() && right_type.is_integral_type() {
+        let (instrs, right) = get_type_conversion_instrs(right, right_type, IrType::U32, prog)?;
+        Ok((instrs, left, right))
+    } else if left_type.is_integral_type() && right_type.is_pointer_type() {
+        let (instrs, left) = get_type_conversion_instrs(left, left_type, IrType::U32, prog)?;
+        Ok((instrs, left, right))
+    } else {
+        Ok((Vec::new(), left, right))
+    }
+}
+
 /// Convert the controlling expression of an if statement or a loop, which has to be a scalar
 fn convert_condition_to_ir(
     cond: Expression,
@@ -1909,7 +1933,9 @@ pub fn convert_expression_to_ir(
                 // the result is a pointer, and a null pointer or void pointer takes on the type
                 // that the other one gives it
                 let void_ptr_type = IrType::PointerTo(Box::new(IrType::Void));
-                if is_null(&true_var) || false_var_type == void_ptr_type {
+                if is_null(&true_var)
+                    || (true_var_type.is_pointer_type() && false_var_type == void_ptr_type)
+                {
                     dest_type = false_var_type;
                 } else if !is_null(&false_var) && !false_var_type.is_pointer_type() {
                     return Err(MiddleEndError::InvalidOperation(
@@ -2386,6 +2412,9 @@ fn convert_binary_op_to_ir(
             let (mut convert_instrs, left_var, right_var) =
                 binary_convert(left_var, right_var, prog)?;
             instrs.append(&mut convert_instrs);
+            let (mut convert_instrs, left_var, right_var) =
+                convert_integer_compared_to_pointer(left_var, right_var, prog)?;
+            instrs.append(&mut convert_instrs);
             let left_var_type = left_var.get_type(&prog.program_metadata)?;
             let right_var_type = right_var.get_type(&prog.program_metadata)?;
             // both arithmetic, both pointer, or pointer compared to NULL (int 0)
@@ -2411,6 +2440,9 @@ fn convert_binary_op_to_ir(
             let (mut convert_instrs, left_var, right_var) =
                 binary_convert(left_var, right_var, prog)?;
             instrs.append(&mut convert_instrs);
+            let (mut convert_instrs, left_var, right_var) =
+                convert_integer_compared_to_pointer(left_var, right_var, prog)?;
+            instrs.append(&mut convert_instrs);
             let left_var_type = left_var.get_type(&prog.program_metadata)?;
             let right_var_type = right_var.get_type(&prog.program_metadata)?;
             // both arithmetic, both pointer, or pointer compared to NULL (int 0)
-- 
2.43.0

