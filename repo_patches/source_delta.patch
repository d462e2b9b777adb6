From 11d898638d0220b056b13e06057fb34ae3665128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:57 +0000
Subject: [PATCH 01/26] fix: keep layout and comment rules out of guest code
 blocks

A '#|' inside a guest block was treated as the start of a comment, so the
closing delimiter could be swallowed up to a '|#' in a later advice.
---
 wasp-compiler/wasp.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wasp-compiler/wasp.pest b/wasp-compiler/wasp.pest
index 185c18b..5bd6030 100644
--- a/wasp-compiler/wasp.pest
+++ b/wasp-compiler/wasp.pest
@@ -9,7 +9,7 @@ wasp_input = { SOI ~ wasp ~ EOI }
 wasp       = { "(" ~ "aspect" ~ ("(" ~ advice_definition ~ ")")* ~ ")" }
 
 // Guest language block, currently hardcoded AssemblyScript
-GUEST_BLOCK = { ">>>GUEST>>>" ~ (!"<<<GUEST<<<" ~ ANY)* ~ "<<<GUEST<<<" }
+GUEST_BLOCK = @{ ">>>GUEST>>>" ~ (!"<<<GUEST<<<" ~ ANY)* ~ "<<<GUEST<<<" }
 
 // Advice definitions
 advice_definition = { advice_global | advice_trap }
-- 
2.43.0


From ce0e427cbc545959702cc52fe8136997e2b0b5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:42 +0000
Subject: [PATCH 02/26] fix: report a failed wasm-merge run that printed no
 diagnostics

Exit status was ignored: a killed or silently failing tool yielded an
empty or partial module as a successful result.
---
 wasm-merge/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/wasm-merge/src/lib.rs b/wasm-merge/src/lib.rs
index 94bbfb9..5610486 100644
--- a/wasm-merge/src/lib.rs
+++ b/wasm-merge/src/lib.rs
@@ -141,6 +141,12 @@ impl MergeOptions<'_> {
             return Err(Error::MergeExecutionFailedReason(std_err_string));
         }
 
+        if !command_output.status.success() {
+            return Err(Error::MergeExecutionFailedReason(
+                command_output.status.to_string(),
+            ));
+        }
+
         let mut result = Vec::new();
         output_file
             .read_to_end(&mut result)
-- 
2.43.0


From b294a29a216f16d893f489448f172776bfb768e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:20 +0000
Subject: [PATCH 03/26] fix: run wasm-merge without a shell

Namespaces and temporary paths were pasted unquoted into a bash command
line, so blanks or shell characters split or executed them.
---
 wasm-merge/src/lib.rs | 28 +++++++---------------------
 1 file changed, 7 insertions(+), 21 deletions(-)

diff --git a/wasm-merge/src/lib.rs b/wasm-merge/src/lib.rs
index 5610486..2ad757e 100644
--- a/wasm-merge/src/lib.rs
+++ b/wasm-merge/src/lib.rs
@@ -103,33 +103,19 @@ impl MergeOptions<'_> {
             })
             .collect::<Result<Vec<(&InputModule, String, NamedTempFile)>, Error>>()?;
 
-        let merge_name_combinations = merges
-            .iter()
-            .map(|(InputModule { namespace, .. }, input_module_path, ..)| {
-                format!("{input_module_path} {namespace}")
-            })
-            .collect::<Vec<String>>()
-            .join(" ");
-
         let mut output_file = NamedTempFile::new().map_err(Error::TempOutputFileCreationFailed)?;
         let output_file_path = output_file.path().to_string_lossy().to_string();
 
-        let merge_command = format!(
-            concat!(
-                "wasm-merge",
-                " {bash_arguments} ",
-                "{merge_name_combinations} -o {output_file_path}",
-            ),
-            bash_arguments = self.as_bash_arguments(),
-            merge_name_combinations = merge_name_combinations,
-            output_file_path = output_file_path,
-        );
-
         // FIXME: move this to separate file, splitting up functionality
         // FIXME: this implementation shares constructs with wastrumentation-instr-lib (code-dupe)
 
-        let mut command_merge = Command::new("bash");
-        command_merge.args(["-c", &merge_command]);
+        // No shell in between: paths and namespaces are passed literally
+        let mut command_merge = Command::new("wasm-merge");
+        command_merge.args(self.as_bash_arguments().split_whitespace());
+        for (InputModule { namespace, .. }, input_module_path, ..) in &merges {
+            command_merge.args([input_module_path, namespace]);
+        }
+        command_merge.args(["-o", &output_file_path]);
 
         // Kick off command, i.e. merge
         let command_output = command_merge
-- 
2.43.0


From b12702a38a9cf9a9ab210785cb80d0e48e7d320c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:35 +0000
Subject: [PATCH 04/26] fix: base loads and stores beyond the 32 bit address
 range must not wrap around

The helpers an analysis calls to perform a load or store added the static
offset to the pointer with a wrapping addition: with a pointer close to the
end of the address space the original instruction traps, the helper accessed
the start of memory instead.
---
 wastrumentation/src/instrument/memory.rs | 40 ++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/wastrumentation/src/instrument/memory.rs b/wastrumentation/src/instrument/memory.rs
index e485df2..36deb6c 100644
--- a/wastrumentation/src/instrument/memory.rs
+++ b/wastrumentation/src/instrument/memory.rs
@@ -370,8 +370,16 @@ impl Serialize for LoadOp {
     }
 }
 
+/// With the pointer `-1`, beyond the end of any (32 bit) memory.
+fn out_of_bounds(memarg: Memarg) -> Memarg {
+    Memarg {
+        offset: u32::MAX,
+        ..memarg
+    }
+}
+
 pub fn inject_memory_loads(module: &mut Module) {
-    use wasabi_wasm::Instr::{Binary, Const, End, Load, Local};
+    use wasabi_wasm::Instr::{Binary, Const, Drop, End, If, Load, Local};
     use wasabi_wasm::LoadOp::{F32Load, F64Load, I32Load, I64Load}; // Regular
     use wasabi_wasm::LoadOp::{I32Load16S, I32Load16U, I32Load8S, I32Load8U}; // I32 Specialized
     use wasabi_wasm::LoadOp::{
@@ -422,6 +430,20 @@ pub fn inject_memory_loads(module: &mut Module) {
                 // [ptr, offset]
                 Binary(wasabi_wasm::BinaryOp::I32Add),
                 // [ptr + offset]
+                Local(LocalOp::Get, 0_u32.into()),
+                // [ptr + offset, ptr]
+                Binary(wasabi_wasm::BinaryOp::I32LtU),
+                // [ptr + offset does not fit 32 bits: beyond every memory]
+                If(FunctionType::new(&[], &[])),
+                Const(Val::I32(-1)),
+                Load(load_op, out_of_bounds(Memarg::default(load_op))),
+                Drop,
+                End,
+                // []
+                Local(LocalOp::Get, 0_u32.into()),
+                Local(LocalOp::Get, 1_u32.into()),
+                Binary(wasabi_wasm::BinaryOp::I32Add),
+                // [ptr + offset]
                 Load(load_op, Memarg::default(load_op)),
                 // [value]
                 End,
@@ -437,7 +459,7 @@ pub fn inject_memory_loads(module: &mut Module) {
 }
 
 pub fn inject_memory_stores(module: &mut Module) {
-    use wasabi_wasm::Instr::{Binary, End, Local, Store};
+    use wasabi_wasm::Instr::{Binary, Const, End, If, Local, Store};
     use wasabi_wasm::StoreOp::{F32Store, F64Store, I32Store, I64Store}; // Regular
     use wasabi_wasm::StoreOp::{I32Store16, I32Store8}; // I32 Specialized
     use wasabi_wasm::StoreOp::{I64Store16, I64Store32, I64Store8}; // I64 Specialized
@@ -470,6 +492,20 @@ pub fn inject_memory_stores(module: &mut Module) {
                 // [ptr, offset]
                 Binary(wasabi_wasm::BinaryOp::I32Add),
                 // [ptr + offset]
+                Local(LocalOp::Get, 0_u32.into()),
+                // [ptr + offset, ptr]
+                Binary(wasabi_wasm::BinaryOp::I32LtU),
+                // [ptr + offset does not fit 32 bits: beyond every memory]
+                If(FunctionType::new(&[], &[])),
+                Const(Val::I32(-1)),
+                Local(LocalOp::Get, 1_u32.into()),
+                Store(store_op, out_of_bounds(Memarg::default(store_op))),
+                End,
+                // []
+                Local(LocalOp::Get, 0_u32.into()),
+                Local(LocalOp::Get, 2_u32.into()),
+                Binary(wasabi_wasm::BinaryOp::I32Add),
+                // [ptr + offset]
                 Local(LocalOp::Get, 1_u32.into()),
                 // [ptr + offset, value]
                 Store(store_op, Memarg::default(store_op)),
-- 
2.43.0


From b230ec4cbd1b4bc68dca9e9f2b4289d92c24df11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:57 +0000
Subject: [PATCH 05/26] fix: refuse a program that already exports a name
 instrumentation adds

---
 wastrumentation/src/error.rs          |  2 ++
 wastrumentation/src/instrument/mod.rs | 20 ++++++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/wastrumentation/src/error.rs b/wastrumentation/src/error.rs
index c5ae3e6..cae0bc1 100644
--- a/wastrumentation/src/error.rs
+++ b/wastrumentation/src/error.rs
@@ -24,6 +24,8 @@ pub enum InstrumentationError {
     AttemptInnerInstrumentImport,
     #[error("low to high failed {low_to_high_err}")]
     LowToHighError { low_to_high_err: LowToHighError },
+    #[error("module already has an export named `{0}`, which instrumentation needs")]
+    DuplicateExport(String),
     #[error("Instrumentation Encode Error: {0}")]
     EncodeError(EncodeError),
 }
diff --git a/wastrumentation/src/instrument/mod.rs b/wastrumentation/src/instrument/mod.rs
index 6d8ae5a..6a4f8d6 100644
--- a/wastrumentation/src/instrument/mod.rs
+++ b/wastrumentation/src/instrument/mod.rs
@@ -291,6 +291,10 @@ pub fn instrument<InstrumentationLanguage: LibGeneratable>(
     memory::inject_memory_grow(&mut module);
     memory::inject_memory_size(&mut module);
 
+    if let Some(name) = duplicate_export(&module) {
+        return Err(InstrumentationError::DuplicateExport(name));
+    }
+
     Ok(Instrumented {
         module: module
             .to_bytes()
@@ -299,6 +303,22 @@ pub fn instrument<InstrumentationLanguage: LibGeneratable>(
     })
 }
 
+/// Export names must be unique, yet the program may already export a name instrumentation adds.
+fn duplicate_export(module: &Module) -> Option<String> {
+    let mut names = HashSet::new();
+    let functions = module.functions.iter().map(|f| &f.export);
+    let tables = module.tables.iter().map(|t| &t.export);
+    let memories = module.memories.iter().map(|m| &m.export);
+    let globals = module.globals.iter().map(|g| &g.export);
+    functions
+        .chain(tables)
+        .chain(memories)
+        .chain(globals)
+        .flatten()
+        .find(|name| !names.insert(name.as_str()))
+        .cloned()
+}
+
 fn uses_reference_types(f: &Function) -> bool {
     for ty_ in f.type_.inputs() {
         match ty_ {
-- 
2.43.0


From 03122285e7932887ee06f25600f030ffbf6d07ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:13 +0000
Subject: [PATCH 06/26] fix: report a body with an unclosed block instead of
 panicking

---
 wastrumentation/src/parse_nesting/high_level_body.rs       | 5 +++--
 wastrumentation/src/parse_nesting/typed_high_level_body.rs | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/wastrumentation/src/parse_nesting/high_level_body.rs b/wastrumentation/src/parse_nesting/high_level_body.rs
index 926a02e..b726eb1 100644
--- a/wastrumentation/src/parse_nesting/high_level_body.rs
+++ b/wastrumentation/src/parse_nesting/high_level_body.rs
@@ -201,8 +201,9 @@ impl TryFrom<LowLevelBody> for Body {
             };
         }
 
-        assert!(entered_stack.is_empty());
-        assert!(body_stack.is_empty());
+        if !entered_stack.is_empty() || !body_stack.is_empty() {
+            return Err(LowToHighError::BodyNonEndTermination);
+        }
         Ok(Body(current_body))
     }
 }
diff --git a/wastrumentation/src/parse_nesting/typed_high_level_body.rs b/wastrumentation/src/parse_nesting/typed_high_level_body.rs
index 4d7f8ac..2a52a1d 100644
--- a/wastrumentation/src/parse_nesting/typed_high_level_body.rs
+++ b/wastrumentation/src/parse_nesting/typed_high_level_body.rs
@@ -364,8 +364,9 @@ impl TryFrom<(&Module, &Function, &Code, &Idx<Function>)> for Body {
             };
         }
 
-        assert!(entered_stack.is_empty());
-        assert!(body_stack.is_empty());
+        if !entered_stack.is_empty() || !body_stack.is_empty() {
+            return Err(LowToHighError::BodyNonEndTermination);
+        }
         Ok(Body(current_body))
     }
 }
-- 
2.43.0


From bc6d5c929119515177991fd27b90ad9f3e5a3d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:13 +0000
Subject: [PATCH 07/26] fix: end global guest code with a line end, so that the
 next function is not swallowed or joined to it

---
 supported-languages/assemblyscript/src/generate/analysis/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/supported-languages/assemblyscript/src/generate/analysis/mod.rs b/supported-languages/assemblyscript/src/generate/analysis/mod.rs
index 1ac3210..5669a12 100644
--- a/supported-languages/assemblyscript/src/generate/analysis/mod.rs
+++ b/supported-languages/assemblyscript/src/generate/analysis/mod.rs
@@ -101,7 +101,7 @@ impl Display for ASAdviceDefinition {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         let Self(advice_definition) = self;
         match advice_definition {
-            AdviceDefinition::AdviceGlobal(program) => write!(f, "{program}"),
+            AdviceDefinition::AdviceGlobal(program) => writeln!(f, "{program}"),
             AdviceDefinition::AdviceTrap(trap) => ASTrapSignature(trap).fmt(f),
         }
     }
-- 
2.43.0


From b22cc20802a5da6c8729493389bffe5e5ea99d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:48 +0000
Subject: [PATCH 08/26] fix: static analysis writes its whole result

A single write may accept only part of the list (full disk, limits, pipes); the program then
ended with success, leaving truncated JSON.
---
 wastrumentation-static-analysis/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wastrumentation-static-analysis/src/main.rs b/wastrumentation-static-analysis/src/main.rs
index 6a500ce..642f90e 100644
--- a/wastrumentation-static-analysis/src/main.rs
+++ b/wastrumentation-static-analysis/src/main.rs
@@ -48,6 +48,6 @@ fn main() -> anyhow::Result<()> {
                     .expect("Cannot convert to usize")
         });
     }
-    let _ = output_path.write(&serde_json::ser::to_vec(&results)?)?;
+    output_path.write_all(&serde_json::ser::to_vec(&results)?)?;
     Ok(())
 }
-- 
2.43.0


From c430d200be72bc5733efb8571a041a7536bed366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:51 +0000
Subject: [PATCH 09/26] fix: count the first hit of a loop and the first entry
 of a block

---
 .../input-analyses/rust/block-profiling/src/lib.rs              | 2 +-
 benchmarking-node/input-analyses/rust/loops/src/lib.rs          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/benchmarking-node/input-analyses/rust/block-profiling/src/lib.rs b/benchmarking-node/input-analyses/rust/block-profiling/src/lib.rs
index 9c47b43..a9b02f6 100644
--- a/benchmarking-node/input-analyses/rust/block-profiling/src/lib.rs
+++ b/benchmarking-node/input-analyses/rust/block-profiling/src/lib.rs
@@ -15,7 +15,7 @@ fn add_block_enter(location: Location, runtime_target: i32) {
     coverage
         .entry((function_index, instruction_index, runtime_target))
         .and_modify(|c| *c += 1)
-        .or_insert(0);
+        .or_insert(1);
 }
 
 #[no_mangle]
diff --git a/benchmarking-node/input-analyses/rust/loops/src/lib.rs b/benchmarking-node/input-analyses/rust/loops/src/lib.rs
index c29ce85..d52149a 100644
--- a/benchmarking-node/input-analyses/rust/loops/src/lib.rs
+++ b/benchmarking-node/input-analyses/rust/loops/src/lib.rs
@@ -16,7 +16,7 @@ fn inc_instr(loc: Location) {
         .borrow_mut()
         .entry((loc.function_index(), loc.instruction_index()))
         .and_modify(|c| *c += 1)
-        .or_insert(0);
+        .or_insert(1);
 }
 
 #[no_mangle]
-- 
2.43.0


From 5e95f06fededd01a17ed2972ba308ed750bf8146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:51 +0000
Subject: [PATCH 10/26] fix: count the first access to a global

---
 .../input-analyses/rust/globals/src/lib.rs    | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/benchmarking-node/input-analyses/rust/globals/src/lib.rs b/benchmarking-node/input-analyses/rust/globals/src/lib.rs
index 8476ca6..bb9997b 100644
--- a/benchmarking-node/input-analyses/rust/globals/src/lib.rs
+++ b/benchmarking-node/input-analyses/rust/globals/src/lib.rs
@@ -11,17 +11,15 @@ struct AccessCount {
 
 fn inc_count(index: GlobalIndex, op: GlobalOp) {
     let globals = unsafe { addr_of!(GLOBALS).as_ref().unwrap() };
-    globals
-        .borrow_mut()
-        .entry(index.value())
-        .and_modify(|mana| match op {
-            GlobalOp::Get => mana.read_count += 1,
-            GlobalOp::Set => mana.write_count += 1,
-        })
-        .or_insert(AccessCount {
-            read_count: 0,
-            write_count: 0,
-        });
+    let mut globals = globals.borrow_mut();
+    let count = globals.entry(index.value()).or_insert(AccessCount {
+        read_count: 0,
+        write_count: 0,
+    });
+    match op {
+        GlobalOp::Get => count.read_count += 1,
+        GlobalOp::Set => count.write_count += 1,
+    }
 }
 
 const READ_WRITE_SERIALIZATION_FAILED: i32 = -1;
-- 
2.43.0


From 308cecdf1eefc972736a3095754e3fc289c965fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:51 +0000
Subject: [PATCH 11/26] fix: count a function's first instruction and report
 the count asked for

---
 benchmarking-node/input-analyses/rust/icount/src/lib.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/benchmarking-node/input-analyses/rust/icount/src/lib.rs b/benchmarking-node/input-analyses/rust/icount/src/lib.rs
index 6866f31..828174e 100644
--- a/benchmarking-node/input-analyses/rust/icount/src/lib.rs
+++ b/benchmarking-node/input-analyses/rust/icount/src/lib.rs
@@ -16,8 +16,7 @@ fn inc_instr(loc: Location, instruction_kind: Instruction) {
     counts
         .borrow_mut()
         .entry(loc.function_index())
-        .and_modify(|map| map[instruction_kind] += 1)
-        .or_insert(EnumMap::new_default());
+        .or_insert_with(EnumMap::new_default)[instruction_kind] += 1;
 }
 
 #[rustfmt::skip]
@@ -40,8 +39,7 @@ pub fn get_count_for(f_idx: i64, serialized_index: i32) -> i32 {
         .get(&f_idx)
         .map(|map| {
             *map.iter()
-                .step_by(serialized_index as usize)
-                .next()
+                .nth(serialized_index as usize)
                 .unwrap_or(&ERROR_INSTRUCTION_INDEX_DOES_NOT_EXIST)
         })
         .unwrap_or(ERROR_FUNCTION_INDEX_DOES_NOT_EXIST)
-- 
2.43.0


From 0cb1256b77b5afaa5997d6af8741f082b277a55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:51 +0000
Subject: [PATCH 12/26] fix: let the call-stack analyses compile with today's
 advice parameters

---
 .../rust/call-stack-eq-wasabi/src/lib.rs         | 16 +++++++++++-----
 .../rust/call-stack-wastrumentation/src/lib.rs   | 16 ++++++++++------
 2 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/benchmarking-node/input-analyses/rust/call-stack-eq-wasabi/src/lib.rs b/benchmarking-node/input-analyses/rust/call-stack-eq-wasabi/src/lib.rs
index 86cfbcb..c74a70b 100644
--- a/benchmarking-node/input-analyses/rust/call-stack-eq-wasabi/src/lib.rs
+++ b/benchmarking-node/input-analyses/rust/call-stack-eq-wasabi/src/lib.rs
@@ -1,7 +1,9 @@
 #![no_std]
 
 extern crate wastrumentation_rs_stdlib;
-use wastrumentation_rs_stdlib::{advice, FunctionIndex, FunctionTable, FunctionTableIndex};
+use wastrumentation_rs_stdlib::{
+    advice, FunctionIndex, FunctionTable, FunctionTableIndex, Location,
+};
 
 #[no_mangle]
 pub extern "C" fn get_number_of_calls() -> i32 {
@@ -24,8 +26,9 @@ static mut CALL_STACK: i32 = 0;
 
 advice! {
     call pre
-    (f: FunctionIndex) {
+    (f: FunctionIndex, location: Location) {
         let _ = f;
+        let _ = location;
         unsafe {
             /* [1] */
             CALL_STACK += 1
@@ -43,8 +46,9 @@ advice! {
 
 advice! {
     call post
-    (f: FunctionIndex) {
+    (f: FunctionIndex, location: Location) {
         let _ = f;
+        let _ = location;
         unsafe {
             CALL_STACK -= 1;
         };
@@ -53,8 +57,9 @@ advice! {
 
 advice! {
     call_indirect pre
-    (table_f_idx: FunctionTableIndex, table: FunctionTable) {
+    (table_f_idx: FunctionTableIndex, table: FunctionTable, location: Location) {
         let _ = table;
+        let _ = location;
         unsafe {
             /* [1] */
             CALL_STACK += 1
@@ -73,8 +78,9 @@ advice! {
 
 advice! {
     call_indirect post
-    (table: FunctionTable) {
+    (table: FunctionTable, location: Location) {
         let _ = table;
+        let _ = location;
         unsafe {
             CALL_STACK -= 1;
         };
diff --git a/benchmarking-node/input-analyses/rust/call-stack-wastrumentation/src/lib.rs b/benchmarking-node/input-analyses/rust/call-stack-wastrumentation/src/lib.rs
index 9e6b38f..39858c9 100644
--- a/benchmarking-node/input-analyses/rust/call-stack-wastrumentation/src/lib.rs
+++ b/benchmarking-node/input-analyses/rust/call-stack-wastrumentation/src/lib.rs
@@ -2,8 +2,8 @@
 
 extern crate wastrumentation_rs_stdlib;
 use wastrumentation_rs_stdlib::{
-    advice, FunctionIndex, FunctionTable, FunctionTableIndex, MutDynArgs, MutDynResults,
-    WasmFunction,
+    advice, FunctionIndex, FunctionTable, FunctionTableIndex, Location, MutDynArgs,
+    MutDynResults, WasmFunction,
 };
 
 // There is no option to make use of WASM Globals here.
@@ -44,8 +44,9 @@ static mut CALL_STACK: i32 = 0;
 
 advice! {
     call pre
-    (f: FunctionIndex) {
+    (f: FunctionIndex, location: Location) {
         let _ = f;
+        let _ = location;
         unsafe {
             /* [1] */
             CALL_STACK += 1
@@ -63,8 +64,9 @@ advice! {
 
 advice! {
     call post
-    (f: FunctionIndex) {
+    (f: FunctionIndex, location: Location) {
         let _ = f;
+        let _ = location;
         unsafe {
             CALL_STACK -= 1;
         }
@@ -73,8 +75,9 @@ advice! {
 
 advice! {
     call_indirect pre
-    (table_f_idx: FunctionTableIndex, table: FunctionTable) {
+    (table_f_idx: FunctionTableIndex, table: FunctionTable, location: Location) {
         let _ = table;
+        let _ = location;
         unsafe {
             /* [1] */
             CALL_STACK += 1
@@ -93,8 +96,9 @@ advice! {
 
 advice! {
     call_indirect post
-    (table: FunctionTable) {
+    (table: FunctionTable, location: Location) {
         let _ = table;
+        let _ = location;
         unsafe {
             CALL_STACK -= 1;
         };
-- 
2.43.0


From cc79502e6d848251cf43f56fefc70f27b1192fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:29 +0000
Subject: [PATCH 13/26] hook: untyped nested form for monitors (cfg
 wastrumentation_verif)

---
 wastrumentation/src/parse_nesting/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wastrumentation/src/parse_nesting/mod.rs b/wastrumentation/src/parse_nesting/mod.rs
index d870719..51988f2 100644
--- a/wastrumentation/src/parse_nesting/mod.rs
+++ b/wastrumentation/src/parse_nesting/mod.rs
@@ -1,3 +1,4 @@
+#![allow(unexpected_cfgs)]
 mod high_level_body;
 mod typed_high_level_body;
 mod typed_high_level_body_error;
@@ -11,6 +12,10 @@ mod tests;
 
 pub use high_level_body::LowLevelBody;
 
+/// The untyped nested form, for monitors (`--cfg wastrumentation_verif`).
+#[cfg(wastrumentation_verif)]
+pub use high_level_body::{Body as UntypedBody, Instr as UntypedInstr};
+
 pub use typed_high_level_body::Body as HighLevelBody; // TypedIndexedHighLevelBody;
 pub use typed_high_level_body::BodyInner;
 pub use typed_high_level_body::Instr as HighLevelInstr;
-- 
2.43.0


From e69d188614fb1e409434dbd08c0dffe7441d7610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:22 +0000
Subject: [PATCH 14/26] fix: a run out of time was recorded with the iteration
 (0,)

---
 benchmarking-node/wasmr3-python/execute_benchmarks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/benchmarking-node/wasmr3-python/execute_benchmarks.py b/benchmarking-node/wasmr3-python/execute_benchmarks.py
index 93e7a72..d783e8c 100644
--- a/benchmarking-node/wasmr3-python/execute_benchmarks.py
+++ b/benchmarking-node/wasmr3-python/execute_benchmarks.py
@@ -53,7 +53,7 @@ def execute_benchmarks(
             csv_values['exception_reason'] = None
             csv_values['timeout'] = True
             csv_values['timeout_amount'] = timeout
-            csv_values['runtime_iteration'] = 0,
+            csv_values['runtime_iteration'] = 0
 
             csv_writer.writerow(csv_values)
             times_this_combination_timed_out += 1
-- 
2.43.0


From 0b422d520ee2dc12077b219562e64184f231e09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:22 +0000
Subject: [PATCH 15/26] fix: the single execution ran NODE_BENCHMARK_RUNS times
 and refused what that printed

---
 benchmarking-node/wasmr3-python/report_executes_once.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/benchmarking-node/wasmr3-python/report_executes_once.py b/benchmarking-node/wasmr3-python/report_executes_once.py
index 91271ec..670b996 100644
--- a/benchmarking-node/wasmr3-python/report_executes_once.py
+++ b/benchmarking-node/wasmr3-python/report_executes_once.py
@@ -10,7 +10,6 @@ from config import timeout, EXIT_STATUS_SUCCESS
 from config import KEY_timeout, KEY_exception, KEY_analysis, KEY_platform
 from config import KEY_runtime, KEY_input_program, KEY_memory_usage, KEY_completion_time, KEY_time_unit, KEY_exception_reason, KEY_timeout_amount
 from config import executes_once_field_names
-from input_programs_analysis_config import NODE_BENCHMARK_RUNS
 from util import parse_boolean
 
 def forward_success_runs_for(data_path):
@@ -55,7 +54,7 @@ def report_executes_once(
 
     try:
         bench_run_result = subprocess.run(
-            ['bash', '-c', f'node --experimental-wasm-multi-memory {benchmark_path} {NODE_BENCHMARK_RUNS}'],
+            ['bash', '-c', f'node --experimental-wasm-multi-memory {benchmark_path} 1'],
             capture_output=True,
             text=True,
             timeout=timeout,
-- 
2.43.0


From 75c074d0bd07eebbff70e81ade0938d9da3e4fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:22 +0000
Subject: [PATCH 16/26] fix: analyses without a Wasabi counterpart were woven
 and measured on Wasabi

---
 benchmarking-node/wasmr3-python/bench.py   | 6 +++---
 benchmarking-node/wasmr3-python/rebench.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/benchmarking-node/wasmr3-python/bench.py b/benchmarking-node/wasmr3-python/bench.py
index c01ffee..154179c 100755
--- a/benchmarking-node/wasmr3-python/bench.py
+++ b/benchmarking-node/wasmr3-python/bench.py
@@ -127,7 +127,7 @@ setup_benchmarks_regular(node_wasm_wrap_path, candidate_input_benchmarks)
 
 for (analysis_name, wasabi_analysis_path, wastrumentation_analysis_path, wasabi_hooks, wastrumentation_hooks) in analysis_names_pathed:
     for (benchmark, benchmark_path) in candidate_input_benchmarks.items():
-        if forward_success_runs[benchmark]['wasabi']:
+        if forward_success_runs[benchmark]['wasabi'] and len(wasabi_hooks) != 0:
             # Setup benchmarks wasabi
             setup_benchmarks_wasabi(
                 node_wasm_wrap_path,
@@ -170,7 +170,7 @@ with open(path_code_size, 'w') as code_size_file:
 
     for (analysis_name, wasabi_analysis_path, wastrumentation_analysis_path, wasabi_hooks, wastrumentation_hooks) in analysis_names_pathed:
         for (benchmark, benchmark_path) in candidate_input_benchmarks.items():
-            if forward_success_runs[benchmark]['wasabi']:
+            if forward_success_runs[benchmark]['wasabi'] and len(wasabi_hooks) != 0:
                 report_code_size(
                     platform = 'Wasabi',
                     analysis = analysis_name,
@@ -209,7 +209,7 @@ with open(path_execution_bench, 'w') as execution_bench_file:
 
     for (analysis_name, wasabi_analysis_path, wastrumentation_analysis_path, wasabi_hooks, wastrumentation_hooks) in analysis_names_pathed:
         for (benchmark, benchmark_path) in candidate_input_benchmarks.items():
-            if forward_success_runs[benchmark]['wasabi']:
+            if forward_success_runs[benchmark]['wasabi'] and len(wasabi_hooks) != 0:
                 execute_benchmarks(
                     runtime = 'NodeJS',
                     platform = 'Wasabi',
diff --git a/benchmarking-node/wasmr3-python/rebench.py b/benchmarking-node/wasmr3-python/rebench.py
index 54e17c0..c2d288f 100755
--- a/benchmarking-node/wasmr3-python/rebench.py
+++ b/benchmarking-node/wasmr3-python/rebench.py
@@ -105,7 +105,7 @@ input_programs = list(candidate_input_benchmarks.keys())
 forward_success_runs = forward_success_runs_for(path_RERUN_executes_once)
 for (analysis_name, wasabi_analysis_path, wastrumentation_analysis_path, wasabi_hooks, wastrumentation_hooks) in analysis_names_pathed:
     for (benchmark, benchmark_path) in candidate_input_benchmarks.items():
-        if forward_success_runs[benchmark]['wasabi']:
+        if forward_success_runs[benchmark]['wasabi'] and len(wasabi_hooks) != 0:
             # Setup benchmarks wasabi
             setup_benchmarks_wasabi(
                 node_wasm_wrap_path,
@@ -147,7 +147,7 @@ with open(path_code_size, 'w') as code_size_file:
 
     for (analysis_name, wasabi_analysis_path, wastrumentation_analysis_path, wasabi_hooks, wastrumentation_hooks) in analysis_names_pathed:
         for (benchmark, benchmark_path) in candidate_input_benchmarks.items():
-            if forward_success_runs[benchmark]['wasabi']:
+            if forward_success_runs[benchmark]['wasabi'] and len(wasabi_hooks) != 0:
                 report_code_size(
                     platform = 'Wasabi',
                     analysis = analysis_name,
@@ -186,7 +186,7 @@ with open(path_execution_bench, 'w') as execution_bench_file:
 
     for (analysis_name, wasabi_analysis_path, wastrumentation_analysis_path, wasabi_hooks, wastrumentation_hooks) in analysis_names_pathed:
         for (benchmark, benchmark_path) in candidate_input_benchmarks.items():
-            if forward_success_runs[benchmark]['wasabi']:
+            if forward_success_runs[benchmark]['wasabi'] and len(wasabi_hooks) != 0:
                 execute_benchmarks(
                     runtime = 'NodeJS',
                     platform = 'Wasabi',
-- 
2.43.0


From 6f9052b73d6f2e0e294449f55c306df94306437f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:22 +0000
Subject: [PATCH 17/26] fix: where instrumenting failed, the plain program was
 measured as the instrumented one

---
 .../wasmr3-python/setup_benchmarks_wasabi.py          |  3 +++
 .../wasmr3-python/setup_benchmarks_wastrumentation.py | 11 +++++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/benchmarking-node/wasmr3-python/setup_benchmarks_wasabi.py b/benchmarking-node/wasmr3-python/setup_benchmarks_wasabi.py
index c358a31..962ed48 100644
--- a/benchmarking-node/wasmr3-python/setup_benchmarks_wasabi.py
+++ b/benchmarking-node/wasmr3-python/setup_benchmarks_wasabi.py
@@ -71,6 +71,9 @@ def setup_benchmarks_wasabi(
     if wasabi_execute_result.returncode != 0:
         # TODO: this should be reported to a file somehow ...
         logging.warning(f'[WASABI INSTRUMENTATION PHASE] instrumentation for "{benchmark}" failed')
+        # leave nothing behind that passes for the instrumented program
+        os.remove(benchmark_path_wasabi_instrumented)
+        raise Exception(f'[WASABI INSTRUMENTATION PHASE] instrumentation for "{benchmark}" failed')
 
     wasabi_generated_script_path_old = os.path.join(benchmark_directory_wasabi_instrumented, f'{benchmark}.wasabi.js')
     wasabi_generated_script_path = os.path.join(benchmark_directory_wasabi_instrumented, f'{benchmark}.wasabi.cjs')
diff --git a/benchmarking-node/wasmr3-python/setup_benchmarks_wastrumentation.py b/benchmarking-node/wasmr3-python/setup_benchmarks_wastrumentation.py
index 3d0a4b2..c869768 100644
--- a/benchmarking-node/wasmr3-python/setup_benchmarks_wastrumentation.py
+++ b/benchmarking-node/wasmr3-python/setup_benchmarks_wastrumentation.py
@@ -39,13 +39,10 @@ def setup_benchmarks_wastrumentation(
         logging.info(f'[WASTRUMENTATION INSTRUMENTATION PHASE] instrumented already exists; skipping: {analysis_name}/{benchmark}.wasm')
         return
 
-    # copy over input.wasm
-    shutil.copy(benchmark_path, benchmark_path_wastrumentation_instrumented)
-
     # Setup wastrumentation instrumentation infrastructure
     hooks = ' '.join(analysis_hooks)
 
-    subprocess.run([
+    wastrumentation_execute_result = subprocess.run([
         'bash', '-c', f"""                                                  \
         cargo run --bin wastrumentation-cli --                              \
             --input-program-path "{benchmark_path}"                         \
@@ -54,3 +51,9 @@ def setup_benchmarks_wastrumentation(
             --output-path "{benchmark_path_wastrumentation_instrumented}"
         """
     ])
+
+    if wastrumentation_execute_result.returncode != 0:
+        # leave nothing behind that passes for the instrumented program
+        if os.path.exists(benchmark_path_wastrumentation_instrumented):
+            os.remove(benchmark_path_wastrumentation_instrumented)
+        raise Exception(f'[WASTRUMENTATION INSTRUMENTATION PHASE] instrumentation for "{benchmark}" failed')
-- 
2.43.0


From f4d0cec900908ed60d47ab524b2324dd2f8b988c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:10 +0000
Subject: [PATCH 18/26] fix: branches.cjs did not count a br_table that takes
 its default by an index past the table's end

---
 benchmarking-node/input-analyses/javascript/branches.cjs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/benchmarking-node/input-analyses/javascript/branches.cjs b/benchmarking-node/input-analyses/javascript/branches.cjs
index 4e0070e..6926ece 100644
--- a/benchmarking-node/input-analyses/javascript/branches.cjs
+++ b/benchmarking-node/input-analyses/javascript/branches.cjs
@@ -14,7 +14,7 @@ Wasabi.analysis = {
     br_table(loc, tbl, df, idx) {
         taken[loc.func] = (taken[loc.func] || {});
         taken[loc.func][loc.instr] = (taken[loc.func][loc.instr] || Array(tbl.length+1).fill(0));
-        taken[loc.func][loc.instr][idx]++;
+        taken[loc.func][loc.instr][Math.min(idx, tbl.length)]++;
     },
 };
 
-- 
2.43.0


From 8e8d063fdc7fb4a39b3982c6654bc625662e888e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:10 +0000
Subject: [PATCH 19/26] fix: memstats.cjs threw on every store and counted NaN

---
 .../input-analyses/javascript/memstats.cjs             | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/benchmarking-node/input-analyses/javascript/memstats.cjs b/benchmarking-node/input-analyses/javascript/memstats.cjs
index dae5261..414d5f9 100644
--- a/benchmarking-node/input-analyses/javascript/memstats.cjs
+++ b/benchmarking-node/input-analyses/javascript/memstats.cjs
@@ -2,13 +2,9 @@
 let READS = [];
 let WRITES = [];
 
-// grow if out of bounds and set the bits
+// a byte that was not touched yet has no count
 function increaseAt(buffer, address, targetSize) {
-    if (buffer.length <= address + targetSize) {
-        buffer.length = address + targetSize;
-        buffer.fill(0, buffer.length, address + targetSize);
-    }
-    for (let i = 0; i < targetSize; i++) buffer[address + i] += 1;
+    for (let i = 0; i < targetSize; i++) buffer[address + i] = (buffer[address + i] || 0) + 1;
 }
 
 Wasabi.analysis = {
@@ -43,7 +39,7 @@ Wasabi.analysis = {
     },
 
     store: (_loc, op, memarg, _value) => {
-        const effectiveAddr = memarg.addr + memarg.offset;size
+        const effectiveAddr = memarg.addr + memarg.offset;
         let size;
         switch (op) {
             case 'i32.store8':
-- 
2.43.0


From 46a24304ac30412ee1ea260220870c56288ad5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:42 +0000
Subject: [PATCH 20/26] fix: taint.cjs compared a function's list of exports
 with a name, so it had no sources and no sinks

---
 benchmarking-node/input-analyses/javascript/taint.cjs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/benchmarking-node/input-analyses/javascript/taint.cjs b/benchmarking-node/input-analyses/javascript/taint.cjs
index 6732fb4..c176a39 100644
--- a/benchmarking-node/input-analyses/javascript/taint.cjs
+++ b/benchmarking-node/input-analyses/javascript/taint.cjs
@@ -43,10 +43,10 @@
         let sinkFctIdx = -1;
         for (let i = 0; i < Wasabi.module.info.functions.length; i++) {
             const fct = Wasabi.module.info.functions[i];
-            if (fct.export === "taint_source" || fct.export === "_markSource") {
+            if (fct.export.includes("taint_source") || fct.export.includes("_markSource")) {
                 sourceFctIdx = i;
             }
-            if (fct.export === "taint_sink" || fct.export === "_sink") {
+            if (fct.export.includes("taint_sink") || fct.export.includes("_sink")) {
                 sinkFctIdx = i;
             }
         }
-- 
2.43.0


From 861aeaf93252499f7f20eaa1827d08d52bfa2b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:01 +0000
Subject: [PATCH 21/26] fix: taint.cjs gave the called function its arguments'
 taints in reverse order

---
 benchmarking-node/input-analyses/javascript/taint.cjs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/benchmarking-node/input-analyses/javascript/taint.cjs b/benchmarking-node/input-analyses/javascript/taint.cjs
index c176a39..f1cbd11 100644
--- a/benchmarking-node/input-analyses/javascript/taint.cjs
+++ b/benchmarking-node/input-analyses/javascript/taint.cjs
@@ -149,7 +149,7 @@
             const argTaints = [];
             for (const arg of args) {
                 const taint = ensureTaint(values().pop(), location);
-                argTaints.push(taint);
+                argTaints.unshift(taint); // the last argument is on top
                 if (targetFunc == sourceFctIdx) {
                     taint.label = 1;
                     console.log("Source: Marking value as ", taint);
-- 
2.43.0


From 50fc3d8f288c40cdc2f726cc86953868d8584a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:31 +0000
Subject: [PATCH 22/26] fix: the wasmtime benchmarks stopped at an analysis
 that does not exist

---
 benchmarking-node/wasmtime-benchmarks/wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/benchmarking-node/wasmtime-benchmarks/wrapper.py b/benchmarking-node/wasmtime-benchmarks/wrapper.py
index ee891e0..904b452 100644
--- a/benchmarking-node/wasmtime-benchmarks/wrapper.py
+++ b/benchmarking-node/wasmtime-benchmarks/wrapper.py
@@ -46,7 +46,7 @@ INPUT_WASTRUMENTATION_ANALYSES = [
     'call-graph',
     'memory-tracing',
     'coverage-branch',
-    'instruction-mix',
+    'opcodes',
     'block-profiling',
     'coverage-instruction',
     'cryptominer-detection',
-- 
2.43.0


From f74d129ca4e6d9817e02b0097f0e83b61823af36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:38 +0000
Subject: [PATCH 23/26] fix: a wasmtime benchmark that was killed left no
 record

---
 benchmarking-node/wasmtime-benchmarks/wrapper.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/benchmarking-node/wasmtime-benchmarks/wrapper.py b/benchmarking-node/wasmtime-benchmarks/wrapper.py
index 904b452..b50b6fb 100644
--- a/benchmarking-node/wasmtime-benchmarks/wrapper.py
+++ b/benchmarking-node/wasmtime-benchmarks/wrapper.py
@@ -130,6 +130,9 @@ def execute_benchmark(platform, input_program, input_program_path, analysis, run
     print(process.stdout)
 
     stderr = filter_stderr(process.stderr)
+    if stderr is None and process.returncode != 0:
+        # killed before it could say why
+        stderr = f'Unknown reason::exit status {process.returncode}'
 
     if stderr is not None:
         with open(RESULTS_FILE, 'a+') as results_file:
-- 
2.43.0


From c3a65ca0ef5a9b0125f319e885569de09f23f811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:03 +0000
Subject: [PATCH 24/26] fix: a wasmtime benchmark that ran out of time recorded
 another limit than its own

---
 benchmarking-node/wasmtime-benchmarks/wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/benchmarking-node/wasmtime-benchmarks/wrapper.py b/benchmarking-node/wasmtime-benchmarks/wrapper.py
index b50b6fb..32934d1 100644
--- a/benchmarking-node/wasmtime-benchmarks/wrapper.py
+++ b/benchmarking-node/wasmtime-benchmarks/wrapper.py
@@ -105,7 +105,7 @@ def execute_benchmark(platform, input_program, input_program_path, analysis, run
         )
 
     except subprocess.TimeoutExpired:
-        logging.warning(f'[platform:{platform},analysis:{analysis},benchmark:{input_program},runtime:{RUNTIME}] timeout - {TIMEOUT_IN_SECONDS_ONE_RUN}')
+        logging.warning(f'[platform:{platform},analysis:{analysis},benchmark:{input_program},runtime:{RUNTIME}] timeout - {timeout}')
 
         with open(RESULTS_FILE, 'a+') as results_file:
             results_writer = csv.DictWriter(results_file, fieldnames=result_file_field_names)
@@ -118,7 +118,7 @@ def execute_benchmark(platform, input_program, input_program_path, analysis, run
             csv_values[KEY_completion_time] = 0
             csv_values[KEY_time_unit] = 'ms'
             csv_values[KEY_timeout] = True
-            csv_values[KEY_timeout_amount] = TIMEOUT_IN_SECONDS_ONE_RUN
+            csv_values[KEY_timeout_amount] = timeout
             csv_values[KEY_exception] = False
             csv_values[KEY_exception_reason] = None
 
-- 
2.43.0


From 507210208a1bd39275facdf8172abfd85d7fa193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:31 +0000
Subject: [PATCH 25/26] fix: the forward analysis was listed twice, so each of
 its benchmarks ran and was recorded twice

---
 benchmarking-node/wasmr3-python/target_analyses.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/benchmarking-node/wasmr3-python/target_analyses.py b/benchmarking-node/wasmr3-python/target_analyses.py
index 1b80512..f061db8 100644
--- a/benchmarking-node/wasmr3-python/target_analyses.py
+++ b/benchmarking-node/wasmr3-python/target_analyses.py
@@ -61,12 +61,6 @@ analysis_names_primitive = [
         ['load', 'store'],
 
     ],
-    [
-        ANALYSIS_FORWARD,
-        # ✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅   ✅✅✅✅    ✅✅✅        ✅✅✅✅✅       ✅✅✅   ✅✅✅✅    ✅✅✅✅✅✅✅    ✅✅✅✅✅✅     ✅✅     ✅✅✅✅   ✅✅✅    ✅✅✅    ✅✅✅    ✅✅✅✅   ✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅  ✅✅✅✅   ✅✅✅   # Note: begin is covered in many _pre traps
-        ['if',                                                           'br',     'br_if',     'br_table',     'drop', 'select', 'memory_size', 'memory_grow', 'unary', 'binary', 'load', 'store', 'local', 'global', 'call',                                                             'const', 'return', 'begin', 'end'],
-        ['if-then', 'if-then-post', 'if-then-else', 'if-then-else-post', 'branch', 'branch-if', 'branch-table', 'drop', 'select', 'memory-size', 'memory-grow', 'unary', 'binary', 'load', 'store', 'local', 'global', 'call-pre', 'call-post', 'call-indirect-pre', 'call-indirect-post', 'const', 'return', 'block-pre', 'loop-pre', 'block-post', 'loop-post'],
-    ],
     # [
     #     ANALYSIS_INSTRUCTION_MIX, # not included for Wasabi: nop, unreachable (neither for Wastrumentation)
     #     # ✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅   ✅✅✅✅    ✅✅✅        ✅✅✅✅✅       ✅✅✅   ✅✅✅✅    ✅✅✅✅✅✅✅    ✅✅✅✅✅✅     ✅✅     ✅✅✅✅   ✅✅✅    ✅✅✅    ✅✅✅    ✅✅✅✅   ✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅✅  ✅✅✅✅   ✅✅✅   # Note: begin is covered in many _pre traps
-- 
2.43.0


From beb055de60523c534b2da942805b58ddcd450ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:42 +0000
Subject: [PATCH 26/26] fix: the static analysis printed its progress between
 the results written to standard output

---
 wastrumentation-static-analysis/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wastrumentation-static-analysis/src/lib.rs b/wastrumentation-static-analysis/src/lib.rs
index 5334756..2defc3e 100644
--- a/wastrumentation-static-analysis/src/lib.rs
+++ b/wastrumentation-static-analysis/src/lib.rs
@@ -99,7 +99,7 @@ pub fn immutable_functions(module: &Module) -> HashSet<u32> {
             break;
         } else {
             iteration += 1;
-            println!("New finding, iteration {iteration}");
+            eprintln!("New finding, iteration {iteration}");
         }
     }
 
-- 
2.43.0

