From 5be38a8e9b4b7055b67544852f61544ed53e8e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:58 +0000
Subject: [PATCH 1/5] fix: pass wasm-merge its arguments without a shell

Namespaces and temporary paths were interpolated into a 'bash -c' command
line: whitespace or shell syntax in a namespace changed (or extended) the
command that ran.
---
 wasm-merge/src/lib.rs | 37 +++++++++++--------------------------
 1 file changed, 11 insertions(+), 26 deletions(-)

diff --git a/wasm-merge/src/lib.rs b/wasm-merge/src/lib.rs
index 94bbfb9..18673e9 100644
--- a/wasm-merge/src/lib.rs
+++ b/wasm-merge/src/lib.rs
@@ -87,7 +87,7 @@ impl MergeOptions<'_> {
             ..
         } = self;
 
-        let merges: Vec<(&InputModule, String, NamedTempFile)> = primary
+        let merges: Vec<(&InputModule, NamedTempFile)> = primary
             .as_ref()
             .map_or(vec![], |p| vec![p])
             .iter()
@@ -98,38 +98,23 @@ impl MergeOptions<'_> {
                 input_module
                     .write_all(module)
                     .map_err(Error::TempInputFileWriteFailed)?;
-                let input_module_path = input_module.path().to_string_lossy().to_string();
-                Ok((*im, input_module_path, input_module))
+                Ok((*im, input_module))
             })
-            .collect::<Result<Vec<(&InputModule, String, NamedTempFile)>, Error>>()?;
-
-        let merge_name_combinations = merges
-            .iter()
-            .map(|(InputModule { namespace, .. }, input_module_path, ..)| {
-                format!("{input_module_path} {namespace}")
-            })
-            .collect::<Vec<String>>()
-            .join(" ");
+            .collect::<Result<Vec<(&InputModule, NamedTempFile)>, Error>>()?;
 
         let mut output_file = NamedTempFile::new().map_err(Error::TempOutputFileCreationFailed)?;
-        let output_file_path = output_file.path().to_string_lossy().to_string();
-
-        let merge_command = format!(
-            concat!(
-                "wasm-merge",
-                " {bash_arguments} ",
-                "{merge_name_combinations} -o {output_file_path}",
-            ),
-            bash_arguments = self.as_bash_arguments(),
-            merge_name_combinations = merge_name_combinations,
-            output_file_path = output_file_path,
-        );
 
         // FIXME: move this to separate file, splitting up functionality
         // FIXME: this implementation shares constructs with wastrumentation-instr-lib (code-dupe)
 
-        let mut command_merge = Command::new("bash");
-        command_merge.args(["-c", &merge_command]);
+        // Arguments are passed on as-is (no shell is involved), since neither
+        // namespaces nor paths are restricted to be free of shell syntax.
+        let mut command_merge = Command::new("wasm-merge");
+        command_merge.args(self.as_bash_arguments().split_whitespace());
+        for (InputModule { namespace, .. }, input_module) in &merges {
+            command_merge.arg(input_module.path()).arg(namespace);
+        }
+        command_merge.arg("-o").arg(output_file.path());
 
         // Kick off command, i.e. merge
         let command_output = command_merge
-- 
2.43.0


From acf7fe706830937a9f93602b51e6d0c1e23131b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:00 +0000
Subject: [PATCH 2/5] fix: report a wasm-merge run that fails silently

A non-zero exit status (or a signal) without anything on stderr was reported
as a successful merge, returning whatever the output file held.
---
 wasm-merge/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wasm-merge/src/lib.rs b/wasm-merge/src/lib.rs
index 18673e9..1bcea8f 100644
--- a/wasm-merge/src/lib.rs
+++ b/wasm-merge/src/lib.rs
@@ -126,6 +126,11 @@ impl MergeOptions<'_> {
             return Err(Error::MergeExecutionFailedReason(std_err_string));
         }
 
+        if !command_output.status.success() {
+            let status = command_output.status.to_string();
+            return Err(Error::MergeExecutionFailedReason(status));
+        }
+
         let mut result = Vec::new();
         output_file
             .read_to_end(&mut result)
-- 
2.43.0


From 2861e20ab975844677bd47fbfdb22b920c9f590d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:50 +0000
Subject: [PATCH 3/5] fix: keep comments inside guest code from swallowing its
 end delimiter

---
 wasp-compiler/wasp.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wasp-compiler/wasp.pest b/wasp-compiler/wasp.pest
index 185c18b..5bd6030 100644
--- a/wasp-compiler/wasp.pest
+++ b/wasp-compiler/wasp.pest
@@ -9,7 +9,7 @@ wasp_input = { SOI ~ wasp ~ EOI }
 wasp       = { "(" ~ "aspect" ~ ("(" ~ advice_definition ~ ")")* ~ ")" }
 
 // Guest language block, currently hardcoded AssemblyScript
-GUEST_BLOCK = { ">>>GUEST>>>" ~ (!"<<<GUEST<<<" ~ ANY)* ~ "<<<GUEST<<<" }
+GUEST_BLOCK = @{ ">>>GUEST>>>" ~ (!"<<<GUEST<<<" ~ ANY)* ~ "<<<GUEST<<<" }
 
 // Advice definitions
 advice_definition = { advice_global | advice_trap }
-- 
2.43.0


From c863630bc58b82f29eff7d3f263f6b1352a958cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:25 +0000
Subject: [PATCH 4/5] fix: trap out of bounds when the address given to a
 memory helper exceeds 32 bits

---
 wastrumentation/src/instrument/memory.rs | 87 ++++++++++++++++--------
 1 file changed, 59 insertions(+), 28 deletions(-)

diff --git a/wastrumentation/src/instrument/memory.rs b/wastrumentation/src/instrument/memory.rs
index e485df2..3c30b8b 100644
--- a/wastrumentation/src/instrument/memory.rs
+++ b/wastrumentation/src/instrument/memory.rs
@@ -370,8 +370,49 @@ impl Serialize for LoadOp {
     }
 }
 
+/// The address `ptr + offset` of an access, `offset` being in the given parameter.
+/// Such an address has 33 bits: a sum that does not fit 32 bits is out of bounds, it does not wrap.
+fn effective_address(offset_param: u32) -> Vec<wasabi_wasm::Instr> {
+    use wasabi_wasm::Instr::{Binary, Const, Drop, End, If, Load, Local};
+    use wasabi_wasm::LoadOp::I32Load8U;
+
+    let sum = || {
+        [
+            Local(LocalOp::Get, 0_u32.into()),
+            // [ptr]
+            Local(LocalOp::Get, offset_param.into()),
+            // [ptr, offset]
+            Binary(wasabi_wasm::BinaryOp::I32Add),
+            // [ptr + offset]
+        ]
+    };
+    let trap_out_of_bounds = [
+        Const(Val::I32(-1)),
+        Load(
+            I32Load8U,
+            Memarg {
+                offset: u32::MAX,
+                ..Memarg::default(I32Load8U)
+            },
+        ),
+        Drop,
+    ];
+
+    let mut address = Vec::new();
+    address.extend(sum());
+    address.push(Local(LocalOp::Get, 0_u32.into()));
+    // [ptr + offset, ptr]
+    address.push(Binary(wasabi_wasm::BinaryOp::I32LtU));
+    // [overflows]
+    address.push(If(FunctionType::empty()));
+    address.extend(trap_out_of_bounds);
+    address.push(End);
+    address.extend(sum());
+    address
+}
+
 pub fn inject_memory_loads(module: &mut Module) {
-    use wasabi_wasm::Instr::{Binary, Const, End, Load, Local};
+    use wasabi_wasm::Instr::{Const, End, Load};
     use wasabi_wasm::LoadOp::{F32Load, F64Load, I32Load, I64Load}; // Regular
     use wasabi_wasm::LoadOp::{I32Load16S, I32Load16U, I32Load8S, I32Load8U}; // I32 Specialized
     use wasabi_wasm::LoadOp::{
@@ -414,18 +455,13 @@ pub fn inject_memory_loads(module: &mut Module) {
                 End,
             ]
         } else {
-            vec![
-                // []
-                Local(LocalOp::Get, 0_u32.into()),
-                // [ptr]
-                Local(LocalOp::Get, 1_u32.into()),
-                // [ptr, offset]
-                Binary(wasabi_wasm::BinaryOp::I32Add),
-                // [ptr + offset]
-                Load(load_op, Memarg::default(load_op)),
-                // [value]
-                End,
-            ]
+            // []
+            let mut body = effective_address(1);
+            // [ptr + offset]
+            body.push(Load(load_op, Memarg::default(load_op)));
+            // [value]
+            body.push(End);
+            body
         };
 
         let memory_function_idx = module.add_function(function_type, vec![], body);
@@ -437,7 +473,7 @@ pub fn inject_memory_loads(module: &mut Module) {
 }
 
 pub fn inject_memory_stores(module: &mut Module) {
-    use wasabi_wasm::Instr::{Binary, End, Local, Store};
+    use wasabi_wasm::Instr::{End, Local, Store};
     use wasabi_wasm::StoreOp::{F32Store, F64Store, I32Store, I64Store}; // Regular
     use wasabi_wasm::StoreOp::{I32Store16, I32Store8}; // I32 Specialized
     use wasabi_wasm::StoreOp::{I64Store16, I64Store32, I64Store8}; // I64 Specialized
@@ -462,20 +498,15 @@ pub fn inject_memory_stores(module: &mut Module) {
         let body = if module.memories.is_empty() {
             vec![End]
         } else {
-            vec![
-                // []
-                Local(LocalOp::Get, 0_u32.into()),
-                // [ptr]
-                Local(LocalOp::Get, 2_u32.into()),
-                // [ptr, offset]
-                Binary(wasabi_wasm::BinaryOp::I32Add),
-                // [ptr + offset]
-                Local(LocalOp::Get, 1_u32.into()),
-                // [ptr + offset, value]
-                Store(store_op, Memarg::default(store_op)),
-                // []
-                End,
-            ]
+            // []
+            let mut body = effective_address(2);
+            // [ptr + offset]
+            body.push(Local(LocalOp::Get, 1_u32.into()));
+            // [ptr + offset, value]
+            body.push(Store(store_op, Memarg::default(store_op)));
+            // []
+            body.push(End);
+            body
         };
 
         let memory_function_idx: Idx<Function> = module.add_function(function_type, vec![], body);
-- 
2.43.0


From a6adab8d68df8623cb4b2105081f2ffc052f5f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:25 +0000
Subject: [PATCH 5/5] fix: write the whole static analysis result, whatever one
 write takes

---
 wastrumentation-static-analysis/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wastrumentation-static-analysis/src/main.rs b/wastrumentation-static-analysis/src/main.rs
index 6a500ce..642f90e 100644
--- a/wastrumentation-static-analysis/src/main.rs
+++ b/wastrumentation-static-analysis/src/main.rs
@@ -48,6 +48,6 @@ fn main() -> anyhow::Result<()> {
                     .expect("Cannot convert to usize")
         });
     }
-    let _ = output_path.write(&serde_json::ser::to_vec(&results)?)?;
+    output_path.write_all(&serde_json::ser::to_vec(&results)?)?;
     Ok(())
 }
-- 
2.43.0

