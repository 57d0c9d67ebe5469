From 34f0f4e2afa1aaae0bc104d994c97068f49a040b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:01:35 +0000
Subject: [PATCH 01/10] fix: do not reserve memory for a declared vector length

The element count comes from the input and is not backed by any data yet.
A 13 byte file could request hundreds of gigabytes and abort the process.
Grow the vector as elements are decoded instead.
---
 whasm/src/binary/core/vec.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/whasm/src/binary/core/vec.rs b/whasm/src/binary/core/vec.rs
index c1f359a..f2059e6 100644
--- a/whasm/src/binary/core/vec.rs
+++ b/whasm/src/binary/core/vec.rs
@@ -55,7 +55,7 @@ use crate::binary::{WasmBinary, WasmBinaryParse, WasmBinaryParseProxy, Result};
 impl<T: WasmBinaryParse> WasmBinaryParse for Vec<T> {
     fn parse<Binary: WasmBinary>(bin: &mut Binary) -> Result<Self> {
         let n: u32 = bin.parse()?;
-        let mut result = Vec::with_capacity(n as usize);
+        let mut result = vec![];
         for _ in 0..n {
             result.push(bin.parse()?);
         }
@@ -87,7 +87,7 @@ pub struct UnwrappingVec<T: WasmBinaryParseProxy> ( Vec<T::Inner> );
 impl<T: WasmBinaryParseProxy> WasmBinaryParse for UnwrappingVec<T> {
     fn parse<Binary: WasmBinary>(bin: &mut Binary) -> Result<Self> {
         let n: u32 = bin.parse()?;
-        let mut result = Vec::with_capacity(n as usize);
+        let mut result = vec![];
         for _ in 0..n {
             result.push(<T as WasmBinaryParse>::parse(bin)?.unwrap());
         }
-- 
2.43.0


From 05844b55819c743ad91ba4ae6f160b56eee3db07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:20 +0000
Subject: [PATCH 02/10] fix: reject a function section without a code section

The two section lengths were compared only while decoding the code section.
A module that declares functions and then ends was accepted, with the
declared functions silently dropped.
---
 whasm/src/binary/module.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/whasm/src/binary/module.rs b/whasm/src/binary/module.rs
index f109086..a0f493d 100644
--- a/whasm/src/binary/module.rs
+++ b/whasm/src/binary/module.rs
@@ -67,6 +67,11 @@ impl WasmBinaryParse for module::Module {
             }
         }
 
+        // covers the case where the code section is missing
+        if result.funcs.len() != func_types.len() {
+            return Err(Error::UnexpectedEndOfFile);
+        }
+
         Ok(result)
     }
 }
-- 
2.43.0


From b8db75a0f51ed794d69a45a14f4dd8cff66d64c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:48 +0000
Subject: [PATCH 03/10] fix: accept memories of exactly 65536 pages

A memory may have up to 2^16 pages. The check was off by one and rejected
modules that declare the full 4 GiB address space.
---
 whasm/src/validation/ty.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whasm/src/validation/ty.rs b/whasm/src/validation/ty.rs
index 9ddcaa9..07b2f1a 100644
--- a/whasm/src/validation/ty.rs
+++ b/whasm/src/validation/ty.rs
@@ -38,7 +38,7 @@ impl<'a> Validate<'a> for ty::Mem {
     type ValidationResult = ();
     fn validate(&'a self, ctx: &mut Context<'a>) -> Result<Self::ValidationResult> {
         let range = self.lim.validate(ctx)?;
-        if !(range <= (std::u16::MAX as u32)) {
+        if !(range <= 65536) {
             return Err(Error::UnexpectedEndOfFile);
         }
         Ok(())
-- 
2.43.0


From d8121d226ee6f246cb368adbdf53231a99a91cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:48 +0000
Subject: [PATCH 04/10] fix: resolve global initialisers against the imported
 globals

An initialiser may only refer to imported globals. It was checked against
the globals the module defines, so reading an imported global was rejected
and reading the global being defined was accepted.
---
 whasm/src/validation/module.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whasm/src/validation/module.rs b/whasm/src/validation/module.rs
index f4d45f8..1c86d1e 100644
--- a/whasm/src/validation/module.rs
+++ b/whasm/src/validation/module.rs
@@ -31,7 +31,7 @@ impl<'a> Validate<'a> for module::Module {
     fn validate(&'a self, _ctx: &mut Context<'a>) -> Result<Self::ValidationResult> {
         let mut ctx = Context::from(&self)?;
         let mut ctx_globals = Context::default();
-        ctx_globals.use_globals(&self.globals);
+        ctx_globals.use_imported_globals(&self.imports);
 
         for ty in self.types.iter() {
             ty.validate(&mut ctx)?;
-- 
2.43.0


From 7bafa2588a28a67deab96c9471cf7d54b2d4978d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:48 +0000
Subject: [PATCH 05/10] fix: count imports towards the limit of one table and
 one memory

A module that imports a memory and defines another one was accepted.
---
 whasm/src/validation/module.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/whasm/src/validation/module.rs b/whasm/src/validation/module.rs
index 1c86d1e..846bdca 100644
--- a/whasm/src/validation/module.rs
+++ b/whasm/src/validation/module.rs
@@ -68,10 +68,10 @@ impl<'a> Validate<'a> for module::Module {
             exports.push(ty);
         }
 
-        if !(self.tables.len() <= 1) {
+        if !(ctx.tables.len() <= 1) {
             return Err(Error::UnexpectedEndOfFile);
         }
-        if !(self.mems.len() <= 1) {
+        if !(ctx.mems.len() <= 1) {
             return Err(Error::UnexpectedEndOfFile);
         }
 
-- 
2.43.0


From 51379a80afe9259681020f623b2f571b04b21005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:48 +0000
Subject: [PATCH 06/10] fix: allow branching to the label of the function body

The outermost label belongs to the function itself and branching to it
returns from the function. Such branches were rejected.
---
 whasm/src/validation/idx.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/whasm/src/validation/idx.rs b/whasm/src/validation/idx.rs
index 562bb2b..5a7bd24 100644
--- a/whasm/src/validation/idx.rs
+++ b/whasm/src/validation/idx.rs
@@ -71,10 +71,9 @@ impl<'a> Validate<'a> for idx::Label {
     type ValidationResult = Frame<'a>;
     fn validate(&'a self, ctx: &mut Context<'a>) -> Result<Self::ValidationResult> {
         let idx = self.0 as usize;
-        // the stack must have at least idx+1 elements
-        // since the base frame can not be indexed with
-        // a label.
-        if !( idx + 1 < ctx.stacks.frames.len() ) {
+        // the base frame is the implicit block of the function
+        // body, and it can be indexed with a label too.
+        if !( idx < ctx.stacks.frames.len() ) {
             return Err(Error::UnexpectedEndOfFile);
         }
         let idx = ctx.stacks.frames.len() - idx - 1;
-- 
2.43.0


From c74e1e13be20df776e52e85731a1632ff752abeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:48 +0000
Subject: [PATCH 07/10] fix: check the alignment of loads and stores

The alignment of a memory access must not exceed its width. The check was
disabled because it was looking at the offset, which is the second
immediate and not the first one.
---
 whasm/src/validation/instr.rs | 60 +++++++++++++++++------------------
 1 file changed, 29 insertions(+), 31 deletions(-)

diff --git a/whasm/src/validation/instr.rs b/whasm/src/validation/instr.rs
index f750d85..dcd1134 100644
--- a/whasm/src/validation/instr.rs
+++ b/whasm/src/validation/instr.rs
@@ -160,74 +160,74 @@ impl<'a> Validate<'a> for instr::Instr {
             }
             // ... reserved ...
             // Memory load
-            /* 0x28 */ Instr::I32Load(_offset, align) => {
+            /* 0x28 */ Instr::I32Load(align, _offset) => {
                 validate_load(ctx, *align, 32, ty::Val::I32)?;
             }
-            /* 0x29 */ Instr::I64Load(_offset, align) => {
+            /* 0x29 */ Instr::I64Load(align, _offset) => {
                 validate_load(ctx, *align, 64, ty::Val::I64)?;
             }
-            /* 0x2A */ Instr::F32Load(_offset, align) => {
+            /* 0x2A */ Instr::F32Load(align, _offset) => {
                 validate_load(ctx, *align, 32, ty::Val::F32)?;
             }
-            /* 0x2B */ Instr::F64Load(_offset, align) => {
+            /* 0x2B */ Instr::F64Load(align, _offset) => {
                 validate_load(ctx, *align, 64, ty::Val::F64)?;
             }
-            /* 0x2C */ Instr::I32Load8S(_offset, align) => {
+            /* 0x2C */ Instr::I32Load8S(align, _offset) => {
                 validate_load(ctx, *align, 8, ty::Val::I32)?;
             }
-            /* 0x2D */ Instr::I32Load8U(_offset, align) => {
+            /* 0x2D */ Instr::I32Load8U(align, _offset) => {
                 validate_load(ctx, *align, 8, ty::Val::I32)?;
             }
-            /* 0x2E */ Instr::I32Load16S(_offset, align) => {
+            /* 0x2E */ Instr::I32Load16S(align, _offset) => {
                 validate_load(ctx, *align, 16, ty::Val::I32)?;
             }
-            /* 0x2F */ Instr::I32Load16U(_offset, align) => {
+            /* 0x2F */ Instr::I32Load16U(align, _offset) => {
                 validate_load(ctx, *align, 16, ty::Val::I32)?;
             }
-            /* 0x30 */ Instr::I64Load8S(_offset, align) => {
+            /* 0x30 */ Instr::I64Load8S(align, _offset) => {
                 validate_load(ctx, *align, 8, ty::Val::I64)?;
             }
-            /* 0x31 */ Instr::I64Load8U(_offset, align) => {
+            /* 0x31 */ Instr::I64Load8U(align, _offset) => {
                 validate_load(ctx, *align, 8, ty::Val::I64)?;
             }
-            /* 0x32 */ Instr::I64Load16S(_offset, align) => {
+            /* 0x32 */ Instr::I64Load16S(align, _offset) => {
                 validate_load(ctx, *align, 16, ty::Val::I64)?;
             }
-            /* 0x33 */ Instr::I64Load16U(_offset, align) => {
+            /* 0x33 */ Instr::I64Load16U(align, _offset) => {
                 validate_load(ctx, *align, 16, ty::Val::I64)?;
             }
-            /* 0x34 */ Instr::I64Load32S(_offset, align) => {
+            /* 0x34 */ Instr::I64Load32S(align, _offset) => {
                 validate_load(ctx, *align, 32, ty::Val::I64)?;
             }
-            /* 0x35 */ Instr::I64Load32U(_offset, align) => {
+            /* 0x35 */ Instr::I64Load32U(align, _offset) => {
                 validate_load(ctx, *align, 32, ty::Val::I64)?;
             }
             // Memory store
-            /* 0x36 */ Instr::I32Store(_offset, align) => {
+            /* 0x36 */ Instr::I32Store(align, _offset) => {
                 validate_store(ctx, *align, 32, ty::Val::I32)?;
             }
-            /* 0x37 */ Instr::I64Store(_offset, align) => {
+            /* 0x37 */ Instr::I64Store(align, _offset) => {
                 validate_store(ctx, *align, 64, ty::Val::I64)?;
             }
-            /* 0x38 */ Instr::F32Store(_offset, align) => {
+            /* 0x38 */ Instr::F32Store(align, _offset) => {
                 validate_store(ctx, *align, 32, ty::Val::F32)?;
             }
-            /* 0x39 */ Instr::F64Store(_offset, align) => {
+            /* 0x39 */ Instr::F64Store(align, _offset) => {
                 validate_store(ctx, *align, 64, ty::Val::F64)?;
             }
-            /* 0x3A */ Instr::I32Store8(_offset, align) => {
+            /* 0x3A */ Instr::I32Store8(align, _offset) => {
                 validate_store(ctx, *align, 8, ty::Val::I32)?;
             }
-            /* 0x3B */ Instr::I32Store16(_offset, align) => {
+            /* 0x3B */ Instr::I32Store16(align, _offset) => {
                 validate_store(ctx, *align, 16, ty::Val::I32)?;
             }
-            /* 0x3C */ Instr::I64Store8(_offset, align) => {
+            /* 0x3C */ Instr::I64Store8(align, _offset) => {
                 validate_store(ctx, *align, 8, ty::Val::I64)?;
             }
-            /* 0x3D */ Instr::I64Store16(_offset, align) => {
+            /* 0x3D */ Instr::I64Store16(align, _offset) => {
                 validate_store(ctx, *align, 16, ty::Val::I64)?;
             }
-            /* 0x3E */ Instr::I64Store32(_offset, align) => {
+            /* 0x3E */ Instr::I64Store32(align, _offset) => {
                 validate_store(ctx, *align, 32, ty::Val::I64)?;
             }
             // Memory management
@@ -760,25 +760,23 @@ impl<'a> Validate<'a> for instr::Instr {
     }
 }
 
-fn validate_load<'a>(ctx: &mut Context<'a>, _align: u32, _size: u32, val: ty::Val) -> Result<()> {
+fn validate_load<'a>(ctx: &mut Context<'a>, align: u32, size: u32, val: ty::Val) -> Result<()> {
     idx::Mem(0).validate(ctx)?;
-    /*
-    if !( 1<<align <= size/8 ) {
+    // the alignment is stored as an exponent of 2
+    if !( align < 32 && 1u32<<align <= size/8 ) {
         return Err(Error::UnexpectedEndOfFile);
     }
-    */
     ctx.stacks.pop_operands(&[ty::Val::I32])?;
     ctx.stacks.push_operands(&[val]);
     Ok(())
 }
 
-fn validate_store<'a>(ctx: &mut Context<'a>, _align: u32, _size: u32, val: ty::Val) -> Result<()> {
+fn validate_store<'a>(ctx: &mut Context<'a>, align: u32, size: u32, val: ty::Val) -> Result<()> {
     idx::Mem(0).validate(ctx)?;
-    /*
-    if !( 1<<align <= size/8 ) {
+    // the alignment is stored as an exponent of 2
+    if !( align < 32 && 1u32<<align <= size/8 ) {
         return Err(Error::UnexpectedEndOfFile);
     }
-    */
     ctx.stacks.pop_operands(&[ty::Val::I32, val])?;
     Ok(())
 }
\ No newline at end of file
-- 
2.43.0


From 7378700dce044603bb7bf50540aa823d774b729a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:04:06 +0000
Subject: [PATCH 08/10] Add a scheduling point to instruction validation for
 simulation

The point is compiled only with --cfg whasm_sim and is off by default.
---
 whasm/src/validation/instr.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/whasm/src/validation/instr.rs b/whasm/src/validation/instr.rs
index dcd1134..62c7236 100644
--- a/whasm/src/validation/instr.rs
+++ b/whasm/src/validation/instr.rs
@@ -39,9 +39,17 @@ impl<'a> Validate<'a> for instr::ConstExpr {
     }
 }
 
+#[cfg(whasm_sim)]
+extern "Rust" {
+    // scheduling point, defined by the simulation harness
+    fn whasm_sim_point();
+}
+
 impl<'a> Validate<'a> for instr::Instr {
     type ValidationResult = ();
     fn validate(&'a self, ctx: &mut Context<'a>) -> Result<Self::ValidationResult> {
+        #[cfg(whasm_sim)]
+        unsafe { whasm_sim_point() };
         match self {
             // Control flow
             /* 0x00 */ Instr::Unreachable => {
-- 
2.43.0


From 7277377dfc6adbda54463fc809b54ef9662535c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:12 +0000
Subject: [PATCH 09/10] fix: accept file names that are not valid UTF-8

The argument list was collected as strings, so a file name that is not
valid UTF-8 made the program panic with status 101.
---
 parser/src/main.rs | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/parser/src/main.rs b/parser/src/main.rs
index 992e85e..45f4c15 100644
--- a/parser/src/main.rs
+++ b/parser/src/main.rs
@@ -1,20 +1,21 @@
+use std::ffi::OsString;
 use std::io::Read;
 use whasm::structure::{module::Module};
 use whasm::binary::{WasmBinary};
 use whasm::validation::{ValidationEntry};
 
 fn main() {
-    let args: Vec<String> = std::env::args().collect();
+    let args: Vec<OsString> = std::env::args_os().collect();
     let config = Config::new(&args)
         .unwrap_or_else(|err| {
             println!("Problem pargin input arguments: {}", err);
-            println!("Usage: {} [-p|--print] file.wasm", args[0]);
+            println!("Usage: {} [-p|--print] file.wasm", args[0].to_string_lossy());
             std::process::exit(1);
         });
 
     let mut file = std::fs::File::open(&config.filename)
         .unwrap_or_else(|err| {
-            println!("Could not open file \"{}\"", config.filename);
+            println!("Could not open file \"{}\"", config.filename.to_string_lossy());
             println!("{}", err);
             std::process::exit(1);
         });
@@ -22,7 +23,7 @@ fn main() {
     let mut buffer = Vec::new();
     file.read_to_end(&mut buffer)
         .unwrap_or_else(|err| {
-            println!("Could not read file \"{}\"", config.filename);
+            println!("Could not read file \"{}\"", config.filename.to_string_lossy());
             println!("{}", err);
             std::process::exit(1);
         });
@@ -31,14 +32,14 @@ fn main() {
 
     let module: Module = iter.parse()
         .unwrap_or_else(|err| {
-            println!("Error parsing file \"{}\".", config.filename);
+            println!("Error parsing file \"{}\".", config.filename.to_string_lossy());
             println!("{}", err);
             std::process::exit(1);
         });
 
     module.validate()
         .unwrap_or_else(|err| {
-            println!("Error validating file \"{}\".", config.filename);
+            println!("Error validating file \"{}\".", config.filename.to_string_lossy());
             println!("{}", err);
             std::process::exit(1);
         });
@@ -49,29 +50,29 @@ fn main() {
 }
 
 struct Config {
-    filename: String,
+    filename: OsString,
     print: bool,
 }
 
 impl Config {
-    fn new(args: &[String]) -> Result<Config, Box<dyn std::error::Error>> {
+    fn new(args: &[OsString]) -> Result<Config, Box<dyn std::error::Error>> {
         let mut print = false;
-        let mut filename = "".into();
+        let mut filename = OsString::new();
 
         let mut args = args.iter();
         let _binname = args.next().ok_or("Not enough arguments.")?;
         for arg in args {
-            match &arg[..] {
-                "-p" | "--print" => {
+            match arg.to_str() {
+                Some("-p") | Some("--print") => {
                     print = true;
                 },
-                other => {
-                    filename = other.into();
+                _ => {
+                    filename = arg.clone();
                 },
             }
         }
 
-        if filename == "" {
+        if filename.is_empty() {
             return Err("Not enough arguments.")?;
         }
 
-- 
2.43.0


From 760346b98bd43cdc59f0180a1c3c05b133eb2ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:14:30 +0000
Subject: [PATCH 10/10] fix: name unsigned integers in their out of range
 message

---
 whasm/src/binary/core/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whasm/src/binary/core/error.rs b/whasm/src/binary/core/error.rs
index fd03eaa..dc7817c 100644
--- a/whasm/src/binary/core/error.rs
+++ b/whasm/src/binary/core/error.rs
@@ -15,7 +15,7 @@ pub enum Error {
     #[error(display = "Reading out of range signed integer.")]
     OutOfRangeSignedInteger,
 
-    #[error(display = "Reading out of range signed integer.")]
+    #[error(display = "Reading out of range unsigned integer.")]
     OutOfRangeUnsignedInteger,
 
     #[error(display = "Byte sequence is not a valid utf-8 encoding.")]
-- 
2.43.0

