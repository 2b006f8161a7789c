From 36ca9dac4335a9b0f4467eff78b9b7a04c9231c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:25 +0000
Subject: [PATCH 01/20] fix: report duplicate identifiers in source order

Duplicates were reported in the iteration order of a HashMap, so the same
tree produced differently ordered diagnostics from run to run.
---
 crates/syntax/src/semantics.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/syntax/src/semantics.rs b/crates/syntax/src/semantics.rs
index 933f501..c70ba7c 100644
--- a/crates/syntax/src/semantics.rs
+++ b/crates/syntax/src/semantics.rs
@@ -134,7 +134,13 @@ impl<'t> SemanticAnalyzer<'t> {
         .unwrap();
 
         // Check for duplicate conditions.
-        for spans in self.identifiers.clone().into_values() {
+        //
+        // Report them in source order, since the order in which a `HashMap`
+        // yields its values changes between runs.
+        let mut identifiers: Vec<_> =
+            self.identifiers.clone().into_values().collect();
+        identifiers.sort();
+        for spans in identifiers {
             if spans.len() > 1 {
                 self.error(
                     // FIXME: This is a patch until we start storing locations
-- 
2.43.0


From 59603ad78a134944e0d10572c39b3245ee07d764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:42 +0000
Subject: [PATCH 02/20] fix: write scaffolded files atomically and report
 failures

A file that appears after the existence check is no longer overwritten, a
failed write leaves the old content in place, and the error reaches the exit
status.
---
 crates/bulloak/src/main.rs     |   1 +
 crates/bulloak/src/output.rs   | 130 +++++++++++++++++++++++++++++++++
 crates/bulloak/src/scaffold.rs |  18 +++--
 3 files changed, 141 insertions(+), 8 deletions(-)
 create mode 100644 crates/bulloak/src/output.rs

diff --git a/crates/bulloak/src/main.rs b/crates/bulloak/src/main.rs
index 797aaf3..93cb3d4 100644
--- a/crates/bulloak/src/main.rs
+++ b/crates/bulloak/src/main.rs
@@ -3,6 +3,7 @@ use std::process;
 
 mod check;
 mod cli;
+mod output;
 mod scaffold;
 
 fn main() {
diff --git a/crates/bulloak/src/output.rs b/crates/bulloak/src/output.rs
new file mode 100644
index 0000000..61e99da
--- /dev/null
+++ b/crates/bulloak/src/output.rs
@@ -0,0 +1,130 @@
+//! Storing the output of a command on disk.
+//!
+//! An output path holds its complete old or its complete new content at all
+//! times: the text is first written to a temporary file in the same directory,
+//! which then takes the place of the output in a single step.
+use std::{
+    fs::{self, File, OpenOptions},
+    io::{self, Write},
+    path::{Path, PathBuf},
+    process,
+};
+
+/// The outcome of [`create`].
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+pub(crate) enum Created {
+    /// The file was created with the complete text.
+    Yes,
+    /// Something exists at the path, and was left alone.
+    AlreadyExists,
+}
+
+/// Creates the file at `path` with `text`, unless something exists there.
+pub(crate) fn create(path: &Path, text: &str) -> io::Result<Created> {
+    if path.exists() {
+        return Ok(Created::AlreadyExists);
+    }
+
+    let tmp = write_temporary(path, text, None)?;
+    // Unlike renaming, linking never replaces an existing file.
+    let mut result = fs::hard_link(&tmp, path);
+    // The temporary name is not needed in any case. If it can't be removed
+    // there is nothing left to do about it.
+    let _ = fs::remove_file(&tmp);
+
+    if result.as_ref().is_err_and(lacks_hard_links) {
+        result = create_in_place(path, text);
+    }
+
+    match result {
+        Ok(()) => Ok(Created::Yes),
+        Err(e) if e.kind() == io::ErrorKind::AlreadyExists => {
+            Ok(Created::AlreadyExists)
+        }
+        Err(e) => Err(e),
+    }
+}
+
+/// Replaces the content of the file at `path` with `text`, creating the file
+/// if it doesn't exist.
+pub(crate) fn replace(path: &Path, text: &str) -> io::Result<()> {
+    // Follow symbolic links, so that the file they point to is replaced.
+    let path = match fs::canonicalize(path) {
+        Ok(path) => path,
+        Err(e) if e.kind() == io::ErrorKind::NotFound => path.to_path_buf(),
+        Err(e) => return Err(e),
+    };
+    // Don't replace what we're not allowed to write to.
+    let permissions = match OpenOptions::new().write(true).open(&path) {
+        Ok(file) => Some(file.metadata()?.permissions()),
+        Err(e) if e.kind() == io::ErrorKind::NotFound => None,
+        Err(e) => return Err(e),
+    };
+
+    let tmp = write_temporary(&path, text, permissions)?;
+    fs::rename(&tmp, &path).inspect_err(|_| {
+        let _ = fs::remove_file(&tmp);
+    })
+}
+
+/// Writes `text` to a new file next to `path`.
+fn write_temporary(
+    path: &Path,
+    text: &str,
+    permissions: Option<fs::Permissions>,
+) -> io::Result<PathBuf> {
+    let (tmp, mut file) = create_temporary(path)?;
+    let write = || {
+        file.write_all(text.as_bytes())?;
+        if let Some(permissions) = permissions {
+            file.set_permissions(permissions)?;
+        }
+        // The text must be on disk before its name is.
+        file.sync_all()
+    };
+    match write() {
+        Ok(()) => Ok(tmp),
+        Err(e) => {
+            let _ = fs::remove_file(&tmp);
+            Err(e)
+        }
+    }
+}
+
+/// Creates an empty file next to `path`, with a name that isn't in use.
+fn create_temporary(path: &Path) -> io::Result<(PathBuf, File)> {
+    const ATTEMPTS: usize = 1000;
+    let mut attempt = 0;
+    loop {
+        let name = format!(".bulloak-{}-{attempt}.tmp", process::id());
+        let tmp = path.with_file_name(name);
+        match OpenOptions::new().write(true).create_new(true).open(&tmp) {
+            Ok(file) => return Ok((tmp, file)),
+            Err(e)
+                if e.kind() == io::ErrorKind::AlreadyExists
+                    && attempt < ATTEMPTS =>
+            {
+                attempt += 1
+            }
+            Err(e) => return Err(e),
+        }
+    }
+}
+
+/// Whether linking failed because the file system doesn't have hard links.
+fn lacks_hard_links(error: &io::Error) -> bool {
+    // `EPERM` on Unix, `ERROR_INVALID_FUNCTION` on Windows.
+    const NOT_PERMITTED: i32 = 1;
+    error.kind() == io::ErrorKind::Unsupported
+        || error.raw_os_error() == Some(NOT_PERMITTED)
+}
+
+/// Creates the file at `path` with `text` where hard links aren't available.
+fn create_in_place(path: &Path, text: &str) -> io::Result<()> {
+    let mut file = OpenOptions::new().write(true).create_new(true).open(path)?;
+    file.write_all(text.as_bytes())
+        .and_then(|()| file.sync_all())
+        .inspect_err(|_| {
+            let _ = fs::remove_file(path);
+        })
+}
diff --git a/crates/bulloak/src/scaffold.rs b/crates/bulloak/src/scaffold.rs
index 89ade96..3a9b998 100644
--- a/crates/bulloak/src/scaffold.rs
+++ b/crates/bulloak/src/scaffold.rs
@@ -13,7 +13,10 @@ use forge_fmt::fmt;
 use owo_colors::OwoColorize;
 use serde::{Deserialize, Serialize};
 
-use crate::cli::Cli;
+use crate::{
+    cli::Cli,
+    output::{self, Created},
+};
 
 /// Generate Solidity tests based on your spec.
 #[doc(hidden)]
@@ -96,7 +99,7 @@ impl Scaffold {
 
         if self.write_files {
             let file = file.with_extension("t.sol");
-            self.write_file(&formatted, &file);
+            self.write_file(&formatted, &file)?;
         } else {
             println!("{formatted}");
         }
@@ -108,9 +111,11 @@ impl Scaffold {
     ///
     /// If the file doesn't exist it will create it. If it exists,
     /// and `--force-write` was not passed, it will skip writing to the file.
-    fn write_file(&self, text: &str, file: &PathBuf) {
+    fn write_file(&self, text: &str, file: &PathBuf) -> anyhow::Result<()> {
         // Don't overwrite files unless `--force-write` was passed.
-        if file.exists() && !self.force_write {
+        if self.force_write {
+            output::replace(file, text)?;
+        } else if output::create(file, text)? == Created::AlreadyExists {
             eprintln!(
                 "{}: Skipped emitting {:?}",
                 "warn".yellow(),
@@ -120,12 +125,9 @@ impl Scaffold {
                 "    {} The corresponding `.t.sol` file already exists",
                 "=".blue()
             );
-            return;
         }
 
-        if let Err(err) = fs::write(file, text) {
-            eprintln!("{}: {err}", "error".red());
-        };
+        Ok(())
     }
 
     /// Reports errors that occurred during file processing.
-- 
2.43.0


From 2535f79a97a6bca0f7e9d03f61f75b97622e61ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:20 +0000
Subject: [PATCH 03/20] fix: report what `check --fix` could not fix

Violations found while reading a tree or its Solidity file were dropped, and a
failure to format or to store a fixed file still ended in success.
---
 crates/bulloak/src/check.rs | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/crates/bulloak/src/check.rs b/crates/bulloak/src/check.rs
index 5b736ad..05bb558 100644
--- a/crates/bulloak/src/check.rs
+++ b/crates/bulloak/src/check.rs
@@ -3,7 +3,7 @@
 //! This command performs checks on the relationship between a bulloak tree and
 //! a Solidity file.
 
-use std::{fs, path::PathBuf};
+use std::path::{Path, PathBuf};
 
 use bulloak_foundry::{
     check::{
@@ -19,7 +19,7 @@ use clap::Parser;
 use owo_colors::OwoColorize;
 use serde::{Deserialize, Serialize};
 
-use crate::cli::Cli;
+use crate::{cli::Cli, output};
 
 /// Check that the tests match the spec.
 #[doc(hidden)]
@@ -65,6 +65,7 @@ impl Check {
 
         if self.fix {
             let mut fixed_count = 0;
+            let mut failed = false;
             for mut ctx in ctxs {
                 let violations = rules::StructuralMatcher::check(&ctx);
                 let fixable_count =
@@ -108,11 +109,14 @@ impl Check {
                 }
 
                 let sol = ctx.sol.clone();
-                let formatted =
-                    ctx.fmt().expect("should format the emitted solidity code");
-                self.write(&formatted, sol);
-
-                fixed_count += fixable_count;
+                match self.write(ctx, &sol) {
+                    Ok(()) => fixed_count += fixable_count,
+                    Err(e) => {
+                        eprintln!("{}: {e}", "warn".yellow());
+                        eprintln!("   {} {}", "-->".blue(), sol.display());
+                        failed = true;
+                    }
+                }
             }
 
             let issue_literal = pluralize(fixed_count, "issue", "issues");
@@ -122,6 +126,14 @@ impl Check {
                 fixed_count,
                 issue_literal
             );
+
+            // Some issues can't be fixed.
+            if !violations.is_empty() {
+                exit(&violations);
+            }
+            if failed {
+                std::process::exit(1);
+            }
         } else {
             for ctx in ctxs {
                 violations.append(&mut rules::StructuralMatcher::check(&ctx));
@@ -135,14 +147,17 @@ impl Check {
     ///
     /// If the `--stdout` flag was passed, then the output is printed to
     /// stdout, else it is written to the corresponding file.
-    fn write(&self, output: &str, sol: PathBuf) {
+    fn write(&self, ctx: Context, sol: &Path) -> anyhow::Result<()> {
+        let output = ctx.fmt().map_err(|e| anyhow::anyhow!("{e}"))?;
         if self.stdout {
             println!("{} {}", "-->".blue(), sol.to_string_lossy());
             println!("{}", output.trim());
             println!("{}", "<--".blue());
-        } else if let Err(e) = fs::write(sol, output) {
-            eprintln!("{}: {e}", "warn".yellow());
+        } else {
+            output::replace(sol, &output)?;
         }
+
+        Ok(())
     }
 }
 
-- 
2.43.0


From 13bcd2eaae8136733d1ddeb4f7e4a1770287759c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:36 +0000
Subject: [PATCH 04/20] fix: find lines by byte offset

A Solidity file with multi-byte characters made `bulloak check` report wrong
lines or panic.
---
 crates/foundry/src/check/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/foundry/src/check/utils.rs b/crates/foundry/src/check/utils.rs
index 9e43487..0747a2f 100644
--- a/crates/foundry/src/check/utils.rs
+++ b/crates/foundry/src/check/utils.rs
@@ -6,7 +6,7 @@ pub fn offset_to_line_column(content: &str, start: usize) -> (usize, usize) {
 
     // first line is `1`
     let mut line_counter = 1;
-    for (offset, c) in content.chars().enumerate() {
+    for (offset, c) in content.char_indices() {
         if c == '\n' {
             line_counter += 1;
         }
-- 
2.43.0


From 1a1c779e668785a04879f4b5dcf100d48aa813b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:01 +0000
Subject: [PATCH 05/20] fix: report code that can't be formatted instead of
 panicking

One tree whose titles don't make up valid Solidity ended the whole run.
---
 crates/foundry/src/scaffold/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/foundry/src/scaffold/mod.rs b/crates/foundry/src/scaffold/mod.rs
index 748ab52..68f817d 100644
--- a/crates/foundry/src/scaffold/mod.rs
+++ b/crates/foundry/src/scaffold/mod.rs
@@ -18,8 +18,9 @@ pub fn scaffold(text: &str, cfg: &Config) -> anyhow::Result<String> {
     let hir = translate(text, cfg)?;
     let pt = sol::Translator::new(cfg).translate(&hir);
     let source = sol::Formatter::new().emit(pt);
-    let formatted =
-        fmt(&source).expect("should format the emitted solidity code");
+    let formatted = fmt(&source).map_err(|e| {
+        anyhow::anyhow!("could not format the emitted solidity code: {e}")
+    })?;
 
     Ok(formatted)
 }
-- 
2.43.0


From 8c19d0930bbcd6283080e430b0681d06fd69a58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:18 +0000
Subject: [PATCH 06/20] fix: check the contract that the tree names

The first contract, library or interface of the file was taken for the test
contract, and renamed by `--fix`, even if the right one followed it.
---
 crates/bulloak/src/check.rs                   |  9 ++---
 .../src/check/rules/structural_match.rs       | 11 +++++--
 crates/foundry/src/check/violation.rs         |  6 ++--
 crates/foundry/src/sol/mod.rs                 | 33 +++++++++++++++++--
 4 files changed, 48 insertions(+), 11 deletions(-)

diff --git a/crates/bulloak/src/check.rs b/crates/bulloak/src/check.rs
index 05bb558..b2b010d 100644
--- a/crates/bulloak/src/check.rs
+++ b/crates/bulloak/src/check.rs
@@ -11,7 +11,7 @@ use bulloak_foundry::{
         rules::{self, Checker},
         violation::fix_order,
     },
-    sol::find_contract,
+    sol::find_matching_contract,
     violation::{Violation, ViolationKind},
 };
 use bulloak_syntax::utils::pluralize;
@@ -94,9 +94,10 @@ impl Check {
                     })
                     .collect();
                 if !violations.is_empty() {
-                    if let Some(contract_sol) = find_contract(&ctx.pt) {
-                        if let Some(contract_hir) =
-                            ctx.hir.clone().find_contract()
+                    if let Some(contract_hir) = ctx.hir.clone().find_contract()
+                    {
+                        if let Some(contract_sol) =
+                            find_matching_contract(&ctx.pt, contract_hir)
                         {
                             ctx = fix_order(
                                 &violations,
diff --git a/crates/foundry/src/check/rules/structural_match.rs b/crates/foundry/src/check/rules/structural_match.rs
index cbd346b..3e0f9ad 100644
--- a/crates/foundry/src/check/rules/structural_match.rs
+++ b/crates/foundry/src/check/rules/structural_match.rs
@@ -24,7 +24,7 @@ use crate::{
         violation::{Violation, ViolationKind},
     },
     hir::{self, Hir},
-    sol::{find_contract, find_matching_fn},
+    sol::{find_contract, find_matching_contract, find_matching_fn},
 };
 
 /// An implementation of a structural matching rule.
@@ -50,8 +50,13 @@ impl Checker for StructuralMatcher {
             _ => None,
         };
 
-        // Find the first occurrence of a contract.
-        let contract_sol = find_contract(&ctx.pt);
+        // Find the contract that corresponds to the one in the tree.
+        let contract_sol = match contract_hir {
+            Some(Hir::ContractDefinition(contract_hir)) => {
+                find_matching_contract(&ctx.pt, contract_hir)
+            }
+            _ => find_contract(&ctx.pt),
+        };
         // If we find no contract in the Solidity file, then there must
         // be no contract in the HIR, else we found a violation.
         if contract_sol.is_none() {
diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index f132294..30ef2d5 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -17,7 +17,7 @@ use super::{context::Context, location::Location};
 use crate::{
     config::Config,
     hir::{self, Hir},
-    sol::{self, find_contract, find_matching_fn},
+    sol::{self, find_matching_contract, find_matching_fn},
 };
 
 /// An error that occurred while checking specification rules between
@@ -195,7 +195,9 @@ impl ViolationKind {
                 let Some(contract_hir) = ctx.hir.find_contract() else {
                     return ctx;
                 };
-                let Some(contract_sol) = find_contract(&ctx.pt) else {
+                let Some(contract_sol) =
+                    find_matching_contract(&ctx.pt, contract_hir)
+                else {
                     return ctx;
                 };
 
diff --git a/crates/foundry/src/sol/mod.rs b/crates/foundry/src/sol/mod.rs
index 8470c14..6342dba 100644
--- a/crates/foundry/src/sol/mod.rs
+++ b/crates/foundry/src/sol/mod.rs
@@ -1,9 +1,10 @@
 //! This module implements functionality related to operating on a parse tree
 //! (PT) from `solang_parser`.
 
+use bulloak_syntax::utils::sanitize;
 use solang_parser::pt::{
-    ContractDefinition, ContractPart, FunctionDefinition, FunctionTy,
-    Identifier, SourceUnit, SourceUnitPart,
+    ContractDefinition, ContractPart, ContractTy, FunctionDefinition,
+    FunctionTy, Identifier, SourceUnit, SourceUnitPart,
 };
 
 use crate::hir::hir;
@@ -24,6 +25,34 @@ pub fn find_contract(pt: &SourceUnit) -> Option<Box<ContractDefinition>> {
     })
 }
 
+/// Searches for the contract that a HIR contract describes: the one with its
+/// name, or else the first one. Interfaces and libraries don't qualify.
+#[must_use]
+pub fn find_matching_contract(
+    pt: &SourceUnit,
+    contract_hir: &hir::ContractDefinition,
+) -> Option<Box<ContractDefinition>> {
+    let contracts = || {
+        pt.0.iter().filter_map(|part| match part {
+            SourceUnitPart::ContractDefinition(contract)
+                if matches!(
+                    contract.ty,
+                    ContractTy::Contract(_) | ContractTy::Abstract(_)
+                ) =>
+            {
+                Some(contract)
+            }
+            _ => None,
+        })
+    };
+    let name = sanitize(&contract_hir.identifier);
+
+    contracts()
+        .find(|c| c.name.as_ref().is_some_and(|id| id.name == name))
+        .or_else(|| contracts().next())
+        .cloned()
+}
+
 /// Given a HIR function, `find_matching_fn` performs a search over the sol
 /// contract parts trying to find a sol function with a matching name and type.
 pub(crate) fn find_matching_fn<'a>(
-- 
2.43.0


From 8f024d443b75aebb854d196d9bc3c952e9ad4c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:39 +0000
Subject: [PATCH 07/20] fix: keep the file's content when adding a missing
 contract

`check --fix` replaced everything in a file without a contract, like free
functions, imports and interfaces.
---
 crates/foundry/src/check/violation.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index 30ef2d5..be78e1e 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -9,7 +9,7 @@ use forge_fmt::{
 use owo_colors::OwoColorize;
 use solang_parser::{
     pt,
-    pt::{ContractDefinition, ContractPart},
+    pt::{ContractDefinition, ContractPart, SourceUnitPart},
 };
 use thiserror::Error;
 
@@ -174,9 +174,17 @@ impl ViolationKind {
     pub fn fix(&self, mut ctx: Context) -> Context {
         match self {
             ViolationKind::ContractMissing(_) => {
-                let pt = sol::Translator::new(&Config::default())
+                let mut pt = sol::Translator::new(&Config::default())
                     .translate(&ctx.hir);
-                let source = sol::Formatter::new().emit(pt.clone());
+                // Keep what the file has.
+                let mut source = ctx.src.clone();
+                if !source.trim().is_empty() {
+                    pt.0.retain(|part| {
+                        matches!(part, SourceUnitPart::ContractDefinition(_))
+                    });
+                    source.push_str("\n\n");
+                }
+                source.push_str(&sol::Formatter::new().emit(pt));
                 let parsed =
                     parse(&source).expect("should parse Solidity string");
                 ctx.from_parsed(parsed)
-- 
2.43.0


From 8ce881cb53d4629cad44e6d48c3af89d5ba0dbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:42 +0000
Subject: [PATCH 08/20] fix: rename only the test contract

`check --fix` replaced every "contract <name>" prefix: in comments, in strings
and in longer names of other contracts.
---
 crates/foundry/src/check/violation.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index be78e1e..a37ffd0 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -189,11 +189,17 @@ impl ViolationKind {
                     parse(&source).expect("should parse Solidity string");
                 ctx.from_parsed(parsed)
             }
-            ViolationKind::ContractNameNotMatches(new_name, old_name) => {
-                let source = ctx.src.replace(
-                    &format!("contract {old_name}"),
-                    &format!("contract {new_name}"),
-                );
+            ViolationKind::ContractNameNotMatches(new_name, _) => {
+                let name = ctx
+                    .hir
+                    .find_contract()
+                    .and_then(|c| find_matching_contract(&ctx.pt, c))
+                    .and_then(|c| c.name);
+                let Some(name) = name else {
+                    return ctx;
+                };
+                let mut source = ctx.src.clone();
+                source.replace_range(name.loc.range(), new_name);
                 let parsed =
                     parse(&source).expect("should parse Solidity string");
                 ctx.from_parsed(parsed)
-- 
2.43.0


From ec5c08dc81f03d760ef81d3803f2a9c227ed5c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:11 +0000
Subject: [PATCH 09/20] fix: insert missing functions next to the ones that
 exist

`check --fix --skip-modifiers` panicked when the modifier before a missing
function had been skipped.
---
 crates/foundry/src/check/violation.rs | 29 ++++++++++++++-------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index a37ffd0..cbf40af 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -246,27 +246,28 @@ impl ViolationKind {
 /// Offset position for function insertion
 ///
 /// # Panics
-/// If the contract's opening brace cannot be located when processing the first
-/// function
+/// If the contract's opening brace cannot be located when no previous function
+/// exists
 fn get_insertion_offset(
     contract_sol: &pt::ContractDefinition,
     contract_hir: &hir::ContractDefinition,
     index: usize,
     src: impl AsRef<str>,
 ) -> usize {
-    if index == 0 {
-        return find_contract_body_start(contract_sol, src.as_ref());
-    }
-
-    match &contract_hir.children[index - 1] {
-        Hir::FunctionDefinition(prev_fn_hir) => {
-            find_matching_fn(contract_sol, prev_fn_hir)
-                .expect("matching function should exist")
-                .1
-                .loc()
-                .end()
+    // The new function goes after the closest function before it in the tree
+    // that the contract has. There might be none, e.g. modifiers can be skipped.
+    let prev_fn = contract_hir.children[..index].iter().rev().find_map(|prev| {
+        match prev {
+            Hir::FunctionDefinition(prev_fn_hir) => {
+                find_matching_fn(contract_sol, prev_fn_hir)
+            }
+            _ => unreachable!("previous child should be a function definition"),
         }
-        _ => unreachable!("previous child should be a function definition"),
+    });
+
+    match prev_fn {
+        Some((_, prev_fn)) => prev_fn.loc().end(),
+        None => find_contract_body_start(contract_sol, src.as_ref()),
     }
 }
 
-- 
2.43.0


From b6358cc8059c801282654dd64f7593ed061ebbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:45 +0000
Subject: [PATCH 10/20] fix: reorder functions by their position in the file

`check --fix` moved the wrong functions when several were out of order, since
every move changed the indices of the next ones, and erased code that happened
to repeat the text of a moved function.
---
 crates/foundry/src/check/violation.rs | 75 +++++++++------------------
 1 file changed, 25 insertions(+), 50 deletions(-)

diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index cbf40af..1386b3f 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -1,5 +1,5 @@
 //! Defines a rule-checking error object.
-use std::{borrow::Cow, collections::HashSet, fmt};
+use std::{borrow::Cow, fmt};
 
 use bulloak_syntax::FrontendError;
 use forge_fmt::{
@@ -295,16 +295,13 @@ fn find_contract_body_start(
 /// Rearranges functions in a Solidity contract to match the order in the HIR.
 ///
 /// The algorithm goes like this:
-/// 1. It first creates a set of function names present in `contract_hir` to
-///    identify the functions that need to be sorted.
-/// 2. It then iterates over the `violations` to correct the order of functions
-///    in `contract_sol`, matching them with `contract_hir`.
-/// 3. Functions not part of `contract_hir` are removed, as their correct
+/// 1. It first finds the functions of `contract_hir` in `contract_sol`, in the
+///    order of `contract_hir`. Other functions are left out, as their correct
 ///    position is unknown.
-/// 4. The sorted functions are then compiled into a string (`source`) and
+/// 2. The sorted functions are then compiled into a string (`source`) and
 ///    simultaneously removed from a temporary string (`scratch`) that mirrors
 ///    the original source code.
-/// 5. Finally, the function reconstructs the contract's body by combining the
+/// 3. Finally, the function reconstructs the contract's body by combining the
 ///    sorted functions and any remaining parts of the contract (preserved in
 ///    `scratch`), ensuring all components are included in the output.
 ///
@@ -326,65 +323,43 @@ pub fn fix_order(
     contract_hir: &hir::ContractDefinition,
     ctx: Context,
 ) -> Context {
-    // 1. Create a set containing the functions that appear in the tree.
+    if violations.is_empty() {
+        return ctx;
+    }
+
+    // 1. Find the functions that appear in the tree, in the order of the tree.
     //
     // These are the functions that we know how to sort.
-    let fn_names: HashSet<String> = contract_hir
-        .children
-        .iter()
-        .filter_map(|child| {
-            if let hir::Hir::FunctionDefinition(f) = &child {
-                Some(f.identifier.clone())
-            } else {
-                None
+    let mut indices = Vec::with_capacity(contract_hir.children.len());
+    for child in &contract_hir.children {
+        if let Hir::FunctionDefinition(f) = child {
+            if let Some((idx, _)) = find_matching_fn(contract_sol, f) {
+                if !indices.contains(&idx) {
+                    indices.push(idx);
+                }
             }
-        })
-        .collect();
-
-    // 2. Properly sort functions in a new vec.
-    let mut fns = contract_sol.parts.clone();
-    for violation in violations {
-        if let ViolationKind::FunctionOrderMismatch(f, sol_idx, hir_idx) =
-            &violation.kind
-        {
-            fns.remove(*sol_idx);
-            fns.insert(
-                *hir_idx,
-                ContractPart::FunctionDefinition(Box::new(f.clone())),
-            );
         }
     }
+    let fns: Vec<&ContractPart> =
+        indices.iter().map(|&idx| &contract_sol.parts[idx]).collect();
 
-    // 3. Remove functions that are not part of the hir since
-    // we don't know where they go.
-    let fns: Vec<&ContractPart> = fns
-        .iter()
-        .filter(|f| {
-            if let ContractPart::FunctionDefinition(f) = f {
-                fn_names.contains(&f.name.safe_unwrap().name)
-            } else {
-                false
-            }
-        })
-        .collect();
-
-    // 4. a - Add the functions that appear in the tree to the blank
+    // 2. a - Add the functions that appear in the tree to the blank
     // string `source`.
     //    b - Replace them with whitespace in `scratch`.
     //
     // Since we sorted in a previous step, they'll appear sorted in
-    // the string. We do 4.b because we want to append the remaining
+    // the string. We do 2.b because we want to append the remaining
     // functions after the sorted functions.
     let mut scratch = ctx.src.clone();
     let mut source = Vec::with_capacity(fns.len());
     for f in &fns {
-        let loc = f.loc();
-        let f = ctx.src[loc.start()..loc.end()].to_owned();
-        scratch = scratch.replace(&f, " ".repeat(f.len()).as_str());
+        let range = f.loc().range();
+        let f = ctx.src[range.clone()].to_owned();
+        scratch.replace_range(range, " ".repeat(f.len()).as_str());
         source.push(f);
     }
 
-    // 5. Replace the contract's body with the sorted functions and
+    // 3. Replace the contract's body with the sorted functions and
     // the extra functions contained in the scratch string.
     // We know there is at least two parts because we found order violations.
     let first_part_loc = contract_sol.parts[0].loc();
-- 
2.43.0


From b550d3fcd405022b24d4bf510cee87f7addc32bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:25 +0000
Subject: [PATCH 11/20] fix: skip comments when looking for the contract's body

---
 crates/foundry/src/check/violation.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index 1386b3f..9fd06c7 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -285,11 +285,28 @@ fn find_contract_body_start(
     src: &str,
 ) -> usize {
     let contract_start = contract_sol.loc.start();
-    let opening_brace_pos = src[contract_start..]
-        .find('{')
-        .expect("contract should have an opening brace");
+    let mut pos = contract_start;
+    loop {
+        let rest = &src[pos..];
+        let brace_pos =
+            rest.find('{').expect("contract should have an opening brace");
 
-    contract_start + opening_brace_pos + 1
+        // Comments before the brace may contain braces of their own.
+        let comment_pos = ["//", "/*"]
+            .iter()
+            .filter_map(|start| rest[..brace_pos].find(start))
+            .min();
+        let Some(comment_pos) = comment_pos else {
+            return pos + brace_pos + 1;
+        };
+        let comment = &rest[comment_pos..];
+        let len = if comment.starts_with("//") {
+            comment.find(['\n', '\r'])
+        } else {
+            comment[2..].find("*/").map(|len| len + 4)
+        };
+        pos += comment_pos + len.unwrap_or(comment.len());
+    }
 }
 
 /// Rearranges functions in a Solidity contract to match the order in the HIR.
-- 
2.43.0


From 4bd904c6d98bc7f5cbdac3479782fc0618e75173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:34 +0000
Subject: [PATCH 12/20] fix: insert and move functions without a body as a
 whole

---
 crates/foundry/src/check/violation.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index 9fd06c7..d5acaaf 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -1,5 +1,5 @@
 //! Defines a rule-checking error object.
-use std::{borrow::Cow, fmt};
+use std::{borrow::Cow, fmt, ops::Range};
 
 use bulloak_syntax::FrontendError;
 use forge_fmt::{
@@ -9,7 +9,7 @@ use forge_fmt::{
 use owo_colors::OwoColorize;
 use solang_parser::{
     pt,
-    pt::{ContractDefinition, ContractPart, SourceUnitPart},
+    pt::{ContractDefinition, SourceUnitPart},
 };
 use thiserror::Error;
 
@@ -266,11 +266,23 @@ fn get_insertion_offset(
     });
 
     match prev_fn {
-        Some((_, prev_fn)) => prev_fn.loc().end(),
+        Some((_, prev_fn)) => fn_range(prev_fn, src.as_ref()).end,
         None => find_contract_body_start(contract_sol, src.as_ref()),
     }
 }
 
+/// Returns the byte range of a function in the source code.
+///
+/// The location of a function without a body lacks its semicolon.
+fn fn_range(f: &pt::FunctionDefinition, src: &str) -> Range<usize> {
+    let Range { start, end } = f.loc().range();
+    if f.body.is_some() {
+        return start..end;
+    }
+
+    start..src[end..].find(';').map_or(end, |len| end + len + 1)
+}
+
 /// Finds the starting position of a contract's body in the source code.
 ///
 /// # Arguments
@@ -348,17 +360,17 @@ pub fn fix_order(
     //
     // These are the functions that we know how to sort.
     let mut indices = Vec::with_capacity(contract_hir.children.len());
+    let mut fns = Vec::with_capacity(contract_hir.children.len());
     for child in &contract_hir.children {
         if let Hir::FunctionDefinition(f) = child {
-            if let Some((idx, _)) = find_matching_fn(contract_sol, f) {
+            if let Some((idx, f)) = find_matching_fn(contract_sol, f) {
                 if !indices.contains(&idx) {
                     indices.push(idx);
+                    fns.push(f);
                 }
             }
         }
     }
-    let fns: Vec<&ContractPart> =
-        indices.iter().map(|&idx| &contract_sol.parts[idx]).collect();
 
     // 2. a - Add the functions that appear in the tree to the blank
     // string `source`.
@@ -370,7 +382,7 @@ pub fn fix_order(
     let mut scratch = ctx.src.clone();
     let mut source = Vec::with_capacity(fns.len());
     for f in &fns {
-        let range = f.loc().range();
+        let range = fn_range(f, &ctx.src);
         let f = ctx.src[range.clone()].to_owned();
         scratch.replace_range(range, " ".repeat(f.len()).as_str());
         source.push(f);
-- 
2.43.0


From 91ce4f7b330df43c4cb5e4d8aca271034864e172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:37 +0000
Subject: [PATCH 13/20] fix: treat a file with nothing but comments as an empty
 tree

---
 crates/syntax/src/splitter.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/syntax/src/splitter.rs b/crates/syntax/src/splitter.rs
index 1c89309..b49fc59 100644
--- a/crates/syntax/src/splitter.rs
+++ b/crates/syntax/src/splitter.rs
@@ -5,13 +5,14 @@ pub(crate) const TREES_SEPARATOR: &str = "\n\n";
 /// Splits the input text into distinct trees, delimited by two consecutive
 /// newlines.
 pub(crate) fn split_trees(text: &str) -> Box<dyn Iterator<Item = &str> + '_> {
-    if text.trim().is_empty() {
-        return Box::new(std::iter::once(""));
-    }
-
     let trees = text.split(TREES_SEPARATOR).map(str::trim);
     let non_empty_trees = trees.filter(|s| !s.is_empty());
-    let no_isolated_comments = non_empty_trees.filter(not_only_comments);
+    let mut no_isolated_comments =
+        non_empty_trees.filter(not_only_comments).peekable();
+    // Without any tree in it, the text is an empty tree.
+    if no_isolated_comments.peek().is_none() {
+        return Box::new(std::iter::once(""));
+    }
 
     Box::new(no_isolated_comments)
 }
-- 
2.43.0


From d42893fc7958007e1f9d922f83a9c60142f66abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:19 +0000
Subject: [PATCH 14/20] fix: follow a symbolic link whose target doesn't exist
 yet when replacing

---
 crates/bulloak/src/output.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/crates/bulloak/src/output.rs b/crates/bulloak/src/output.rs
index 61e99da..84d4887 100644
--- a/crates/bulloak/src/output.rs
+++ b/crates/bulloak/src/output.rs
@@ -51,7 +51,22 @@ pub(crate) fn replace(path: &Path, text: &str) -> io::Result<()> {
     // Follow symbolic links, so that the file they point to is replaced.
     let path = match fs::canonicalize(path) {
         Ok(path) => path,
-        Err(e) if e.kind() == io::ErrorKind::NotFound => path.to_path_buf(),
+        Err(e) if e.kind() == io::ErrorKind::NotFound => {
+            match fs::read_link(path) {
+                // The link stays, and what it names is created.
+                Ok(target) => {
+                    return replace(&path.with_file_name(target), text)
+                }
+                // Nothing exists there, or something that is no link by now.
+                Err(e)
+                    if e.kind() == io::ErrorKind::NotFound
+                        || e.kind() == io::ErrorKind::InvalidInput =>
+                {
+                    path.to_path_buf()
+                }
+                Err(e) => return Err(e),
+            }
+        }
         Err(e) => return Err(e),
     };
     // Don't replace what we're not allowed to write to.
-- 
2.43.0


From 2fa7ce7c0def6fb09ffa1a90e0a1d48d8b1f0e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:44 +0000
Subject: [PATCH 15/20] fix: report fixes that don't make up valid Solidity
 instead of panicking

---
 crates/bulloak/src/check.rs           | 28 ++++++++++++--------
 crates/foundry/src/check/violation.rs | 38 ++++++++++++++++-----------
 2 files changed, 40 insertions(+), 26 deletions(-)

diff --git a/crates/bulloak/src/check.rs b/crates/bulloak/src/check.rs
index b2b010d..237baac 100644
--- a/crates/bulloak/src/check.rs
+++ b/crates/bulloak/src/check.rs
@@ -66,21 +66,32 @@ impl Check {
         if self.fix {
             let mut fixed_count = 0;
             let mut failed = false;
-            for mut ctx in ctxs {
+            for ctx in ctxs {
                 let violations = rules::StructuralMatcher::check(&ctx);
                 let fixable_count =
                     violations.iter().filter(|v| v.is_fixable()).count();
 
                 // Process violations that affect function order first.
-                let violations = violations.into_iter().filter(|v| {
+                let mut violations = violations.into_iter().filter(|v| {
                     !matches!(
                         v.kind,
                         ViolationKind::FunctionOrderMismatch(_, _, _)
                     )
                 });
-                for violation in violations {
-                    ctx = violation.kind.fix(ctx);
-                }
+                let sol = ctx.sol.clone();
+                let mut report = |e: anyhow::Error| {
+                    eprintln!("{}: {e}", "warn".yellow());
+                    eprintln!("   {} {}", "-->".blue(), sol.display());
+                    failed = true;
+                };
+                let mut ctx =
+                    match violations.try_fold(ctx, |ctx, v| v.kind.fix(ctx)) {
+                        Ok(ctx) => ctx,
+                        Err(e) => {
+                            report(e);
+                            continue;
+                        }
+                    };
 
                 // Second pass fixing order violations.
                 let violations = rules::StructuralMatcher::check(&ctx);
@@ -109,14 +120,9 @@ impl Check {
                     }
                 }
 
-                let sol = ctx.sol.clone();
                 match self.write(ctx, &sol) {
                     Ok(()) => fixed_count += fixable_count,
-                    Err(e) => {
-                        eprintln!("{}: {e}", "warn".yellow());
-                        eprintln!("   {} {}", "-->".blue(), sol.display());
-                        failed = true;
-                    }
+                    Err(e) => report(e),
                 }
             }
 
diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index d5acaaf..72bf381 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -5,6 +5,7 @@ use bulloak_syntax::FrontendError;
 use forge_fmt::{
     parse,
     solang_ext::{CodeLocationExt, SafeUnwrap},
+    Parsed,
 };
 use owo_colors::OwoColorize;
 use solang_parser::{
@@ -134,6 +135,14 @@ fn format_frontend_error(error: &anyhow::Error) -> String {
     }
 }
 
+/// Parses the source of a file after a fix.
+fn parse_fixed(source: &str) -> anyhow::Result<Parsed> {
+    parse(source).map_err(|diagnostics| {
+        let message = diagnostics.first().map_or("", |d| d.message.as_str());
+        anyhow::anyhow!("the fixed code would not be valid: {message}")
+    })
+}
+
 impl ViolationKind {
     /// Whether this violation kind is fixable.
     pub fn is_fixable(&self) -> bool {
@@ -171,8 +180,11 @@ impl ViolationKind {
     }
 
     /// Returns a new context with this violation fixed.
-    pub fn fix(&self, mut ctx: Context) -> Context {
-        match self {
+    ///
+    /// # Errors
+    /// Returns an error if the fix doesn't make up valid Solidity.
+    pub fn fix(&self, mut ctx: Context) -> anyhow::Result<Context> {
+        let fixed = match self {
             ViolationKind::ContractMissing(_) => {
                 let mut pt = sol::Translator::new(&Config::default())
                     .translate(&ctx.hir);
@@ -185,9 +197,7 @@ impl ViolationKind {
                     source.push_str("\n\n");
                 }
                 source.push_str(&sol::Formatter::new().emit(pt));
-                let parsed =
-                    parse(&source).expect("should parse Solidity string");
-                ctx.from_parsed(parsed)
+                ctx.from_parsed(parse_fixed(&source)?)
             }
             ViolationKind::ContractNameNotMatches(new_name, _) => {
                 let name = ctx
@@ -196,23 +206,21 @@ impl ViolationKind {
                     .and_then(|c| find_matching_contract(&ctx.pt, c))
                     .and_then(|c| c.name);
                 let Some(name) = name else {
-                    return ctx;
+                    return Ok(ctx);
                 };
                 let mut source = ctx.src.clone();
                 source.replace_range(name.loc.range(), new_name);
-                let parsed =
-                    parse(&source).expect("should parse Solidity string");
-                ctx.from_parsed(parsed)
+                ctx.from_parsed(parse_fixed(&source)?)
             }
             // Assume order violations have been taken care of first.
             ViolationKind::MatchingFunctionMissing(fn_hir, index) => {
                 let Some(contract_hir) = ctx.hir.find_contract() else {
-                    return ctx;
+                    return Ok(ctx);
                 };
                 let Some(contract_sol) =
                     find_matching_contract(&ctx.pt, contract_hir)
                 else {
-                    return ctx;
+                    return Ok(ctx);
                 };
 
                 let offset = get_insertion_offset(
@@ -224,12 +232,12 @@ impl ViolationKind {
                 ctx.insert_function_at(fn_hir, offset);
 
                 let source = ctx.src.clone();
-                let parsed =
-                    parse(&source).expect("should parse solidity string");
-                ctx.from_parsed(parsed)
+                ctx.from_parsed(parse_fixed(&source)?)
             }
             _ => ctx,
-        }
+        };
+
+        Ok(fixed)
     }
 }
 
-- 
2.43.0


From 2ec9a16dba6e5d9c7560c17ffc35e89613f96a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:50 +0000
Subject: [PATCH 16/20] fix: report positions in trees relative to the whole
 file

The position of an error, and of a construct that is missing from a
Solidity file, was counted from the first line of its tree. In a file with
several trees, or with comments or blank lines before the first one, it
pointed at an unrelated line.
---
 crates/syntax/src/lib.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/crates/syntax/src/lib.rs b/crates/syntax/src/lib.rs
index 42a95c1..3e61374 100644
--- a/crates/syntax/src/lib.rs
+++ b/crates/syntax/src/lib.rs
@@ -22,7 +22,27 @@ pub use visitor::Visitor;
 
 /// Parses a string containing trees into ASTs.
 pub fn parse(text: &str) -> anyhow::Result<Vec<ast::Ast>> {
-    splitter::split_trees(text).map(parse_one).collect()
+    splitter::split_trees(text)
+        .map(|tree| parse_one(&with_leading_lines(text, tree)))
+        .collect()
+}
+
+/// Puts as many blank lines before a tree as there are lines before it in the
+/// text, so that the positions of its nodes are positions in the whole text.
+fn with_leading_lines(text: &str, tree: &str) -> String {
+    if tree.is_empty() {
+        return String::new();
+    }
+
+    // `tree` is a slice of `text`.
+    let start = tree.as_ptr() as usize - text.as_ptr() as usize;
+    let before = &text[..start];
+    let indentation = before.rsplit('\n').next().unwrap_or_default();
+    format!(
+        "{}{}{tree}",
+        utils::repeat_str("\n", before.matches('\n').count()),
+        utils::repeat_str(" ", indentation.chars().count())
+    )
 }
 
 /// Parses a string containing a single tree into an AST.
-- 
2.43.0


From 2f156720e6bbd0faa697e804ba5a23930530eee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:50 +0000
Subject: [PATCH 17/20] fix: split trees in files with Windows line endings

Two newlines are `\r\n\r\n` in such files, so several trees in one file
were parsed as one.
---
 crates/syntax/src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/syntax/src/lib.rs b/crates/syntax/src/lib.rs
index 3e61374..f231b34 100644
--- a/crates/syntax/src/lib.rs
+++ b/crates/syntax/src/lib.rs
@@ -22,8 +22,11 @@ pub use visitor::Visitor;
 
 /// Parses a string containing trees into ASTs.
 pub fn parse(text: &str) -> anyhow::Result<Vec<ast::Ast>> {
-    splitter::split_trees(text)
-        .map(|tree| parse_one(&with_leading_lines(text, tree)))
+    // Trees are also separated by two newlines in files with Windows line
+    // endings.
+    let text = text.replace("\r\n", "\n");
+    splitter::split_trees(&text)
+        .map(|tree| parse_one(&with_leading_lines(&text, tree)))
         .collect()
 }
 
-- 
2.43.0


From b5097ba88491d3797662f9864b6fdfa6164133df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:50 +0000
Subject: [PATCH 18/20] fix: sanitize the function names of tree roots

The part after `::` becomes part of the names of tests, so with a character
that can't be in an identifier, e.g. a hyphen, nothing could be scaffolded.
---
 crates/foundry/src/hir/combiner.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/foundry/src/hir/combiner.rs b/crates/foundry/src/hir/combiner.rs
index 37ecd0d..8228d9b 100644
--- a/crates/foundry/src/hir/combiner.rs
+++ b/crates/foundry/src/hir/combiner.rs
@@ -2,7 +2,10 @@
 //! combiner.
 use std::{collections::HashSet, fmt, mem, result};
 
-use bulloak_syntax::{utils::upper_first_letter, FrontendError, Span};
+use bulloak_syntax::{
+    utils::{sanitize, upper_first_letter},
+    FrontendError, Span,
+};
 use thiserror::Error;
 
 use super::{ContractDefinition, Hir, Root};
@@ -232,7 +235,7 @@ fn update_children(
 
 /// Prefix the suffix of a test name.
 fn prefix_test_with(test_name: &str, prefix: &str) -> String {
-    let capitalized_fn_name = upper_first_letter(prefix);
+    let capitalized_fn_name = upper_first_letter(&sanitize(prefix));
     let test_suffix = test_name.trim_start_matches("test_");
     format!("test_{capitalized_fn_name}{test_suffix}")
 }
-- 
2.43.0


From 132a20271bb0789f64b22bf87654b1dfe181adc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:13 +0000
Subject: [PATCH 19/20] fix: report semantic errors in trees as such when
 checking

They were reported as errors of the Solidity file, since the semantic
analysis fails with a collection of errors.
---
 crates/foundry/src/check/violation.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index 72bf381..7ee32c8 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -127,7 +127,9 @@ fn format_frontend_error(error: &anyhow::Error) -> String {
         error.downcast_ref::<crate::hir::combiner::Error>()
     {
         format!("an error occurred while parsing the tree: {}", error.kind())
-    } else if error.downcast_ref::<bulloak_syntax::semantics::Error>().is_some()
+    } else if error
+        .downcast_ref::<bulloak_syntax::semantics::Errors>()
+        .is_some()
     {
         "at least one semantic error occurred while parsing the tree".to_owned()
     } else {
-- 
2.43.0


From e8a6effe50feb82974f9cfac1e57f584401fc2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:37 +0000
Subject: [PATCH 20/20] fix: reject trees that name two tests the same

Tests of different trees in one file could end up with the same name, and
all but the first one were silently left out as if they were modifiers.
Within one tree, an action could share its name with another one that
differs in the case of its keyword, or with a condition, which made an
invalid contract.
---
 crates/foundry/src/hir/combiner.rs | 50 +++++++++++++++++++++++++++++-
 crates/foundry/src/hir/mod.rs      | 13 +++++---
 2 files changed, 57 insertions(+), 6 deletions(-)

diff --git a/crates/foundry/src/hir/combiner.rs b/crates/foundry/src/hir/combiner.rs
index 8228d9b..50ba7ea 100644
--- a/crates/foundry/src/hir/combiner.rs
+++ b/crates/foundry/src/hir/combiner.rs
@@ -1,6 +1,9 @@
 //! The implementation of a high-level intermediate representation (HIR)
 //! combiner.
-use std::{collections::HashSet, fmt, mem, result};
+use std::{
+    collections::{HashMap, HashSet},
+    fmt, mem, result,
+};
 
 use bulloak_syntax::{
     utils::{sanitize, upper_first_letter},
@@ -51,6 +54,7 @@ impl fmt::Display for Error {
 
 type Identifier = String;
 type Index = usize;
+type Line = usize;
 
 /// The type of an error that occurred while combining HIRs.
 #[derive(Error, Clone, Debug, Eq, PartialEq)]
@@ -70,6 +74,11 @@ pub enum ErrorKind {
     #[error("contract name missing at tree root #{0}")]
     ContractNameMissing(Index),
 
+    /// Two conditions or top-level actions would be tested by a function with
+    /// the same name.
+    #[error("found the test '{0}' more than once in lines: {1}, {2}")]
+    TestDuplicated(Identifier, Line, Line),
+
     /// A [`crate::constants::CONTRACT_IDENTIFIER_SEPARATOR`] was missing in
     /// one of the tree roots.
     #[error("separator missing at tree root #{0}. Expected to find `::` between the contract name and the function name when multiple roots exist")]
@@ -207,6 +216,40 @@ impl<'t> CombinerI<'t> {
     }
 }
 
+/// Checks that every test in the HIR has a name of its own.
+///
+/// # Errors
+/// Returns an error if two tests have the same name.
+pub fn check_duplicated_tests(text: &str, hir: &Hir) -> Result<()> {
+    let Some(contract) = hir.find_contract() else {
+        return Ok(());
+    };
+
+    let mut spans = HashMap::new();
+    for child in &contract.children {
+        let Hir::FunctionDefinition(test) = child else {
+            continue;
+        };
+        if !test.is_function() {
+            continue;
+        }
+        let Some(first) = spans.insert(&test.identifier, test.span) else {
+            continue;
+        };
+        return Err(Error {
+            kind: ErrorKind::TestDuplicated(
+                test.identifier.clone(),
+                first.start.line,
+                test.span.start.line,
+            ),
+            text: text.to_owned(),
+            span: first.with_end(first.start),
+        });
+    }
+
+    Ok(())
+}
+
 fn prefix_test(child: Hir, prefix: &str) -> Hir {
     let Hir::FunctionDefinition(mut test_or_modifier) = child else {
         return child;
@@ -248,6 +291,11 @@ fn collect_modifier(
         return Some(child);
     };
 
+    // Tests are never shared between trees.
+    if test_or_modifier.is_function() {
+        return Some(Hir::FunctionDefinition(test_or_modifier));
+    }
+
     // If child is of type `FunctionDefinition` with the same identifier
     // as a child of another `ContractDefinition` of ty `Modifier`, then
     // they are duplicates.
diff --git a/crates/foundry/src/hir/mod.rs b/crates/foundry/src/hir/mod.rs
index d02c3b5..5a70391 100644
--- a/crates/foundry/src/hir/mod.rs
+++ b/crates/foundry/src/hir/mod.rs
@@ -26,12 +26,15 @@ use crate::{config::Config, scaffold::modifiers::ModifierDiscoverer};
 pub fn translate(text: &str, cfg: &Config) -> anyhow::Result<Hir> {
     let asts = bulloak_syntax::parse(text)?;
 
-    if asts.len() == 1 {
-        return Ok(translate_one(&asts[0], cfg));
-    }
+    let hir = if asts.len() == 1 {
+        translate_one(&asts[0], cfg)
+    } else {
+        let hirs = asts.into_iter().map(|ast| translate_one(&ast, cfg));
+        combiner::Combiner::new().combine(text, hirs)?
+    };
+    combiner::check_duplicated_tests(text, &hir)?;
 
-    let hirs = asts.into_iter().map(|ast| translate_one(&ast, cfg));
-    Ok(combiner::Combiner::new().combine(text, hirs)?)
+    Ok(hir)
 }
 
 /// Generates the HIR for a single AST.
-- 
2.43.0

