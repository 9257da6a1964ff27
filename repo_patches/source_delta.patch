From 0870dd0b5bc5beb471304655e14ad92b80122df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:54 +0000
Subject: [PATCH 01/16] fix: compute the offset of a group from the start of
 the pattern

The operands were swapped, so every group that does not open at index 0
underflowed: a panic with overflow checks on, a meaningless index in the
"Missing close parenthesis" message without them.
---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index e76e898..e048b2d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -98,7 +98,7 @@ impl<'p> Context<'p> {
         self.group_index += 1;
         mem::swap(&mut self.current_seq, &mut seq);
         self.sequences
-            .push(ExprState::new(seq, ts.len() - self.ptr.len(), self.mode));
+            .push(ExprState::new(seq, self.ptr.len() - ts.len(), self.mode));
     }
 
     fn pop_sequence(&mut self) -> Result<(), CompileError> {
-- 
2.43.0


From 6f18cf5251259aeb8f4393a6e754568fb213ea1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:54 +0000
Subject: [PATCH 02/16] fix: report a non-ASCII literal as a compile error

The parser asserted that every literal is ASCII, so a pattern with any
other character panicked instead of returning an error.
---
 src/parser.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index e048b2d..90b90a0 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -138,7 +138,15 @@ impl<'p> Context<'p> {
             self.p = p;
         } else if let Ok((p, c)) = take_any(ts) {
             // TODO: Support UTF-8 literals
-            assert!(c.is_ascii());
+            if !c.is_ascii() {
+                return Err(CompileError::new(
+                    ErrorKind::LocatedParse,
+                    format!(
+                        "Non-ASCII literals are not supported at index {}",
+                        self.ptr.len() - ts.len()
+                    ),
+                ));
+            }
             if let Err(mut e) = add_literal(&mut self.current_seq, c, self.mode) {
                 e.reason
                     .push_str(&format!(" at index {}", self.ptr.len() - self.p.len()));
-- 
2.43.0


From 592e305a8ba84e2e160f2f0cc8db80b9a28075c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:54 +0000
Subject: [PATCH 03/16] fix: allow the expression index of an error to be set
 twice

A SINGLEMATCH conflict already carries the index of the expression, which
compile_multi sets again on the way out: with debug assertions on, that
panicked instead of returning the error.
---
 src/util/compile_error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/compile_error.rs b/src/util/compile_error.rs
index 58c840b..fa18681 100644
--- a/src/util/compile_error.rs
+++ b/src/util/compile_error.rs
@@ -43,7 +43,7 @@ impl CompileError {
     }
 
     pub(crate) fn set_expression_index(&mut self, index: u32) {
-        debug_assert!(self.index.is_none());
+        debug_assert!(self.index.map_or(true, |i| i == index));
         self.index = Some(index);
     }
 }
-- 
2.43.0


From 50bf2377a00b4a1717cd9ceb94b9594b177908ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:39 +0000
Subject: [PATCH 04/16] sim: observation points for deterministic simulation
 (cfg rescan_sim)

Off by default: derives Debug on the intermediate products of a compile
call and shows them to a simulator that links the crate.
---
 src/compiler.rs                    |  6 +++++
 src/compiler/expression_info.rs    |  1 +
 src/database.rs                    |  1 +
 src/grey.rs                        |  1 +
 src/lib.rs                         |  9 +++++++
 src/nfagraph/ng.rs                 |  1 +
 src/nfagraph/ng_holder.rs          |  3 +++
 src/parser.rs                      |  4 +--
 src/parser/component_sequence.rs   |  2 +-
 src/parser/shortcut_literal.rs     |  3 +++
 src/rose/rose_build.rs             |  1 +
 src/rose/rose_internal.rs          |  2 ++
 src/sim.rs                         | 42 ++++++++++++++++++++++++++++++
 src/smallwrite/smallwrite_build.rs |  4 +++
 src/som.rs                         |  1 +
 src/util.rs                        |  4 +--
 src/util/boundary_reports.rs       |  1 +
 src/util/compile_context.rs        |  1 +
 src/util/report.rs                 |  1 +
 src/util/report_manager.rs         |  2 ++
 src/util/ue2string.rs              |  1 +
 21 files changed, 86 insertions(+), 5 deletions(-)
 create mode 100644 src/sim.rs

diff --git a/src/compiler.rs b/src/compiler.rs
index ed34d55..89ef08f 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -75,6 +75,9 @@ pub(crate) fn add_expression(
 
     let mut pe = ParsedExpression::new(index, expression, flags, id)?;
 
+    #[cfg(rescan_sim)]
+    crate::sim::observe("parsed", &(&pe.expr, &pe.component));
+
     // Apply prefiltering transformations if desired.
     if pe.expr.prefilter {
         prefilter_tree(&pe.component);
@@ -88,6 +91,9 @@ pub(crate) fn add_expression(
 
     let build_expr = build_graph(&mut pe);
 
+    #[cfg(rescan_sim)]
+    crate::sim::observe("graph", &(&build_expr.expr, &build_expr.g));
+
     unsafe {
         let inner: Pin<&mut Ng> = ng.as_mut();
         inner
diff --git a/src/compiler/expression_info.rs b/src/compiler/expression_info.rs
index 32fc987..91b7ec0 100644
--- a/src/compiler/expression_info.rs
+++ b/src/compiler/expression_info.rs
@@ -4,6 +4,7 @@ use crate::SomType;
 /// Properties of an expression.
 #[allow(clippy::struct_excessive_bools)]
 #[derive(Clone)]
+#[cfg_attr(rescan_sim, derive(Debug))]
 pub(crate) struct ExpressionInfo {
     /// Index of the expression represented by this graph.
     ///
diff --git a/src/database.rs b/src/database.rs
index b5c81ea..e995b81 100644
--- a/src/database.rs
+++ b/src/database.rs
@@ -1,5 +1,6 @@
 use crate::rose::RoseEngine;
 
+#[cfg_attr(rescan_sim, derive(Debug))]
 pub struct Database {
     rose: RoseEngine,
 }
diff --git a/src/grey.rs b/src/grey.rs
index 4129179..60835ea 100644
--- a/src/grey.rs
+++ b/src/grey.rs
@@ -1,5 +1,6 @@
 #[allow(clippy::struct_excessive_bools)]
 #[derive(Clone)]
+#[cfg_attr(rescan_sim, derive(Debug))]
 pub(crate) struct Grey {
     pub(crate) allow_literal: bool,
 
diff --git a/src/lib.rs b/src/lib.rs
index 98f5b0b..97b5c91 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unknown_lints, unexpected_cfgs)] // `rescan_sim` is set by hand
+
 mod compiler;
 mod database;
 mod grey;
@@ -6,6 +8,8 @@ mod parser;
 mod rose;
 mod runtime;
 mod scratch;
+#[cfg(rescan_sim)]
+pub mod sim;
 mod smallwrite;
 mod som;
 mod util;
@@ -32,6 +36,7 @@ pub(crate) use som::SomType;
 ///
 /// [`compile`]: fn.compile.html
 /// [`compile_multi`]: fn.compile_multi.html
+#[cfg_attr(rescan_sim, derive(Debug))]
 pub enum Mode {
     /// Block scan database.
     Block,
@@ -64,6 +69,7 @@ impl Mode {
     }
 }
 
+#[cfg_attr(rescan_sim, derive(Debug))]
 pub enum SomHorizon {
     Large,
     Medium,
@@ -128,6 +134,9 @@ fn compile_multi_int(
         }
     }
 
+    #[cfg(rescan_sim)]
+    sim::observe("ng", &ng);
+
     Ok(build(&ng))
 }
 
diff --git a/src/nfagraph/ng.rs b/src/nfagraph/ng.rs
index 2bc9778..04099b7 100644
--- a/src/nfagraph/ng.rs
+++ b/src/nfagraph/ng.rs
@@ -14,6 +14,7 @@ use std::marker::PhantomPinned;
 use std::pin::Pin;
 use std::ptr::NonNull;
 
+#[cfg_attr(rescan_sim, derive(Debug))]
 pub(crate) struct Ng<'a> {
     /// The length of the shortest corpus which can match a pattern contained in
     /// the `Ng` (excluding the boundary reports used by vacuous patterns, which
diff --git a/src/nfagraph/ng_holder.rs b/src/nfagraph/ng_holder.rs
index 40dabe5..7ecdbef 100644
--- a/src/nfagraph/ng_holder.rs
+++ b/src/nfagraph/ng_holder.rs
@@ -6,6 +6,7 @@ use std::collections::HashSet;
 use std::ops::{Index, IndexMut};
 
 #[derive(Default)]
+#[cfg_attr(rescan_sim, derive(Debug))]
 pub(crate) struct NfaGraphVertexProps {
     /// Set of characters on which this vertex is reachable.
     pub(in crate::nfagraph) char_reach: CharReach,
@@ -18,8 +19,10 @@ pub(crate) struct NfaGraphVertexProps {
 }
 
 #[derive(Default)]
+#[cfg_attr(rescan_sim, derive(Debug))]
 struct NfaGraphEdgeProps {}
 
+#[cfg_attr(rescan_sim, derive(Debug))]
 pub(crate) struct NgHolder {
     inner: Graph<NfaGraphVertexProps, NfaGraphEdgeProps>,
 
diff --git a/src/parser.rs b/src/parser.rs
index 90b90a0..96a7e41 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -6,8 +6,8 @@ mod component_class;
 mod component_sequence;
 mod const_component_visitor;
 mod control_verbs;
-#[cfg(test)]
-mod dump;
+#[cfg(any(test, rescan_sim))]
+pub(crate) mod dump;
 mod parser_util;
 mod position;
 mod position_info;
diff --git a/src/parser/component_sequence.rs b/src/parser/component_sequence.rs
index 26517a5..7670d7c 100644
--- a/src/parser/component_sequence.rs
+++ b/src/parser/component_sequence.rs
@@ -45,7 +45,7 @@ impl ComponentSequence {
         }
     }
 
-    #[cfg(test)]
+    #[cfg(any(test, rescan_sim))]
     pub(super) fn children(&self) -> &Vec<Component> {
         &self.children
     }
diff --git a/src/parser/shortcut_literal.rs b/src/parser/shortcut_literal.rs
index ed7bb9d..0a2abbd 100644
--- a/src/parser/shortcut_literal.rs
+++ b/src/parser/shortcut_literal.rs
@@ -73,6 +73,9 @@ pub(crate) fn shortcut_literal(
         return Ok(false);
     }
 
+    #[cfg(rescan_sim)]
+    crate::sim::observe("literal", lit);
+
     unsafe {
         ng.as_mut().get_unchecked_mut().add_literal(
             lit,
diff --git a/src/rose/rose_build.rs b/src/rose/rose_build.rs
index 88855ca..3eb785c 100644
--- a/src/rose/rose_build.rs
+++ b/src/rose/rose_build.rs
@@ -4,6 +4,7 @@ use crate::util::{CompileContext, ReportId, Ue2Literal};
 use crate::Mode;
 use std::collections::HashSet;
 
+#[cfg_attr(rescan_sim, derive(Debug))]
 pub(crate) struct RoseBuild<'a> {
     pub(crate) cc: &'a CompileContext,
     pub(crate) has_som: bool,
diff --git a/src/rose/rose_internal.rs b/src/rose/rose_internal.rs
index 057005c..fdfe696 100644
--- a/src/rose/rose_internal.rs
+++ b/src/rose/rose_internal.rs
@@ -1,11 +1,13 @@
 use crate::Mode;
 
+#[cfg_attr(rescan_sim, derive(Debug))]
 pub(crate) enum RoseRuntimeImpl {
     FullRose,
     PureLiteral,
     SingleOutfix,
 }
 
+#[cfg_attr(rescan_sim, derive(Debug))]
 pub(crate) struct RoseEngine {
     /// Can we just run the floating table or a single outfix or do we need a
     /// full rose?
diff --git a/src/sim.rs b/src/sim.rs
new file mode 100644
index 0000000..1bc22d3
--- /dev/null
+++ b/src/sim.rs
@@ -0,0 +1,42 @@
+//! Observation points for deterministic simulation.
+//!
+//! Built only with `--cfg rescan_sim`; the simulator that links this crate
+//! defines `rescan_sim_observe`.
+
+use crate::parser::{dump::dump_tree, parse, ParseMode};
+use crate::scratch::{CoreInfo, Scratch};
+use crate::{CompileError, Flags};
+use std::fmt;
+
+extern "Rust" {
+    fn rescan_sim_observe(what: &str, value: &dyn fmt::Debug);
+}
+
+/// Shows an intermediate product of a compile call to the simulator.
+pub(crate) fn observe(what: &str, value: &dyn fmt::Debug) {
+    unsafe { rescan_sim_observe(what, value) }
+}
+
+/// Makes an empty scratch, which nothing else in the public interface does.
+#[must_use]
+pub fn new_scratch() -> Scratch {
+    Scratch {
+        core_info: CoreInfo {
+            state: std::ptr::null_mut(),
+        },
+    }
+}
+
+/// Parses an expression and writes its parse tree to `out`.
+///
+/// # Errors
+///
+/// Returns an error if the expression is invalid.
+pub fn dump<W: fmt::Write>(
+    expression: &str,
+    flags: Flags,
+    out: &mut W,
+) -> Result<fmt::Result, CompileError> {
+    let component = parse(expression, &mut ParseMode::new(flags))?;
+    Ok(dump_tree(out, &component))
+}
diff --git a/src/smallwrite/smallwrite_build.rs b/src/smallwrite/smallwrite_build.rs
index 0d5e401..995bce5 100644
--- a/src/smallwrite/smallwrite_build.rs
+++ b/src/smallwrite/smallwrite_build.rs
@@ -11,6 +11,7 @@ use std::ptr::NonNull;
 
 const MAX_TRIE_VERTICES: usize = 8_000;
 
+#[cfg_attr(rescan_sim, derive(Debug))]
 struct LitTrieVertexProps {
     /// Character reached on this vertex.
     c: u8,
@@ -36,12 +37,14 @@ impl Default for LitTrieVertexProps {
     }
 }
 
+#[cfg_attr(rescan_sim, derive(Debug))]
 struct LitTrieEdgeProps;
 
 type LitTrieVertex = NodeIndex<DefaultIx>;
 
 /// A graph used to store a trie of literals (for later AC construction into a
 /// DFA).
+#[cfg_attr(rescan_sim, derive(Debug))]
 struct LitTrie {
     inner: Graph<LitTrieVertexProps, LitTrieEdgeProps>,
 
@@ -72,6 +75,7 @@ impl Default for LitTrie {
 }
 
 /// Small-write engine build interface.
+#[cfg_attr(rescan_sim, derive(Debug))]
 pub(crate) struct SmallWriteBuild<'a> {
     pub(crate) rm: NonNull<ReportManager<'a>>,
     cc: &'a CompileContext,
diff --git a/src/som.rs b/src/som.rs
index 18d6d36..dce457e 100644
--- a/src/som.rs
+++ b/src/som.rs
@@ -2,6 +2,7 @@
 
 /// A start of match behavior.
 #[derive(Clone, Copy, PartialEq)]
+#[cfg_attr(rescan_sim, derive(Debug))]
 pub(crate) enum SomType {
     /// No SOM required
     None,
diff --git a/src/util.rs b/src/util.rs
index 23f5a3e..59ab283 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -5,7 +5,7 @@ mod compare;
 mod compile_context;
 pub(crate) mod compile_error;
 pub(crate) mod depth;
-#[cfg(test)]
+#[cfg(any(test, rescan_sim))]
 mod dump_charclass;
 mod report;
 mod report_manager;
@@ -17,7 +17,7 @@ pub(crate) use boundary_reports::BoundaryReports;
 pub(crate) use charreach::{make_caseless, CharReach};
 pub(crate) use compile_context::CompileContext;
 pub(crate) use depth::Depth;
-#[cfg(test)]
+#[cfg(any(test, rescan_sim))]
 pub(crate) use dump_charclass::{describe_class, CcOutput};
 pub(crate) use report::{make_e_callback, make_som_relative_callback, Report};
 pub(crate) use report_manager::{ExternalReportInfo, ReportManager};
diff --git a/src/util/boundary_reports.rs b/src/util/boundary_reports.rs
index 111aa47..ad6b3f9 100644
--- a/src/util/boundary_reports.rs
+++ b/src/util/boundary_reports.rs
@@ -2,6 +2,7 @@ use crate::util::ReportId;
 use std::collections::HashSet;
 
 #[derive(Default)]
+#[cfg_attr(rescan_sim, derive(Debug))]
 pub(crate) struct BoundaryReports {
     /// Set of internal reports to fire unconditionally at offset 0.
     #[allow(dead_code)]
diff --git a/src/util/compile_context.rs b/src/util/compile_context.rs
index 9cf97d1..e39b011 100644
--- a/src/util/compile_context.rs
+++ b/src/util/compile_context.rs
@@ -3,6 +3,7 @@ use crate::Grey;
 /// Structure for describing the compile environment: grey box settings, target
 /// arch, mode flags, etc.
 #[derive(Clone)]
+#[cfg_attr(rescan_sim, derive(Debug))]
 pub(crate) struct CompileContext {
     pub(crate) streaming: bool,
     pub(crate) vectored: bool,
diff --git a/src/util/report.rs b/src/util/report.rs
index 66c2386..fa8d1df 100644
--- a/src/util/report.rs
+++ b/src/util/report.rs
@@ -1,4 +1,5 @@
 #[derive(Clone, Hash, PartialEq, Eq)]
+#[cfg_attr(rescan_sim, derive(Debug))]
 pub(crate) struct Report {
     /// Minimum match length (start of match to current offset).
     pub(crate) min_length: u64,
diff --git a/src/util/report_manager.rs b/src/util/report_manager.rs
index ffad6df..ffc86fc 100644
--- a/src/util/report_manager.rs
+++ b/src/util/report_manager.rs
@@ -4,6 +4,7 @@ use std::collections::{hash_map::Entry, BTreeMap, HashMap};
 use std::convert::TryInto;
 
 #[derive(Clone, Copy)]
+#[cfg_attr(rescan_sim, derive(Debug))]
 pub(crate) struct ExternalReportInfo {
     pub(crate) highlander: bool,
     pub(crate) first_pattern_index: u32,
@@ -19,6 +20,7 @@ impl ExternalReportInfo {
 }
 
 /// Tracks Report structures, exhaustion and dedupe keys.
+#[cfg_attr(rescan_sim, derive(Debug))]
 pub(crate) struct ReportManager<'a> {
     /// Grey box ref, for checking resource limits.
     grey: &'a Grey,
diff --git a/src/util/ue2string.rs b/src/util/ue2string.rs
index f13bf3e..a3e3743 100644
--- a/src/util/ue2string.rs
+++ b/src/util/ue2string.rs
@@ -3,6 +3,7 @@ use bit_vec::BitVec;
 use std::cmp::Ordering;
 
 #[derive(Default, Eq)]
+#[cfg_attr(rescan_sim, derive(Debug))]
 pub struct Ue2Literal {
     s: Vec<u8>,
     nocase: BitVec,
-- 
2.43.0


From 17ef485a4e0c55ee352fd3c6b63e475c31081796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:49 +0000
Subject: [PATCH 05/16] sim: show the engine of a database

---
 src/sim.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/sim.rs b/src/sim.rs
index 1bc22d3..22a6a00 100644
--- a/src/sim.rs
+++ b/src/sim.rs
@@ -3,6 +3,7 @@
 //! Built only with `--cfg rescan_sim`; the simulator that links this crate
 //! defines `rescan_sim_observe`.
 
+use crate::database::{get_bytecode, Database};
 use crate::parser::{dump::dump_tree, parse, ParseMode};
 use crate::scratch::{CoreInfo, Scratch};
 use crate::{CompileError, Flags};
@@ -17,6 +18,12 @@ pub(crate) fn observe(what: &str, value: &dyn fmt::Debug) {
     unsafe { rescan_sim_observe(what, value) }
 }
 
+/// The engine a database refers to.
+#[must_use]
+pub fn engine(db: &Database) -> &dyn fmt::Debug {
+    get_bytecode(db)
+}
+
 /// Makes an empty scratch, which nothing else in the public interface does.
 #[must_use]
 pub fn new_scratch() -> Scratch {
-- 
2.43.0


From f5a92fa62a88fe28e60f41ebc1f3bcc5d43f20e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:49 +0000
Subject: [PATCH 06/16] fix: say which of two expressions asked for SINGLEMATCH

The text claimed that the earlier expression did not ask for it when it
did, and the other way round.
---
 src/util/report_manager.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/report_manager.rs b/src/util/report_manager.rs
index ffc86fc..68684ea 100644
--- a/src/util/report_manager.rs
+++ b/src/util/report_manager.rs
@@ -111,7 +111,7 @@ impl<'a> ReportManager<'a> {
                         "did not sepcify "
                     },
                     eri.first_pattern_index,
-                    if eri.highlander {
+                    if ext.highlander {
                         " not."
                     } else {
                         "."
-- 
2.43.0


From febdcb5ee0b805b6e41d033c81400b7ded4292ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:49 +0000
Subject: [PATCH 07/16] fix: describe the last range of a character class

It was left out unless it ended at 0xff, so that a caseless "a" was
described as "A".
---
 src/util/dump_charclass.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/util/dump_charclass.rs b/src/util/dump_charclass.rs
index e0fa5f4..a0d81a0 100644
--- a/src/util/dump_charclass.rs
+++ b/src/util/dump_charclass.rs
@@ -175,10 +175,8 @@ fn describe_class_int<W: Write>(
             }
             c_last = c;
         }
-        if c_last == 0xff {
-            describe_range(f, c_start, c_last, out_type)?;
-            i += 1;
-        }
+        describe_range(f, c_start, c_last, out_type)?;
+        i += 1;
     }
     Ok(i)
 }
-- 
2.43.0


From a143a0ef2e1fffcae8657c71c0f9e31295f7d53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:08 +0000
Subject: [PATCH 08/16] fix: fill the bit vector of a character class

The bit of a character within its byte was computed with `&` in place of
`%`, so every character beyond a multiple of 8 was given the wrong bit, and
half of them a shift by 8, which panics.
---
 src/util/charreach.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/charreach.rs b/src/util/charreach.rs
index 481475f..16745d6 100644
--- a/src/util/charreach.rs
+++ b/src/util/charreach.rs
@@ -335,7 +335,7 @@ pub(crate) fn fill_bitvector(cr: &CharReach, bits: &mut [u8]) {
     }
     let mut next = cr.find_first();
     while let Some(pos) = next {
-        bits[(pos / 8) as usize] |= 1 << (pos & 8);
+        bits[(pos / 8) as usize] |= 1 << (pos % 8);
         next = cr.find_next(pos);
     }
 }
-- 
2.43.0


From c4ea7ebe26a1d98a4a946a315bd4f3b77f107198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:08 +0000
Subject: [PATCH 09/16] fix: report fewer flags or ids than expressions

compile_multi zips its arguments, so expressions without flags or an id
were left out without a word, and with it their errors.
---
 src/lib.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 97b5c91..1c7ce67 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -89,7 +89,8 @@ pub fn compile(expression: &str, flags: Flags, mode: &Mode) -> Result<Database,
 ///
 /// # Errors
 ///
-/// Returns an error if any expression is invalid.
+/// Returns an error if any expression is invalid, or if there are fewer flags
+/// or ids than expressions.
 pub fn compile_multi(
     expressions: &[&str],
     flags: &[Flags],
@@ -113,6 +114,13 @@ fn compile_multi_int(
         ));
     }
 
+    if flags.len() < expressions.len() || ids.len() < expressions.len() {
+        return Err(CompileError::new(
+            ErrorKind::Other,
+            "Invalid parameter: fewer flags or ids than expressions",
+        ));
+    }
+
     if expressions.len() > g.limit_pattern_count {
         return Err(CompileError::new(
             ErrorKind::Other,
-- 
2.43.0


From 6140bac39a0d3b3b37d6770c509f5cdf57ca6ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:08 +0000
Subject: [PATCH 10/16] fix: describe a short range that ends at 0xff

Stepping past the last character of the range overflowed: a panic in debug
builds, an endless description in release builds.
---
 src/util/dump_charclass.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/util/dump_charclass.rs b/src/util/dump_charclass.rs
index a0d81a0..52ee32d 100644
--- a/src/util/dump_charclass.rs
+++ b/src/util/dump_charclass.rs
@@ -56,13 +56,8 @@ fn describe_range<W: Write>(f: &mut W, c1: u8, c2: u8, out_type: CcOutput) -> Re
         describe_char(f, c1, out_type)
     } else if c2 - c1 < 4 {
         // Render as individual chars.
-        let mut c1 = c1;
-        loop {
-            describe_char(f, c1, out_type)?;
-            c1 += 1;
-            if c1 > c2 {
-                break;
-            }
+        for c in c1..=c2 {
+            describe_char(f, c, out_type)?;
         }
         Ok(())
     } else {
-- 
2.43.0


From 8f999ce98bde340f2fdbd9299445a1e395d757fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:08 +0000
Subject: [PATCH 11/16] sim: character sets and limits

Under a configuration of its own, rescan_sim_inner, so that the other hooks
build when the names these refer to change.
---
 src/sim.rs        |   5 ++
 src/sim/limits.rs |  47 +++++++++++++++
 src/sim/sets.rs   | 146 ++++++++++++++++++++++++++++++++++++++++++++++
 src/util.rs       |   2 +
 4 files changed, 200 insertions(+)
 create mode 100644 src/sim/limits.rs
 create mode 100644 src/sim/sets.rs

diff --git a/src/sim.rs b/src/sim.rs
index 22a6a00..7966aa9 100644
--- a/src/sim.rs
+++ b/src/sim.rs
@@ -9,6 +9,11 @@ use crate::scratch::{CoreInfo, Scratch};
 use crate::{CompileError, Flags};
 use std::fmt;
 
+#[cfg(rescan_sim_inner)]
+pub mod limits;
+#[cfg(rescan_sim_inner)]
+pub mod sets;
+
 extern "Rust" {
     fn rescan_sim_observe(what: &str, value: &dyn fmt::Debug);
 }
diff --git a/src/sim/limits.rs b/src/sim/limits.rs
new file mode 100644
index 0000000..52ba43e
--- /dev/null
+++ b/src/sim/limits.rs
@@ -0,0 +1,47 @@
+//! Compiling with other limits than the usual ones.
+//!
+//! Built only with `--cfg rescan_sim_inner`.
+
+use crate::util::ReportId;
+use crate::{compile_multi_int, CompileError, Database, Flags, Grey, Mode};
+
+/// Limits of a compile call, and whether to do without some of its parts.
+#[derive(Clone, Copy, Debug)]
+pub struct Limits {
+    pub literals: bool,
+    pub shortcut: bool,
+    pub small_write: bool,
+    pub small_write_length: usize,
+    pub small_write_patterns: usize,
+    pub small_write_literals: usize,
+    pub patterns: usize,
+    pub length: usize,
+    pub reports: usize,
+}
+
+/// Compiles multiple regular expressions within `limits`.
+///
+/// # Errors
+///
+/// Returns an error if `compile_multi` would, for these limits.
+pub fn compile(
+    expressions: &[&str],
+    flags: &[Flags],
+    ids: &[ReportId],
+    mode: &Mode,
+    limits: &Limits,
+) -> Result<Database, CompileError> {
+    let grey = Grey {
+        allow_literal: limits.literals,
+        shortcut_literals: limits.shortcut,
+        allow_small_write: limits.small_write,
+        small_write_largest_buffer: limits.small_write_length,
+        small_write_max_patterns: limits.small_write_patterns,
+        small_write_max_literals: limits.small_write_literals,
+        limit_pattern_count: limits.patterns,
+        limit_pattern_length: limits.length,
+        limit_report_count: limits.reports,
+        ..Grey::default()
+    };
+    compile_multi_int(expressions, flags, ids, mode, &grey)
+}
diff --git a/src/sim/sets.rs b/src/sim/sets.rs
new file mode 100644
index 0000000..95b4413
--- /dev/null
+++ b/src/sim/sets.rs
@@ -0,0 +1,146 @@
+//! Character sets as the simulator sees them.
+//!
+//! Built only with `--cfg rescan_sim_inner`.
+
+use crate::util::{describe_class, make_caseless, CcOutput, CharReach};
+use crate::util::{fill_bitvector, make_and_cmp_mask};
+use std::fmt;
+
+#[derive(Copy, Clone, Debug, Default, Eq, Hash, PartialEq, PartialOrd, Ord)]
+pub struct Set(CharReach);
+
+impl Set {
+    pub fn from_char(c: u8) -> Self {
+        Self(CharReach::from_char(c))
+    }
+    pub fn from_range(from: u8, to: u8) -> Self {
+        Self(CharReach::from_range(from, to))
+    }
+    pub fn from_bytes(bytes: &[u8]) -> Self {
+        Self(CharReach::from_bytes(bytes))
+    }
+    pub fn dot() -> Self {
+        Self(CharReach::dot())
+    }
+
+    pub fn reset_all(&mut self) {
+        self.0.reset_all();
+    }
+    pub fn set_all(&mut self) {
+        self.0.set_all();
+    }
+    pub fn flip_all(&mut self) {
+        self.0.flip_all();
+    }
+    pub fn reset(&mut self, c: u8) {
+        self.0.reset(c);
+    }
+    pub fn set(&mut self, c: u8) {
+        self.0.set(c);
+    }
+    pub fn flip(&mut self, c: u8) {
+        self.0.flip(c);
+    }
+    pub fn set_range(&mut self, from: u8, to: u8) {
+        self.0.set_range(from, to);
+    }
+    pub fn set_bytes(&mut self, bytes: &[u8]) {
+        self.0.set_bytes(bytes);
+    }
+    pub fn make_caseless(&mut self) {
+        make_caseless(&mut self.0);
+    }
+
+    pub fn and(&mut self, a: &Self, b: &Self) {
+        self.0 = a.0 & b.0;
+    }
+    pub fn or(&mut self, a: &Self, b: &Self) {
+        self.0 = a.0 | b.0;
+    }
+    pub fn xor(&mut self, a: &Self, b: &Self) {
+        self.0 = a.0 ^ b.0;
+    }
+    pub fn not(&mut self, a: &Self) {
+        self.0 = !a.0;
+    }
+    pub fn and_assign(&mut self, a: &Self) {
+        self.0 &= a.0;
+    }
+    pub fn or_assign(&mut self, a: &Self) {
+        self.0 |= a.0;
+    }
+    pub fn xor_assign(&mut self, a: &Self) {
+        self.0 ^= a.0;
+    }
+
+    pub fn test(&self, c: u8) -> bool {
+        self.0.test(c)
+    }
+    pub fn count(&self) -> u32 {
+        self.0.count()
+    }
+    pub fn none(&self) -> bool {
+        self.0.none()
+    }
+    pub fn any(&self) -> bool {
+        self.0.any()
+    }
+    pub fn all(&self) -> bool {
+        self.0.all()
+    }
+    pub fn find_first(&self) -> Option<u8> {
+        self.0.find_first()
+    }
+    pub fn find_last(&self) -> Option<u8> {
+        self.0.find_last()
+    }
+    pub fn find_next(&self, last: u8) -> Option<u8> {
+        self.0.find_next(last)
+    }
+    pub fn find_nth(&self, n: u8) -> Option<u8> {
+        self.0.find_nth(n)
+    }
+    pub fn is_alphabetic(&self) -> bool {
+        self.0.is_alphabetic()
+    }
+    pub fn is_caseless_char(&self) -> bool {
+        self.0.is_caseless_char()
+    }
+    pub fn is_bit5_insensitive(&self) -> bool {
+        self.0.is_bit5_insensitive()
+    }
+    pub fn is_ascii(&self) -> bool {
+        self.0.is_ascii()
+    }
+    pub fn is_utf8_start(&self) -> bool {
+        self.0.is_utf8_start()
+    }
+    pub fn is_subset_of(&self, rhs: &Self) -> bool {
+        self.0.is_subset_of(&rhs.0)
+    }
+    pub fn overlaps(&self, rhs: &Self) -> bool {
+        self.0.overlaps(&rhs.0)
+    }
+    pub fn masks(&self) -> (u8, u8) {
+        make_and_cmp_mask(&self.0)
+    }
+    pub fn fill(&self, bits: &mut [u8]) {
+        fill_bitvector(&self.0, bits);
+    }
+
+    /// Writes a description, escaped for DOT if `dot`.
+    ///
+    /// # Errors
+    ///
+    /// Returns an error if `out` does.
+    pub fn describe<W: fmt::Write>(&self, out: &mut W, most: usize, dot: bool) -> fmt::Result {
+        let kind = if dot { CcOutput::Dot } else { CcOutput::Text };
+        describe_class(out, &self.0, most, kind)
+    }
+}
+
+impl fmt::Display for Set {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        fmt::Display::fmt(&self.0, f)
+    }
+}
diff --git a/src/util.rs b/src/util.rs
index 59ab283..3b21626 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -14,6 +14,8 @@ mod ue2string;
 mod unicode_def;
 
 pub(crate) use boundary_reports::BoundaryReports;
+#[cfg(rescan_sim_inner)]
+pub(crate) use charreach::{fill_bitvector, make_and_cmp_mask};
 pub(crate) use charreach::{make_caseless, CharReach};
 pub(crate) use compile_context::CompileContext;
 pub(crate) use depth::Depth;
-- 
2.43.0


From c5d50ba21877be849ef6d334cd581f10c42526bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:22 +0000
Subject: [PATCH 12/16] fix: align values of 256 and more

The masks of the alignment helpers were made of a byte, so that all but
the low byte of a value was lost.
---
 src/util/ue2common.rs | 30 +++++++++++-------------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/src/util/ue2common.rs b/src/util/ue2common.rs
index f57473e..ac2a5c3 100644
--- a/src/util/ue2common.rs
+++ b/src/util/ue2common.rs
@@ -1,4 +1,4 @@
-use std::ops::{Add, BitAnd};
+use std::ops::{Add, BitAnd, Not};
 
 pub type S64a = i64;
 
@@ -12,11 +12,9 @@ pub type ReportId = u32;
 #[inline]
 pub fn round_up_16<T>(a: T) -> T
 where
-    T: Add + BitAnd + From<u8>,
-    <T as Add>::Output: Into<T>,
-    <T as BitAnd>::Output: Into<T>,
+    T: Add<Output = T> + BitAnd<Output = T> + Not<Output = T> + From<u8>,
 {
-    ((a + 0xf_u8.into()).into() & (!0xf_u8).into()).into()
+    (a + T::from(0xf)) & !T::from(0xf)
 }
 
 /// Aligns to the previous 16-byte boundary.
@@ -24,21 +22,18 @@ where
 #[inline]
 pub fn round_down_16<T>(a: T) -> T
 where
-    T: BitAnd + From<u8>,
-    <T as BitAnd>::Output: Into<T>,
+    T: BitAnd<Output = T> + Not<Output = T> + From<u8>,
 {
-    (a & (!0xf_u8).into()).into()
+    a & !T::from(0xf)
 }
 
 /// Aligns to the next n-byte boundary.
 #[inline]
 pub fn round_up_n<T>(a: T, n: u8) -> T
 where
-    T: Add + BitAnd + From<u8>,
-    <T as Add>::Output: Into<T>,
-    <T as BitAnd>::Output: Into<T>,
+    T: Add<Output = T> + BitAnd<Output = T> + Not<Output = T> + From<u8>,
 {
-    ((a + (n - 1).into()).into() & (!(n - 1)).into()).into()
+    (a + T::from(n - 1)) & !T::from(n - 1)
 }
 
 /// Aligns to the previous n-byte boundary.
@@ -46,10 +41,9 @@ where
 #[inline]
 pub fn round_down_n<T>(a: T, n: u8) -> T
 where
-    T: BitAnd + From<u8>,
-    <T as BitAnd>::Output: Into<T>,
+    T: BitAnd<Output = T> + Not<Output = T> + From<u8>,
 {
-    (a & (!(n - 1)).into()).into()
+    a & !T::from(n - 1)
 }
 
 /// Aligns to a cache line.
@@ -57,9 +51,7 @@ where
 #[inline]
 pub fn round_up_cache_line<T>(a: T) -> T
 where
-    T: Add + BitAnd + From<u8>,
-    <T as Add>::Output: Into<T>,
-    <T as BitAnd>::Output: Into<T>,
+    T: Add<Output = T> + BitAnd<Output = T> + Not<Output = T> + From<u8>,
 {
-    ((a + 0x3f_u8.into()).into() & (!0x3f_u8).into()).into()
+    (a + T::from(0x3f)) & !T::from(0x3f)
 }
-- 
2.43.0


From 099667ffa7ab773418e6fdb4ced9114fd9517c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:22 +0000
Subject: [PATCH 13/16] fix: literals that differ in caselessness are not equal

Equality disagreed with the ordering of literals, which tells them apart.
---
 src/util/ue2string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/ue2string.rs b/src/util/ue2string.rs
index a3e3743..7023468 100644
--- a/src/util/ue2string.rs
+++ b/src/util/ue2string.rs
@@ -73,7 +73,7 @@ impl<'a> IntoIterator for &'a Ue2Literal {
 impl PartialEq for Ue2Literal {
     #[must_use]
     fn eq(&self, other: &Self) -> bool {
-        self.s == other.s
+        self.s == other.s && self.nocase == other.nocase
     }
 }
 
-- 
2.43.0


From fc2f31fe2e9331739f9ff68c992034877d18321c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:22 +0000
Subject: [PATCH 14/16] fix: keep a literal as it was if it cannot grow

If the second of the two pushes failed, the two parts of a literal were
of different lengths from then on.
---
 src/util/ue2string.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util/ue2string.rs b/src/util/ue2string.rs
index 7023468..4604318 100644
--- a/src/util/ue2string.rs
+++ b/src/util/ue2string.rs
@@ -44,6 +44,8 @@ impl Ue2Literal {
         if nc {
             c = mytoupper(c);
         }
+        // Neither push may fail once the other is done.
+        self.s.reserve(1);
         self.nocase.push(nc);
         self.s.push(c);
     }
-- 
2.43.0


From 4b07865fba319ddf33cf0d0a7dac489ab8e5f65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:01 +0000
Subject: [PATCH 15/16] sim: literals, depths, alignments and reports

---
 src/sim.rs            |  4 +++
 src/sim/reports.rs    | 48 ++++++++++++++++++++++++++++
 src/sim/values.rs     | 74 +++++++++++++++++++++++++++++++++++++++++++
 src/util.rs           |  4 +++
 src/util/ue2string.rs |  7 ++++
 5 files changed, 137 insertions(+)
 create mode 100644 src/sim/reports.rs
 create mode 100644 src/sim/values.rs

diff --git a/src/sim.rs b/src/sim.rs
index 7966aa9..cfb6692 100644
--- a/src/sim.rs
+++ b/src/sim.rs
@@ -12,7 +12,11 @@ use std::fmt;
 #[cfg(rescan_sim_inner)]
 pub mod limits;
 #[cfg(rescan_sim_inner)]
+pub mod reports;
+#[cfg(rescan_sim_inner)]
 pub mod sets;
+#[cfg(rescan_sim_inner)]
+pub mod values;
 
 extern "Rust" {
     fn rescan_sim_observe(what: &str, value: &dyn fmt::Debug);
diff --git a/src/sim/reports.rs b/src/sim/reports.rs
new file mode 100644
index 0000000..f9609d8
--- /dev/null
+++ b/src/sim/reports.rs
@@ -0,0 +1,48 @@
+//! A report manager as the simulator sees it.
+//!
+//! Built only with `--cfg rescan_sim_inner`.
+
+use crate::util::{ExternalReportInfo, Report, ReportManager};
+use crate::{CompileError, Grey};
+
+pub struct Reports<'a>(ReportManager<'a>);
+
+/// A report manager with room for `most` reports, for as long as `f` runs.
+pub fn with_reports<R>(most: usize, f: impl FnOnce(Reports) -> R) -> R {
+    let grey = Grey {
+        limit_report_count: most,
+        ..Grey::default()
+    };
+    f(Reports(ReportManager::new(&grey)))
+}
+
+impl Reports<'_> {
+    /// The number of the report of a least length.
+    ///
+    /// # Errors
+    ///
+    /// Returns an error if there is no room for it.
+    pub fn internal_id(&mut self, min_length: u64) -> Result<u32, CompileError> {
+        self.0.get_internal_id(&Report { min_length })
+    }
+
+    /// The least length of the report of a number.
+    pub fn report(&self, id: u32) -> u64 {
+        self.0.get_report(id).min_length
+    }
+
+    /// Registers the match id of an expression.
+    ///
+    /// # Errors
+    ///
+    /// Returns an error if another expression of the same match id disagrees.
+    pub fn register(&mut self, id: u32, single: bool, index: u32) -> Result<(), CompileError> {
+        self.0
+            .register_ext_report(id, ExternalReportInfo::new(single, index))
+    }
+
+    /// The exhaustion key of an expression.
+    pub fn exhaustible_key(&mut self, index: u32) -> u32 {
+        self.0.get_exhaustible_key(index)
+    }
+}
diff --git a/src/sim/values.rs b/src/sim/values.rs
new file mode 100644
index 0000000..1e26ab8
--- /dev/null
+++ b/src/sim/values.rs
@@ -0,0 +1,74 @@
+//! Literals, depths and alignments as the simulator sees them.
+//!
+//! Built only with `--cfg rescan_sim_inner`.
+
+use crate::util::{mixed_sensitivity, Depth, Ue2Literal};
+use crate::util::{round_down_16, round_down_n, round_up_16, round_up_cache_line, round_up_n};
+use std::convert::TryFrom;
+
+#[derive(Default, Eq, PartialEq, PartialOrd, Ord)]
+pub struct Literal(Ue2Literal);
+
+impl Literal {
+    pub fn len(&self) -> usize {
+        self.0.len()
+    }
+    pub fn is_empty(&self) -> bool {
+        self.0.is_empty()
+    }
+    pub fn any_nocase(&self) -> bool {
+        self.0.any_nocase()
+    }
+    pub fn push(&mut self, c: u8, nocase: bool) {
+        self.0.push(c, nocase);
+    }
+    pub fn elements(&self) -> impl Iterator<Item = (u8, bool)> + '_ {
+        self.0.iter().map(|e| (e.c, e.is_nocase()))
+    }
+    /// The same, as a loop over the literal itself meets them.
+    pub fn each(&self, mut f: impl FnMut(u8, bool)) {
+        for e in &self.0 {
+            f(e.c, e.is_nocase());
+        }
+    }
+    pub fn mixed(&self, from: usize, to: usize) -> bool {
+        mixed_sensitivity(self.0.iter().skip(from).take(to.saturating_sub(from)))
+    }
+}
+
+#[derive(Clone, Copy, Eq, PartialEq, PartialOrd, Ord)]
+pub struct Far(Depth);
+
+impl Far {
+    pub fn infinity() -> Self {
+        Self(Depth::infinity())
+    }
+    pub fn from_u32(v: u32) -> Option<Self> {
+        Depth::try_from(v).ok().map(Self)
+    }
+    pub fn from_usize(v: usize) -> Option<Self> {
+        Depth::try_from(v).ok().map(Self)
+    }
+}
+
+/// `a` aligned up and down: to 16, to `n`, and (up) to a cache line.
+macro_rules! aligned {
+    ($name:ident, $t:ty) => {
+        pub fn $name(a: $t, n: u8) -> [$t; 5] {
+            [
+                round_up_16(a),
+                round_down_16(a),
+                round_up_n(a, n),
+                round_down_n(a, n),
+                round_up_cache_line(a),
+            ]
+        }
+    };
+}
+
+aligned!(aligned_u8, u8);
+aligned!(aligned_u16, u16);
+aligned!(aligned_u32, u32);
+aligned!(aligned_u64, u64);
+aligned!(aligned_usize, usize);
+aligned!(aligned_i64, i64);
diff --git a/src/util.rs b/src/util.rs
index 3b21626..159e008 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -23,5 +23,9 @@ pub(crate) use depth::Depth;
 pub(crate) use dump_charclass::{describe_class, CcOutput};
 pub(crate) use report::{make_e_callback, make_som_relative_callback, Report};
 pub(crate) use report_manager::{ExternalReportInfo, ReportManager};
+#[cfg(rescan_sim_inner)]
+pub(crate) use ue2common::{
+    round_down_16, round_down_n, round_up_16, round_up_cache_line, round_up_n,
+};
 pub(crate) use ue2common::{ReportId, S64a};
 pub(crate) use ue2string::{mixed_sensitivity, Ue2Literal};
diff --git a/src/util/ue2string.rs b/src/util/ue2string.rs
index 4604318..f552ca5 100644
--- a/src/util/ue2string.rs
+++ b/src/util/ue2string.rs
@@ -51,6 +51,13 @@ impl Ue2Literal {
     }
 }
 
+#[cfg(rescan_sim_inner)]
+impl Ue2LiteralElem {
+    pub(crate) fn is_nocase(&self) -> bool {
+        self.nocase
+    }
+}
+
 impl<'a> Iterator for Ue2LiteralIter<'a> {
     type Item = Ue2LiteralElem;
 
-- 
2.43.0


From 83e69bd81c4420c485cd672840e9307eaa13adac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:46 +0000
Subject: [PATCH 16/16] sim: the usual limits

---
 src/sim/limits.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/sim/limits.rs b/src/sim/limits.rs
index 52ba43e..127d6bb 100644
--- a/src/sim/limits.rs
+++ b/src/sim/limits.rs
@@ -19,6 +19,23 @@ pub struct Limits {
     pub reports: usize,
 }
 
+/// The limits of a compile call that sets none.
+#[must_use]
+pub fn usual() -> Limits {
+    let g = Grey::default();
+    Limits {
+        literals: g.allow_literal,
+        shortcut: g.shortcut_literals,
+        small_write: g.allow_small_write,
+        small_write_length: g.small_write_largest_buffer,
+        small_write_patterns: g.small_write_max_patterns,
+        small_write_literals: g.small_write_max_literals,
+        patterns: g.limit_pattern_count,
+        length: g.limit_pattern_length,
+        reports: g.limit_report_count,
+    }
+}
+
 /// Compiles multiple regular expressions within `limits`.
 ///
 /// # Errors
-- 
2.43.0

