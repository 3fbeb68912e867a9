From 82a472f7c4ad32b5c7fa69fdf2dd37b2de9b2d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:42 +0000
Subject: [PATCH 01/41] fix: do not panic on time-traces without any event

---
 clang-time-trace/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clang-time-trace/src/lib.rs b/clang-time-trace/src/lib.rs
index d42f745..dca3f3b 100644
--- a/clang-time-trace/src/lib.rs
+++ b/clang-time-trace/src/lib.rs
@@ -252,7 +252,8 @@ impl FromStr for ClangTrace {
         };
 
         // Process the trace events
-        let mut activities = ActivityTreeBuilder::with_capacity(profile_ctf.traceEvents.len() - 1);
+        let mut activities =
+            ActivityTreeBuilder::with_capacity(profile_ctf.traceEvents.len().saturating_sub(1));
         let mut global_stats = HashMap::new();
         let mut process_name = None;
         let mut thread_name = None;
-- 
2.43.0


From 13b83f801f2189f88061fb952b138f82ba7597ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 02/41] fix: accept activities whose detail argument is an
 empty string

---
 clang-time-trace/src/stats/activity/argument.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/clang-time-trace/src/stats/activity/argument.rs b/clang-time-trace/src/stats/activity/argument.rs
index a1ff0ef..4ff28f2 100644
--- a/clang-time-trace/src/stats/activity/argument.rs
+++ b/clang-time-trace/src/stats/activity/argument.rs
@@ -275,12 +275,7 @@ impl ActivityArgumentType {
         // entity without invoking a C++ parser, which is expensive, so that
         // will be our default case when things does not look like info text.
         //
-        if !detail
-            .chars()
-            .next()
-            .expect("detail is not empty if detail_arg() returned Ok")
-            .is_uppercase()
-        {
+        if !detail.chars().next().map_or(true, char::is_uppercase) {
             return ActivityArgumentType::CppEntity;
         }
         let mut can_be_string = true;
-- 
2.43.0


From 8e9732e0a613c838c6f653acfba6adce8173ca21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:29 +0000
Subject: [PATCH 03/41] fix: report relative paths in activity arguments as
 errors instead of panicking

---
 .../src/stats/activity/argument.rs            |  2 +-
 cpparser/src/lib.rs                           | 20 +++++++++++--------
 cpparser/src/subparsers/anonymous.rs          |  4 ++--
 3 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/clang-time-trace/src/stats/activity/argument.rs b/clang-time-trace/src/stats/activity/argument.rs
index 4ff28f2..8ae3eeb 100644
--- a/clang-time-trace/src/stats/activity/argument.rs
+++ b/clang-time-trace/src/stats/activity/argument.rs
@@ -88,7 +88,7 @@ impl RawActivityArgument {
                     Ok(ParsedActivityArgument::Module)
                 } else {
                     Ok(ParsedActivityArgument::FilePath(
-                        parser.intern_path(&detail),
+                        parser.try_intern_path(&detail)?,
                     ))
                 }
             }
diff --git a/cpparser/src/lib.rs b/cpparser/src/lib.rs
index 7ab4502..f7c27a6 100644
--- a/cpparser/src/lib.rs
+++ b/cpparser/src/lib.rs
@@ -26,7 +26,8 @@ use crate::{
 };
 use asylum::{
     lasso::{MiniSpur, Rodeo, Spur},
-    path, Interner,
+    path::{self, PathError},
+    Interner,
 };
 use nom::{error::Error, Parser};
 use nom_supreme::ParserExt;
@@ -159,15 +160,18 @@ impl EntityParser {
     /// interned using the same infrastructure for key comparability.
     ///
     pub fn intern_path(&mut self, path: &str) -> PathKey {
-        self.intern_path_imut(path)
+        self.try_intern_path(path)
+            .expect("Encountered relative (and thus non-interpretable) file path")
     }
 
-    /// Implementation of intern_path with internal mutability
-    pub(crate) fn intern_path_imut(&self, path: &str) -> PathKey {
-        self.paths
-            .borrow_mut()
-            .intern(path)
-            .expect("Encountered relative (and thus non-interpretable) file path")
+    /// Variant of intern_path that reports relative paths as an error
+    pub fn try_intern_path(&mut self, path: &str) -> Result<PathKey, PathError> {
+        self.try_intern_path_imut(path)
+    }
+
+    /// Implementation of try_intern_path with internal mutability
+    pub(crate) fn try_intern_path_imut(&self, path: &str) -> Result<PathKey, PathError> {
+        self.paths.borrow_mut().intern(path)
     }
 
     /// Retrieve a previously interned path
diff --git a/cpparser/src/subparsers/anonymous.rs b/cpparser/src/subparsers/anonymous.rs
index 4efec91..9bfd1c8 100644
--- a/cpparser/src/subparsers/anonymous.rs
+++ b/cpparser/src/subparsers/anonymous.rs
@@ -148,7 +148,7 @@ impl EntityParser {
         use nom::{
             bytes::complete::take_till1,
             character::complete::{anychar, char, u32},
-            combinator::{opt, recognize},
+            combinator::{map_res, opt, recognize},
             sequence::separated_pair,
         };
 
@@ -156,7 +156,7 @@ impl EntityParser {
 
         let disk_designator = anychar.and(char(':'));
         let path_str = recognize(opt(disk_designator).and(take_till1(|c| c == ':')));
-        let path = path_str.map(|path| self.intern_path_imut(path));
+        let path = map_res(path_str, |path| self.try_intern_path_imut(path));
 
         let source_location = separated_pair(path, char(':'), location);
         source_location
-- 
2.43.0


From e4e24b9897dd406a6c7495b4c91c59dc4aab7585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 04/41] fix: reject C++ names with non-ASCII characters instead
 of panicking in debug builds

---
 cpparser/src/subparsers/names/atoms.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/cpparser/src/subparsers/names/atoms.rs b/cpparser/src/subparsers/names/atoms.rs
index 634621a..3cb34bd 100644
--- a/cpparser/src/subparsers/names/atoms.rs
+++ b/cpparser/src/subparsers/names/atoms.rs
@@ -124,7 +124,6 @@ fn identifier(s: &str) -> IResult<&str> {
     }
     #[cfg(not(feature = "unicode-xid"))]
     {
-        debug_assert!(s.is_ascii());
         let bytes = s.as_bytes().split_first();
         match bytes {
             Some((first, others)) if is_id_start(*first) => {
@@ -154,7 +153,6 @@ fn end_of_identifier(s: &str) -> IResult<()> {
     }
     #[cfg(not(feature = "unicode-xid"))]
     {
-        debug_assert!(s.is_ascii());
         match s.as_bytes().first().copied() {
             Some(b) if is_id_continue(b) => Err(nom::Err::Error(Error::new(s, ErrorKind::Satisfy))),
             _ => Ok((s, ())),
@@ -171,11 +169,10 @@ fn is_id_start(c: char) -> bool {
 }
 //
 /// Truth that a character can be used as the start of a C++ identifier
-// This version assumes ASCII input
+// This version only supports ASCII identifiers, other characters are rejected
 #[cfg(not(feature = "unicode-xid"))]
 #[inline]
 fn is_id_start(b: u8) -> bool {
-    debug_assert!(b.is_ascii());
     b.is_ascii_alphabetic() || (b == b'_') || (b == b'$')
 }
 
@@ -188,11 +185,10 @@ fn is_id_continue(c: char) -> bool {
 }
 //
 /// Truth that a character can be used in the middle of a C++ identifier
-// This version assumes ASCII input
+// This version only supports ASCII identifiers, other characters are rejected
 #[cfg(not(feature = "unicode-xid"))]
 #[inline]
 fn is_id_continue(b: u8) -> bool {
-    debug_assert!(b.is_ascii());
     is_id_start(b) || b.is_ascii_digit()
 }
 
-- 
2.43.0


From 13d64668ca0d97e29b18fce3bb8c2f04785fa11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:59 +0000
Subject: [PATCH 05/41] fix: find known sequences through entries even when the
 key space is exhausted

---
 asylum/src/sequence.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/asylum/src/sequence.rs b/asylum/src/sequence.rs
index 0e9a8aa..6c4d7cc 100644
--- a/asylum/src/sequence.rs
+++ b/asylum/src/sequence.rs
@@ -259,12 +259,9 @@ impl<Item: Clone + Eq + Hash, K: InternerKey<ImplKey = Range<usize>>> SequenceEn
 
     /// Finish the interning transaction
     pub fn intern(self) -> K {
-        // Hash the input sequence and figure what its interning key would be
+        // Hash the input sequence
         let sequence = &self.interner.concatenated[self.initial_concatenated_len..];
         let hash = self.interner.random_state.hash_one(sequence);
-        let start = self.initial_concatenated_len;
-        let new_key = K::try_from_impl_key(start..start + sequence.len())
-            .expect("Key space exhausted, please use a bigger K");
 
         // If this sequence was interned before, return the same key
         if let Some(old_key) = self.interner.get_sequence_key(hash, sequence) {
@@ -272,6 +269,9 @@ impl<Item: Clone + Eq + Hash, K: InternerKey<ImplKey = Range<usize>>> SequenceEn
         } else {
             // Otherwise, intern the sequence, and inhibit drop so that the
             // items that we just interned are not discarded
+            let start = self.initial_concatenated_len;
+            let new_key = K::try_from_impl_key(start..start + sequence.len())
+                .expect("Key space exhausted, please use a bigger K");
             self.interner.insert_sequence_key(hash, new_key);
             std::mem::forget(self);
             new_key
-- 
2.43.0


From c4844688e7e84a7f4a71d244078845ddc34a0b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:46 +0000
Subject: [PATCH 06/41] fix: complete display of rooted names and of variadic
 functions without parameters

---
 cpparser/src/subparsers/functions.rs    | 10 ++++++++--
 cpparser/src/subparsers/names/scopes.rs |  2 ++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/cpparser/src/subparsers/functions.rs b/cpparser/src/subparsers/functions.rs
index 02c0a1f..819bd8e 100644
--- a/cpparser/src/subparsers/functions.rs
+++ b/cpparser/src/subparsers/functions.rs
@@ -376,6 +376,7 @@ impl CustomDisplay for FunctionSignatureView<'_> {
     fn recursion_depth(&self) -> usize {
         self.parameters()
             .recursion_depth()
+            .max(self.variadic() as usize)
             .max(self.noexcept().recursion_depth())
             .max(self.trailing_return().recursion_depth())
     }
@@ -386,8 +387,13 @@ impl CustomDisplay for FunctionSignatureView<'_> {
         }
 
         self.parameters().display_impl(f, state)?;
-        if state.can_recurse() && self.variadic() {
-            write!(f, ", ...")?;
+        if self.variadic() {
+            match (state.can_recurse(), self.parameters().is_empty()) {
+                (true, true) => write!(f, "...")?,
+                (true, false) => write!(f, ", ...")?,
+                (false, true) => write!(f, "…")?,
+                (false, false) => {}
+            }
         }
         write!(f, ")")?;
 
diff --git a/cpparser/src/subparsers/names/scopes.rs b/cpparser/src/subparsers/names/scopes.rs
index c8ae1aa..13306a7 100644
--- a/cpparser/src/subparsers/names/scopes.rs
+++ b/cpparser/src/subparsers/names/scopes.rs
@@ -355,6 +355,8 @@ impl CustomDisplay for NestedNameSpecifierView<'_> {
             self.scopes().display_impl(f, state)?;
         } else if !self.scopes().is_empty() {
             write!(f, "…::")?;
+        } else if self.is_rooted() {
+            write!(f, "::")?;
         }
         Ok(())
     }
-- 
2.43.0


From 0a6c65cc9a500c0127cced0b01d30c1b0cd6358b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:37 +0000
Subject: [PATCH 07/41] fix: do not take C++ names that start with new for
 new-expressions

---
 cpparser/src/subparsers/operators/usage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpparser/src/subparsers/operators/usage.rs b/cpparser/src/subparsers/operators/usage.rs
index a9c3fe0..30d884c 100644
--- a/cpparser/src/subparsers/operators/usage.rs
+++ b/cpparser/src/subparsers/operators/usage.rs
@@ -147,7 +147,7 @@ impl EntityParser {
         let rooted = opt(tag("::")).map(|o| o.is_some());
         separated_pair(
             rooted,
-            tag("new").and(multispace0),
+            Self::keyword_parser("new").and(multispace0),
             tuple((
                 opt(|s| self.parse_function_call_imut(s)).terminated(multispace0),
                 (|s| self.parse_type_like_imut(s)).terminated(multispace0),
-- 
2.43.0


From 505f1701ea7101d2e28f58aedad386a4fcccc9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:00 +0000
Subject: [PATCH 08/41] fix: do not panic on doubled operators in C++
 expressions, such as a**b

---
 cpparser/src/subparsers/operators/usage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpparser/src/subparsers/operators/usage.rs b/cpparser/src/subparsers/operators/usage.rs
index 30d884c..2884d56 100644
--- a/cpparser/src/subparsers/operators/usage.rs
+++ b/cpparser/src/subparsers/operators/usage.rs
@@ -111,7 +111,7 @@ impl EntityParser {
                     AddPlus | SubNeg => false,
                     AndRef | Or | AssignEq | Less => true,
                     Greater => allow_greater,
-                    Xor | Mod | Div | MulDeref | BitNot | Not | Comma => unreachable!(),
+                    Xor | Mod | Div | MulDeref | BitNot | Not | Comma => false,
                 }
             }
             // This may need to be revised as C++ evolves
-- 
2.43.0


From 5a494c99a0d9d1058969997cfb96cd4a0bddd4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:19 +0000
Subject: [PATCH 09/41] fix: report on traces that do not have exactly one
 top-level activity

---
 src/ui/stdio.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/ui/stdio.rs b/src/ui/stdio.rs
index bc6597f..0e5a55c 100644
--- a/src/ui/stdio.rs
+++ b/src/ui/stdio.rs
@@ -151,16 +151,18 @@ fn print_hierarchical_profile(
         skip_indent: " ",
     };
     println!("\nHierarchical profile:");
-    assert_eq!(trace.root_activities().count(), 1);
-    let root_id = trace
+    // There is usually one ExecuteCompiler root activity, but nothing forces a
+    // time-trace to have one or to only have one.
+    let root_ids = trace
         .root_activities()
-        .next()
-        .expect("There should be one ExecuteCompiler root activity")
-        .id();
-    println!(
-        "{}",
-        hierarchical_profile_tree(trace, palette, root_id, duration_norm, threshold, max_cols)
-    );
+        .map(|root| root.id())
+        .collect::<Vec<_>>();
+    for root_id in root_ids {
+        println!(
+            "{}",
+            hierarchical_profile_tree(trace, palette, root_id, duration_norm, threshold, max_cols)
+        );
+    }
 }
 
 /// Make a tree display of the hierarchical profile of some build
-- 
2.43.0


From d01be8c673743166eb1ddf3dd666aa3e32b05945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:19 +0000
Subject: [PATCH 10/41] fix: do not panic when asked for a report in less than
 three columns

---
 src/ui/stdio.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ui/stdio.rs b/src/ui/stdio.rs
index 0e5a55c..334d7e1 100644
--- a/src/ui/stdio.rs
+++ b/src/ui/stdio.rs
@@ -34,7 +34,8 @@ pub fn run(args: CliArgs) {
     // Determine column budget
     let max_cols = termion::terminal_size()
         .map(|(width, _height)| width.min(args.max_cols))
-        .unwrap_or(args.max_cols);
+        .unwrap_or(args.max_cols)
+        .max(1);
 
     // Load the clang trace
     eprintln!("Processing input data...");
@@ -118,7 +119,7 @@ fn print_flat_profile(
             std::io::stdout(),
             activity_trace.activity().id(),
             &parsed_arg.resolve(trace),
-            max_cols - 2,
+            max_cols.saturating_sub(2).max(1),
             duration,
             duration_norm,
         )
-- 
2.43.0


From 0d956435ba5675ef4685633406ffdbb652eb40f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:19 +0000
Subject: [PATCH 11/41] fix: do not panic on traces with an out-of-range
 beginningOfTime

---
 src/ui/display/metadata.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/ui/display/metadata.rs b/src/ui/display/metadata.rs
index 9b4e817..e322a31 100644
--- a/src/ui/display/metadata.rs
+++ b/src/ui/display/metadata.rs
@@ -49,11 +49,12 @@ pub fn metadata(trace: &ClangTrace, max_cols: u16) -> String {
     }
     if let Some(bot) = trace.beginning_of_time() {
         let mut display = "recorded ".to_owned();
-        let bot = OffsetDateTime::from_unix_timestamp_nanos((bot / MICROSECOND) as i128 * 1000)
-            .unwrap()
-            .format(&Rfc3339)
-            .unwrap();
-        display.push_str(&bot);
+        // Not every number is a date that can be displayed
+        let bot = ((bot / MICROSECOND) as i128)
+            .checked_mul(1000)
+            .and_then(|nanos| OffsetDateTime::from_unix_timestamp_nanos(nanos).ok())
+            .and_then(|date| date.format(&Rfc3339).ok());
+        display.push_str(bot.as_deref().unwrap_or("at an invalid date"));
         display_more(&mut buf, display);
     }
     buf.push('.');
-- 
2.43.0


From 314e0945b1888e0328991aea9c2787d0b455c521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:01 +0000
Subject: [PATCH 12/41] fix: do not add a separator in front of
 single-component paths

---
 src/ui/display/path.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ui/display/path.rs b/src/ui/display/path.rs
index 18fd446..453f44f 100644
--- a/src/ui/display/path.rs
+++ b/src/ui/display/path.rs
@@ -184,9 +184,14 @@ fn display_components(
         buffer.pop();
     }
 
-    // Add back components and associated separators
+    // Add back components and associated separators (none before the very first
+    // component of the path, as in a lone file name or the file system root)
+    let mut need_separator = accepted_front > 0 || elided_components > 0;
     for _ in 0..accepted_back {
-        buffer.push(PATH_SEPARATOR);
+        if need_separator {
+            buffer.push(PATH_SEPARATOR);
+        }
+        need_separator = true;
         buffer.push_str(
             components
                 .next()
-- 
2.43.0


From 9a3b30d5165b673999ad1c7f6ea5d50a8d7b958c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:16 +0000
Subject: [PATCH 13/41] fix: keep activities whose argument has line feeds on
 one line of single-line displays

---
 src/ui/display/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ui/display/mod.rs b/src/ui/display/mod.rs
index d82a5d2..8612080 100644
--- a/src/ui/display/mod.rs
+++ b/src/ui/display/mod.rs
@@ -40,7 +40,7 @@ pub enum DisplayConfig {
 }
 
 /// Truncate a string so that it only eats up n columns, by eating up the middle
-/// Assumes absence of line feeds in the input string.
+/// Line feeds, which cannot be part of a single line, are displayed as spaces.
 pub fn display_string(
     mut output: impl io::Write,
     input: &str,
@@ -51,12 +51,12 @@ pub fn display_string(
         DisplayConfig::SingleLine { max_cols } => max_cols,
         DisplayConfig::MultiLine { .. } => return write!(output, "{input}"),
     } as usize;
+    let input = &*input.replace(['\r', '\n'], " ");
     if input.width() <= max_cols {
         return write!(output, "{input}");
     }
 
     // Make sure the request makes sense
-    debug_assert!(input.chars().all(|c| c != '\r' && c != '\n'));
     assert!(max_cols >= 1);
 
     // Split our column budget into a header and trailer
-- 
2.43.0


From 5f22bd9b2d9b6d4289c24241e15bc493a3b0bc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:02 +0000
Subject: [PATCH 14/41] fix: do not shorten rooted single-component paths that
 fit

---
 src/ui/display/path.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ui/display/path.rs b/src/ui/display/path.rs
index 453f44f..fc260d0 100644
--- a/src/ui/display/path.rs
+++ b/src/ui/display/path.rs
@@ -41,6 +41,15 @@ pub fn truncate_path_iter(
     assert!(cols > 0, "Need at least one column to display something");
     let cols = usize::from(cols);
 
+    // No need to truncate a path that fits
+    let num_components = components.clone().count();
+    if num_components > 0 {
+        let full_path = display_components(components.clone(), (num_components - 1, 1));
+        if full_path.width() <= cols {
+            return full_path;
+        }
+    }
+
     // Determine how many complete path components we can display
     let (accepted_front, accepted_back) = select_components(components.clone(), cols);
 
-- 
2.43.0


From ddeda5b6f804cccc1d1600da759e0777ebbcf416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:50 +0000
Subject: [PATCH 15/41] fix: collect job output while jobs run, whatever its
 size and encoding

---
 cmakeperf/src/measure/worker.rs | 60 ++++++++++++++++++++++++++-------
 1 file changed, 47 insertions(+), 13 deletions(-)

diff --git a/cmakeperf/src/measure/worker.rs b/cmakeperf/src/measure/worker.rs
index d8ce954..5c2144e 100644
--- a/cmakeperf/src/measure/worker.rs
+++ b/cmakeperf/src/measure/worker.rs
@@ -12,6 +12,7 @@ use std::{
         mpsc::Sender,
         RwLockReadGuard,
     },
+    thread::JoinHandle,
     time::Instant,
 };
 use sysinfo::{Pid, Process, Signal, System};
@@ -60,6 +61,7 @@ fn process_job(
     }
     let start = measure_time.then(Instant::now);
     let mut process = start_job(&job)?;
+    let output = JobOutput::collect(&mut process);
     let mut poll_clock = PollClock::start();
 
     // Monitor the job to completion or error
@@ -84,7 +86,7 @@ fn process_job(
     let wall_time = start.map(|start| start.elapsed());
 
     // Decide if job has succeeded or failed, log output accordingly
-    report_process(process, exit_status)?;
+    report_process(output, exit_status)?;
 
     // Compute relative path to the input, if possible
     let rel_path = std::env::current_dir()
@@ -229,8 +231,8 @@ impl ProcessTree {
 }
 
 /// Report on process failure or unexpected output
-fn report_process(process: Child, exit_status: ExitStatus) -> Result<(), JobError> {
-    let stdpipe_report = report_stdpipe(process);
+fn report_process(output: JobOutput, exit_status: ExitStatus) -> Result<(), JobError> {
+    let stdpipe_report = report_stdpipe(output);
     if !exit_status.success() {
         let mut message = format!("Job failed with {exit_status}");
         if !stdpipe_report.is_empty() {
@@ -245,17 +247,49 @@ fn report_process(process: Child, exit_status: ExitStatus) -> Result<(), JobErro
     Ok(())
 }
 
-/// Report on non-empty stdout and/or stderr from a compilation process
-fn report_stdpipe(process: Child) -> String {
-    fn read_stdpipe(pipe: Option<impl Read>) -> String {
-        let mut buf = String::new();
-        pipe.expect("Process output/error should have been piped and available")
-            .read_to_string(&mut buf)
-            .expect("Reading from pipes should be infaillible");
-        buf
+/// Output of a compilation process, collected in the background as it comes
+///
+/// Pipes have a bounded capacity, so a process that has much to say would never
+/// terminate if we only read its output after it has terminated.
+///
+struct JobOutput {
+    /// Standard output
+    stdout: JoinHandle<Vec<u8>>,
+
+    /// Standard error
+    stderr: JoinHandle<Vec<u8>>,
+}
+//
+impl JobOutput {
+    /// Start collecting the output of a process
+    fn collect(process: &mut Child) -> Self {
+        fn read_stdpipe(pipe: Option<impl Read + Send + 'static>) -> JoinHandle<Vec<u8>> {
+            let mut pipe =
+                pipe.expect("Process output/error should have been piped and available");
+            std::thread::spawn(move || {
+                let mut buf = Vec::new();
+                if let Err(e) = pipe.read_to_end(&mut buf) {
+                    log::error!("Failed to read job output ({e})");
+                }
+                buf
+            })
+        }
+        Self {
+            stdout: read_stdpipe(process.stdout.take()),
+            stderr: read_stdpipe(process.stderr.take()),
+        }
     }
-    let stdout = read_stdpipe(process.stdout);
-    let stderr = read_stdpipe(process.stderr);
+}
+
+/// Report on non-empty stdout and/or stderr from a compilation process
+fn report_stdpipe(output: JobOutput) -> String {
+    // There is no guarantee that a job's output is made of valid UTF-8 text
+    let read_stdpipe = |reader: JoinHandle<Vec<u8>>| {
+        let bytes = reader.join().expect("Output readers should not panic");
+        String::from_utf8_lossy(&bytes).into_owned()
+    };
+    let stdout = read_stdpipe(output.stdout);
+    let stderr = read_stdpipe(output.stderr);
     let mut report = String::new();
     let has_stdout = !stdout.is_empty();
     if has_stdout {
-- 
2.43.0


From c217aef93adbeeb968b3312e21bdf0c5d5d5a824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:07 +0000
Subject: [PATCH 16/41] fix: stop all jobs of a measurement that fails, instead
 of running the remaining ones

---
 cmakeperf/src/measure/main.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cmakeperf/src/measure/main.rs b/cmakeperf/src/measure/main.rs
index d9107f8..c0eac31 100644
--- a/cmakeperf/src/measure/main.rs
+++ b/cmakeperf/src/measure/main.rs
@@ -63,8 +63,8 @@ pub(super) fn run(
             }
 
             // Wait for results while monitoring free RAM
-            let mut monitor_server = monitor.server();
             let mut work_sender = work_queue.sender();
+            let mut monitor_server = monitor.server();
             work_sender.start();
             let mut poll_clock = PollClock::start();
             while remaining_jobs > 0 {
@@ -366,6 +366,14 @@ impl<'monitor> MonitorServer<'monitor> {
     }
 }
 //
+impl Drop for MonitorServer<'_> {
+    /// No job should start or keep running once the main thread is done, for
+    /// any reason, as it does not process results and monitor memory anymore.
+    fn drop(&mut self) {
+        self.stop_all()
+    }
+}
+//
 /// Error returned when all threads have been killed due to OOM
 #[must_use]
 #[derive(Clone, Copy, Debug, Eq, PartialEq)]
-- 
2.43.0


From 7285e5c6591d6a202d28592eed9c0f7f0dd0c104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:09 +0000
Subject: [PATCH 17/41] fix: stop jobs that were started since the last system
 monitor update

---
 cmakeperf/src/measure/worker.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmakeperf/src/measure/worker.rs b/cmakeperf/src/measure/worker.rs
index 5c2144e..0c3421c 100644
--- a/cmakeperf/src/measure/worker.rs
+++ b/cmakeperf/src/measure/worker.rs
@@ -73,6 +73,11 @@ fn process_job(
                 let system = monitor_client.system();
                 tree.refresh(&system);
                 if let Err(MustStop) = monitor_client.keep_job() {
+                    // The last state that was observed by the main thread may
+                    // predate some processes, which must be stopped as well
+                    std::mem::drop(system);
+                    let system = System::new_with_specifics(Monitor::refresh_kind());
+                    tree.refresh(&system);
                     tree.kill(&system);
                     return Err(JobError::Killed(job));
                 } else {
-- 
2.43.0


From 808d3da01113015425105b09b19d18220d884998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:59 +0000
Subject: [PATCH 18/41] fix: keep polling on schedule when many jobs end
 between two polls

Every job result used to postpone the next look at free memory and at the
request to stop by one polling interval, so that after a few hundred quick
jobs a measurement could neither be cancelled nor react to a lack of memory
for tens of seconds.
---
 cmakeperf/src/measure/main.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cmakeperf/src/measure/main.rs b/cmakeperf/src/measure/main.rs
index c0eac31..d2ad3c0 100644
--- a/cmakeperf/src/measure/main.rs
+++ b/cmakeperf/src/measure/main.rs
@@ -17,6 +17,7 @@ use std::{
         mpsc::{self, RecvTimeoutError},
         Arc,
     },
+    time::Instant,
 };
 use sysinfo::RefreshKind;
 use thiserror::Error;
@@ -67,6 +68,7 @@ pub(super) fn run(
             let mut monitor_server = monitor.server();
             work_sender.start();
             let mut poll_clock = PollClock::start();
+            let mut next_poll = Instant::now() + poll_clock.poll_delay();
             while remaining_jobs > 0 {
                 // Handle external request to terminate the job
                 if kill.load(Ordering::Relaxed) {
@@ -77,7 +79,8 @@ pub(super) fn run(
 
                 // Wait for a job to be complete or a timeout
                 // TODO: Move to recv_deadline once available
-                match results_receiver.recv_timeout(poll_clock.poll_delay()) {
+                let timeout = next_poll.saturating_duration_since(Instant::now());
+                match results_receiver.recv_timeout(timeout) {
                     // A worker had to abort its current job as a result of running
                     // out of memory, send it back to other workers.
                     Ok(Err(JobError::Killed(job))) => {
@@ -100,7 +103,11 @@ pub(super) fn run(
 
                     // System monitor wakeup
                     Err(RecvTimeoutError::Timeout) => match monitor_server.update() {
-                        MonitorStatus::Running => {}
+                        // The clock only advances when polling, job results
+                        // that come in between do not postpone the next poll
+                        MonitorStatus::Running => {
+                            next_poll = Instant::now() + poll_clock.poll_delay();
+                        }
                         MonitorStatus::KilledEveryone => return Err(MeasureError::OutOfMemory),
                     },
 
-- 
2.43.0


From 4c2787c13dd6623b33f06bc57b9856ff7c64b7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:09 +0000
Subject: [PATCH 19/41] verification hook: access to the work queue, guarded by
 cfg(crofiler_verif)

---
 cmakeperf/src/lib.rs         |  1 +
 cmakeperf/src/measure/mod.rs | 57 ++++++++++++++++++++++++++++++++++++
 2 files changed, 58 insertions(+)

diff --git a/cmakeperf/src/lib.rs b/cmakeperf/src/lib.rs
index d781f72..1bf41d2 100644
--- a/cmakeperf/src/lib.rs
+++ b/cmakeperf/src/lib.rs
@@ -3,6 +3,7 @@
 //! This crate can measure and process full-build performance profiles reporting
 //! memory consumption and optionally compilation time with compilation unit
 //! granularity.
+#![allow(unexpected_cfgs)]
 
 pub mod commands;
 pub mod measure;
diff --git a/cmakeperf/src/measure/mod.rs b/cmakeperf/src/measure/mod.rs
index 6dd5010..3688b70 100644
--- a/cmakeperf/src/measure/mod.rs
+++ b/cmakeperf/src/measure/mod.rs
@@ -333,6 +333,63 @@ impl PollClock {
 ///
 static POLLING_INTERVAL_MILLIS: AtomicUsize = AtomicUsize::new(50);
 
+/// Access to the work queue from outside of this crate, for verification
+#[cfg(crofiler_verif)]
+pub mod verif {
+    use super::*;
+
+    /// Work queue
+    pub struct Queue(WorkQueue);
+    //
+    impl Queue {
+        /// Construct a queue with some initial jobs
+        pub fn new(jobs: Vec<DatabaseEntry>) -> Self {
+            Self(WorkQueue::new(jobs))
+        }
+
+        /// Set up the interfaces of the main thread and of the worker threads
+        pub fn split(&mut self, workers: usize) -> (Sender<'_>, Vec<Receiver<'_>>) {
+            let local_queues = self.0.local_queues(workers).collect::<Vec<_>>();
+            let queue = &self.0;
+            let receivers = local_queues
+                .into_iter()
+                .map(|local| Receiver(worker::WorkReceiver::new(local, queue)))
+                .collect();
+            (Sender(queue.sender()), receivers)
+        }
+    }
+
+    /// Interface of the main thread, dropping it closes the queue
+    pub struct Sender<'queue>(WorkSender<'queue>);
+    //
+    impl Sender<'_> {
+        /// Allow workers to start
+        pub fn start(&mut self) {
+            self.0.start()
+        }
+
+        /// (Re)submit a job to workers
+        pub fn push(&mut self, job: DatabaseEntry) {
+            self.0.push(job)
+        }
+    }
+
+    /// Interface of a worker thread
+    pub struct Receiver<'queue>(worker::WorkReceiver<'queue>);
+    //
+    impl Receiver<'_> {
+        /// Wait for the start signal
+        pub fn wait(&mut self) {
+            self.0.wait();
+        }
+
+        /// Fetch the next job, waiting for it if necessary
+        pub fn next(&mut self) -> Option<DatabaseEntry> {
+            self.0.next()
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use std::collections::HashSet;
-- 
2.43.0


From 2648705253361b2579dbdf9448d5332d65fad04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:12 +0000
Subject: [PATCH 20/41] fix: keep the sort direction when switching duration
 units

Switching units re-sorted all profiles in the direction that was current when
their activity column was created, instead of the one picked since then.
---
 src/ui/tui/trace/display.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ui/tui/trace/display.rs b/src/ui/tui/trace/display.rs
index adefacd..5d075c3 100644
--- a/src/ui/tui/trace/display.rs
+++ b/src/ui/tui/trace/display.rs
@@ -565,8 +565,10 @@ fn add_duration_cols_and_sort(
             sort_config.key = sort_config.key.into_flat();
         }
     }
-    table.set_default_column(sort_config.key.into_column(duration_display));
-    table.sort();
+    table.sort_by(
+        sort_config.key.into_column(duration_display),
+        sort_config.order[sort_config.key as usize],
+    );
 }
 
 /// Hierarchical profile column
-- 
2.43.0


From 3abc140e82a940e295fabb7748b41490ebb3409f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:12 +0000
Subject: [PATCH 21/41] fix: do not crash on activities of zero duration

The TUI panicked when zooming on an activity that took no time, and when
showing a trace whose activities took no time overall.
---
 src/ui/tui/trace/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ui/tui/trace/mod.rs b/src/ui/tui/trace/mod.rs
index fce9aa2..1fda408 100644
--- a/src/ui/tui/trace/mod.rs
+++ b/src/ui/tui/trace/mod.rs
@@ -9,5 +9,7 @@ use decorum::Finite;
 
 /// Compute the percentage norm associated with a set of activities
 fn percent_norm(total_duration: Duration) -> Finite<Duration> {
-    Finite::<Duration>::from_inner(100.0 / total_duration)
+    // Nothing can be said of a share of a zero duration, show it as zero
+    let norm = 100.0 / total_duration;
+    Finite::<Duration>::from_inner(if norm.is_finite() { norm } else { 0.0 })
 }
-- 
2.43.0


From b9344e5abaaec8f490e5e28d3f8eb607f8d5868a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:12 +0000
Subject: [PATCH 22/41] fix: do not crash on traces without activities

The TUI panicked because there was no activity to be selected.
---
 src/ui/tui/trace/load.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ui/tui/trace/load.rs b/src/ui/tui/trace/load.rs
index 9a1b274..e3448fd 100644
--- a/src/ui/tui/trace/load.rs
+++ b/src/ui/tui/trace/load.rs
@@ -54,6 +54,14 @@ pub fn show_loader(cursive: &mut Cursive, trace_path: impl AsRef<Path>) {
                             (root_activities, global_percent_norm)
                         });
 
+                        // There is nothing to explore in an empty trace
+                        if root_activities.is_empty() {
+                            cursive.add_layer(Dialog::info(
+                                "This time trace does not contain any activity",
+                            ));
+                            return;
+                        }
+
                         // Display the hierarchical profile
                         trace::display::show_hierarchical_profile(
                             cursive,
-- 
2.43.0


From 398d2113e5eabb0c8d4e7a51a8dd735461f3dbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:32 +0000
Subject: [PATCH 23/41] fix: do not crash in terminals narrower than the
 duration columns

---
 src/ui/tui/build/display.rs | 6 ++++--
 src/ui/tui/trace/display.rs | 4 +++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ui/tui/build/display.rs b/src/ui/tui/build/display.rs
index 92e9954..33225f6 100644
--- a/src/ui/tui/build/display.rs
+++ b/src/ui/tui/build/display.rs
@@ -44,7 +44,9 @@ pub fn display_profile(
     if has_walltime {
         non_file_width += WALL_TIME_WIDTH + 3;
     }
-    let file_width = terminal_width as usize - non_file_width;
+    let file_width = (terminal_width as usize)
+        .saturating_sub(non_file_width)
+        .max(1);
 
     // Set up table display
     type FullBuildProfileView = TableView<UnitProfile, ProfileColumn>;
@@ -99,7 +101,7 @@ pub fn display_profile(
     // Show the profile
     cursive.add_fullscreen_layer(
         LinearLayout::vertical()
-            .child(table.min_size((terminal_width, terminal_height - 1)))
+            .child(table.min_size((terminal_width, terminal_height.saturating_sub(1))))
             .child(TextView::new("Press H for help.").center()),
     );
     cursive.run();
diff --git a/src/ui/tui/trace/display.rs b/src/ui/tui/trace/display.rs
index 5d075c3..c7defcf 100644
--- a/src/ui/tui/trace/display.rs
+++ b/src/ui/tui/trace/display.rs
@@ -781,7 +781,9 @@ fn description_column_width(profile_kind: ProfileKind, terminal_width: u16) -> u
         ProfileKind::Hierarchical => DURATION_WIDTH + 4,
         ProfileKind::Flat => 0,
     };
-    terminal_width - durations_scroll_width as u16
+    terminal_width
+        .saturating_sub(durations_scroll_width as u16)
+        .max(1)
 }
 
 /// Construct the cursive view used to provide the detailed name of an activity,
-- 
2.43.0


From 1dff8b263fa8dc2510ccc4dbc4778ba40bda234e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:56 +0000
Subject: [PATCH 24/41] fix: bring back the previous build profile reliably
 after an abort

The backup was put back while the measurement was still being stopped, and
could then be overwritten by it. A backup left by an earlier run was taken for
the previous profile when there was none, and a profile whose name ends in
.bak was its own backup.
---
 src/ui/tui/build/measure.rs | 41 ++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/src/ui/tui/build/measure.rs b/src/ui/tui/build/measure.rs
index 9c95246..79317e3 100644
--- a/src/ui/tui/build/measure.rs
+++ b/src/ui/tui/build/measure.rs
@@ -134,14 +134,14 @@ struct MeasureHandle<'cursive, 'output> {
     /// Path to the output file
     output_path: &'output Path,
 
-    /// Path to the backup
-    backup_path: Box<Path>,
+    /// Path to the backup, if there was something to back up
+    backup_path: Option<Box<Path>>,
 
     /// Truth that the job has succeeded (in which case backups need not be restored)
     success: Arc<AtomicBool>,
 
     /// Live cmakeperf data collection process
-    _measurement: Measurement,
+    measurement: Option<Measurement>,
 }
 //
 impl<'cursive, 'output> MeasureHandle<'cursive, 'output> {
@@ -156,10 +156,13 @@ impl<'cursive, 'output> MeasureHandle<'cursive, 'output> {
         // FIXME: Ask user what kind of profile they want (memory-only or wall-time too ? What concurrency ?)
 
         // If a cmakeperf output already exists, back it up
-        let backup_path = output_path.with_extension("bak").into_boxed_path();
-        match std::fs::rename(output_path, &backup_path) {
-            Ok(()) => {}
-            Err(e) if e.kind() == io::ErrorKind::NotFound => {}
+        let mut backup_path = output_path.with_extension("bak");
+        if backup_path == output_path {
+            backup_path.set_extension("bak.bak");
+        }
+        let backup_path = match std::fs::rename(output_path, &backup_path) {
+            Ok(()) => Some(backup_path.into_boxed_path()),
+            Err(e) if e.kind() == io::ErrorKind::NotFound => None,
             Err(other) => {
                 super::error(
                     cursive,
@@ -167,7 +170,7 @@ impl<'cursive, 'output> MeasureHandle<'cursive, 'output> {
                 );
                 return None;
             }
-        }
+        };
 
         // Start data collection
         let success = Arc::new(AtomicBool::new(false));
@@ -197,7 +200,7 @@ impl<'cursive, 'output> MeasureHandle<'cursive, 'output> {
             output_path,
             backup_path,
             success,
-            _measurement: measurement,
+            measurement: Some(measurement),
         })
     }
 
@@ -207,10 +210,17 @@ impl<'cursive, 'output> MeasureHandle<'cursive, 'output> {
     }
 
     /// Attempt to restore a full build profile backup
-    fn restore_or_delete(cursive: &mut CursiveRunnable, backup_path: &Path, output_path: &Path) {
-        match std::fs::rename(backup_path, output_path)
-            .or_else(|_| std::fs::remove_file(output_path))
-        {
+    fn restore_or_delete(
+        cursive: &mut CursiveRunnable,
+        backup_path: Option<&Path>,
+        output_path: &Path,
+    ) {
+        let restored = match backup_path {
+            Some(backup_path) => std::fs::rename(backup_path, output_path)
+                .or_else(|_| std::fs::remove_file(output_path)),
+            None => std::fs::remove_file(output_path),
+        };
+        match restored {
             Ok(()) => {}
             Err(e) if e.kind() == io::ErrorKind::NotFound => {}
             Err(other) => super::error(
@@ -223,8 +233,11 @@ impl<'cursive, 'output> MeasureHandle<'cursive, 'output> {
 //
 impl Drop for MeasureHandle<'_, '_> {
     fn drop(&mut self) {
+        // The measurement must be over before the output is replaced, as it may
+        // otherwise still create it afterwards
+        std::mem::drop(self.measurement.take());
         if !self.success.load(Ordering::Acquire) {
-            Self::restore_or_delete(self.cursive, &self.backup_path, self.output_path);
+            Self::restore_or_delete(self.cursive, self.backup_path.as_deref(), self.output_path);
         }
     }
 }
-- 
2.43.0


From ce896a606b48a7189229b3d92a772fb919ec8383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:23 +0000
Subject: [PATCH 25/41] fix: only bring back trace backups of the ongoing
 measurement

When there was no previous trace, an unrelated file in place of the backup was
turned into the trace of a measurement that failed, or deleted after one that
succeeded. And as the backup was only put back after the user interface became
usable again, a measurement started right away would be affected.
---
 src/ui/tui/trace/measure.rs | 41 ++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/src/ui/tui/trace/measure.rs b/src/ui/tui/trace/measure.rs
index 87d6a9f..ee5bfe1 100644
--- a/src/ui/tui/trace/measure.rs
+++ b/src/ui/tui/trace/measure.rs
@@ -162,7 +162,7 @@ pub fn start_measure(cursive: &mut Cursive, command: Command, output_path: Box<P
 
         // Wait for clang to finish or for the cancelation signal to be sent
         let wait_result = clang.wait();
-        callback(cb_sink, move |cursive| end_measure(cursive, state));
+        let end_measure = || callback(cb_sink, move |cursive| end_measure(cursive, state));
 
         // Handle success and failure
         let error_message = match wait_result {
@@ -170,6 +170,7 @@ pub fn start_measure(cursive: &mut Cursive, command: Command, output_path: Box<P
             Ok(false) => {
                 // Delete the backup file
                 let (output_path, backup_error) = backup.cleanup();
+                end_measure();
 
                 // Show the trace loading screen
                 callback(cb_sink, move |cursive| {
@@ -192,15 +193,20 @@ pub fn start_measure(cursive: &mut Cursive, command: Command, output_path: Box<P
             Err(error) => Some(error),
         };
 
-        // We're on the failure/abort path, so start by displaying any error messages
+        // We're on the failure/abort path, so start by bringing back our backup
+        // or deleting any partial output from clang. The user may only start
+        // another measurement once this is done.
+        let backup_error = backup.restore_or_delete();
+        end_measure();
+
+        // Display any error messages
         if let Some(error) = error_message {
             callback(cb_sink, move |cursive| {
                 cursive.add_layer(Dialog::info(error))
             });
         }
 
-        // Bring back our backup or delete any partial output from clang
-        if let Some(error) = backup.restore_or_delete() {
+        if let Some(error) = backup_error {
             callback(cb_sink, move |cursive| {
                 cursive.add_layer(Dialog::info(error))
             });
@@ -245,8 +251,8 @@ struct TraceBackup {
     /// Path to output produced by clang time-trace
     output: Box<Path>,
 
-    /// Path to backup from previous clang time-trace run
-    backup: Box<Path>,
+    /// Path to backup from previous clang time-trace run, if there was one
+    backup: Option<Box<Path>>,
 }
 //
 impl TraceBackup {
@@ -254,11 +260,11 @@ impl TraceBackup {
     fn new(output: Box<Path>) -> Result<Self, String> {
         // Back up the previous measurement, if any
         let backup = output.with_extension("bak").into_boxed_path();
-        match std::fs::rename(&output, &backup) {
-            Ok(()) => {}
-            Err(e) if e.kind() == io::ErrorKind::NotFound => {}
+        let backup = match std::fs::rename(&output, &backup) {
+            Ok(()) => Some(backup),
+            Err(e) if e.kind() == io::ErrorKind::NotFound => None,
             Err(other) => return Err(format!("Failed to back up previous build trace: {other}")),
-        }
+        };
         Ok(Self { output, backup })
     }
 
@@ -269,9 +275,12 @@ impl TraceBackup {
     ///
     #[must_use]
     fn restore_or_delete(self) -> Option<String> {
-        match std::fs::rename(&self.backup, &self.output)
-            .or_else(|_| std::fs::remove_file(&self.output))
-        {
+        let restored = match self.backup {
+            Some(backup) => std::fs::rename(backup, &self.output)
+                .or_else(|_| std::fs::remove_file(&self.output)),
+            None => std::fs::remove_file(&self.output),
+        };
+        match restored {
             Ok(()) => None,
             Err(e) if e.kind() == io::ErrorKind::NotFound => None,
             Err(other) => Some(format!("Failed to clean up after clang: {other}")),
@@ -283,7 +292,11 @@ impl TraceBackup {
     /// deletion process failed
     #[must_use]
     fn cleanup(self) -> (Box<Path>, Option<String>) {
-        match std::fs::remove_file(&self.backup) {
+        let backup = match self.backup {
+            Some(backup) => backup,
+            None => return (self.output, None),
+        };
+        match std::fs::remove_file(backup) {
             Ok(()) => (self.output, None),
             Err(e) if e.kind() == io::ErrorKind::NotFound => (self.output, None),
             Err(other) => (
-- 
2.43.0


From 83401fa2452b890fd13e8bee03363152d73d7bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:32 +0000
Subject: [PATCH 26/41] fix: read the output of clang while it is running

A clang that writes more than what fits in a pipe would wait forever for its
output to be read. And when aborted, clang must have ended before its output
file is replaced.
---
 src/ui/tui/trace/measure.rs | 42 +++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/src/ui/tui/trace/measure.rs b/src/ui/tui/trace/measure.rs
index ee5bfe1..2aa43be 100644
--- a/src/ui/tui/trace/measure.rs
+++ b/src/ui/tui/trace/measure.rs
@@ -13,6 +13,7 @@ use std::{
         atomic::{self, AtomicBool, Ordering},
         Arc,
     },
+    thread::JoinHandle,
     time::Duration,
 };
 use wait_timeout::ChildExt;
@@ -346,6 +347,10 @@ impl CancelableClang {
     /// error message if something goes wrong
     ///
     fn wait(mut self) -> Result<bool, String> {
+        // Collect the output as it comes, clang would wait if a pipe got full
+        let stdout = read_all(self.child.stdout.take().expect("Failed to access stdout"));
+        let stderr = read_all(self.child.stderr.take().expect("Failed to access stderr"));
+
         // Wait for the process to terminate or be canceled
         let wait_result = loop {
             const RESPONSE_TIME: Duration = Duration::from_millis(1000 / 30);
@@ -369,11 +374,15 @@ impl CancelableClang {
             Ok(Some(status)) if status.success() => Ok(false),
 
             // Clang terminated with an error status
-            Ok(Some(error_status)) => Err(child_failure_message(self.child, error_status)),
+            Ok(Some(error_status)) => Err(child_failure_message(
+                error_status,
+                stdout.join().unwrap_or_default(),
+                stderr.join().unwrap_or_default(),
+            )),
 
             // The work was canceled, kill clang and exit through the error path
-            Ok(None) => match self.child.kill() {
-                Ok(()) => Ok(true),
+            Ok(None) => match self.child.kill().and_then(|()| self.child.wait()) {
+                Ok(_status) => Ok(true),
                 Err(e)
                     if e.kind() == io::ErrorKind::InvalidInput
                         || e.kind() == io::ErrorKind::NotFound =>
@@ -399,28 +408,21 @@ impl CancelTrigger {
     }
 }
 
+/// Start collecting the output of a process, ignoring read errors
+fn read_all(mut pipe: impl Read + Send + 'static) -> JoinHandle<Vec<u8>> {
+    std::thread::spawn(move || {
+        let mut output = Vec::new();
+        std::mem::drop(pipe.read_to_end(&mut output));
+        output
+    })
+}
+
 /// Generate an error message for a failing Child process
 ///
 /// Ignore failure to extract info from stdout and stderr as that's difficult
 /// to handle and ultimately these are just nice-to-have details.
 ///
-fn child_failure_message(mut child: Child, error_status: ExitStatus) -> String {
-    let mut stdout = Vec::new();
-    let mut stderr = Vec::new();
-    std::mem::drop(
-        child
-            .stdout
-            .take()
-            .expect("Failed to access stdout")
-            .read_to_end(&mut stdout),
-    );
-    std::mem::drop(
-        child
-            .stderr
-            .take()
-            .expect("Failed to access stderr")
-            .read_to_end(&mut stderr),
-    );
+fn child_failure_message(error_status: ExitStatus, stdout: Vec<u8>, stderr: Vec<u8>) -> String {
     let mut error = format!("clang time-trace run failed ({})", error_status);
     let append_pipe = |error: &mut String, is_first, stream_name: &str, stream_data| {
         write!(
-- 
2.43.0


From 5399512ac8ed9c18ea9f8ccfa235531d583c032c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:40 +0000
Subject: [PATCH 27/41] fix: Await and undo an ongoing time-trace measurement
 when quitting

---
 src/ui/tui/mod.rs           | 11 ++++++++++-
 src/ui/tui/trace/measure.rs | 24 ++++++++++++++++++++++--
 2 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/ui/tui/mod.rs b/src/ui/tui/mod.rs
index a1ca0a8..5c43e99 100644
--- a/src/ui/tui/mod.rs
+++ b/src/ui/tui/mod.rs
@@ -9,7 +9,10 @@ mod trace;
 
 use self::{
     processing::ProcessingThread,
-    trace::display::{ProfileDisplay, ProfileLayer},
+    trace::{
+        display::{ProfileDisplay, ProfileLayer},
+        measure::CancelTrigger,
+    },
 };
 use crate::CliArgs;
 use clang_time_trace::Duration;
@@ -20,6 +23,7 @@ use std::{
     backtrace::Backtrace,
     fmt::Write,
     panic::{self, AssertUnwindSafe},
+    thread::JoinHandle,
 };
 use syslog::Facility;
 
@@ -51,6 +55,7 @@ pub fn run(args: CliArgs) {
         showing_full_build: false,
         layers_below_profile: 0,
         no_escape: false,
+        trace_measurement: None,
         display_config: Default::default(),
     });
 
@@ -61,6 +66,7 @@ pub fn run(args: CliArgs) {
             cursive.run();
         } else {
             build::profile(&mut cursive, args);
+            trace::measure::abort_before_exit(&mut cursive);
         }
     }));
 
@@ -107,6 +113,9 @@ pub struct State {
     ///
     no_escape: bool,
 
+    /// Latest time-trace measurement, which may still be ongoing
+    trace_measurement: Option<(CancelTrigger, JoinHandle<()>)>,
+
     /// Current profile display configuration
     display_config: ProfileDisplay,
 }
diff --git a/src/ui/tui/trace/measure.rs b/src/ui/tui/trace/measure.rs
index 2aa43be..4a00987 100644
--- a/src/ui/tui/trace/measure.rs
+++ b/src/ui/tui/trace/measure.rs
@@ -141,6 +141,7 @@ pub fn start_measure(cursive: &mut Cursive, command: Command, output_path: Box<P
     let state = MeasureState { old_fps };
 
     // Set up the measurement screen
+    let quit_trigger = cancel_trigger.clone();
     cursive.add_layer(
         Dialog::text("Measuring time trace, please minimize system activity...")
             .button("Abort", move |_cursive| cancel_trigger.cancel()),
@@ -149,7 +150,7 @@ pub fn start_measure(cursive: &mut Cursive, command: Command, output_path: Box<P
     // Start a thread that measures a clang time-trace and arranges for the
     // next steps to be taken once that's done
     let cb_sink = cursive.cb_sink().clone();
-    std::thread::spawn(move || {
+    let thread = std::thread::spawn(move || {
         // Force-send a callback to the cursive thread with less verbosity
         let cb_sink = &cb_sink;
         fn callback(
@@ -213,6 +214,24 @@ pub fn start_measure(cursive: &mut Cursive, command: Command, output_path: Box<P
             });
         }
     });
+
+    // Let the program abort this measurement if the user quits before its end
+    with_state(cursive, |state| {
+        state.trace_measurement = Some((quit_trigger, thread));
+    });
+}
+
+/// Abort any ongoing time-trace measurement before exiting the program
+///
+/// This awaits the end of clang and the restoration of any previous trace.
+///
+pub fn abort_before_exit(cursive: &mut Cursive) {
+    if let Some((cancel_trigger, thread)) =
+        with_state(cursive, |state| state.trace_measurement.take())
+    {
+        cancel_trigger.cancel();
+        std::mem::drop(thread.join());
+    }
 }
 
 /// Saved Cursive state returned by start_measure, to be passed back to
@@ -399,7 +418,8 @@ impl CancelableClang {
 }
 //
 /// Cancelation trigger for CancelableClang
-struct CancelTrigger(Arc<AtomicBool>);
+#[derive(Clone)]
+pub struct CancelTrigger(Arc<AtomicBool>);
 //
 impl CancelTrigger {
     /// Trigger cancelation
-- 
2.43.0


From e01b80390c110d10793e0ec33b98695e6b4ed7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:41 +0000
Subject: [PATCH 28/41] fix: Keep the previous time-trace if clang did not
 produce a new one

---
 src/ui/tui/trace/measure.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ui/tui/trace/measure.rs b/src/ui/tui/trace/measure.rs
index 4a00987..e3d73c3 100644
--- a/src/ui/tui/trace/measure.rs
+++ b/src/ui/tui/trace/measure.rs
@@ -169,7 +169,7 @@ pub fn start_measure(cursive: &mut Cursive, command: Command, output_path: Box<P
         // Handle success and failure
         let error_message = match wait_result {
             // Clang completed successfully
-            Ok(false) => {
+            Ok(false) if backup.output.exists() => {
                 // Delete the backup file
                 let (output_path, backup_error) = backup.cleanup();
                 end_measure();
@@ -188,6 +188,9 @@ pub fn start_measure(cursive: &mut Cursive, command: Command, output_path: Box<P
                 return;
             }
 
+            // Clang claims to have succeeded, but there is nothing to be shown
+            Ok(false) => Some("Clang did not produce a time-trace".to_owned()),
+
             // Clang execution was successfully canceled
             Ok(true) => None,
 
-- 
2.43.0


From ec99c62cef8a9ad126533b538d22573a5bb375c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:45 +0000
Subject: [PATCH 29/41] fix: terminate processes that a job starts while it is
 being stopped

A process started after the system was looked at was left running after the
end of the measurement, along with everything it would start.
---
 cmakeperf/src/measure/worker.rs | 36 ++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/cmakeperf/src/measure/worker.rs b/cmakeperf/src/measure/worker.rs
index 0c3421c..db452cb 100644
--- a/cmakeperf/src/measure/worker.rs
+++ b/cmakeperf/src/measure/worker.rs
@@ -73,12 +73,8 @@ fn process_job(
                 let system = monitor_client.system();
                 tree.refresh(&system);
                 if let Err(MustStop) = monitor_client.keep_job() {
-                    // The last state that was observed by the main thread may
-                    // predate some processes, which must be stopped as well
                     std::mem::drop(system);
-                    let system = System::new_with_specifics(Monitor::refresh_kind());
-                    tree.refresh(&system);
-                    tree.kill(&system);
+                    tree.terminate();
                     return Err(JobError::Killed(job));
                 } else {
                     max_rss_bytes = max_rss_bytes.max(tree.memory(&system));
@@ -223,6 +219,36 @@ impl ProcessTree {
         self.processes(system).map(|process| process.memory()).sum()
     }
 
+    /// Terminate the whole process tree, including processes that were or are
+    /// being started since the main thread last looked at the system
+    fn terminate(&mut self) {
+        // Suspend processes until no new one shows up, as otherwise a process
+        // could have children that we will never see before it is terminated
+        let mut system = System::new();
+        let mut suspended = Vec::new();
+        loop {
+            system.refresh_specifics(Monitor::refresh_kind());
+            self.refresh(&system);
+            let old_len = suspended.len();
+            for process in self.processes(&system) {
+                if !suspended.contains(&process.pid()) {
+                    process.kill_with(Signal::Stop);
+                    suspended.push(process.pid());
+                }
+            }
+            if suspended.len() == old_len {
+                break;
+            }
+        }
+
+        // Suspended processes only react to termination once resumed
+        self.tree = suspended;
+        self.kill(&system);
+        for process in self.processes(&system) {
+            process.kill_with(Signal::Continue);
+        }
+    }
+
     // Terminate or kill every process in the process tree
     fn kill(&self, system: &System) -> bool {
         let mut global_result = true;
-- 
2.43.0


From 777dc7d44bcd34a2c6900a14a6cfca38956c7622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:45 +0000
Subject: [PATCH 30/41] fix: enumerate active workers when only the last one of
 a group of 64 is left

Shifting a word by its full width panics in debug builds and does nothing in
release builds, where the enumeration never ended.
---
 cmakeperf/src/measure/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmakeperf/src/measure/main.rs b/cmakeperf/src/measure/main.rs
index d2ad3c0..672ec66 100644
--- a/cmakeperf/src/measure/main.rs
+++ b/cmakeperf/src/measure/main.rs
@@ -448,7 +448,10 @@ impl<'flags> StopServer<'flags> {
                     }
                     let offset_after_first_one = word_value.trailing_zeros() as usize + 1;
                     bit_offset += offset_after_first_one;
-                    word_value >>= offset_after_first_one;
+                    // There is nothing left after the last bit of the word
+                    word_value = word_value
+                        .checked_shr(offset_after_first_one as u32)
+                        .unwrap_or(0);
                     Some(bit_offset - 1)
                 })
             })
-- 
2.43.0


From 6bc7d1c7ebacde6ffdde199e07889db942440cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:02 +0000
Subject: [PATCH 31/41] fix: count the memory of multi-threaded jobs once

---
 cmakeperf/src/measure/worker.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmakeperf/src/measure/worker.rs b/cmakeperf/src/measure/worker.rs
index db452cb..7682407 100644
--- a/cmakeperf/src/measure/worker.rs
+++ b/cmakeperf/src/measure/worker.rs
@@ -195,8 +195,9 @@ impl ProcessTree {
             // ...iterate over then, emptying parent list in the process...
             for parent_pid in self.parents.drain(..) {
                 // Look for children of each parent...
+                // ...other than its threads, which share its memory
                 for (&child_pid, child) in system.processes() {
-                    if child.parent() == Some(parent_pid) {
+                    if child.parent() == Some(parent_pid) && child.thread_kind().is_none() {
                         // ...and collect them in children list
                         self.children.push(child_pid);
                     }
-- 
2.43.0


From 6e8dbc86e8b81b090d88cf533415092835362940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:02 +0000
Subject: [PATCH 32/41] fix: kill the whole clang process tree when aborting a
 time-trace

---
 cmakeperf/src/measure/mod.rs    |  2 ++
 cmakeperf/src/measure/worker.rs | 20 +++++++++++++-------
 src/ui/tui/trace/measure.rs     |  7 ++++---
 3 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/cmakeperf/src/measure/mod.rs b/cmakeperf/src/measure/mod.rs
index 3688b70..81e56ca 100644
--- a/cmakeperf/src/measure/mod.rs
+++ b/cmakeperf/src/measure/mod.rs
@@ -3,6 +3,8 @@
 mod main;
 mod worker;
 
+pub use self::worker::kill_process_tree;
+
 use self::{
     main::{MonitorServer, StopServer, WorkSender},
     worker::{MonitorClient, StopClient},
diff --git a/cmakeperf/src/measure/worker.rs b/cmakeperf/src/measure/worker.rs
index 7682407..5b2a79a 100644
--- a/cmakeperf/src/measure/worker.rs
+++ b/cmakeperf/src/measure/worker.rs
@@ -74,7 +74,7 @@ fn process_job(
                 tree.refresh(&system);
                 if let Err(MustStop) = monitor_client.keep_job() {
                     std::mem::drop(system);
-                    tree.terminate();
+                    tree.terminate(Signal::Term);
                     return Err(JobError::Killed(job));
                 } else {
                     max_rss_bytes = max_rss_bytes.max(tree.memory(&system));
@@ -147,6 +147,14 @@ fn start_job(job: &DatabaseEntry) -> Result<Child, JobError> {
     }
 }
 
+/// Kill a process along with all of its descendants, without awaiting them
+pub fn kill_process_tree(root: &mut Child) -> io::Result<()> {
+    let mut tree = ProcessTree::new();
+    tree.set_root(Pid::from_u32(root.id()));
+    tree.terminate(Signal::Kill);
+    root.kill()
+}
+
 /// Process tree monitor
 struct ProcessTree {
     /// Buffer to collect the full process tree
@@ -222,7 +230,7 @@ impl ProcessTree {
 
     /// Terminate the whole process tree, including processes that were or are
     /// being started since the main thread last looked at the system
-    fn terminate(&mut self) {
+    fn terminate(&mut self, signal: Signal) {
         // Suspend processes until no new one shows up, as otherwise a process
         // could have children that we will never see before it is terminated
         let mut system = System::new();
@@ -244,19 +252,17 @@ impl ProcessTree {
 
         // Suspended processes only react to termination once resumed
         self.tree = suspended;
-        self.kill(&system);
+        self.kill(&system, signal);
         for process in self.processes(&system) {
             process.kill_with(Signal::Continue);
         }
     }
 
     // Terminate or kill every process in the process tree
-    fn kill(&self, system: &System) -> bool {
+    fn kill(&self, system: &System, signal: Signal) -> bool {
         let mut global_result = true;
         for process in self.processes(system) {
-            global_result &= process
-                .kill_with(Signal::Term)
-                .unwrap_or_else(|| process.kill());
+            global_result &= process.kill_with(signal).unwrap_or_else(|| process.kill());
         }
         global_result
     }
diff --git a/src/ui/tui/trace/measure.rs b/src/ui/tui/trace/measure.rs
index e3d73c3..4c71ef7 100644
--- a/src/ui/tui/trace/measure.rs
+++ b/src/ui/tui/trace/measure.rs
@@ -1,7 +1,7 @@
 //! Wizard that guides the user through the process of measuring a time-trace
 
 use crate::ui::tui::{create::CreatePrompt, trace, with_state};
-use cmakeperf::commands::CompilationDatabase;
+use cmakeperf::{commands::CompilationDatabase, measure::kill_process_tree};
 use cursive::{views::Dialog, Cursive};
 use std::{
     fmt::Write,
@@ -402,8 +402,9 @@ impl CancelableClang {
                 stderr.join().unwrap_or_default(),
             )),
 
-            // The work was canceled, kill clang and exit through the error path
-            Ok(None) => match self.child.kill().and_then(|()| self.child.wait()) {
+            // The work was canceled, kill clang (which may do the actual work in
+            // another process) and exit through the error path
+            Ok(None) => match kill_process_tree(&mut self.child).and_then(|()| self.child.wait()) {
                 Ok(_status) => Ok(true),
                 Err(e)
                     if e.kind() == io::ErrorKind::InvalidInput
-- 
2.43.0


From a6ba33a9cdcbad8b102a6be11e68f1db1790c1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:02 +0000
Subject: [PATCH 33/41] fix: look up time-traced files whose path goes through
 symbolic links

---
 src/ui/tui/trace/measure.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ui/tui/trace/measure.rs b/src/ui/tui/trace/measure.rs
index 4c71ef7..a58b066 100644
--- a/src/ui/tui/trace/measure.rs
+++ b/src/ui/tui/trace/measure.rs
@@ -39,8 +39,15 @@ pub fn show_wizard(
         }
     };
 
-    // Find the compilation database entry for the target file
-    let entry = match compilation_database.entry(&abs_path) {
+    // Find the compilation database entry for the target file, whose path may
+    // go through symbolic links
+    let is_abs_path = |path: &Path| path.canonicalize().map_or(false, |p| p == abs_path);
+    let entry = compilation_database.entry(&abs_path).or_else(|| {
+        compilation_database
+            .entries()
+            .find(|entry| is_abs_path(entry.input()))
+    });
+    let entry = match entry {
         Some(entry) => entry,
         None => {
             cursive.add_layer(Dialog::info(format!(
-- 
2.43.0


From 13b94a43f37d63d2a84919e75c6a63534215dbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:02 +0000
Subject: [PATCH 34/41] fix: do not wait for what a job leaves behind to close
 its output

---
 cmakeperf/src/measure/worker.rs | 79 +++++++++++++++++++++++++--------
 1 file changed, 60 insertions(+), 19 deletions(-)

diff --git a/cmakeperf/src/measure/worker.rs b/cmakeperf/src/measure/worker.rs
index 5b2a79a..6893919 100644
--- a/cmakeperf/src/measure/worker.rs
+++ b/cmakeperf/src/measure/worker.rs
@@ -10,10 +10,10 @@ use std::{
     sync::{
         atomic::{self, AtomicUsize, Ordering},
         mpsc::Sender,
-        RwLockReadGuard,
+        Arc, Mutex, RwLockReadGuard,
     },
     thread::JoinHandle,
-    time::Instant,
+    time::{Duration, Instant},
 };
 use sysinfo::{Pid, Process, Signal, System};
 use thiserror::Error;
@@ -292,38 +292,79 @@ fn report_process(output: JobOutput, exit_status: ExitStatus) -> Result<(), JobE
 ///
 struct JobOutput {
     /// Standard output
-    stdout: JoinHandle<Vec<u8>>,
+    stdout: PipeReader,
 
     /// Standard error
-    stderr: JoinHandle<Vec<u8>>,
+    stderr: PipeReader,
 }
 //
 impl JobOutput {
     /// Start collecting the output of a process
     fn collect(process: &mut Child) -> Self {
-        fn read_stdpipe(pipe: Option<impl Read + Send + 'static>) -> JoinHandle<Vec<u8>> {
-            let mut pipe =
-                pipe.expect("Process output/error should have been piped and available");
-            std::thread::spawn(move || {
-                let mut buf = Vec::new();
-                if let Err(e) = pipe.read_to_end(&mut buf) {
-                    log::error!("Failed to read job output ({e})");
-                }
-                buf
-            })
-        }
         Self {
-            stdout: read_stdpipe(process.stdout.take()),
-            stderr: read_stdpipe(process.stderr.take()),
+            stdout: PipeReader::start(process.stdout.take()),
+            stderr: PipeReader::start(process.stderr.take()),
+        }
+    }
+}
+
+/// Thread that collects what comes out of a pipe
+struct PipeReader {
+    /// Data that was collected so far
+    data: Arc<Mutex<Vec<u8>>>,
+
+    /// Thread that collects it
+    thread: JoinHandle<()>,
+}
+//
+impl PipeReader {
+    /// Time given to a reader to reach the end of the pipe after job termination
+    ///
+    /// A process that the job leaves behind (like a compiler cache daemon) can
+    /// keep the pipe open for as long as it runs, so we can't wait for the end.
+    ///
+    const TIMEOUT: Duration = Duration::from_secs(1);
+
+    /// Start collecting data
+    fn start(pipe: Option<impl Read + Send + 'static>) -> Self {
+        let mut pipe = pipe.expect("Process output/error should have been piped and available");
+        let data = Arc::new(Mutex::new(Vec::new()));
+        let data2 = data.clone();
+        let thread = std::thread::spawn(move || {
+            let mut buf = [0; 4096];
+            loop {
+                match pipe.read(&mut buf) {
+                    Ok(0) => break,
+                    Ok(len) => data2
+                        .lock()
+                        .expect("Worker thread has panicked")
+                        .extend_from_slice(&buf[..len]),
+                    Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
+                    Err(e) => {
+                        log::error!("Failed to read job output ({e})");
+                        break;
+                    }
+                }
+            }
+        });
+        Self { data, thread }
+    }
+
+    /// Get the collected data after job termination
+    fn finish(self) -> Vec<u8> {
+        let deadline = Instant::now() + Self::TIMEOUT;
+        while !self.thread.is_finished() && Instant::now() < deadline {
+            std::thread::sleep(Duration::from_millis(1));
         }
+        std::mem::take(&mut *self.data.lock().expect("Output readers should not panic"))
     }
 }
 
 /// Report on non-empty stdout and/or stderr from a compilation process
 fn report_stdpipe(output: JobOutput) -> String {
     // There is no guarantee that a job's output is made of valid UTF-8 text
-    let read_stdpipe = |reader: JoinHandle<Vec<u8>>| {
-        let bytes = reader.join().expect("Output readers should not panic");
+    let read_stdpipe = |reader: PipeReader| {
+        let bytes = reader.finish();
         String::from_utf8_lossy(&bytes).into_owned()
     };
     let stdout = read_stdpipe(output.stdout);
-- 
2.43.0


From e8716acbbb4491b7cd3e84b6eeaba805ddf0e153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:02 +0000
Subject: [PATCH 35/41] fix: measure builds that compile nothing without
 crashing

---
 src/ui/tui/build/measure.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ui/tui/build/measure.rs b/src/ui/tui/build/measure.rs
index 79317e3..512e893 100644
--- a/src/ui/tui/build/measure.rs
+++ b/src/ui/tui/build/measure.rs
@@ -79,7 +79,7 @@ pub fn measure_profile(
                     ))
                     .child(
                         ProgressBar::new()
-                            .max(compilation_database.entries().count())
+                            .max(compilation_database.entries().count().max(1))
                             .with_value(progress_counter),
                     ),
             )
-- 
2.43.0


From f71467f1ee456cdb76db8f3fafc54afa51a43b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:49 +0000
Subject: [PATCH 36/41] fix: do not wait for what a failing clang leaves behind
 to close its output

---
 src/ui/tui/trace/measure.rs | 41 +++++++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/src/ui/tui/trace/measure.rs b/src/ui/tui/trace/measure.rs
index a58b066..b699fa4 100644
--- a/src/ui/tui/trace/measure.rs
+++ b/src/ui/tui/trace/measure.rs
@@ -11,10 +11,11 @@ use std::{
     process::{Child, Command, ExitStatus, Stdio},
     sync::{
         atomic::{self, AtomicBool, Ordering},
+        mpsc::{self, Receiver},
         Arc,
     },
     thread::JoinHandle,
-    time::Duration,
+    time::{Duration, Instant},
 };
 use wait_timeout::ChildExt;
 
@@ -405,8 +406,8 @@ impl CancelableClang {
             // Clang terminated with an error status
             Ok(Some(error_status)) => Err(child_failure_message(
                 error_status,
-                stdout.join().unwrap_or_default(),
-                stderr.join().unwrap_or_default(),
+                received(stdout),
+                received(stderr),
             )),
 
             // The work was canceled, kill clang (which may do the actual work in
@@ -440,12 +441,36 @@ impl CancelTrigger {
 }
 
 /// Start collecting the output of a process, ignoring read errors
-fn read_all(mut pipe: impl Read + Send + 'static) -> JoinHandle<Vec<u8>> {
+fn read_all(mut pipe: impl Read + Send + 'static) -> Receiver<Vec<u8>> {
+    let (sender, receiver) = mpsc::channel();
     std::thread::spawn(move || {
-        let mut output = Vec::new();
-        std::mem::drop(pipe.read_to_end(&mut output));
-        output
-    })
+        let mut buf = [0; 4096];
+        loop {
+            match pipe.read(&mut buf) {
+                Ok(0) => break,
+                // Keep reading if nobody is interested, clang could be waiting
+                Ok(len) => std::mem::drop(sender.send(buf[..len].to_vec())),
+                Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
+                Err(_) => break,
+            }
+        }
+    });
+    receiver
+}
+
+/// Get the output of a process which has terminated
+///
+/// A process that clang leaves behind (like a compiler cache daemon) can keep
+/// the pipe open for as long as it runs, so we can't always wait for the end.
+///
+fn received(output: Receiver<Vec<u8>>) -> Vec<u8> {
+    const TIMEOUT: Duration = Duration::from_secs(1);
+    let deadline = Instant::now() + TIMEOUT;
+    let mut result = Vec::new();
+    while let Ok(data) = output.recv_timeout(deadline.saturating_duration_since(Instant::now())) {
+        result.extend(data);
+    }
+    result
 }
 
 /// Generate an error message for a failing Child process
-- 
2.43.0


From cc6e436b836d21ab7b3b57530561428bc665292a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:08 +0000
Subject: [PATCH 37/41] fix: do not tell the age of a profile from the future

---
 src/ui/tui/create.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ui/tui/create.rs b/src/ui/tui/create.rs
index b1c12fa..035839c 100644
--- a/src/ui/tui/create.rs
+++ b/src/ui/tui/create.rs
@@ -40,9 +40,9 @@ impl CreatePrompt {
             // might still be because we are not omniscient. Prompt if it's older
             // than one minute and we're using the default path (not manual choice)
             ProductFreshness::MaybeOutdated(age) => {
-                let age_mins = age.map(|d| d.as_secs() / 60).unwrap_or(u64::MAX);
-                if age_mins > 0 && !manually_specified {
-                    Some(CreatePrompt::maybe_stale_build_profile(Some(age_mins)))
+                let age_mins = age.map(|d| d.as_secs() / 60);
+                if age_mins != Some(0) && !manually_specified {
+                    Some(CreatePrompt::maybe_stale_build_profile(age_mins))
                 } else {
                     None
                 }
-- 
2.43.0


From f8e3ee5bd1d779ee2c1c5aabdbb66a486747e68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:04 +0000
Subject: [PATCH 38/41] fix: do not run out of interner keys on long names and
 big sessions

Names with 1024 template parameters, 256 scopes, parameters or
declarators, 64 call arguments, sessions with a few hundred distinct
calls or operators and paths of 256 components crashed the parser.
---
 cpparser/src/lib.rs                          |  8 ++++----
 cpparser/src/subparsers/functions.rs         | 10 +++++-----
 cpparser/src/subparsers/names/atoms.rs       |  4 ++--
 cpparser/src/subparsers/names/scopes.rs      |  6 +++---
 cpparser/src/subparsers/templates.rs         |  6 +++---
 cpparser/src/subparsers/types/declarators.rs |  6 +++---
 cpparser/src/subparsers/values/mod.rs        |  8 ++++----
 7 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/cpparser/src/lib.rs b/cpparser/src/lib.rs
index f7c27a6..3a9a98b 100644
--- a/cpparser/src/lib.rs
+++ b/cpparser/src/lib.rs
@@ -25,7 +25,7 @@ use crate::{
     },
 };
 use asylum::{
-    lasso::{MiniSpur, Rodeo, Spur},
+    lasso::{LargeSpur, Rodeo, Spur},
     path::{self, PathError},
     Interner,
 };
@@ -52,7 +52,7 @@ pub use nom;
 /// string comparison, as it is guaranteed that if two keys differ, the
 /// corresponding values differ as well.
 ///
-pub type PathComponentKey = MiniSpur;
+pub type PathComponentKey = Spur;
 
 /// Interned file path key
 ///
@@ -63,8 +63,8 @@ pub type PathComponentKey = MiniSpur;
 /// path() method of EntityParser.
 ///
 pub type PathKey = path::PathKey<PathKeyImpl, PATH_LEN_BITS>;
-type PathKeyImpl = Spur;
-const PATH_LEN_BITS: u32 = 8;
+type PathKeyImpl = LargeSpur;
+const PATH_LEN_BITS: u32 = 32;
 type PathInterner = path::PathInterner<PathComponentKey, PathKey>;
 
 /// Interned file path
diff --git a/cpparser/src/subparsers/functions.rs b/cpparser/src/subparsers/functions.rs
index 819bd8e..b9b8012 100644
--- a/cpparser/src/subparsers/functions.rs
+++ b/cpparser/src/subparsers/functions.rs
@@ -14,7 +14,7 @@ use crate::{
     EntityParser, IResult,
 };
 use asylum::{
-    lasso::{MiniSpur, Spur},
+    lasso::LargeSpur,
     sequence::SequenceKey,
 };
 use nom::Parser;
@@ -36,8 +36,8 @@ use reffers::ARef;
 /// the function_arguments() method of EntityParser.
 ///
 pub type FunctionArgumentsKey = SequenceKey<FunctionArgumentsKeyImpl, FUNCTION_ARGUMENTS_LEN_BITS>;
-type FunctionArgumentsKeyImpl = MiniSpur;
-const FUNCTION_ARGUMENTS_LEN_BITS: u32 = 6;
+type FunctionArgumentsKeyImpl = LargeSpur;
+const FUNCTION_ARGUMENTS_LEN_BITS: u32 = 32;
 //
 /// Interned function parameter sets (= list of parameter types) key
 ///
@@ -49,8 +49,8 @@ const FUNCTION_ARGUMENTS_LEN_BITS: u32 = 6;
 ///
 pub type FunctionParametersKey =
     SequenceKey<FunctionParametersKeyImpl, FUNCTION_PARAMETERS_LEN_BITS>;
-type FunctionParametersKeyImpl = Spur;
-const FUNCTION_PARAMETERS_LEN_BITS: u32 = 8;
+type FunctionParametersKeyImpl = LargeSpur;
+const FUNCTION_PARAMETERS_LEN_BITS: u32 = 32;
 //
 impl EntityParser {
     /// Parser recognizing a function call
diff --git a/cpparser/src/subparsers/names/atoms.rs b/cpparser/src/subparsers/names/atoms.rs
index 3cb34bd..2115813 100644
--- a/cpparser/src/subparsers/names/atoms.rs
+++ b/cpparser/src/subparsers/names/atoms.rs
@@ -1,7 +1,7 @@
 //! Atoms from the C++ entity grammar
 
 use crate::{EntityParser, Error, IResult};
-use asylum::lasso::MiniSpur;
+use asylum::lasso::Spur;
 use nom::{error::ErrorKind, Parser};
 use nom_supreme::ParserExt;
 use reffers::ARef;
@@ -18,7 +18,7 @@ use std::{
 /// After parsing, you can retrieve an identifier by passing this key to the
 /// identifier() method of EntityParser.
 ///
-pub type IdentifierKey = MiniSpur;
+pub type IdentifierKey = Spur;
 //
 impl EntityParser {
     /// Generate a parser recognizing a certain C++ keyword
diff --git a/cpparser/src/subparsers/names/scopes.rs b/cpparser/src/subparsers/names/scopes.rs
index 13306a7..a181002 100644
--- a/cpparser/src/subparsers/names/scopes.rs
+++ b/cpparser/src/subparsers/names/scopes.rs
@@ -13,7 +13,7 @@ use crate::{
     },
     EntityParser, IResult,
 };
-use asylum::{lasso::Spur, sequence::SequenceKey};
+use asylum::{lasso::LargeSpur, sequence::SequenceKey};
 use nom::Parser;
 use nom_supreme::ParserExt;
 use std::fmt::{self, Display, Formatter};
@@ -30,8 +30,8 @@ use reffers::ARef;
 /// to the scopes() method of EntityParser.
 ///
 pub type ScopesKey = SequenceKey<ScopesKeyImpl, SCOPES_LEN_BITS>;
-type ScopesKeyImpl = Spur;
-const SCOPES_LEN_BITS: u32 = 8;
+type ScopesKeyImpl = LargeSpur;
+const SCOPES_LEN_BITS: u32 = 32;
 //
 impl EntityParser {
     /// Parser for id-expressions (= nested name-specifier + UnqualifiedId)
diff --git a/cpparser/src/subparsers/templates.rs b/cpparser/src/subparsers/templates.rs
index 5bcf031..b75cad1 100644
--- a/cpparser/src/subparsers/templates.rs
+++ b/cpparser/src/subparsers/templates.rs
@@ -9,7 +9,7 @@ use crate::{
     },
     EntityParser, IResult,
 };
-use asylum::{lasso::Spur, sequence::SequenceKey};
+use asylum::{lasso::LargeSpur, sequence::SequenceKey};
 use nom::Parser;
 use nom_supreme::ParserExt;
 use std::fmt::{self, Display, Formatter};
@@ -28,8 +28,8 @@ use reffers::ARef;
 ///
 pub type TemplateParameterListKey =
     SequenceKey<TemplateParameterListKeyImpl, TEMPLATE_PARAMETER_LIST_LEN_BITS>;
-type TemplateParameterListKeyImpl = Spur;
-const TEMPLATE_PARAMETER_LIST_LEN_BITS: u32 = 10;
+type TemplateParameterListKeyImpl = LargeSpur;
+const TEMPLATE_PARAMETER_LIST_LEN_BITS: u32 = 32;
 //
 impl EntityParser {
     /// Parser for unqualified id-expressions
diff --git a/cpparser/src/subparsers/types/declarators.rs b/cpparser/src/subparsers/types/declarators.rs
index ab8530a..9a6e75a 100644
--- a/cpparser/src/subparsers/types/declarators.rs
+++ b/cpparser/src/subparsers/types/declarators.rs
@@ -13,7 +13,7 @@ use crate::{
     },
     EntityParser, IResult,
 };
-use asylum::{lasso::Spur, sequence::SequenceKey};
+use asylum::{lasso::LargeSpur, sequence::SequenceKey};
 use nom::Parser;
 use nom_supreme::ParserExt;
 use std::fmt::{self, Display, Formatter};
@@ -30,8 +30,8 @@ use reffers::ARef;
 /// declarator() method of EntityParser.
 ///
 pub type DeclaratorKey = SequenceKey<DeclaratorKeyImpl, DECLARATOR_LEN_BITS>;
-type DeclaratorKeyImpl = Spur;
-const DECLARATOR_LEN_BITS: u32 = 8;
+type DeclaratorKeyImpl = LargeSpur;
+const DECLARATOR_LEN_BITS: u32 = 32;
 //
 impl EntityParser {
     /// Parser for declarators
diff --git a/cpparser/src/subparsers/values/mod.rs b/cpparser/src/subparsers/values/mod.rs
index 54b4a69..7574ae7 100644
--- a/cpparser/src/subparsers/values/mod.rs
+++ b/cpparser/src/subparsers/values/mod.rs
@@ -21,7 +21,7 @@ use crate::{
     },
     EntityParser, IResult,
 };
-use asylum::{lasso::MiniSpur, sequence::SequenceKey};
+use asylum::{lasso::{LargeSpur, Spur}, sequence::SequenceKey};
 use nom::Parser;
 use nom_supreme::ParserExt;
 use reffers::ARef;
@@ -35,7 +35,7 @@ use std::fmt::{self, Display, Formatter};
 /// After parsing, you can retrieve a value by passing this key to the
 /// value_like() method of EntityParser.
 ///
-pub type ValueKey = MiniSpur;
+pub type ValueKey = Spur;
 //
 /// Interned value trailer key
 ///
@@ -46,8 +46,8 @@ pub type ValueKey = MiniSpur;
 /// value_trailer() method of EntityParser.
 ///
 pub type ValueTrailerKey = SequenceKey<ValueTrailerKeyImpl, VALUE_TRAILER_LEN_BITS>;
-type ValueTrailerKeyImpl = MiniSpur;
-const VALUE_TRAILER_LEN_BITS: u32 = 6;
+type ValueTrailerKeyImpl = LargeSpur;
+const VALUE_TRAILER_LEN_BITS: u32 = 32;
 //
 impl EntityParser {
     /// Parser recognizing values (and some types that are indistinguishable
-- 
2.43.0


From 1e18591d5f823f75c48459cc108c0e40f44ba26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:47 +0000
Subject: [PATCH 39/41] fix: report files which are no build profile

Errors in the header were swallowed: a profile cut in its first line, a
folder, or any file of one line were read as the profile of no unit.
---
 cmakeperf/src/output.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cmakeperf/src/output.rs b/cmakeperf/src/output.rs
index d62a320..99ea8f4 100644
--- a/cmakeperf/src/output.rs
+++ b/cmakeperf/src/output.rs
@@ -27,6 +27,14 @@ pub fn load(path: impl AsRef<Path>) -> Result<BuildProfile, ProfileLoadError> {
 
 /// Like `load()`, but takes any CSV reader, not necessarily a file reader
 fn from_csv_reader<R: Read>(mut reader: csv::Reader<R>) -> Result<BuildProfile, ProfileLoadError> {
+    // The deserializer does not report header errors
+    let headers = reader.headers()?;
+    let has_header = |name| headers.iter().any(|header| header == name);
+    if !headers.is_empty() && !(has_header("file") && has_header("max_rss")) {
+        let error = io::Error::new(io::ErrorKind::InvalidData, "not a build profile");
+        return Err(csv::Error::from(error).into());
+    }
+
     let mut result = Vec::new();
     for unit in reader.deserialize() {
         result.push(unit?);
-- 
2.43.0


From a963dea4170a9f462111b1a0a002f02a43c1ff18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:04 +0000
Subject: [PATCH 40/41] fix: read nested calls in a reasonable time

Each level of nesting of a function call (or sizeof, or parenthesized
operation...) used to be parsed several times, under each of the possible
interpretations of what surrounds it, so that a name with 20 nested calls
took forever to read.
---
 cpparser/src/lib.rs                   | 16 ++++-
 cpparser/src/memo.rs                  | 86 +++++++++++++++++++++++++++
 cpparser/src/subparsers/types/mod.rs  |  5 ++
 cpparser/src/subparsers/values/mod.rs | 12 ++++
 4 files changed, 118 insertions(+), 1 deletion(-)
 create mode 100644 cpparser/src/memo.rs

diff --git a/cpparser/src/lib.rs b/cpparser/src/lib.rs
index 3a9a98b..5f0f059 100644
--- a/cpparser/src/lib.rs
+++ b/cpparser/src/lib.rs
@@ -4,11 +4,13 @@
 
 pub mod display;
 mod interning;
+mod memo;
 pub mod subparsers;
 
 use crate::{
     display::{CustomDisplay, DisplayState},
     interning::recursion::RecursiveSequenceInterner,
+    memo::Memo,
     subparsers::{
         functions::{FunctionArgumentsKey, FunctionParametersKey},
         names::{
@@ -33,7 +35,7 @@ use nom::{error::Error, Parser};
 use nom_supreme::ParserExt;
 use reffers::ARef;
 use std::{
-    cell::RefCell,
+    cell::{Cell, RefCell},
     fmt::{self, Display, Formatter},
 };
 
@@ -133,6 +135,15 @@ pub struct EntityParser {
 
     /// Interned declarators
     declarators: RecursiveSequenceInterner<DeclOperator, DeclaratorKey>,
+
+    /// Number of nested calls to the parsers below
+    nesting: Cell<usize>,
+
+    /// Results of parse_type_like within the current toplevel parser call
+    type_memo: Memo<(), TypeKey>,
+
+    /// Results of parse_value_like within the current toplevel parser call
+    value_memo: Memo<(bool, bool), ValueKey>,
 }
 //
 impl EntityParser {
@@ -150,6 +161,9 @@ impl EntityParser {
             function_parameters: Default::default(),
             scope_sequences: Default::default(),
             declarators: Default::default(),
+            nesting: Cell::new(0),
+            type_memo: Default::default(),
+            value_memo: Default::default(),
         }
     }
 
diff --git a/cpparser/src/memo.rs b/cpparser/src/memo.rs
new file mode 100644
index 0000000..571d237
--- /dev/null
+++ b/cpparser/src/memo.rs
@@ -0,0 +1,86 @@
+//! Memory of what was already parsed
+//!
+//! Many C++ syntactic constructs start alike, so our parsers often try several
+//! interpretations of a given piece of text in a row (e.g. is `f(g(x))` a value
+//! or the start of a function signature?). If each of these attempts re-parsed
+//! the nested types and values, parsing time would be exponential in the
+//! nesting depth. So we remember the result of parsing these instead.
+
+use crate::{EntityParser, IResult};
+use nom::{
+    error::{Error, ErrorKind},
+    Err,
+};
+use std::{cell::RefCell, collections::HashMap, hash::Hash};
+
+/// Results of a certain parser for various inputs and settings
+///
+/// Inputs are only identified by their location in memory, therefore these
+/// results must be forgotten once the outermost parser is done.
+pub(crate) type Memo<Settings, Key> = RefCell<HashMap<(usize, usize, Settings), Outcome<Key>>>;
+
+/// Result of parsing a certain input
+#[derive(Clone, Copy)]
+pub(crate) enum Outcome<Key> {
+    /// Success, with the amount of remaining bytes
+    Parsed(usize, Key),
+
+    /// Error, with the amount of remaining bytes
+    Error(usize, ErrorKind),
+}
+
+/// Count of nested parser calls, which forgets the results of past calls when
+/// the outermost call ends, no matter how
+struct Nesting<'parser>(&'parser EntityParser);
+//
+impl<'parser> Nesting<'parser> {
+    fn enter(parser: &'parser EntityParser) -> Self {
+        parser.nesting.set(parser.nesting.get() + 1);
+        Self(parser)
+    }
+}
+//
+impl Drop for Nesting<'_> {
+    fn drop(&mut self) {
+        self.0.nesting.set(self.0.nesting.get() - 1);
+        if self.0.nesting.get() == 0 {
+            self.0.type_memo.borrow_mut().clear();
+            self.0.value_memo.borrow_mut().clear();
+        }
+    }
+}
+
+impl EntityParser {
+    /// Run a parser unless its result is already known
+    pub(crate) fn memoize<'source, Settings: Copy + Eq + Hash, Key: Copy>(
+        &self,
+        memo: &Memo<Settings, Key>,
+        s: &'source str,
+        settings: Settings,
+        parse: impl FnOnce(&'source str) -> IResult<'source, Key>,
+    ) -> IResult<'source, Key> {
+        let _nesting = Nesting::enter(self);
+        let at = (s.as_ptr() as usize, s.len(), settings);
+        let known = memo.borrow().get(&at).copied();
+        match known {
+            Some(Outcome::Parsed(rest, key)) => return Ok((&s[s.len() - rest..], key)),
+            Some(Outcome::Error(rest, code)) => {
+                return Err(Err::Error(Error::new(&s[s.len() - rest..], code)))
+            }
+            None => {}
+        }
+
+        // Parsers leave us with the end of their input, but check this as
+        // errors may come from parsing a subset of the input.
+        let end =
+            |rest: &str| s.as_bytes().as_ptr_range().end == rest.as_bytes().as_ptr_range().end;
+        let result = parse(s);
+        let outcome = match &result {
+            Ok((rest, key)) if end(rest) => Outcome::Parsed(rest.len(), *key),
+            Err(Err::Error(e)) if end(e.input) => Outcome::Error(e.input.len(), e.code),
+            _ => return result,
+        };
+        memo.borrow_mut().insert(at, outcome);
+        result
+    }
+}
diff --git a/cpparser/src/subparsers/types/mod.rs b/cpparser/src/subparsers/types/mod.rs
index e0ab11c..a3c9844 100644
--- a/cpparser/src/subparsers/types/mod.rs
+++ b/cpparser/src/subparsers/types/mod.rs
@@ -42,6 +42,11 @@ impl EntityParser {
         &self,
         s: &'source str,
     ) -> IResult<'source, TypeKey> {
+        self.memoize(&self.type_memo, s, (), |s| self.parse_type_like_anew(s))
+    }
+
+    /// Implementation of parse_type_like, which ignores past results
+    fn parse_type_like_anew<'source>(&self, s: &'source str) -> IResult<'source, TypeKey> {
         use nom::{
             character::complete::{char, multispace0},
             combinator::opt,
diff --git a/cpparser/src/subparsers/values/mod.rs b/cpparser/src/subparsers/values/mod.rs
index 7574ae7..af69e76 100644
--- a/cpparser/src/subparsers/values/mod.rs
+++ b/cpparser/src/subparsers/values/mod.rs
@@ -74,6 +74,18 @@ impl EntityParser {
         s: &'source str,
         allow_comma: bool,
         allow_greater: bool,
+    ) -> IResult<'source, ValueKey> {
+        self.memoize(&self.value_memo, s, (allow_comma, allow_greater), |s| {
+            self.parse_value_like_anew(s, allow_comma, allow_greater)
+        })
+    }
+
+    /// Implementation of parse_value_like, which ignores past results
+    fn parse_value_like_anew<'source>(
+        &self,
+        s: &'source str,
+        allow_comma: bool,
+        allow_greater: bool,
     ) -> IResult<'source, ValueKey> {
         use nom::{character::complete::multispace0, multi::fold_many0, sequence::preceded};
 
-- 
2.43.0


From c184e7340ae80d4ed371959b83b89707743c87e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:21 +0000
Subject: [PATCH 41/41] fix: do not overflow the stack on deeply nested names
 in the TUI

The processing thread of the TUI only had the default stack of threads,
which is a quarter of that of the main thread, so that names with 800 levels
of nesting, which stdio reports display, would abort it.
---
 src/ui/tui/processing.rs | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/ui/tui/processing.rs b/src/ui/tui/processing.rs
index fd37ec6..10a6e5f 100644
--- a/src/ui/tui/processing.rs
+++ b/src/ui/tui/processing.rs
@@ -28,6 +28,14 @@ pub type ActivityInfoList = Box<[ActivityInfo]>;
 /// Owned list of activity descriptions
 pub type ActivityDescList = Box<[Arc<str>]>;
 
+/// Stack size of the processing thread
+///
+/// C++ names can be nested as deeply as the compiler accepts (by default, clang
+/// allows 1024 levels of template instantiation), and handling them takes a
+/// matching amount of stack. Only the part in use will consume memory.
+///
+const PROCESSING_STACK_SIZE: usize = 64 * 1024 * 1024;
+
 /// Encapsulation of the processing thread
 #[derive(Debug)]
 pub struct ProcessingThread {
@@ -59,15 +67,18 @@ impl ProcessingThread {
         let (descs_sender, descs_receiver) = mpsc::channel();
 
         // Spawn the processing thread
-        let handle = thread::spawn(move || {
-            // Process instructions until the main thread hangs up
-            worker(
-                instruction_receiver,
-                string_sender,
-                activities_sender,
-                descs_sender,
-            );
-        });
+        let handle = thread::Builder::new()
+            .stack_size(PROCESSING_STACK_SIZE)
+            .spawn(move || {
+                // Process instructions until the main thread hangs up
+                worker(
+                    instruction_receiver,
+                    string_sender,
+                    activities_sender,
+                    descs_sender,
+                );
+            })
+            .expect("Failed to start the processing thread");
 
         // Emit output interface
         Self {
-- 
2.43.0

