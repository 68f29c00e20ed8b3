From 7e233fbec8e7c2e5584560f9ada1d91fec5c7549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:17 +0000
Subject: [PATCH 1/7] fix: accept comments between RUN/CMD/ENTRYPOINT and a
 continued expression

A comment line following a line continuation directly after the keyword
was taken for the expression itself and the whole file was rejected with
"unexpected token comment".
---
 src/instructions/cmd.rs        | 7 ++++++-
 src/instructions/entrypoint.rs | 7 ++++++-
 src/instructions/run.rs        | 7 ++++++-
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/instructions/cmd.rs b/src/instructions/cmd.rs
index 523a71c..0f0576f 100644
--- a/src/instructions/cmd.rs
+++ b/src/instructions/cmd.rs
@@ -23,7 +23,12 @@ pub struct CmdInstruction {
 impl CmdInstruction {
   pub(crate) fn from_record(record: Pair) -> Result<CmdInstruction> {
     let span = Span::from_pair(&record);
-    let field = record.into_inner().next().unwrap();
+    // comments may precede the expression if it starts on a continuation line
+    let field = record.into_inner()
+      .find(|field| field.as_rule() != Rule::comment)
+      .ok_or_else(|| Error::GenericParseError {
+        message: "cmd requires an expression".into()
+      })?;
 
     match field.as_rule() {
       Rule::cmd_exec => Ok(CmdInstruction {
diff --git a/src/instructions/entrypoint.rs b/src/instructions/entrypoint.rs
index 9d68fce..d2a667d 100644
--- a/src/instructions/entrypoint.rs
+++ b/src/instructions/entrypoint.rs
@@ -23,7 +23,12 @@ pub struct EntrypointInstruction {
 impl EntrypointInstruction {
   pub(crate) fn from_record(record: Pair) -> Result<EntrypointInstruction> {
     let span = Span::from_pair(&record);
-    let field = record.into_inner().next().unwrap();
+    // comments may precede the expression if it starts on a continuation line
+    let field = record.into_inner()
+      .find(|field| field.as_rule() != Rule::comment)
+      .ok_or_else(|| Error::GenericParseError {
+        message: "entrypoint requires an expression".into()
+      })?;
 
     match field.as_rule() {
       Rule::entrypoint_exec => Ok(EntrypointInstruction {
diff --git a/src/instructions/run.rs b/src/instructions/run.rs
index 36a8991..f95e427 100644
--- a/src/instructions/run.rs
+++ b/src/instructions/run.rs
@@ -23,7 +23,12 @@ pub struct RunInstruction {
 impl RunInstruction {
   pub(crate) fn from_record(record: Pair) -> Result<RunInstruction> {
     let span = Span::from_pair(&record);
-    let field = record.into_inner().next().unwrap();
+    // comments may precede the expression if it starts on a continuation line
+    let field = record.into_inner()
+      .find(|field| field.as_rule() != Rule::comment)
+      .ok_or_else(|| Error::GenericParseError {
+        message: "run requires an expression".into()
+      })?;
 
     match field.as_rule() {
       Rule::run_exec => Ok(RunInstruction {
-- 
2.43.0


From 148b778b63b477d488fbc91cbb6a148add282831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:18 +0000
Subject: [PATCH 2/7] fix: require every character of an image digest to be
 hexadecimal

The regex was unanchored, so any 64 character digest containing a single
hexadecimal digit was accepted.
---
 src/instructions/from.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instructions/from.rs b/src/instructions/from.rs
index 8118bc5..8ae14af 100644
--- a/src/instructions/from.rs
+++ b/src/instructions/from.rs
@@ -73,7 +73,7 @@ impl FromInstruction {
   pub(crate) fn from_record(record: Pair, index: usize) -> Result<FromInstruction> {
     lazy_static! {
       static ref HEX: Regex =
-          Regex::new(r"[0-9a-fA-F]+").unwrap();
+          Regex::new(r"^[0-9a-fA-F]+$").unwrap();
     }
 
     let span = Span::from_pair(&record);
-- 
2.43.0


From 67dde8dadb83eeab1b4b320c03a07242e8dcbaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:35 +0000
Subject: [PATCH 3/7] fix: find global ARGs that follow other instructions

get_global_arg() gave up at the first instruction that was not an ARG
rather than at the first FROM, so arguments listed in global_args could
not be looked up by name.
---
 src/dockerfile_parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dockerfile_parser.rs b/src/dockerfile_parser.rs
index 6387e39..06b42aa 100644
--- a/src/dockerfile_parser.rs
+++ b/src/dockerfile_parser.rs
@@ -408,7 +408,8 @@ impl Dockerfile {
             continue
           }
         },
-        _ => return None
+        Instruction::From(_) => return None,
+        _ => continue
       }
     }
 
-- 
2.43.0


From e35dc4b325e8706ccc827df77510a280278d7e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:37 +0000
Subject: [PATCH 4/7] fix: collect the lines of a multi-line string without
 recursion

A RUN instruction with some ten thousand continued lines overflowed the
stack and aborted the process.
---
 src/util.rs | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index e5c66c1..e944722 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -251,19 +251,24 @@ impl From<((usize, usize), &str)> for BreakableString {
 
 fn parse_any_breakable_inner(pair: Pair) -> Result<Vec<BreakableStringComponent>> {
   let mut components = Vec::new();
-
-  for field in pair.into_inner() {
-    match field.as_rule() {
-      Rule::any_breakable => components.extend(parse_any_breakable_inner(field)?),
-      Rule::comment => components.push(SpannedComment {
-        span: (&field).into(),
-        content: field.as_str().to_string(),
-      }.into()),
-      Rule::any_content => components.push(SpannedString {
-        span: (&field).into(),
-        content: field.as_str().to_string(),
-      }.into()),
-      _ => return Err(unexpected_token(field))
+  let mut next = Some(pair);
+
+  // each further line is nested in the one before it; recursing into them would
+  // overflow the stack on instructions with a very large number of lines
+  while let Some(pair) = next.take() {
+    for field in pair.into_inner() {
+      match field.as_rule() {
+        Rule::any_breakable => next = Some(field),
+        Rule::comment => components.push(SpannedComment {
+          span: (&field).into(),
+          content: field.as_str().to_string(),
+        }.into()),
+        Rule::any_content => components.push(SpannedString {
+          span: (&field).into(),
+          content: field.as_str().to_string(),
+        }.into()),
+        _ => return Err(unexpected_token(field))
+      }
     }
   }
 
-- 
2.43.0


From bbc59161ef90caab7e7c92db911a57f232db0c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:04 +0000
Subject: [PATCH 5/7] fix: support escaped CRLF and CR line breaks in quoted
 labels

A quoted LABEL name or value continued on another line was rejected with
an unescaping error unless its lines ended with a bare LF.
---
 src/util.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index e944722..2ec89d5 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -7,6 +7,8 @@ use crate::parser::*;
 use crate::splicer::Span;
 
 use enquote::unquote;
+use lazy_static::lazy_static;
+use regex::Regex;
 use snafu::ResultExt;
 
 /// Given a node ostensibly containing a string array, returns an unescaped
@@ -46,11 +48,15 @@ pub(crate) fn parse_string(field: &Pair) -> Result<SpannedString> {
   })
 }
 
-/// Removes escaped line breaks (\\\n) from a string
+/// Removes escaped line breaks (\\\n, \\\r\n or \\\r) from a string
 ///
 /// This should be used to clean any input from the any_breakable rule
 pub(crate) fn clean_escaped_breaks(s: &str) -> String {
-  s.replace("\\\n", "")
+  lazy_static! {
+    static ref ESCAPED_BREAK: Regex = Regex::new(r"\\(\r\n|\n|\r)").unwrap();
+  }
+
+  ESCAPED_BREAK.replace_all(s, "").into_owned()
 }
 
 /// A string that may be broken across many lines or an array of strings.
-- 
2.43.0


From 8833654cbf5fa97f5a48c768a14b010ae9ac3a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:06 +0000
Subject: [PATCH 6/7] fix: keep spliced spans in step with the original
 document

Offsets were compared in the coordinates of the already spliced content.
After a replacement that shortened or emptied a span, or one ending where
another starts, later splices could replace the wrong text or panic.
---
 src/splicer.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/splicer.rs b/src/splicer.rs
index 90182bb..689fd9c 100644
--- a/src/splicer.rs
+++ b/src/splicer.rs
@@ -9,7 +9,8 @@ use crate::dockerfile_parser::Dockerfile;
 /// An offset used to adjust proceeding Spans after content has been spliced
 #[derive(Debug)]
 struct SpliceOffset {
-  position: usize,
+  /// the replaced span, relative to the original input document
+  original: Span,
   offset: isize
 }
 
@@ -38,12 +39,17 @@ impl Span {
     let mut start = self.start as isize;
     let mut end = self.end as isize;
 
-    for splice in offsets {
-      if splice.position < start as usize {
-        start += splice.offset;
-        end += splice.offset;
-      } else if splice.position < end as usize {
-        end += splice.offset;
+    // compare in the coordinates of the original document: once content has
+    // been spliced, adjusted positions no longer say which side they were on
+    for SpliceOffset { original, offset } in offsets {
+      if original == self {
+        // splicing the same span again replaces the previous replacement
+        end += offset;
+      } else if original.start < self.start || original.end <= self.start {
+        start += offset;
+        end += offset;
+      } else if original.start < self.end {
+        end += offset;
       }
     }
 
@@ -161,6 +167,7 @@ impl Splicer {
   /// Span offsets are recalculated at call-time to account for previous calls
   /// to `splice(...)` that may have shifted one or both of the span bounds.
   pub fn splice(&mut self, span: &Span, replacement: &str) {
+    let original = *span;
     let span = span.adjust_offsets(&self.splice_offsets);
 
     // determine the splice offset (only used on subsequent splices)
@@ -168,7 +175,7 @@ impl Splicer {
     let new_len = replacement.len();
     let offset = new_len as isize - prev_len as isize;
     self.splice_offsets.push(
-      SpliceOffset { position: span.start, offset }
+      SpliceOffset { original, offset }
     );
 
     // split and rebuild the content with the replacement instead
-- 
2.43.0


From efd216cedf2dad949021a54766749cced23b3573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:21 +0000
Subject: [PATCH 7/7] fix: do not treat a # on the keyword line as a comment

Comments need a line of their own. The argument in "WORKDIR #x" or
"RUN # foo" was dropped as a comment, which also made the following
instruction part of this one.
---
 src/dockerfile_parser.pest | 14 +++++++++-----
 src/util.rs                |  2 +-
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/dockerfile_parser.pest b/src/dockerfile_parser.pest
index 39da77e..6e26317 100644
--- a/src/dockerfile_parser.pest
+++ b/src/dockerfile_parser.pest
@@ -78,6 +78,10 @@ any_breakable = ${
   )
 }
 
+// any_breakable, but the first line is always content: a comment needs a line of
+// its own, so a `#` on the same line as the keyword doesn't start one
+any_breakable_start = ${ any_content ~ (line_continuation ~ any_breakable)? }
+
 // consumes any character until the end of the line
 any_eol = _{ (!NEWLINE ~ ANY)* }
 
@@ -126,15 +130,15 @@ label_single_quoted_name = { string }
 label_single = { arg_ws ~ (label_single_quoted_name | label_single_name) ~ arg_ws ~ (label_quoted_value | label_value) }
 label = { ^"label" ~ (label_single | (arg_ws ~ label_pair?)+) }
 
-run_shell = @{ any_breakable }
+run_shell = @{ any_breakable_start }
 run_exec = { string_array }
 run = { ^"run" ~ arg_ws ~ (run_exec | run_shell) }
 
-entrypoint_shell = @{ any_breakable }
+entrypoint_shell = @{ any_breakable_start }
 entrypoint_exec = { string_array }
 entrypoint = { ^"entrypoint" ~ arg_ws ~ (entrypoint_exec | entrypoint_shell) }
 
-cmd_shell = @{ any_breakable }
+cmd_shell = @{ any_breakable_start }
 cmd_exec = { string_array }
 cmd = { ^"cmd" ~ arg_ws ~ (cmd_exec | cmd_shell) }
 
@@ -150,10 +154,10 @@ env_pair_quoted_value = ${ string }
 env_pair = @{ env_name ~ "=" ~ (env_pair_quoted_value | env_pair_value) }
 env_pairs = { (arg_ws ~ env_pair?)+ }
 env_single_quoted_value = ${ string }
-env_single_value = @{ any_breakable }
+env_single_value = @{ any_breakable_start }
 env_single = {  arg_ws ~ env_name ~ arg_ws ~ (env_single_quoted_value | env_single_value) }
 env = { ^"env" ~ (env_single | env_pairs) }
 
 misc_instruction = @{ ASCII_ALPHA+ }
-misc_arguments = @{ any_breakable }
+misc_arguments = @{ any_breakable_start }
 misc = { misc_instruction ~ misc_arguments }
diff --git a/src/util.rs b/src/util.rs
index 2ec89d5..2b7c48f 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -264,7 +264,7 @@ fn parse_any_breakable_inner(pair: Pair) -> Result<Vec<BreakableStringComponent>
   while let Some(pair) = next.take() {
     for field in pair.into_inner() {
       match field.as_rule() {
-        Rule::any_breakable => next = Some(field),
+        Rule::any_breakable | Rule::any_breakable_start => next = Some(field),
         Rule::comment => components.push(SpannedComment {
           span: (&field).into(),
           content: field.as_str().to_string(),
-- 
2.43.0

