From 50483d80e1c19cc3dfd817e751ace3fa67a1ae5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:40 +0000
Subject: [PATCH 01/46] fix: ifle compares with less-than-or-equal

---
 stuart-core/src/functions/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stuart-core/src/functions/mod.rs b/stuart-core/src/functions/mod.rs
index f203228..cd26369 100644
--- a/stuart-core/src/functions/mod.rs
+++ b/stuart-core/src/functions/mod.rs
@@ -34,7 +34,7 @@ pub mod parsers {
         ifgt, IfGt, >;
         ifge, IfGe, >=;
         iflt, IfLt, <;
-        ifle, IfLe, <;
+        ifle, IfLe, <=;
     ];
 }
 
-- 
2.43.0


From 4c2393f93fad3f57081cbe1aacc200f39343cf6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:40 +0000
Subject: [PATCH 02/46] fix: report a lone quote as an argument instead of
 panicking

---
 stuart-core/src/parse/function.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stuart-core/src/parse/function.rs b/stuart-core/src/parse/function.rs
index eebbff2..79615bc 100644
--- a/stuart-core/src/parse/function.rs
+++ b/stuart-core/src/parse/function.rs
@@ -46,7 +46,7 @@ impl RawArgument {
             }
 
             Ok(Self::Variable(variable_name.to_string()))
-        } else if arg.starts_with('"') && arg.ends_with('"') {
+        } else if arg.len() >= 2 && arg.starts_with('"') && arg.ends_with('"') {
             // Parse a positional string argument.
 
             let string = arg.strip_prefix('"').unwrap().strip_suffix('"').unwrap();
-- 
2.43.0


From e1749b173a30af5ece5e54eba06deab7cb91522b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:56 +0000
Subject: [PATCH 03/46] fix: do not add an ellipsis to an excerpt of a whole
 non-ASCII string

---
 stuart-core/src/functions/parsers/excerpt.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/stuart-core/src/functions/parsers/excerpt.rs b/stuart-core/src/functions/parsers/excerpt.rs
index 224f52a..4503041 100644
--- a/stuart-core/src/functions/parsers/excerpt.rs
+++ b/stuart-core/src/functions/parsers/excerpt.rs
@@ -61,7 +61,6 @@ impl Function for ExcerptFunction {
         let mut chars = string.chars();
         let mut excerpt = String::with_capacity(self.length + 3);
         let mut tag = false;
-        let mut total_chars: usize = 0;
 
         while excerpt.len() < self.length {
             if let Some(ch) = chars.next() {
@@ -72,14 +71,12 @@ impl Function for ExcerptFunction {
                 } else if !tag {
                     excerpt.push(ch);
                 }
-
-                total_chars += 1;
             } else {
                 break;
             }
         }
 
-        if total_chars < string.len() {
+        if !chars.as_str().is_empty() {
             excerpt.push_str("...");
         }
 
-- 
2.43.0


From ab08e5ace7f49b129a7c80de921ba0ed3c9d95cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:56 +0000
Subject: [PATCH 04/46] fix: compare numbers without truncating them to 32-bit
 integers

---
 stuart-core/src/functions/mod.rs        | 12 ++++++------
 stuart-core/src/functions/parsers/if.rs |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/stuart-core/src/functions/mod.rs b/stuart-core/src/functions/mod.rs
index cd26369..637012a 100644
--- a/stuart-core/src/functions/mod.rs
+++ b/stuart-core/src/functions/mod.rs
@@ -89,8 +89,8 @@ enum Input {
     Variable(String),
     /// A string literal.
     String(String),
-    /// An integer literal.
-    Integer(i32),
+    /// A number.
+    Number(f64),
 }
 
 impl Input {
@@ -101,7 +101,7 @@ impl Input {
         match self {
             Input::Variable(name) => match scope.get_variable(name) {
                 Some(Value::String(s)) => Some(Input::String(s)),
-                Some(Value::Number(i)) => Some(Input::Integer(i as i32)),
+                Some(Value::Number(n)) => Some(Input::Number(n)),
                 _ => None,
             },
             x => Some(x.clone()),
@@ -114,7 +114,7 @@ impl PartialEq for Input {
         match (self, other) {
             (Self::Variable(l0), Self::Variable(r0)) => l0 == r0,
             (Self::String(l0), Self::String(r0)) => l0 == r0,
-            (Self::Integer(l0), Self::Integer(r0)) => l0 == r0,
+            (Self::Number(l0), Self::Number(r0)) => l0 == r0,
             _ => false,
         }
     }
@@ -125,7 +125,7 @@ impl PartialOrd for Input {
         match (self, other) {
             (Self::Variable(_), Self::Variable(_)) => None,
             (Self::String(_), Self::String(_)) => None,
-            (Self::Integer(i), Self::Integer(j)) => i.partial_cmp(j),
+            (Self::Number(i), Self::Number(j)) => i.partial_cmp(j),
             _ => None,
         }
     }
@@ -136,7 +136,7 @@ impl ToString for Input {
         match self {
             Input::Variable(v) => v.clone(),
             Input::String(s) => s.clone(),
-            Input::Integer(i) => i.to_string(),
+            Input::Number(n) => n.to_string(),
         }
     }
 }
diff --git a/stuart-core/src/functions/parsers/if.rs b/stuart-core/src/functions/parsers/if.rs
index f565a96..ecaf446 100644
--- a/stuart-core/src/functions/parsers/if.rs
+++ b/stuart-core/src/functions/parsers/if.rs
@@ -23,14 +23,14 @@ macro_rules! if_parsers {
                         let input_2 = match raw.positional_args.pop().unwrap() {
                             $crate::parse::RawArgument::Variable(v) => $crate::functions::Input::Variable(v),
                             $crate::parse::RawArgument::String(s) => $crate::functions::Input::String(s),
-                            $crate::parse::RawArgument::Integer(i) => $crate::functions::Input::Integer(i),
+                            $crate::parse::RawArgument::Integer(i) => $crate::functions::Input::Number(i.into()),
                             _ => return Err($crate::parse::ParseError::InvalidArgument),
                         };
 
                         let input_1 = match raw.positional_args.pop().unwrap() {
                             $crate::parse::RawArgument::Variable(v) => $crate::functions::Input::Variable(v),
                             $crate::parse::RawArgument::String(s) => $crate::functions::Input::String(s),
-                            $crate::parse::RawArgument::Integer(i) => $crate::functions::Input::Integer(i),
+                            $crate::parse::RawArgument::Integer(i) => $crate::functions::Input::Number(i.into()),
                             _ => return Err($crate::parse::ParseError::InvalidArgument),
                         };
 
-- 
2.43.0


From ea35ca25f743a52ee199bcc2e18dd59b2196e61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:29 +0000
Subject: [PATCH 05/46] fix: skip whole nested blocks within the branch of a
 conditional that is not taken

---
 stuart-core/src/functions/mod.rs               |  9 +++++++++
 stuart-core/src/functions/parsers/if.rs        | 18 +++++++++++++++++-
 stuart-core/src/functions/parsers/ifdefined.rs | 18 ++++++++++++++++--
 3 files changed, 42 insertions(+), 3 deletions(-)

diff --git a/stuart-core/src/functions/mod.rs b/stuart-core/src/functions/mod.rs
index 637012a..ca3042a 100644
--- a/stuart-core/src/functions/mod.rs
+++ b/stuart-core/src/functions/mod.rs
@@ -175,6 +175,15 @@ macro_rules! quiet_assert {
     };
 }
 
+/// Returns true if the named function opens a block, which is closed by a corresponding `end` function.
+#[inline]
+pub(crate) fn opens_block(name: &str) -> bool {
+    matches!(
+        name,
+        "begin" | "for" | "ifdefined" | "ifeq" | "ifne" | "ifgt" | "ifge" | "iflt" | "ifle"
+    )
+}
+
 /// Returns true if the string is an identifier of a function.
 #[inline]
 pub fn is_ident(s: &str) -> bool {
diff --git a/stuart-core/src/functions/parsers/if.rs b/stuart-core/src/functions/parsers/if.rs
index ecaf446..de5decd 100644
--- a/stuart-core/src/functions/parsers/if.rs
+++ b/stuart-core/src/functions/parsers/if.rs
@@ -66,6 +66,8 @@ macro_rules! if_parsers {
                         let stack_height = scope.stack.len();
                         scope.stack.push(frame);
 
+                        let mut skipped_blocks: usize = 0;
+
                         while scope.stack.len() > stack_height {
                             let token = scope
                                 .tokens
@@ -74,10 +76,24 @@ macro_rules! if_parsers {
 
                             let function_name = token.as_function().map(|f| f.name().to_string());
 
+                            if !condition {
+                                // Blocks within the branch not taken are skipped along with their ends.
+                                match function_name.as_deref() {
+                                    Some(name) if $crate::functions::opens_block(name) => {
+                                        skipped_blocks += 1
+                                    }
+                                    Some("end") if skipped_blocks > 0 => {
+                                        skipped_blocks -= 1;
+                                        continue;
+                                    }
+                                    _ => (),
+                                }
+                            }
+
                             if condition
                                 || ((function_name == Some("end".to_string())
                                     || function_name == Some("else".to_string()))
-                                    && scope.stack.len() == stack_height + 1)
+                                    && skipped_blocks == 0)
                             {
                                 token.process(scope)?;
 
diff --git a/stuart-core/src/functions/parsers/ifdefined.rs b/stuart-core/src/functions/parsers/ifdefined.rs
index fb8b657..6905e79 100644
--- a/stuart-core/src/functions/parsers/ifdefined.rs
+++ b/stuart-core/src/functions/parsers/ifdefined.rs
@@ -1,4 +1,4 @@
-use crate::functions::{Function, FunctionParser};
+use crate::functions::{opens_block, Function, FunctionParser};
 use crate::parse::{ParseError, RawFunction};
 use crate::process::stack::StackFrame;
 use crate::process::{ProcessError, Scope};
@@ -51,6 +51,8 @@ impl Function for IfDefinedFunction {
         let stack_height = scope.stack.len();
         scope.stack.push(frame);
 
+        let mut skipped_blocks: usize = 0;
+
         while scope.stack.len() > stack_height {
             let token = scope
                 .tokens
@@ -59,10 +61,22 @@ impl Function for IfDefinedFunction {
 
             let function_name = token.as_function().map(|f| f.name().to_string());
 
+            if !defined {
+                // Blocks within the branch not taken are skipped along with their ends.
+                match function_name.as_deref() {
+                    Some(name) if opens_block(name) => skipped_blocks += 1,
+                    Some("end") if skipped_blocks > 0 => {
+                        skipped_blocks -= 1;
+                        continue;
+                    }
+                    _ => (),
+                }
+            }
+
             if defined
                 || ((function_name == Some("end".to_string())
                     || function_name == Some("else".to_string()))
-                    && scope.stack.len() == stack_height + 1)
+                    && skipped_blocks == 0)
             {
                 token.process(scope)?;
 
-- 
2.43.0


From 42b8655c548332251c4d381af9ac51892bb337bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:54 +0000
Subject: [PATCH 06/46] fix: skip the body of a for loop over nothing instead
 of rendering it once and failing

---
 stuart-core/src/functions/parsers/for.rs | 32 +++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/stuart-core/src/functions/parsers/for.rs b/stuart-core/src/functions/parsers/for.rs
index 9d58df0..0523612 100644
--- a/stuart-core/src/functions/parsers/for.rs
+++ b/stuart-core/src/functions/parsers/for.rs
@@ -1,5 +1,5 @@
 use crate::fs::ParsedContents;
-use crate::functions::{Function, FunctionParser};
+use crate::functions::{opens_block, Function, FunctionParser};
 use crate::parse::{ParseError, RawArgument, RawFunction};
 use crate::process::stack::StackFrame;
 use crate::process::{ProcessError, Scope};
@@ -228,6 +228,36 @@ impl Function for ForFunction {
             variable_iter = Box::new(variable_iter.take(l));
         }
 
+        let mut variable_iter = variable_iter.peekable();
+
+        if variable_iter.peek().is_none() {
+            // There is nothing to iterate over, so skip the body of the loop.
+            scope
+                .stack
+                .push(StackFrame::new(format!("for:{}", self.variable_name)));
+
+            let mut skipped_blocks: usize = 0;
+
+            loop {
+                let token = scope
+                    .tokens
+                    .next()
+                    .ok_or_else(|| self_token.traceback(ProcessError::UnexpectedEndOfFile))?;
+
+                let function_name = token.as_function().map(|f| f.name().to_string());
+
+                match function_name.as_deref() {
+                    Some(name) if opens_block(name) => skipped_blocks += 1,
+                    Some("end") if skipped_blocks > 0 => skipped_blocks -= 1,
+                    Some("end") => {
+                        token.process(scope)?;
+                        break;
+                    }
+                    _ => (),
+                }
+            }
+        }
+
         for variable in variable_iter {
             scope.tokens.rewind_to(waypoint);
 
-- 
2.43.0


From 363d752a6dcae3eb9e38d89f816e65f84eee47ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:54 +0000
Subject: [PATCH 07/46] fix: fail the build when the root template leaves a
 block open

---
 stuart-core/src/process/mod.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/stuart-core/src/process/mod.rs b/stuart-core/src/process/mod.rs
index fc32c0b..1e971c3 100644
--- a/stuart-core/src/process/mod.rs
+++ b/stuart-core/src/process/mod.rs
@@ -135,8 +135,18 @@ impl Node {
             token.process(&mut scope)?;
         }
 
+        let frame = stack
+            .pop()
+            .filter(|frame| frame.name == "base")
+            .ok_or_else(|| TracebackError {
+                path: self.source().to_path_buf(),
+                line: 0,
+                column: 0,
+                kind: ProcessError::StackError,
+            })?;
+
         Ok(ProcessOutput {
-            new_contents: Some(stack.pop().unwrap().output),
+            new_contents: Some(frame.output),
             new_name: None,
         })
     }
@@ -206,10 +216,20 @@ impl Node {
             token.process(&mut scope)?;
         }
 
+        let frame = stack
+            .pop()
+            .filter(|frame| frame.name == "base")
+            .ok_or_else(|| TracebackError {
+                path: self.source().to_path_buf(),
+                line: 0,
+                column: 0,
+                kind: ProcessError::StackError,
+            })?;
+
         let new_name = format!("{}.html", self.name().strip_suffix(".md").unwrap());
 
         Ok(ProcessOutput {
-            new_contents: Some(stack.pop().unwrap().output),
+            new_contents: Some(frame.output),
             new_name: Some(new_name),
         })
     }
-- 
2.43.0


From 37c0707f47272ff07d432dadf0b6eca4ab71692b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:54 +0000
Subject: [PATCH 08/46] fix: count the frontmatter in the line numbers of
 errors in markdown bodies

---
 stuart-core/src/parse/markdown.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/stuart-core/src/parse/markdown.rs b/stuart-core/src/parse/markdown.rs
index 3b24ee1..b962f8a 100644
--- a/stuart-core/src/parse/markdown.rs
+++ b/stuart-core/src/parse/markdown.rs
@@ -89,7 +89,17 @@ pub fn parse_markdown(
         .collect::<Vec<_>>()
         .join("\n");
 
-    let markdown = parse_html(&raw_markdown, path, plugins)?;
+    // The body is parsed on its own, so its line numbers are offset by the frontmatter.
+    let offset = lines_to_skip as u32;
+
+    let mut markdown = parse_html(&raw_markdown, path, plugins).map_err(|e| TracebackError {
+        line: e.line + offset,
+        ..e
+    })?;
+
+    for token in &mut markdown {
+        token.line += offset;
+    }
 
     Ok(ParsedMarkdown {
         frontmatter,
-- 
2.43.0


From 16c4db887ffed0b971fa5b03edae26d8d40eb1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:54 +0000
Subject: [PATCH 09/46] fix: do not panic when displaying an error about a
 whole file

---
 stuart/src/error.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/stuart/src/error.rs b/stuart/src/error.rs
index e5dc5b2..5e32cbf 100644
--- a/stuart/src/error.rs
+++ b/stuart/src/error.rs
@@ -95,9 +95,10 @@ impl<T: Clone + Debug + StuartError> StuartError for TracebackError<T> {
             .trim_start_matches("\\\\?\\")
             .to_string();
 
-        let line = read_to_string(&self.path)
-            .ok()
-            .and_then(|s| s.lines().nth(self.line as usize - 1).map(|s| s.to_string()));
+        let line = read_to_string(&self.path).ok().and_then(|s| {
+            let index = (self.line as usize).checked_sub(1)?;
+            s.lines().nth(index).map(|s| s.to_string())
+        });
 
         // Output first line (e.g. `error: some error message`)
         buf.set_color(
-- 
2.43.0


From f0cf6269b1d7d7d6146b431c431d56d007fffd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:54 +0000
Subject: [PATCH 10/46] fix: do not panic when a markdown body loops over
 markdown files which are not yet converted

---
 stuart-core/src/parse/markdown.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stuart-core/src/parse/markdown.rs b/stuart-core/src/parse/markdown.rs
index b962f8a..1303f13 100644
--- a/stuart-core/src/parse/markdown.rs
+++ b/stuart-core/src/parse/markdown.rs
@@ -116,7 +116,7 @@ impl ParsedMarkdown {
     ///   is not required, consider using [`ParsedMarkdown::to_json`], which does the same thing without returning the contents.
     pub fn to_value(&self) -> Value {
         let mut v = self.frontmatter_to_value();
-        v["content"] = Value::String(self.html.as_ref().unwrap().clone());
+        v["content"] = self.html.clone().map(Value::String).unwrap_or(Value::Null);
         v["markdown"] = Value::String(self.markdown_string.clone());
         v
     }
-- 
2.43.0


From 3234bcb1e31f38253d279da68aa027e76129740b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:54 +0000
Subject: [PATCH 11/46] fix: an inherited STUART_ENV variable does not override
 the actual environment

---
 stuart-core/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stuart-core/src/lib.rs b/stuart-core/src/lib.rs
index d603c01..998ab78 100644
--- a/stuart-core/src/lib.rs
+++ b/stuart-core/src/lib.rs
@@ -136,7 +136,9 @@ impl Stuart {
         self.input = Some(input.clone());
 
         let vars = {
-            let mut env = std::env::vars().collect::<Vec<_>>();
+            let mut env = std::env::vars()
+                .filter(|(k, _)| k != "STUART_ENV")
+                .collect::<Vec<_>>();
             env.push(("STUART_ENV".into(), stuart_env));
             env
         };
-- 
2.43.0


From e371ecc63adcefddb3458f32337ac2f9e6b644b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:50 +0000
Subject: [PATCH 12/46] fix: save static files and markdown pages named like
 templates or data files

---
 stuart-core/src/fs/mod.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/stuart-core/src/fs/mod.rs b/stuart-core/src/fs/mod.rs
index 0f3129a..1ec2429 100644
--- a/stuart-core/src/fs/mod.rs
+++ b/stuart-core/src/fs/mod.rs
@@ -139,6 +139,12 @@ impl Node {
         }
     }
 
+    /// Returns `true` if the node is a `root.html` or `md.html` template, as opposed to a page of the same name.
+    fn is_template(&self) -> bool {
+        (self.name() == "root.html" || self.name() == "md.html")
+            && self.source().extension().map_or(true, |ext| ext != "md")
+    }
+
     /// Attempts to get a node at the given path of the filesystem.
     pub fn get_at_path(&self, path: &Path) -> Option<&Self> {
         let mut working_path = vec![self];
@@ -353,9 +359,10 @@ impl Node {
                 parsed_contents,
                 ..
             } => {
-                if name != "root.html"
-                    && name != "md.html"
-                    && (config.save_data_files || !name.ends_with(".json"))
+                // Files which were not parsed, such as static files, are always saved.
+                if parsed_contents.is_ignored()
+                    || (!self.is_template()
+                        && (config.save_data_files || !name.ends_with(".json")))
                 {
                     if config.strip_extensions
                         && name.ends_with(".html")
-- 
2.43.0


From 6119e23bc8047cec2acbe17a832ebeb8e7ead1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:11 +0000
Subject: [PATCH 13/46] fix: fail the build when two files would be saved to
 the same path

---
 stuart-core/src/fs/mod.rs | 109 ++++++++++++++++++++++++++++----------
 1 file changed, 81 insertions(+), 28 deletions(-)

diff --git a/stuart-core/src/fs/mod.rs b/stuart-core/src/fs/mod.rs
index 1ec2429..340ad06 100644
--- a/stuart-core/src/fs/mod.rs
+++ b/stuart-core/src/fs/mod.rs
@@ -14,6 +14,7 @@ pub use crate::parse::ParsedContents;
 use humphrey_json::prelude::*;
 use humphrey_json::Value;
 
+use std::collections::HashMap;
 use std::fmt::Debug;
 use std::fs::{create_dir, metadata, read, read_dir, remove_dir_all, write};
 use std::io::ErrorKind;
@@ -267,6 +268,8 @@ impl Node {
     pub fn save(&self, path: impl AsRef<Path>, config: &Config) -> Result<(), Error> {
         let path = path.as_ref().to_path_buf();
 
+        self.check_conflicts(config)?;
+
         if path.exists() && path.is_dir() {
             remove_dir_all(&path).map_err(|_| Error::Fs(FsError::Write))?;
         }
@@ -353,36 +356,86 @@ impl Node {
                     child.save_recur(&dir, config)?;
                 }
             }
-            Self::File {
-                name,
-                contents,
-                parsed_contents,
-                ..
-            } => {
-                // Files which were not parsed, such as static files, are always saved.
-                if parsed_contents.is_ignored()
-                    || (!self.is_template()
-                        && (config.save_data_files || !name.ends_with(".json")))
-                {
-                    if config.strip_extensions
-                        && name.ends_with(".html")
-                        && name != "index.html"
-                        && !parsed_contents.is_ignored()
-                    {
-                        let directory_name = name.strip_suffix(".html").unwrap().to_string();
-                        let dir = path.join(directory_name);
+            Self::File { contents, .. } => {
+                if let Some(output) = self.output_path(config) {
+                    let file = path.join(output);
 
-                        match create_dir(&dir) {
-                            Ok(_) => (),
-                            Err(e) if e.kind() == ErrorKind::AlreadyExists => (),
-                            Err(_) => return Err(Error::Fs(FsError::Write)),
-                        };
+                    match create_dir(file.parent().unwrap()) {
+                        Ok(_) => (),
+                        Err(e) if e.kind() == ErrorKind::AlreadyExists => (),
+                        Err(_) => return Err(Error::Fs(FsError::Write)),
+                    };
 
-                        write(dir.join("index.html"), contents)
-                            .map_err(|_| Error::Fs(FsError::Write))?;
-                    } else {
-                        write(path.join(name), contents).map_err(|_| Error::Fs(FsError::Write))?;
-                    }
+                    write(file, contents).map_err(|_| Error::Fs(FsError::Write))?;
+                }
+            }
+        }
+
+        Ok(())
+    }
+
+    /// Returns the path at which the file is saved relative to its directory, if it is saved at all.
+    fn output_path(&self, config: &Config) -> Option<PathBuf> {
+        let name = self.name();
+
+        // Files which were not parsed, such as static files, are always saved as they are.
+        if self.parsed_contents().is_ignored() {
+            Some(PathBuf::from(name))
+        } else if self.is_template() || (!config.save_data_files && name.ends_with(".json")) {
+            None
+        } else {
+            match name.strip_suffix(".html") {
+                Some(stem) if config.strip_extensions && name != "index.html" => {
+                    Some(Path::new(stem).join("index.html"))
+                }
+                _ => Some(PathBuf::from(name)),
+            }
+        }
+    }
+
+    /// Returns an error if two files would be saved to the same path, or a file to the path of a directory.
+    fn check_conflicts(&self, config: &Config) -> Result<(), Error> {
+        let mut files = HashMap::new();
+        let mut directories = HashMap::new();
+        self.check_conflicts_recur(Path::new(""), config, &mut files, &mut directories)?;
+
+        match files
+            .iter()
+            .find(|(path, _)| directories.contains_key(*path))
+        {
+            Some((path, source)) => Err(Error::Fs(FsError::Conflict(
+                source.to_path_buf(),
+                directories[path].to_path_buf(),
+            ))),
+            None => Ok(()),
+        }
+    }
+
+    /// Recursively collects the paths at which the descendants of this node would be saved, along with their sources.
+    fn check_conflicts_recur<'a>(
+        &'a self,
+        path: &Path,
+        config: &Config,
+        files: &mut HashMap<PathBuf, &'a Path>,
+        directories: &mut HashMap<PathBuf, &'a Path>,
+    ) -> Result<(), Error> {
+        for child in self.children().unwrap_or_default() {
+            if child.is_dir() {
+                let path = path.join(child.name());
+                child.check_conflicts_recur(&path, config, files, directories)?;
+                directories.insert(path, child.source());
+            } else if let Some(output) = child.output_path(config) {
+                let output = path.join(output);
+
+                if let Some(parent) = output.parent() {
+                    directories.insert(parent.to_path_buf(), child.source());
+                }
+
+                if let Some(other) = files.insert(output, child.source()) {
+                    return Err(Error::Fs(FsError::Conflict(
+                        other.to_path_buf(),
+                        child.source().to_path_buf(),
+                    )));
                 }
             }
         }
-- 
2.43.0


From 24169941f89001b072a4729fe259fa44128ee1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:11 +0000
Subject: [PATCH 14/46] fix: return the name of a JavaScript function instead
 of panicking

---
 stuart/src/plugins/js/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stuart/src/plugins/js/mod.rs b/stuart/src/plugins/js/mod.rs
index 141c269..091d937 100644
--- a/stuart/src/plugins/js/mod.rs
+++ b/stuart/src/plugins/js/mod.rs
@@ -173,7 +173,7 @@ impl FunctionParser for JSFunctionParser {
 
 impl Function for JSFunction {
     fn name(&self) -> &str {
-        todo!()
+        &self.name
     }
 
     fn execute(&self, stuart_scope: &mut Scope) -> Result<(), TracebackError<ProcessError>> {
-- 
2.43.0


From 389e2dca1ece866b28d702c12799a950f81a6b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:11 +0000
Subject: [PATCH 15/46] fix: convert undefined values nested in JavaScript
 objects to null instead of panicking

---
 stuart/src/plugins/js/json.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stuart/src/plugins/js/json.rs b/stuart/src/plugins/js/json.rs
index 163cdac..787bc33 100644
--- a/stuart/src/plugins/js/json.rs
+++ b/stuart/src/plugins/js/json.rs
@@ -39,7 +39,7 @@ pub fn json_to_js<'a>(
 
 /// Converts a JavaScript object to a JSON value.
 ///
-/// Returns `None` if `value` is `undefined`.
+/// Returns `None` if `value` is `undefined`. Within an array or an object, `undefined` is converted to `null`.
 pub fn js_to_json<'a>(
     value: v8::Local<'a, v8::Value>,
     scope: &mut v8::HandleScope<'a>,
@@ -76,7 +76,7 @@ pub fn js_to_json<'a>(
         for i in 0..length {
             let v8_value = v8_array.get_index(scope, i).unwrap();
             let value = js_to_json(v8_value, scope);
-            array.push(value.unwrap());
+            array.push(value.unwrap_or(Value::Null));
         }
         return Some(Value::Array(array));
     }
@@ -94,7 +94,7 @@ pub fn js_to_json<'a>(
             let key = v8_key.to_rust_string_lossy(scope).to_string();
             let v8_value = v8_object.get(scope, v8_key).unwrap();
             let value = js_to_json(v8_value, scope);
-            object.push((key, value.unwrap()));
+            object.push((key, value.unwrap_or(Value::Null)));
         }
 
         return Some(Value::Object(object));
-- 
2.43.0


From a864d6867dcfd6c763dada4f4f40732dab8f4670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:11 +0000
Subject: [PATCH 16/46] fix: reject JavaScript plugins whose functions are not
 functions

---
 stuart/src/plugins/js/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stuart/src/plugins/js/mod.rs b/stuart/src/plugins/js/mod.rs
index 091d937..c06b1fe 100644
--- a/stuart/src/plugins/js/mod.rs
+++ b/stuart/src/plugins/js/mod.rs
@@ -129,6 +129,7 @@ pub fn load_js_plugin(path: impl AsRef<Path>) -> Result<Plugin, String> {
                 let key = v8::String::new(scope, "fn").unwrap();
                 let function_fn = function_object
                     .get(scope, key.into())
+                    .filter(|function| function.is_function())
                     .ok_or_else(|| format!("invalid function at index {}", i))?;
 
                 let key = v8::String::new(scope, &format!("_stuart_{}", function_name)).unwrap();
-- 
2.43.0


From fd24b2d0a984c3f432b8756f347980b91a3e636e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:37 +0000
Subject: [PATCH 17/46] fix: fail the build when a JavaScript plugin function
 throws

---
 stuart-core/src/error.rs     |  2 ++
 stuart/src/error.rs          |  4 ++++
 stuart/src/plugins/js/mod.rs | 16 ++++++++++------
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/stuart-core/src/error.rs b/stuart-core/src/error.rs
index 74dc17d..3f3ec85 100644
--- a/stuart-core/src/error.rs
+++ b/stuart-core/src/error.rs
@@ -105,6 +105,8 @@ pub enum ProcessError {
     NullError(String),
     /// The file was not found.
     NotFound(String),
+    /// An exception was thrown by the plugin function and not caught.
+    UncaughtException(String),
 
     /// The data type of the variable was invalid.
     InvalidDataType {
diff --git a/stuart/src/error.rs b/stuart/src/error.rs
index 5e32cbf..0eac6a5 100644
--- a/stuart/src/error.rs
+++ b/stuart/src/error.rs
@@ -290,6 +290,9 @@ impl StuartError for ProcessError {
             }
             ProcessError::NullError(name) => format!("null error: `{}`", name).display(buf),
             ProcessError::NotFound(name) => format!("not found: `{}`", name).display(buf),
+            ProcessError::UncaughtException(name) => {
+                format!("uncaught exception in function: `{}`", name).display(buf)
+            }
             ProcessError::InvalidDataType {
                 variable,
                 expected,
@@ -342,6 +345,7 @@ impl StuartError for ProcessError {
                     .to_string(),
             ),
             ProcessError::NotFound(_) => None,
+            ProcessError::UncaughtException(_) => None,
             ProcessError::InvalidDataType { .. } => None,
         }
     }
diff --git a/stuart/src/plugins/js/mod.rs b/stuart/src/plugins/js/mod.rs
index c06b1fe..c4cc7ff 100644
--- a/stuart/src/plugins/js/mod.rs
+++ b/stuart/src/plugins/js/mod.rs
@@ -209,12 +209,16 @@ impl Function for JSFunction {
             // If I've done this right (which is a big if), this should be safe because the V8 scope is dropped/GC'd as soon as `execute` returns.
             context::set_stuart_context(scope, stuart_scope);
 
-            if let Some(result) = function.call(scope, function_obj, &evaluated_args) {
-                if !result.is_undefined() {
-                    stuart_scope
-                        .output(result.to_rust_string_lossy(scope))
-                        .unwrap();
-                }
+            let result = function
+                .call(scope, function_obj, &evaluated_args)
+                .ok_or_else(|| {
+                    self_token.traceback(ProcessError::UncaughtException(self.name.clone()))
+                })?;
+
+            if !result.is_undefined() {
+                stuart_scope
+                    .output(result.to_rust_string_lossy(scope))
+                    .unwrap();
             }
 
             Ok(())
-- 
2.43.0


From 3f470fc56d003f2b70167238a408c361a0773d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:00 +0000
Subject: [PATCH 18/46] fix: the development server ignores its own writes to
 any output directory and to metadata.json

---
 stuart/src/serve/mod.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/stuart/src/serve/mod.rs b/stuart/src/serve/mod.rs
index d4e7e02..fdf1a02 100644
--- a/stuart/src/serve/mod.rs
+++ b/stuart/src/serve/mod.rs
@@ -19,7 +19,7 @@ use notify::{raw_watcher, RawEvent, RecursiveMode, Watcher};
 
 use std::fs::File;
 use std::io::Read;
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 use std::sync::mpsc::{channel, Receiver};
 use std::sync::{Arc, Mutex};
 use std::thread::spawn;
@@ -82,7 +82,7 @@ pub fn serve(args: ArgMatches) -> Result<(), Box<dyn StuartError>> {
             .map_err(|_| Box::new("failed to start development server") as Box<dyn StuartError>)
     });
 
-    build_watcher(rx, streams, path, ctx);
+    build_watcher(rx, streams, path, output, ctx);
 
     Ok(())
 }
@@ -92,13 +92,22 @@ fn build_watcher(
     rx: Receiver<RawEvent>,
     streams: Arc<Mutex<Vec<WebsocketStream>>>,
     path: PathBuf,
+    output: String,
     mut ctx: StuartContext,
 ) {
     loop {
         if let Ok(e) = rx.recv() {
             let p = e.path.as_ref().unwrap().strip_prefix(&path).unwrap();
 
-            if p.starts_with("dist") || p.starts_with("temp") {
+            // The output directory may not exist yet, in which case its path cannot be canonicalized.
+            let output_path = path.join(&output);
+            let output_path = output_path.canonicalize().unwrap_or(output_path);
+
+            // Ignore changes which are made by the build itself.
+            if path.join(p).starts_with(output_path)
+                || p.starts_with("temp")
+                || p == Path::new("metadata.json")
+            {
                 continue;
             }
 
-- 
2.43.0


From aa4ae681337579216c52dbef4a0f7f1c3c5d12b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:20 +0000
Subject: [PATCH 19/46] fix: initialise the Git repository of a new project
 given by an absolute path in that project

---
 stuart/src/new.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stuart/src/new.rs b/stuart/src/new.rs
index 0c56aac..6959c0d 100644
--- a/stuart/src/new.rs
+++ b/stuart/src/new.rs
@@ -39,7 +39,7 @@ pub fn new(args: &ArgMatches) -> Result<(), Box<dyn StuartError>> {
     extract(&path, &DEFAULT_PROJECT)?;
 
     if !no_git {
-        git::init_repository(&format!("./{}", name));
+        git::init_repository(&Path::new(".").join(&path).to_string_lossy());
 
         write(path.join(".gitignore"), b"dist/\n_build/\nmetadata.json\n")
             .map_err(|_| FsError::Write)?;
-- 
2.43.0


From c2a862b01bedaf1ea9e818ffaedc50076b1c03b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:20 +0000
Subject: [PATCH 20/46] fix: quote special characters in the manifest of a new
 project

---
 stuart/src/new.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/stuart/src/new.rs b/stuart/src/new.rs
index 6959c0d..d5e8bd0 100644
--- a/stuart/src/new.rs
+++ b/stuart/src/new.rs
@@ -21,12 +21,15 @@ pub fn new(args: &ArgMatches) -> Result<(), Box<dyn StuartError>> {
     let path = PathBuf::from(name);
     let no_git = args.is_present("no-git");
 
-    let mut manifest: Vec<u8> = format!("[site]\nname = \"{}\"", name).as_bytes().to_vec();
+    let mut manifest: Vec<u8> = format!("[site]\nname = {}", toml_string(name))
+        .as_bytes()
+        .to_vec();
 
     if let Some((name, email)) =
         git::get_user_name().and_then(|name| git::get_user_email().map(|email| (name, email)))
     {
-        write!(&mut manifest, "\nauthor = \"{} <{}>\"", name, email).unwrap();
+        let author = format!("{} <{}>", name, email);
+        write!(&mut manifest, "\nauthor = {}", toml_string(&author)).unwrap();
     }
 
     manifest.push(b'\n');
@@ -50,6 +53,11 @@ pub fn new(args: &ArgMatches) -> Result<(), Box<dyn StuartError>> {
     Ok(())
 }
 
+/// Formats the given value as a TOML string, including the quotes.
+fn toml_string(value: &str) -> String {
+    toml::Value::from(value).to_string()
+}
+
 /// Extracts the embedded directory to the filesystem.
 fn extract(root: &Path, dir: &Dir) -> Result<(), FsError> {
     for child in dir.entries() {
-- 
2.43.0


From 4212874abd4b56e638f32f176d573a600776e9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:50 +0000
Subject: [PATCH 21/46] fix: refuse output directories which overlap with the
 sources of the project

---
 stuart/src/build.rs | 39 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/stuart/src/build.rs b/stuart/src/build.rs
index 48c31da..8bac48f 100644
--- a/stuart/src/build.rs
+++ b/stuart/src/build.rs
@@ -7,7 +7,7 @@ use crate::{config, plugins};
 use stuart_core::{Config, Node, Stuart, TracebackError};
 
 use std::fs::{read_to_string, remove_dir_all};
-use std::path::PathBuf;
+use std::path::{Component, Path, PathBuf};
 use std::time::Instant;
 
 /// Contains information about a successful build.
@@ -48,6 +48,8 @@ impl StuartContext {
             .and_then(|path| path.canonicalize().ok())
             .ok_or_else(|| "invalid manifest path".to_string())?;
 
+        check_output(path.parent().unwrap(), output)?;
+
         let manifest =
             read_to_string(&path).map_err(|e| format!("failed to read manifest:\n  {}", e))?;
 
@@ -190,3 +192,38 @@ impl StuartContext {
         })
     }
 }
+
+/// Checks that saving to the output directory, which replaces it, would not affect the sources of the project.
+fn check_output(project_dir: &Path, output: &str) -> Result<(), String> {
+    let mut output_path = PathBuf::new();
+
+    for component in project_dir.join(output).components() {
+        match component {
+            Component::CurDir => (),
+            Component::ParentDir => {
+                output_path.pop();
+            }
+            component => output_path.push(component),
+        }
+
+        if let Ok(path) = output_path.canonicalize() {
+            output_path = path;
+        }
+    }
+
+    let overlaps = ["content", "static", "scripts", "temp"].iter().any(|dir| {
+        let dir = project_dir.join(dir);
+        let dir = dir.canonicalize().unwrap_or(dir);
+
+        output_path.starts_with(&dir) || dir.starts_with(&output_path)
+    });
+
+    if overlaps || project_dir.starts_with(&output_path) {
+        return Err(format!(
+            "output directory `{}` overlaps with the sources of the project",
+            output
+        ));
+    }
+
+    Ok(())
+}
-- 
2.43.0


From ed0d4f627bd15446921fdb433842f476e80db52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:53 +0000
Subject: [PATCH 22/46] fix: do not start a tag within an escaped {{ which is
 followed by another brace

---
 stuart-core/src/parse/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stuart-core/src/parse/parser.rs b/stuart-core/src/parse/parser.rs
index bf76b0c..5b7ddff 100644
--- a/stuart-core/src/parse/parser.rs
+++ b/stuart-core/src/parse/parser.rs
@@ -87,16 +87,20 @@ impl<'a> Parser<'a> {
         let mut result = String::with_capacity(128);
         let old_chars = self.chars.clone();
 
+        // The length of the result up to and including the last escaped string.
+        let mut escaped = 0;
+
         loop {
             if let Ok(c) = self.next() {
                 result.push(c);
 
-                if result.ends_with(s) {
+                if result[escaped..].ends_with(s) {
                     if allow_escape
                         && result.len() > s.len()
                         && result.as_bytes()[result.len() - s.len() - 1] == b'\\'
                     {
                         result.remove(result.len() - s.len() - 1);
+                        escaped = result.len();
                         continue;
                     }
 
-- 
2.43.0


From fafed4223300194e8140f2f41ab824958765ed0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:31 +0000
Subject: [PATCH 23/46] fix: name the file which is not valid UTF-8

---
 stuart-core/src/error.rs  |  2 ++
 stuart-core/src/fs/mod.rs | 10 ++++++++--
 stuart/src/error.rs       |  2 ++
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/stuart-core/src/error.rs b/stuart-core/src/error.rs
index 3f3ec85..474edb9 100644
--- a/stuart-core/src/error.rs
+++ b/stuart-core/src/error.rs
@@ -70,6 +70,8 @@ pub enum ParseError {
     InvalidFrontmatter,
     /// A JSON file contained invalid JSON.
     InvalidJson,
+    /// A text file was not valid UTF-8.
+    InvalidUtf8,
     /// An assertion with the [`quiet_assert`] macro failed.
     AssertionError(String),
 }
diff --git a/stuart-core/src/fs/mod.rs b/stuart-core/src/fs/mod.rs
index 340ad06..96f6e48 100644
--- a/stuart-core/src/fs/mod.rs
+++ b/stuart-core/src/fs/mod.rs
@@ -210,8 +210,14 @@ impl Node {
 
         let parsed_contents = if parse {
             let extension = file.extension().map(|e| e.to_string_lossy().to_string());
-            let contents_string =
-                std::str::from_utf8(&contents).map_err(|_| Error::Fs(FsError::Read));
+            let contents_string = std::str::from_utf8(&contents).map_err(|_| {
+                Error::Parse(TracebackError {
+                    path: file.to_path_buf(),
+                    kind: ParseError::InvalidUtf8,
+                    column: 0,
+                    line: 0,
+                })
+            });
 
             match extension.as_deref() {
                 Some("html") => ParsedContents::Html(
diff --git a/stuart/src/error.rs b/stuart/src/error.rs
index 0eac6a5..f3ec448 100644
--- a/stuart/src/error.rs
+++ b/stuart/src/error.rs
@@ -234,6 +234,7 @@ impl StuartError for ParseError {
             }
             ParseError::InvalidFrontmatter => "invalid frontmatter".display(buf),
             ParseError::InvalidJson => "invalid json".display(buf),
+            ParseError::InvalidUtf8 => "invalid utf-8".display(buf),
             ParseError::AssertionError(assertion) => {
                 format!("assertion failed: `{}`", assertion).display(buf)
             }
@@ -260,6 +261,7 @@ impl StuartError for ParseError {
             }
             ParseError::InvalidFrontmatter => None,
             ParseError::InvalidJson => None,
+            ParseError::InvalidUtf8 => None,
             ParseError::AssertionError(_) => None,
         }
     }
-- 
2.43.0


From fc027039c4f320f05e99feca83f211f028a1eaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:40 +0000
Subject: [PATCH 24/46] fix: rebuild when a file called stuart.toml other than
 the manifest changes

The development server took every file of that name for the manifest, so
that changes to e.g. content/example/stuart.toml were not published.
---
 stuart/src/serve/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stuart/src/serve/mod.rs b/stuart/src/serve/mod.rs
index fdf1a02..97139d2 100644
--- a/stuart/src/serve/mod.rs
+++ b/stuart/src/serve/mod.rs
@@ -113,7 +113,7 @@ fn build_watcher(
 
             println!();
 
-            if p.ends_with("stuart.toml") {
+            if p == Path::new("stuart.toml") {
                 log!(
                     "Detected",
                     "configuration change, please restart the server"
-- 
2.43.0


From e393b16cb11aa485282304cba56100a9d83194ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:08 +0000
Subject: [PATCH 25/46] fix: keep the development server alive when file system
 events are missed

The watcher reports an overflow of the kernel's event queue by an event
without a path, on which the server panicked. Anything may have changed
then, so rebuild.
---
 stuart/src/serve/mod.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/stuart/src/serve/mod.rs b/stuart/src/serve/mod.rs
index 97139d2..3edda9d 100644
--- a/stuart/src/serve/mod.rs
+++ b/stuart/src/serve/mod.rs
@@ -97,7 +97,9 @@ fn build_watcher(
 ) {
     loop {
         if let Ok(e) = rx.recv() {
-            let p = e.path.as_ref().unwrap().strip_prefix(&path).unwrap();
+            // Events without a path mean that the watcher has missed some, so anything may have changed.
+            let changed = e.path.unwrap_or_else(|| path.clone());
+            let p = changed.strip_prefix(&path).unwrap();
 
             // The output directory may not exist yet, in which case its path cannot be canonicalized.
             let output_path = path.join(&output);
@@ -124,10 +126,7 @@ fn build_watcher(
             log!(
                 "Detected",
                 "change at {}, rebuilding",
-                e.path
-                    .unwrap()
-                    .to_string_lossy()
-                    .trim_start_matches("\\\\?\\")
+                changed.to_string_lossy().trim_start_matches("\\\\?\\")
             );
 
             if let Err(e) = ctx.build() {
-- 
2.43.0


From 5f08e089cd2e245b8920300dcb04f1a913f93d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:33 +0000
Subject: [PATCH 26/46] fix: do not mistake plugin functions for the built-ins
 of the same name

---
 stuart-core/src/parse/mod.rs | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/stuart-core/src/parse/mod.rs b/stuart-core/src/parse/mod.rs
index cfc358a..06d05df 100644
--- a/stuart-core/src/parse/mod.rs
+++ b/stuart-core/src/parse/mod.rs
@@ -7,6 +7,7 @@ mod parser;
 
 use crate::functions::Function;
 use crate::plugins::Manager;
+use crate::process::{ProcessError, Scope};
 
 pub use self::contents::ParsedContents;
 pub use self::function::{RawArgument, RawFunction};
@@ -44,6 +45,25 @@ pub enum Token {
     Variable(String),
 }
 
+/// A plugin function, identified by its full name so that it is never mistaken for a built-in.
+#[derive(Debug)]
+struct PluginFunction {
+    /// The name of the function, prefixed with that of the plugin.
+    full_name: String,
+    /// The function itself.
+    function: Box<dyn Function>,
+}
+
+impl Function for PluginFunction {
+    fn name(&self) -> &str {
+        &self.full_name
+    }
+
+    fn execute(&self, scope: &mut Scope) -> Result<(), TracebackError<ProcessError>> {
+        self.function.execute(scope)
+    }
+}
+
 impl LocatableToken {
     /// Generate a traceback error for this locatable token.
     pub fn traceback<T: Clone + Debug>(&self, e: T) -> TracebackError<T> {
@@ -256,14 +276,15 @@ fn parse_function(
     if let Some(plugins) = plugins {
         for plugin in plugins.plugins() {
             for function in &plugin.functions {
-                if function_name == function.name()
-                    || function_name == format!("{}::{}", plugin.name, function.name())
-                {
-                    return Ok(Token::Function(Rc::new(
-                        function
+                let full_name = format!("{}::{}", plugin.name, function.name());
+
+                if function_name == function.name() || function_name == full_name {
+                    return Ok(Token::Function(Rc::new(Box::new(PluginFunction {
+                        full_name,
+                        function: function
                             .parse(raw_function)
                             .map_err(|e| parser.traceback(e))?,
-                    )));
+                    }))));
                 }
             }
         }
-- 
2.43.0


From 9aa681603fc9cbf705989067f432a620b47e76b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:53 +0000
Subject: [PATCH 27/46] fix: reject JavaScript plugins whose modules throw

---
 stuart/src/plugins/js/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stuart/src/plugins/js/mod.rs b/stuart/src/plugins/js/mod.rs
index c4cc7ff..1dfc7b1 100644
--- a/stuart/src/plugins/js/mod.rs
+++ b/stuart/src/plugins/js/mod.rs
@@ -76,6 +76,11 @@ pub fn load_js_plugin(path: impl AsRef<Path>) -> Result<Plugin, String> {
                 .ok_or("failed to instantiate module")?;
             module.evaluate(scope).ok_or("failed to evaluate module")?;
 
+            // The exception thrown by the module, if any, is given by its status.
+            if module.get_status() == v8::ModuleStatus::Errored {
+                return Err("failed to evaluate module".to_string());
+            }
+
             let key = v8::String::new(scope, "default").unwrap();
             let default = module
                 .get_module_namespace()
-- 
2.43.0


From 31ed5baa368f8c6cfd53d467bdb32821276be585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:33 +0000
Subject: [PATCH 28/46] fix: fail the build instead of crashing when a
 JavaScript plugin sets a value which cannot be converted

---
 stuart/src/plugins/js/context.rs |  6 +++-
 stuart/src/plugins/js/json.rs    | 54 +++++++++++++++++++++++---------
 2 files changed, 44 insertions(+), 16 deletions(-)

diff --git a/stuart/src/plugins/js/context.rs b/stuart/src/plugins/js/context.rs
index c1e77e6..0ef4f35 100644
--- a/stuart/src/plugins/js/context.rs
+++ b/stuart/src/plugins/js/context.rs
@@ -55,7 +55,11 @@ pub fn set_variable<'s>(
     let stuart_scope = unsafe { get_stuart_context(scope, args.this()) };
     let key = args.get(0).to_rust_string_lossy(scope);
     let value = args.get(1);
-    let json_value = super::json::js_to_json(value, scope);
+
+    // If an exception has been thrown, V8 throws it again when this function returns.
+    let Ok(json_value) = super::json::js_to_json(value, scope) else {
+        return;
+    };
 
     if json_value.is_none() {
         println!(
diff --git a/stuart/src/plugins/js/json.rs b/stuart/src/plugins/js/json.rs
index 787bc33..66ddf10 100644
--- a/stuart/src/plugins/js/json.rs
+++ b/stuart/src/plugins/js/json.rs
@@ -37,31 +37,55 @@ pub fn json_to_js<'a>(
     }
 }
 
+/// The greatest depth of a JavaScript object that can be converted to a JSON value.
+const MAX_DEPTH: usize = 256;
+
+/// Signals that a JavaScript exception has been thrown.
+pub struct Exception;
+
 /// Converts a JavaScript object to a JSON value.
 ///
 /// Returns `None` if `value` is `undefined`. Within an array or an object, `undefined` is converted to `null`.
+///
+/// Accessing the object may throw an exception, as does an object which is nested too deeply or contains itself.
 pub fn js_to_json<'a>(
     value: v8::Local<'a, v8::Value>,
     scope: &mut v8::HandleScope<'a>,
-) -> Option<Value> {
+) -> Result<Option<Value>, Exception> {
+    js_to_json_recur(value, scope, 0)
+}
+
+/// Converts a JavaScript object at the given depth to a JSON value.
+fn js_to_json_recur<'a>(
+    value: v8::Local<'a, v8::Value>,
+    scope: &mut v8::HandleScope<'a>,
+    depth: usize,
+) -> Result<Option<Value>, Exception> {
     if value.is_undefined() {
-        return None;
+        return Ok(None);
     }
 
     if value.is_null() {
-        return Some(Value::Null);
+        return Ok(Some(Value::Null));
     }
 
     if value.is_boolean() {
-        return Some(Value::Bool(value.boolean_value(scope)));
+        return Ok(Some(Value::Bool(value.boolean_value(scope))));
     }
 
     if value.is_number() {
-        return Some(Value::Number(value.number_value(scope).unwrap()));
+        return Ok(Some(Value::Number(value.number_value(scope).unwrap())));
     }
 
     if value.is_string() {
-        return Some(Value::String(value.to_rust_string_lossy(scope).to_string()));
+        return Ok(Some(Value::String(value.to_rust_string_lossy(scope))));
+    }
+
+    if depth == MAX_DEPTH {
+        let message = v8::String::new(scope, "value is nested too deeply").unwrap();
+        let exception = v8::Exception::range_error(scope, message);
+        scope.throw_exception(exception);
+        return Err(Exception);
     }
 
     if value.is_array() {
@@ -72,33 +96,33 @@ pub fn js_to_json<'a>(
             .unwrap()
             .uint32_value(scope)
             .unwrap();
-        let mut array = Vec::with_capacity(length as usize);
+        let mut array = Vec::new();
         for i in 0..length {
-            let v8_value = v8_array.get_index(scope, i).unwrap();
-            let value = js_to_json(v8_value, scope);
+            let v8_value = v8_array.get_index(scope, i).ok_or(Exception)?;
+            let value = js_to_json_recur(v8_value, scope, depth + 1)?;
             array.push(value.unwrap_or(Value::Null));
         }
-        return Some(Value::Array(array));
+        return Ok(Some(Value::Array(array)));
     }
 
     if value.is_object() {
         let v8_object = value.to_object(scope).unwrap();
         let keys = v8_object
             .get_own_property_names(scope, v8::GetPropertyNamesArgs::default())
-            .unwrap();
+            .ok_or(Exception)?;
         let length = keys.length();
         let mut object = Vec::with_capacity(length as usize);
 
         for i in 0..length {
             let v8_key = keys.get_index(scope, i).unwrap();
             let key = v8_key.to_rust_string_lossy(scope).to_string();
-            let v8_value = v8_object.get(scope, v8_key).unwrap();
-            let value = js_to_json(v8_value, scope);
+            let v8_value = v8_object.get(scope, v8_key).ok_or(Exception)?;
+            let value = js_to_json_recur(v8_value, scope, depth + 1)?;
             object.push((key, value.unwrap_or(Value::Null)));
         }
 
-        return Some(Value::Object(object));
+        return Ok(Some(Value::Object(object)));
     }
 
-    None
+    Ok(None)
 }
-- 
2.43.0


From 31cc74e9f998133b7258fa4b72b21a5b7aba831f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:33 +0000
Subject: [PATCH 29/46] fix: pass objects with a key called __proto__ to
 JavaScript plugins as they are

---
 stuart/src/plugins/js/json.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stuart/src/plugins/js/json.rs b/stuart/src/plugins/js/json.rs
index 66ddf10..78800fd 100644
--- a/stuart/src/plugins/js/json.rs
+++ b/stuart/src/plugins/js/json.rs
@@ -28,7 +28,7 @@ pub fn json_to_js<'a>(
                 for (key, value) in object.into_iter() {
                     let v8_key = v8::String::new(scope, &key).unwrap().into();
                     let v8_value = json_to_js(Some(value), scope);
-                    v8_object.set(scope, v8_key, v8_value);
+                    v8_object.create_data_property(scope, v8_key, v8_value);
                 }
                 v8_object.into()
             }
-- 
2.43.0


From 8ff463a464fd36dbf08a1579e14177df0faf0d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:33 +0000
Subject: [PATCH 30/46] fix: fail the build when the result of a JavaScript
 plugin function cannot be output

---
 stuart/src/plugins/js/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stuart/src/plugins/js/mod.rs b/stuart/src/plugins/js/mod.rs
index 1dfc7b1..75aa799 100644
--- a/stuart/src/plugins/js/mod.rs
+++ b/stuart/src/plugins/js/mod.rs
@@ -221,8 +221,12 @@ impl Function for JSFunction {
                 })?;
 
             if !result.is_undefined() {
+                let output = result.to_string(scope).ok_or_else(|| {
+                    self_token.traceback(ProcessError::UncaughtException(self.name.clone()))
+                })?;
+
                 stuart_scope
-                    .output(result.to_rust_string_lossy(scope))
+                    .output(output.to_rust_string_lossy(scope))
                     .unwrap();
             }
 
-- 
2.43.0


From f696698c3147a8e335221d76a2ef7aeb5ba4613f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:28 +0000
Subject: [PATCH 31/46] fix: do not let JavaScript plugins use a STUART object
 which is no longer current

---
 stuart/src/plugins/js/context.rs | 47 ++++++++++++++++++++++++++------
 stuart/src/plugins/js/mod.rs     | 31 +++++++++++----------
 2 files changed, 54 insertions(+), 24 deletions(-)

diff --git a/stuart/src/plugins/js/context.rs b/stuart/src/plugins/js/context.rs
index 0ef4f35..f592b04 100644
--- a/stuart/src/plugins/js/context.rs
+++ b/stuart/src/plugins/js/context.rs
@@ -3,7 +3,12 @@
 use stuart_core::process::Scope;
 
 /// Makes the Stuart scope accessible to `set_variable` and `get_variable` when they're called from JavaScript code.
-pub fn set_stuart_context(scope: &mut v8::HandleScope, context: &mut Scope) {
+///
+/// The returned object **must** be passed to `clear_stuart_context` before the Stuart scope is used again.
+pub fn set_stuart_context<'a>(
+    scope: &mut v8::HandleScope<'a>,
+    context: &mut Scope,
+) -> v8::Local<'a, v8::Object> {
     let stuart_context = v8::Object::new(scope);
 
     let k_context = v8::String::new(scope, "STUART").unwrap();
@@ -27,23 +32,41 @@ pub fn set_stuart_context(scope: &mut v8::HandleScope, context: &mut Scope) {
         .get_current_context()
         .global(scope)
         .set(scope, k_context.into(), stuart_context.into());
+
+    stuart_context
+}
+
+/// Makes the Stuart scope inaccessible through the object, which JavaScript code might have kept.
+pub fn clear_stuart_context(scope: &mut v8::HandleScope, object: v8::Local<'_, v8::Object>) {
+    let k_external = v8::String::new(scope, "_ptr").unwrap();
+    let undefined = v8::undefined(scope);
+
+    object.set(scope, k_external.into(), undefined.into());
 }
 
 /// Gets the Stuart context from V8.
 ///
+/// If the object does not give access to the current scope, throws an exception and returns `None`.
+///
 /// # Safety
 /// This function is only safe if `set_stuart_context` has previously been called with the same `scope`.
 unsafe fn get_stuart_context<'s>(
     scope: &mut v8::HandleScope,
     obj: v8::Local<'_, v8::Object>,
-) -> &'s mut Scope<'s> {
+) -> Option<&'s mut Scope<'s>> {
     let k_external = v8::String::new(scope, "_ptr").unwrap();
 
-    (v8::Local::<v8::External>::try_from(obj.get(scope, k_external.into()).unwrap())
-        .unwrap()
-        .value() as *mut Scope)
-        .as_mut()
-        .unwrap()
+    let external = obj
+        .get(scope, k_external.into())
+        .and_then(|external| v8::Local::<v8::External>::try_from(external).ok());
+
+    if external.is_none() {
+        let message = v8::String::new(scope, "not the current `STUART` object").unwrap();
+        let exception = v8::Exception::type_error(scope, message);
+        scope.throw_exception(exception);
+    }
+
+    (external?.value() as *mut Scope).as_mut()
 }
 
 /// Sets a variable in the current Stuart scope.
@@ -52,7 +75,10 @@ pub fn set_variable<'s>(
     args: v8::FunctionCallbackArguments<'s>,
     _ret: v8::ReturnValue,
 ) {
-    let stuart_scope = unsafe { get_stuart_context(scope, args.this()) };
+    let Some(stuart_scope) = (unsafe { get_stuart_context(scope, args.this()) }) else {
+        return;
+    };
+
     let key = args.get(0).to_rust_string_lossy(scope);
     let value = args.get(1);
 
@@ -82,7 +108,10 @@ pub fn get_variable<'s>(
     args: v8::FunctionCallbackArguments<'s>,
     mut ret: v8::ReturnValue,
 ) {
-    let stuart_scope = unsafe { get_stuart_context(scope, args.this()) };
+    let Some(stuart_scope) = (unsafe { get_stuart_context(scope, args.this()) }) else {
+        return;
+    };
+
     let key = args.get(0).to_rust_string_lossy(scope);
     let value = stuart_scope.get_variable(&key);
     let v8_value = super::json::json_to_js(value, scope);
diff --git a/stuart/src/plugins/js/mod.rs b/stuart/src/plugins/js/mod.rs
index 75aa799..09f7f24 100644
--- a/stuart/src/plugins/js/mod.rs
+++ b/stuart/src/plugins/js/mod.rs
@@ -212,23 +212,24 @@ impl Function for JSFunction {
 
             // Make the `stuart_scope`` variable accessible from JavaScript calls back into Rust.
             // If I've done this right (which is a big if), this should be safe because the V8 scope is dropped/GC'd as soon as `execute` returns.
-            context::set_stuart_context(scope, stuart_scope);
+            let stuart_context = context::set_stuart_context(scope, stuart_scope);
 
-            let result = function
+            let output = function
                 .call(scope, function_obj, &evaluated_args)
-                .ok_or_else(|| {
-                    self_token.traceback(ProcessError::UncaughtException(self.name.clone()))
-                })?;
-
-            if !result.is_undefined() {
-                let output = result.to_string(scope).ok_or_else(|| {
-                    self_token.traceback(ProcessError::UncaughtException(self.name.clone()))
-                })?;
-
-                stuart_scope
-                    .output(output.to_rust_string_lossy(scope))
-                    .unwrap();
-            }
+                .and_then(|result| match result.is_undefined() {
+                    true => Some(String::new()),
+                    false => result
+                        .to_string(scope)
+                        .map(|output| output.to_rust_string_lossy(scope)),
+                });
+
+            context::clear_stuart_context(scope, stuart_context);
+
+            let output = output.ok_or_else(|| {
+                self_token.traceback(ProcessError::UncaughtException(self.name.clone()))
+            })?;
+
+            stuart_scope.output(output).unwrap();
 
             Ok(())
         })
-- 
2.43.0


From de789601477314553b5824a6bbb4972c27135238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:35 +0000
Subject: [PATCH 32/46] fix: find the library of a plugin whose name contains
 hyphens

---
 stuart/src/plugins/source.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/stuart/src/plugins/source.rs b/stuart/src/plugins/source.rs
index 77517d5..c504cc3 100644
--- a/stuart/src/plugins/source.rs
+++ b/stuart/src/plugins/source.rs
@@ -54,16 +54,19 @@ pub fn build_cargo_project(root: impl AsRef<Path>) -> Result<PathBuf, ScriptErro
         });
     }
 
+    // Cargo replaces hyphens in the name of the library.
+    let name = get_project_name(&manifest).unwrap().replace('-', "_");
+
     #[cfg(target_os = "windows")]
     let target_file = root
         .as_ref()
         .join("target/release")
-        .join(format!("{}.dll", get_project_name(&manifest).unwrap()));
+        .join(format!("{}.dll", name));
     #[cfg(not(target_os = "windows"))]
     let target_file = root
         .as_ref()
         .join("target/release")
-        .join(format!("lib{}.so", get_project_name(&manifest).unwrap()));
+        .join(format!("lib{}.so", name));
 
     Ok(target_file)
 }
-- 
2.43.0


From afc4221a1f66f0f5f030c351b0263e5e7151814d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:34 +0000
Subject: [PATCH 33/46] fix: report a Cargo project without a package instead
 of panicking

---
 stuart/src/plugins/source.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/stuart/src/plugins/source.rs b/stuart/src/plugins/source.rs
index c504cc3..1619729 100644
--- a/stuart/src/plugins/source.rs
+++ b/stuart/src/plugins/source.rs
@@ -1,5 +1,6 @@
 //! Provides functionality for finding plugins from a source string.
 
+use crate::error::StuartError;
 use crate::scripts::ScriptError;
 
 use humphrey::Client;
@@ -33,7 +34,7 @@ pub fn find_cargo_project(root: impl AsRef<Path>, name: &str) -> Option<PathBuf>
 /// Attempts to build the Cargo project at the given path, returning the path to the compiled plugin.
 ///
 /// **Note:** this function may not work correctly in the case of workspace projects.
-pub fn build_cargo_project(root: impl AsRef<Path>) -> Result<PathBuf, ScriptError> {
+pub fn build_cargo_project(root: impl AsRef<Path>) -> Result<PathBuf, Box<dyn StuartError>> {
     let manifest = root.as_ref().join("Cargo.toml");
 
     let output = Command::new("cargo")
@@ -43,7 +44,7 @@ pub fn build_cargo_project(root: impl AsRef<Path>) -> Result<PathBuf, ScriptErro
         .map_err(|_| ScriptError::CouldNotExecute("<build script>".to_string()))?;
 
     if !output.status.success() {
-        return Err(ScriptError::ScriptFailure {
+        return Err(Box::new(ScriptError::ScriptFailure {
             script: format!(
                 "cargo build --release --manifest-path {}",
                 manifest.display()
@@ -51,11 +52,13 @@ pub fn build_cargo_project(root: impl AsRef<Path>) -> Result<PathBuf, ScriptErro
             exit_code: output.status.code().unwrap_or(-1),
             stdout: String::from_utf8_lossy(&output.stdout).trim().to_string(),
             stderr: String::from_utf8_lossy(&output.stderr).trim().to_string(),
-        });
+        }));
     }
 
     // Cargo replaces hyphens in the name of the library.
-    let name = get_project_name(&manifest).unwrap().replace('-', "_");
+    let name = get_project_name(&manifest)
+        .ok_or_else(|| format!("no package in `{}`", manifest.display()))?
+        .replace('-', "_");
 
     #[cfg(target_os = "windows")]
     let target_file = root
-- 
2.43.0


From 57b147fa7ad0a60f0f34305ab2f14a1555aa41f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:15 +0000
Subject: [PATCH 34/46] fix: do not confuse the Git repositories of a plugin
 with each other or with its downloads

---
 stuart/src/plugins/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stuart/src/plugins/mod.rs b/stuart/src/plugins/mod.rs
index c1e7b11..ad0b0c5 100644
--- a/stuart/src/plugins/mod.rs
+++ b/stuart/src/plugins/mod.rs
@@ -141,7 +141,9 @@ fn load_from_source(
 
         Ok(())
     } else if git::exists(src) {
-        let repo_dir = root.join(format!("_build/plugins/{}", name));
+        // Each source has its own directory, since it must not be confused with what other sources left.
+        let plugin_dir = root.join(format!("_build/plugins/{}", name));
+        let repo_dir = plugin_dir.join(src.replace(|c: char| !c.is_alphanumeric(), "_"));
         let repo_dir_string = repo_dir
             .to_string_lossy()
             .to_string()
@@ -151,7 +153,7 @@ fn load_from_source(
         if !repo_dir.exists() {
             log!("Cloning", "plugin `{}` from `{}`", name, src);
 
-            create_dir_all(root.join("_build/plugins")).map_err(|_| Error::Fs(FsError::Write))?;
+            create_dir_all(plugin_dir).map_err(|_| Error::Fs(FsError::Write))?;
 
             if !git::clone(src, &repo_dir_string) {
                 Err(format!(
-- 
2.43.0


From cb8fb828bb1738952a1733f11cc2e8d3ffdea39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:32 +0000
Subject: [PATCH 35/46] fix: do not follow pointers which JavaScript plugins
 might have kept or copied

---
 stuart/src/plugins/js/context.rs | 60 ++++++++++++++------------------
 stuart/src/plugins/js/mod.rs     |  4 +--
 2 files changed, 29 insertions(+), 35 deletions(-)

diff --git a/stuart/src/plugins/js/context.rs b/stuart/src/plugins/js/context.rs
index f592b04..5c3e0a8 100644
--- a/stuart/src/plugins/js/context.rs
+++ b/stuart/src/plugins/js/context.rs
@@ -2,19 +2,25 @@
 
 use stuart_core::process::Scope;
 
+use std::cell::Cell;
+use std::ffi::c_void;
+
+thread_local! {
+    /// The Stuart scope of the function which is being executed, or null.
+    ///
+    /// It is kept out of reach of JavaScript code, which might keep it for longer than it is valid.
+    static STUART_SCOPE: Cell<*mut c_void> = const { Cell::new(std::ptr::null_mut()) };
+}
+
 /// Makes the Stuart scope accessible to `set_variable` and `get_variable` when they're called from JavaScript code.
 ///
-/// The returned object **must** be passed to `clear_stuart_context` before the Stuart scope is used again.
-pub fn set_stuart_context<'a>(
-    scope: &mut v8::HandleScope<'a>,
-    context: &mut Scope,
-) -> v8::Local<'a, v8::Object> {
+/// `clear_stuart_context` **must** be called before the Stuart scope is used again.
+pub fn set_stuart_context(scope: &mut v8::HandleScope, context: &mut Scope) {
     let stuart_context = v8::Object::new(scope);
 
     let k_context = v8::String::new(scope, "STUART").unwrap();
     let k_set_variable = v8::String::new(scope, "set").unwrap();
     let k_get_variable = v8::String::new(scope, "get").unwrap();
-    let k_external = v8::String::new(scope, "_ptr").unwrap();
 
     let set_variable = v8::FunctionTemplate::new(scope, set_variable)
         .get_function(scope)
@@ -22,51 +28,39 @@ pub fn set_stuart_context<'a>(
     let get_variable = v8::FunctionTemplate::new(scope, get_variable)
         .get_function(scope)
         .unwrap();
-    let external = v8::External::new(scope, context as *mut _ as *mut std::ffi::c_void);
 
     stuart_context.set(scope, k_set_variable.into(), set_variable.into());
     stuart_context.set(scope, k_get_variable.into(), get_variable.into());
-    stuart_context.set(scope, k_external.into(), external.into());
 
     scope
         .get_current_context()
         .global(scope)
         .set(scope, k_context.into(), stuart_context.into());
 
-    stuart_context
+    STUART_SCOPE.with(|s| s.set(context as *mut _ as *mut c_void));
 }
 
-/// Makes the Stuart scope inaccessible through the object, which JavaScript code might have kept.
-pub fn clear_stuart_context(scope: &mut v8::HandleScope, object: v8::Local<'_, v8::Object>) {
-    let k_external = v8::String::new(scope, "_ptr").unwrap();
-    let undefined = v8::undefined(scope);
-
-    object.set(scope, k_external.into(), undefined.into());
+/// Makes the Stuart scope inaccessible to JavaScript code.
+pub fn clear_stuart_context() {
+    STUART_SCOPE.with(|s| s.set(std::ptr::null_mut()));
 }
 
-/// Gets the Stuart context from V8.
+/// Gets the Stuart context.
 ///
-/// If the object does not give access to the current scope, throws an exception and returns `None`.
+/// If no function is being executed, throws an exception and returns `None`.
 ///
 /// # Safety
-/// This function is only safe if `set_stuart_context` has previously been called with the same `scope`.
-unsafe fn get_stuart_context<'s>(
-    scope: &mut v8::HandleScope,
-    obj: v8::Local<'_, v8::Object>,
-) -> Option<&'s mut Scope<'s>> {
-    let k_external = v8::String::new(scope, "_ptr").unwrap();
-
-    let external = obj
-        .get(scope, k_external.into())
-        .and_then(|external| v8::Local::<v8::External>::try_from(external).ok());
-
-    if external.is_none() {
-        let message = v8::String::new(scope, "not the current `STUART` object").unwrap();
+/// This function is only safe between a call to `set_stuart_context` and the following call to `clear_stuart_context`.
+unsafe fn get_stuart_context<'s>(scope: &mut v8::HandleScope) -> Option<&'s mut Scope<'s>> {
+    let stuart_scope = STUART_SCOPE.with(|s| s.get());
+
+    if stuart_scope.is_null() {
+        let message = v8::String::new(scope, "`STUART` is not available").unwrap();
         let exception = v8::Exception::type_error(scope, message);
         scope.throw_exception(exception);
     }
 
-    (external?.value() as *mut Scope).as_mut()
+    (stuart_scope as *mut Scope).as_mut()
 }
 
 /// Sets a variable in the current Stuart scope.
@@ -75,7 +69,7 @@ pub fn set_variable<'s>(
     args: v8::FunctionCallbackArguments<'s>,
     _ret: v8::ReturnValue,
 ) {
-    let Some(stuart_scope) = (unsafe { get_stuart_context(scope, args.this()) }) else {
+    let Some(stuart_scope) = (unsafe { get_stuart_context(scope) }) else {
         return;
     };
 
@@ -108,7 +102,7 @@ pub fn get_variable<'s>(
     args: v8::FunctionCallbackArguments<'s>,
     mut ret: v8::ReturnValue,
 ) {
-    let Some(stuart_scope) = (unsafe { get_stuart_context(scope, args.this()) }) else {
+    let Some(stuart_scope) = (unsafe { get_stuart_context(scope) }) else {
         return;
     };
 
diff --git a/stuart/src/plugins/js/mod.rs b/stuart/src/plugins/js/mod.rs
index 09f7f24..005313c 100644
--- a/stuart/src/plugins/js/mod.rs
+++ b/stuart/src/plugins/js/mod.rs
@@ -212,7 +212,7 @@ impl Function for JSFunction {
 
             // Make the `stuart_scope`` variable accessible from JavaScript calls back into Rust.
             // If I've done this right (which is a big if), this should be safe because the V8 scope is dropped/GC'd as soon as `execute` returns.
-            let stuart_context = context::set_stuart_context(scope, stuart_scope);
+            context::set_stuart_context(scope, stuart_scope);
 
             let output = function
                 .call(scope, function_obj, &evaluated_args)
@@ -223,7 +223,7 @@ impl Function for JSFunction {
                         .map(|output| output.to_rust_string_lossy(scope)),
                 });
 
-            context::clear_stuart_context(scope, stuart_context);
+            context::clear_stuart_context();
 
             let output = output.ok_or_else(|| {
                 self_token.traceback(ProcessError::UncaughtException(self.name.clone()))
-- 
2.43.0


From e40e88a6a6c0baf881652a69c2c8f2c3e643497e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:41 +0000
Subject: [PATCH 36/46] fix: pass the first of several entries with the same
 key to JavaScript plugins

---
 stuart/src/plugins/js/json.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/stuart/src/plugins/js/json.rs b/stuart/src/plugins/js/json.rs
index 78800fd..f6142ed 100644
--- a/stuart/src/plugins/js/json.rs
+++ b/stuart/src/plugins/js/json.rs
@@ -26,9 +26,13 @@ pub fn json_to_js<'a>(
             Value::Object(object) => {
                 let v8_object = v8::Object::new(scope);
                 for (key, value) in object.into_iter() {
-                    let v8_key = v8::String::new(scope, &key).unwrap().into();
+                    let v8_key = v8::String::new(scope, &key).unwrap();
+                    // As everywhere else, the first of several entries with the same key counts.
+                    if v8_object.has_own_property(scope, v8_key.into()) == Some(true) {
+                        continue;
+                    }
                     let v8_value = json_to_js(Some(value), scope);
-                    v8_object.create_data_property(scope, v8_key, v8_value);
+                    v8_object.create_data_property(scope, v8_key.into(), v8_value);
                 }
                 v8_object.into()
             }
-- 
2.43.0


From 35a4b2b392c5e3d98e48d0c948ff4c3011135338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:43 +0000
Subject: [PATCH 37/46] fix: reject JavaScript plugins whose list of functions
 has no usable length

---
 stuart/src/plugins/js/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stuart/src/plugins/js/mod.rs b/stuart/src/plugins/js/mod.rs
index 005313c..46f33e5 100644
--- a/stuart/src/plugins/js/mod.rs
+++ b/stuart/src/plugins/js/mod.rs
@@ -114,9 +114,9 @@ pub fn load_js_plugin(path: impl AsRef<Path>) -> Result<Plugin, String> {
                 .get(scope, key.into())
                 .ok_or("missing plugin functions")?
                 .uint32_value(scope)
-                .unwrap();
+                .ok_or("missing plugin functions")?;
 
-            let mut functions_vec = Vec::with_capacity(length as usize);
+            let mut functions_vec = Vec::new();
 
             for i in 0..length {
                 let function_object = functions
-- 
2.43.0


From beb0c7e05d5d2558803d837d51b31290f4725fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:38 +0000
Subject: [PATCH 38/46] fix: let JavaScript plugins set a variable more than
 once in a block

---
 stuart/src/plugins/js/context.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/stuart/src/plugins/js/context.rs b/stuart/src/plugins/js/context.rs
index 5c3e0a8..62a1caa 100644
--- a/stuart/src/plugins/js/context.rs
+++ b/stuart/src/plugins/js/context.rs
@@ -89,11 +89,13 @@ pub fn set_variable<'s>(
         return;
     }
 
-    stuart_scope
-        .stack
-        .last_mut()
-        .unwrap()
-        .add_variable(key, json_value.unwrap());
+    let json_value = json_value.unwrap();
+    let frame = stuart_scope.stack.last_mut().unwrap();
+
+    match frame.variables.iter_mut().find(|(name, _)| *name == key) {
+        Some((_, value)) => *value = json_value,
+        None => frame.add_variable(key, json_value),
+    }
 }
 
 /// Gets a variable from the current Stuart scope.
-- 
2.43.0


From 909353fc99280d799e1c116c50a197f0af5b8c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:21 +0000
Subject: [PATCH 39/46] fix: keep the templates above directories called
 root.html or md.html

---
 stuart-core/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stuart-core/src/lib.rs b/stuart-core/src/lib.rs
index 998ab78..34cb064 100644
--- a/stuart-core/src/lib.rs
+++ b/stuart-core/src/lib.rs
@@ -260,13 +260,13 @@ impl<'a> Environment<'a> {
                 "root.html" => {
                     env.root = match child.parsed_contents() {
                         ParsedContents::Html(tokens) => Some(tokens),
-                        _ => None,
+                        _ => env.root,
                     }
                 }
                 "md.html" => {
                     env.md = match child.parsed_contents() {
                         ParsedContents::Html(tokens) => Some(tokens),
-                        _ => None,
+                        _ => env.md,
                     }
                 }
                 _ => (),
-- 
2.43.0


From dfac4afaa6181b1f4a1fecdf017f80be9b9bed2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:27 +0000
Subject: [PATCH 40/46] fix: publish files whose whole name is .html or .json
 at their own path

---
 stuart-core/src/fs/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/stuart-core/src/fs/mod.rs b/stuart-core/src/fs/mod.rs
index 96f6e48..ee561a0 100644
--- a/stuart-core/src/fs/mod.rs
+++ b/stuart-core/src/fs/mod.rs
@@ -384,14 +384,17 @@ impl Node {
     fn output_path(&self, config: &Config) -> Option<PathBuf> {
         let name = self.name();
 
+        // Names like `.html` and `.json` have no extension, so files called that were not parsed as such either.
+        let is_data = name.ends_with(".json") && name != ".json";
+
         // Files which were not parsed, such as static files, are always saved as they are.
         if self.parsed_contents().is_ignored() {
             Some(PathBuf::from(name))
-        } else if self.is_template() || (!config.save_data_files && name.ends_with(".json")) {
+        } else if self.is_template() || (!config.save_data_files && is_data) {
             None
         } else {
             match name.strip_suffix(".html") {
-                Some(stem) if config.strip_extensions && name != "index.html" => {
+                Some(stem) if config.strip_extensions && !stem.is_empty() && stem != "index" => {
                     Some(Path::new(stem).join("index.html"))
                 }
                 _ => Some(PathBuf::from(name)),
-- 
2.43.0


From 9e97ed1191b67773d39f113b1902d4502761a6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:12 +0000
Subject: [PATCH 41/46] fix: -q suppresses the progress bar, blank lines and
 plugin warnings, too

---
 stuart/src/logger/mod.rs         |  8 ++++++++
 stuart/src/logger/progress.rs    |  8 +++++++-
 stuart/src/main.rs               |  6 ++++--
 stuart/src/plugins/js/context.rs | 12 ++++++++----
 stuart/src/serve/mod.rs          |  6 ++++--
 5 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/stuart/src/logger/mod.rs b/stuart/src/logger/mod.rs
index 05073fc..0e6efee 100644
--- a/stuart/src/logger/mod.rs
+++ b/stuart/src/logger/mod.rs
@@ -53,6 +53,14 @@ impl Logger {
     }
 }
 
+/// Returns `true` if nothing but errors should be output.
+pub fn is_quiet() -> bool {
+    LOGGER
+        .get()
+        .map(|logger| logger.level == LogLevel::Quiet)
+        .unwrap_or(false)
+}
+
 /// Logs a message.
 ///
 /// The first argument is the verb, which appears in green text.
diff --git a/stuart/src/logger/progress.rs b/stuart/src/logger/progress.rs
index 1179c0d..390ac47 100644
--- a/stuart/src/logger/progress.rs
+++ b/stuart/src/logger/progress.rs
@@ -1,5 +1,7 @@
 //! Provides the progress bar logging functionality.
 
+use super::is_quiet;
+
 use std::io::Write;
 use termcolor::{BufferWriter, Color, ColorChoice, ColorSpec, WriteColor};
 
@@ -25,6 +27,10 @@ impl Progress {
 
     /// Prints the current state of the progress bar.
     pub fn print(&self) {
+        if is_quiet() {
+            return;
+        }
+
         let writer = BufferWriter::stderr(ColorChoice::Always);
         let mut buffer = writer.buffer();
 
@@ -64,7 +70,7 @@ impl Iterator for Progress {
         self.current += 1;
         self.print();
 
-        if self.current == self.total {
+        if self.current == self.total && !is_quiet() {
             println!();
         }
 
diff --git a/stuart/src/main.rs b/stuart/src/main.rs
index a269842..bb6fdcd 100644
--- a/stuart/src/main.rs
+++ b/stuart/src/main.rs
@@ -19,7 +19,7 @@ mod test;
 
 use crate::build::StuartContext;
 use crate::error::StuartError;
-use crate::logger::{LogLevel, Logger, Progress, LOGGER};
+use crate::logger::{is_quiet, LogLevel, Logger, Progress, LOGGER};
 
 use clap::{App, Arg, ArgMatches, Command};
 
@@ -182,7 +182,9 @@ fn bench(args: &ArgMatches) -> Result<(), Box<dyn StuartError>> {
         progress.next();
     }
 
-    println!();
+    if !is_quiet() {
+        println!();
+    }
 
     LOGGER.get().unwrap().enabled.store(true, Ordering::SeqCst);
 
diff --git a/stuart/src/plugins/js/context.rs b/stuart/src/plugins/js/context.rs
index 62a1caa..244efc3 100644
--- a/stuart/src/plugins/js/context.rs
+++ b/stuart/src/plugins/js/context.rs
@@ -1,5 +1,7 @@
 //! Enables access to Stuart's execution context from JavaScript running within V8.
 
+use crate::logger::is_quiet;
+
 use stuart_core::process::Scope;
 
 use std::cell::Cell;
@@ -82,10 +84,12 @@ pub fn set_variable<'s>(
     };
 
     if json_value.is_none() {
-        println!(
-            "warning(js): attempted to set variable `{}` to `undefined`",
-            key
-        );
+        if !is_quiet() {
+            println!(
+                "warning(js): attempted to set variable `{}` to `undefined`",
+                key
+            );
+        }
         return;
     }
 
diff --git a/stuart/src/serve/mod.rs b/stuart/src/serve/mod.rs
index 3edda9d..efa06b6 100644
--- a/stuart/src/serve/mod.rs
+++ b/stuart/src/serve/mod.rs
@@ -2,7 +2,7 @@
 
 use crate::build::StuartContext;
 use crate::error::StuartError;
-use crate::logger::LOGGER;
+use crate::logger::{is_quiet, LOGGER};
 
 use humphrey::http::headers::HeaderType;
 use humphrey::http::mime::MimeType;
@@ -113,7 +113,9 @@ fn build_watcher(
                 continue;
             }
 
-            println!();
+            if !is_quiet() {
+                println!();
+            }
 
             if p == Path::new("stuart.toml") {
                 log!(
-- 
2.43.0


From f3db9e2be2a538fea798d45a850720db68a97144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:56 +0000
Subject: [PATCH 42/46] fix: list the files of a directory in the order of
 their names

---
 stuart-core/src/fs/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stuart-core/src/fs/mod.rs b/stuart-core/src/fs/mod.rs
index ee561a0..5c75891 100644
--- a/stuart-core/src/fs/mod.rs
+++ b/stuart-core/src/fs/mod.rs
@@ -178,8 +178,12 @@ impl Node {
         let content = read_dir(dir)
             .map_err(|_| Error::Fs(FsError::NotFound(dir.to_string_lossy().to_string())))?;
 
+        // The order in which the filesystem lists the files must not affect the output.
+        let mut content = content.flatten().collect::<Vec<_>>();
+        content.sort_by_key(|entry| entry.file_name());
+
         let children = content
-            .flatten()
+            .into_iter()
             .map(|path| {
                 let path = path.path();
 
-- 
2.43.0


From ac3278a6cdd48ac3f65c102491561cba61365480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:56 +0000
Subject: [PATCH 43/46] fix: run several scripts for the same event in the
 order of their names

---
 stuart/src/scripts.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stuart/src/scripts.rs b/stuart/src/scripts.rs
index 097012b..92fbbec 100644
--- a/stuart/src/scripts.rs
+++ b/stuart/src/scripts.rs
@@ -56,7 +56,11 @@ impl Scripts {
         if let Ok(dir) = read_dir(dir.as_ref()) {
             let mut scripts = Self::default();
 
-            for entry in dir.flatten() {
+            // The order in which the filesystem lists the scripts must not affect the build.
+            let mut entries = dir.flatten().collect::<Vec<_>>();
+            entries.sort_by_key(|entry| entry.file_name());
+
+            for entry in entries {
                 if entry.path().is_file() {
                     if constants::PRE_BUILD_SCRIPT_NAMES
                         .contains(&entry.file_name().to_string_lossy().as_ref())
-- 
2.43.0


From f821f37200a77abb548436ba8b9038319fd90d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:11 +0000
Subject: [PATCH 44/46] fix: call the function of a JavaScript plugin which was
 declared, whatever its global object holds

---
 stuart/src/plugins/js/mod.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/stuart/src/plugins/js/mod.rs b/stuart/src/plugins/js/mod.rs
index 46f33e5..736e39e 100644
--- a/stuart/src/plugins/js/mod.rs
+++ b/stuart/src/plugins/js/mod.rs
@@ -27,6 +27,8 @@ thread_local! {
 pub struct JSFunctionParser {
     /// The name of the function.
     name: String,
+    /// The JavaScript function.
+    function: v8::Global<v8::Function>,
     /// The V8 context for this plugin.
     context: v8::Global<v8::Context>,
 }
@@ -36,6 +38,8 @@ pub struct JSFunctionParser {
 pub struct JSFunction {
     /// The name of the function.
     name: String,
+    /// The JavaScript function.
+    function: v8::Global<v8::Function>,
     /// The V8 context for this plugin.
     context: v8::Global<v8::Context>,
     /// The function's arguments.
@@ -134,22 +138,20 @@ pub fn load_js_plugin(path: impl AsRef<Path>) -> Result<Plugin, String> {
                 let key = v8::String::new(scope, "fn").unwrap();
                 let function_fn = function_object
                     .get(scope, key.into())
-                    .filter(|function| function.is_function())
+                    .and_then(|function| v8::Local::<v8::Function>::try_from(function).ok())
                     .ok_or_else(|| format!("invalid function at index {}", i))?;
 
-                let key = v8::String::new(scope, &format!("_stuart_{}", function_name)).unwrap();
-                context.global(scope).set(scope, key.into(), function_fn);
-
-                functions_vec.push(function_name);
+                functions_vec.push((function_name, v8::Global::new(scope, function_fn)));
             }
 
             (plugin_name, plugin_version, functions_vec)
         };
 
         let mut function_parsers = Vec::with_capacity(functions.len());
-        for function in &functions {
+        for (name, function) in functions {
             function_parsers.push(Box::new(JSFunctionParser {
-                name: function.clone(),
+                name,
+                function,
                 context: global_context.clone(),
             }) as Box<dyn FunctionParser>);
         }
@@ -171,6 +173,7 @@ impl FunctionParser for JSFunctionParser {
     fn parse(&self, raw: RawFunction) -> Result<Box<dyn Function>, ParseError> {
         Ok(Box::new(JSFunction {
             name: self.name.clone(),
+            function: self.function.clone(),
             context: self.context.clone(),
             args: raw.positional_args,
         }))
@@ -206,16 +209,14 @@ impl Function for JSFunction {
                     })
                     .collect::<Result<Vec<_>, _>>()?;
 
-            let key = v8::String::new(scope, &format!("_stuart_{}", self.name)).unwrap();
-            let function_obj = context.global(scope).get(scope, key.into()).unwrap();
-            let function = v8::Local::<v8::Function>::try_from(function_obj).unwrap();
+            let function = v8::Local::new(scope, &self.function);
 
             // Make the `stuart_scope`` variable accessible from JavaScript calls back into Rust.
             // If I've done this right (which is a big if), this should be safe because the V8 scope is dropped/GC'd as soon as `execute` returns.
             context::set_stuart_context(scope, stuart_scope);
 
             let output = function
-                .call(scope, function_obj, &evaluated_args)
+                .call(scope, function.into(), &evaluated_args)
                 .and_then(|result| match result.is_undefined() {
                     true => Some(String::new()),
                     false => result
-- 
2.43.0


From 33cd53bb83514e69260bc73a65f93e5e0be387c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:21 +0000
Subject: [PATCH 45/46] fix: build with environment variables which are not
 valid UTF-8

---
 stuart-core/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stuart-core/src/lib.rs b/stuart-core/src/lib.rs
index 34cb064..94ef340 100644
--- a/stuart-core/src/lib.rs
+++ b/stuart-core/src/lib.rs
@@ -136,8 +136,10 @@ impl Stuart {
         self.input = Some(input.clone());
 
         let vars = {
-            let mut env = std::env::vars()
-                .filter(|(k, _)| k != "STUART_ENV")
+            // Not every environment variable is valid UTF-8.
+            let mut env = std::env::vars_os()
+                .map(|(k, v)| (k.to_string_lossy().into(), v.to_string_lossy().into()))
+                .filter(|(k, _): &(String, String)| k != "STUART_ENV")
                 .collect::<Vec<_>>();
             env.push(("STUART_ENV".into(), stuart_env));
             env
-- 
2.43.0


From 52216b6122c9b4f3825a92ee6c76b02bdf13a7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:05 +0000
Subject: [PATCH 46/46] fix: publish files and directories whose names are not
 valid UTF-8 under their own names

---
 stuart-core/src/fs/mod.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/stuart-core/src/fs/mod.rs b/stuart-core/src/fs/mod.rs
index 5c75891..e857910 100644
--- a/stuart-core/src/fs/mod.rs
+++ b/stuart-core/src/fs/mod.rs
@@ -15,6 +15,7 @@ use humphrey_json::prelude::*;
 use humphrey_json::Value;
 
 use std::collections::HashMap;
+use std::ffi::OsStr;
 use std::fmt::Debug;
 use std::fs::{create_dir, metadata, read, read_dir, remove_dir_all, write};
 use std::io::ErrorKind;
@@ -93,6 +94,14 @@ impl Node {
         }
     }
 
+    /// Returns the name of the node as it is saved, which need not be valid UTF-8.
+    fn file_name(&self) -> &OsStr {
+        match self.source().file_name() {
+            Some(name) if name.to_string_lossy() == self.name() => name,
+            _ => OsStr::new(self.name()),
+        }
+    }
+
     /// Returns the node's children.
     pub fn children(&self) -> Option<&[Node]> {
         match self {
@@ -322,7 +331,7 @@ impl Node {
                 for other_child in other_children {
                     if let Some(child) = children
                         .iter_mut()
-                        .find(|child| child.name() == other_child.name())
+                        .find(|child| child.file_name() == other_child.file_name())
                     {
                         // This is definitely not the best way of doing this (it should be done through destructuring in a match statement),
                         //   but I can't seem to get around lifetime problems with the other way.
@@ -352,8 +361,8 @@ impl Node {
         let path = path.as_ref().to_path_buf();
 
         match self {
-            Self::Directory { name, children, .. } => {
-                let dir = path.join(name);
+            Self::Directory { children, .. } => {
+                let dir = path.join(self.file_name());
 
                 // It is possible that the directory already exists if strip extensions is enabled.
                 match create_dir(&dir) {
@@ -393,7 +402,7 @@ impl Node {
 
         // Files which were not parsed, such as static files, are always saved as they are.
         if self.parsed_contents().is_ignored() {
-            Some(PathBuf::from(name))
+            Some(PathBuf::from(self.file_name()))
         } else if self.is_template() || (!config.save_data_files && is_data) {
             None
         } else {
@@ -401,7 +410,7 @@ impl Node {
                 Some(stem) if config.strip_extensions && !stem.is_empty() && stem != "index" => {
                     Some(Path::new(stem).join("index.html"))
                 }
-                _ => Some(PathBuf::from(name)),
+                _ => Some(PathBuf::from(self.file_name())),
             }
         }
     }
@@ -434,7 +443,7 @@ impl Node {
     ) -> Result<(), Error> {
         for child in self.children().unwrap_or_default() {
             if child.is_dir() {
-                let path = path.join(child.name());
+                let path = path.join(child.file_name());
                 child.check_conflicts_recur(&path, config, files, directories)?;
                 directories.insert(path, child.source());
             } else if let Some(output) = child.output_path(config) {
-- 
2.43.0

