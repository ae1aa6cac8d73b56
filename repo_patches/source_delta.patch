From 423ef44b0ffe0acb6760dccca68121e5a051d824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:44 +0000
Subject: [PATCH 01/59] fix: accept a heredoc as a tag payload

---
 crates/styx-parse/src/lexer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/styx-parse/src/lexer.rs b/crates/styx-parse/src/lexer.rs
index ecc01e0..f5f9c66 100644
--- a/crates/styx-parse/src/lexer.rs
+++ b/crates/styx-parse/src/lexer.rs
@@ -192,7 +192,7 @@ impl<'src> Lexer<'src> {
                 let is_chained = name.contains("/@");
 
                 // Check if payload follows immediately (no whitespace)
-                // Payload can be: { ( " r#" @ or Tag
+                // Payload can be: { ( " r#" <<HEREDOC @ or Tag
                 let payload_tok = self.peek_token();
                 let is_adjacent = payload_tok.span.start == tok.span.end;
                 let is_valid_payload = matches!(
@@ -201,6 +201,7 @@ impl<'src> Lexer<'src> {
                         | TokenKind::LParen
                         | TokenKind::QuotedScalar
                         | TokenKind::RawScalar
+                        | TokenKind::HeredocStart
                         | TokenKind::At
                         | TokenKind::Tag
                 );
-- 
2.43.0


From 60e6f81f823f5d744e03893df1d62bfeb9d1d3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:44 +0000
Subject: [PATCH 02/59] fix: keep the trailing r of a tag name before a quoted
 payload

---
 crates/styx-tokenizer/src/tokenizer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/styx-tokenizer/src/tokenizer.rs b/crates/styx-tokenizer/src/tokenizer.rs
index 5f1cdac..4b52e13 100644
--- a/crates/styx-tokenizer/src/tokenizer.rs
+++ b/crates/styx-tokenizer/src/tokenizer.rs
@@ -252,10 +252,11 @@ impl<'src> Tokenizer<'src> {
     /// Consume one tag name segment after the leading `@`.
     fn consume_tag_segment(&mut self) {
         // Tag name: consume [A-Za-z0-9_-]*
-        // But stop before `r#` or `r"` which starts a raw string payload.
+        // But stop before `r#` which starts a raw string payload. (`r"` does not:
+        // `@err"x"` is the tag `err` with a quoted payload.)
         self.advance();
         while let Some(c) = self.peek() {
-            if c == 'r' && matches!(self.peek_nth(1), Some('#' | '"')) {
+            if c == 'r' && self.peek_nth(1) == Some('#') {
                 break;
             }
             if c.is_ascii_alphanumeric() || c == '_' || c == '-' {
-- 
2.43.0


From f7f327ab998a12f0cb8d672e54afe98389960aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:59 +0000
Subject: [PATCH 03/59] fix: count every # of a raw string delimiter

---
 crates/styx-tokenizer/src/tokenizer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/styx-tokenizer/src/tokenizer.rs b/crates/styx-tokenizer/src/tokenizer.rs
index 4b52e13..7b0a08d 100644
--- a/crates/styx-tokenizer/src/tokenizer.rs
+++ b/crates/styx-tokenizer/src/tokenizer.rs
@@ -534,9 +534,9 @@ impl<'src> Tokenizer<'src> {
         self.advance();
 
         // Count and consume `#` marks
-        let mut hash_count: u8 = 0;
+        let mut hash_count: usize = 0;
         while self.peek() == Some('#') {
-            hash_count = hash_count.saturating_add(1);
+            hash_count += 1;
             self.advance();
         }
 
@@ -557,7 +557,7 @@ impl<'src> Tokenizer<'src> {
                 }
                 Some('"') => {
                     // Check for closing sequence
-                    let mut matched_hashes = 0u8;
+                    let mut matched_hashes = 0;
                     let mut lookahead = 1;
                     while matched_hashes < hash_count {
                         if self.peek_nth(lookahead) == Some('#') {
-- 
2.43.0


From edec3bcd7abd0bd709d840d2dd576d54272d3ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:07 +0000
Subject: [PATCH 04/59] fix: reject an object among the entries of an implicit
 root

---
 crates/styx-parse/src/parser/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/styx-parse/src/parser/mod.rs b/crates/styx-parse/src/parser/mod.rs
index 7fd353a..f803386 100644
--- a/crates/styx-parse/src/parser/mod.rs
+++ b/crates/styx-parse/src/parser/mod.rs
@@ -280,7 +280,16 @@ impl<'src> Parser<'src> {
                     });
                     return self.event_queue.pop_front();
                 }
-                Lexeme::ObjectStart { span } => {
+                // `{` once the implicit root has content is an (invalid) key, not the root
+                Lexeme::ObjectStart { span }
+                    if !matches!(
+                        &self.state,
+                        ParserState::DocumentRoot {
+                            emitted_object_start: true,
+                            ..
+                        }
+                    ) =>
+                {
                     // Explicit root object - after it closes, document is done
                     self.state = ParserState::InObject {
                         start_span: span,
-- 
2.43.0


From adfd759176245d7e0de28a5c644ffb9bff269cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:07 +0000
Subject: [PATCH 05/59] fix: do not re-validate the escapes of an unescaped
 tagged key

---
 crates/styx-parse/src/parser/mod.rs | 18 +-----------------
 1 file changed, 1 insertion(+), 17 deletions(-)

diff --git a/crates/styx-parse/src/parser/mod.rs b/crates/styx-parse/src/parser/mod.rs
index f803386..07f3fe5 100644
--- a/crates/styx-parse/src/parser/mod.rs
+++ b/crates/styx-parse/src/parser/mod.rs
@@ -1205,9 +1205,7 @@ impl<'src> Parser<'src> {
                     }
                     Some(inner) => match &inner.content {
                         AtomContent::Scalar { value, kind } => {
-                            if *kind == ScalarKind::Quoted {
-                                self.emit_escape_errors(value, inner.span);
-                            }
+                            // The lexer already processed escape sequences.
                             self.event_queue.push_back(Event {
                                 span: atom.span,
                                 kind: EventKind::Key {
@@ -1511,20 +1509,6 @@ impl<'src> Parser<'src> {
             }
         }
     }
-
-    /// Emit escape errors.
-    fn emit_escape_errors(&mut self, text: &str, span: Span) {
-        for (offset, seq) in validate_escapes(text) {
-            let error_start = span.start + offset as u32;
-            let error_span = Span::new(error_start, error_start + seq.len() as u32);
-            self.event_queue.push_back(Event {
-                span: error_span,
-                kind: EventKind::Error {
-                    kind: ParseErrorKind::InvalidEscape(seq),
-                },
-            });
-        }
-    }
 }
 
 // ============================================================================
-- 
2.43.0


From 9a665835a30f8b5d6c5d2f43d02d804333b690cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:07 +0000
Subject: [PATCH 06/59] fix: report every unicode escape the lexer rejects

---
 crates/styx-parse/src/parser/mod.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/crates/styx-parse/src/parser/mod.rs b/crates/styx-parse/src/parser/mod.rs
index 07f3fe5..545cd5b 100644
--- a/crates/styx-parse/src/parser/mod.rs
+++ b/crates/styx-parse/src/parser/mod.rs
@@ -1935,25 +1935,28 @@ fn validate_escapes(text: &str) -> Vec<(usize, String)> {
                 Some((_, 'u')) => match chars.peek() {
                     Some((_, '{')) => {
                         chars.next();
-                        let mut valid = true;
+                        let mut hex = String::new();
                         let mut found_close = false;
                         for (_, c) in chars.by_ref() {
                             if c == '}' {
                                 found_close = true;
                                 break;
                             }
-                            if !c.is_ascii_hexdigit() {
-                                valid = false;
-                            }
+                            hex.push(c);
                         }
+                        let valid = hex.chars().all(|c| c.is_ascii_hexdigit())
+                            && u32::from_str_radix(&hex, 16)
+                                .ok()
+                                .and_then(char::from_u32)
+                                .is_some();
                         if !found_close || !valid {
                             let end = chars.peek().map(|(i, _)| *i).unwrap_or(text.len());
-                            let seq = &text[escape_start..end.min(escape_start + 12)];
-                            errors.push((escape_start, seq.to_string()));
+                            let seq: String = text[escape_start..end].chars().take(12).collect();
+                            errors.push((escape_start, seq));
                         }
                     }
                     Some((_, c)) if c.is_ascii_hexdigit() => {
-                        let mut count = 1;
+                        let mut count = 0;
                         while count < 4 {
                             match chars.peek() {
                                 Some((_, c)) if c.is_ascii_hexdigit() => {
-- 
2.43.0


From 05c4ebd5773d11cdcba2fdf2a9cd977e9ce06e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:07 +0000
Subject: [PATCH 07/59] fix: reject a duplicate key among attributes

---
 crates/styx-parse/src/parser/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/styx-parse/src/parser/mod.rs b/crates/styx-parse/src/parser/mod.rs
index 545cd5b..1bcc961 100644
--- a/crates/styx-parse/src/parser/mod.rs
+++ b/crates/styx-parse/src/parser/mod.rs
@@ -1446,7 +1446,18 @@ impl<'src> Parser<'src> {
                     kind: EventKind::ObjectStart,
                 });
 
+                let mut seen_keys: HashMap<&str, Span> = HashMap::new();
                 for attr in attrs {
+                    if let Some(&original) = seen_keys.get(attr.key) {
+                        self.event_queue.push_back(Event {
+                            span: attr.key_span,
+                            kind: EventKind::Error {
+                                kind: ParseErrorKind::DuplicateKey { original },
+                            },
+                        });
+                    } else {
+                        seen_keys.insert(attr.key, attr.key_span);
+                    }
                     self.event_queue.push_back(Event {
                         span: attr.key_span,
                         kind: EventKind::EntryStart,
-- 
2.43.0


From d2b5285319bffb33408ac794e9a50429900bc507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:41 +0000
Subject: [PATCH 08/59] fix: compare root keys by value, not by display text

---
 crates/styx-parse/src/parser/mod.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/crates/styx-parse/src/parser/mod.rs b/crates/styx-parse/src/parser/mod.rs
index 1bcc961..c841a46 100644
--- a/crates/styx-parse/src/parser/mod.rs
+++ b/crates/styx-parse/src/parser/mod.rs
@@ -502,8 +502,7 @@ impl<'src> Parser<'src> {
 
         if let ParserState::DocumentRoot { path_state, .. } = &mut self.state {
             // Check path state - this handles duplicates for us
-            let key_text = key_value.to_key_string();
-            let path = vec![key_text];
+            let path = vec![key_value];
             let value_kind = if atoms.len() >= 2 {
                 match &atoms[1].content {
                     AtomContent::Object { .. } | AtomContent::Attributes(_) => {
@@ -1049,7 +1048,10 @@ impl<'src> Parser<'src> {
             let first_key_value = KeyValue::Scalar(segments[0].to_string());
             seen_keys.entry(first_key_value).or_insert(path_span);
 
-            let path: Vec<String> = segments.iter().map(|s| s.to_string()).collect();
+            let path: Vec<KeyValue> = segments
+                .iter()
+                .map(|s| KeyValue::Scalar(s.to_string()))
+                .collect();
             let value_kind = if atoms.len() >= 2 {
                 match &atoms[1].content {
                     AtomContent::Object { .. } | AtomContent::Attributes(_) => {
@@ -1653,13 +1655,13 @@ enum PathError {
 /// - Which child keys have been "closed" (can't be reopened)
 #[derive(Debug, Clone)]
 struct PathSegment {
-    key: String,
+    key: KeyValue,
     span: Span,
     value_kind: PathValueKind,
     /// Keys that have been closed at this level. When we move from a.b.c to a.b.d,
     /// we add "c" to the closed_children of the "b" segment. This is O(siblings at this level)
     /// rather than O(all paths ever seen).
-    closed_children: HashMap<String, Span>,
+    closed_children: HashMap<KeyValue, Span>,
 }
 
 /// Path state tracker with O(depth) memory usage.
@@ -1678,7 +1680,7 @@ struct PathState {
 impl PathState {
     fn check_and_update(
         &mut self,
-        path: &[String],
+        path: &[KeyValue],
         span: Span,
         value_kind: PathValueKind,
     ) -> Result<(), PathError> {
@@ -1767,7 +1769,11 @@ impl PathState {
                 // Check if parent is terminal (can't nest into it)
                 if parent.value_kind == PathValueKind::Terminal {
                     return Err(PathError::NestIntoTerminal {
-                        terminal_path: self.segments.iter().map(|s| s.key.clone()).collect(),
+                        terminal_path: self
+                            .segments
+                            .iter()
+                            .map(|s| s.key.to_key_string())
+                            .collect(),
                     });
                 }
 
@@ -1776,8 +1782,9 @@ impl PathState {
                     return Err(PathError::Reopened {
                         closed_path: self.segments[..i]
                             .iter()
-                            .map(|s| s.key.clone())
-                            .chain(std::iter::once(key.clone()))
+                            .map(|s| &s.key)
+                            .chain(std::iter::once(key))
+                            .map(KeyValue::to_key_string)
                             .collect(),
                     });
                 }
-- 
2.43.0


From cb1d2d56bc8db4c6379798591a49a1beb91d8118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:15 +0000
Subject: [PATCH 09/59] fix: detect non-adjacent duplicate root keys and
 reopened root paths

---
 crates/styx-parse/src/parser/mod.rs | 37 ++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/crates/styx-parse/src/parser/mod.rs b/crates/styx-parse/src/parser/mod.rs
index c841a46..fa826f3 100644
--- a/crates/styx-parse/src/parser/mod.rs
+++ b/crates/styx-parse/src/parser/mod.rs
@@ -1675,6 +1675,8 @@ struct PathSegment {
 struct PathState {
     /// The current path, as a stack of segments. Length is O(max depth).
     segments: Vec<PathSegment>,
+    /// Root keys that have been closed, with the same role as `closed_children`.
+    closed_roots: HashMap<KeyValue, Span>,
 }
 
 impl PathState {
@@ -1696,15 +1698,12 @@ impl PathState {
             .take_while(|(seg, key)| seg.key == **key)
             .count();
 
-        // Special case: if the entire path matches, check for duplicate
-        // This happens when we see `a 1` then `a 2` - the path ["a"] fully matches
-        if common_len == path.len()
-            && common_len == self.segments.len()
-            && !self.segments.is_empty()
-        {
-            // Exact same path - this is a duplicate
+        // Special case: if the entire path matches, this is a duplicate
+        // This happens when we see `a 1` then `a 2` - the path ["a"] fully matches -
+        // or `a.b 1` then `a 2`, where `a` is already defined as an object
+        if common_len == path.len() {
             return Err(PathError::Duplicate {
-                original: self.segments.last().unwrap().span,
+                original: self.segments[common_len - 1].span,
             });
         }
 
@@ -1713,12 +1712,12 @@ impl PathState {
         while self.segments.len() > common_len {
             let closed_segment = self.segments.pop().unwrap();
 
-            // Add this key to parent's closed_children (if there is a parent)
-            if let Some(parent) = self.segments.last_mut() {
-                parent
-                    .closed_children
-                    .insert(closed_segment.key, closed_segment.span);
-            }
+            // Add this key to parent's closed_children (or to the closed root keys)
+            let closed = match self.segments.last_mut() {
+                Some(parent) => &mut parent.closed_children,
+                None => &mut self.closed_roots,
+            };
+            closed.insert(closed_segment.key, closed_segment.span);
         }
 
         // Now process each new segment of the path
@@ -1755,6 +1754,16 @@ impl PathState {
                     // Continue using existing segment
                     continue;
                 }
+                // Check if this root key was already closed
+                if let Some(&original) = self.closed_roots.get(key) {
+                    return Err(if is_last {
+                        PathError::Duplicate { original }
+                    } else {
+                        PathError::Reopened {
+                            closed_path: vec![key.to_key_string()],
+                        }
+                    });
+                }
                 // New root segment
                 self.segments.push(PathSegment {
                     key: key.clone(),
-- 
2.43.0


From 95841acfbf8db2a9e31938faa1803daeba85653c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:00 +0000
Subject: [PATCH 10/59] fix: check the dotted paths of an explicit root object

---
 crates/styx-parse/src/parser/mod.rs | 108 +++++++++-------------------
 1 file changed, 34 insertions(+), 74 deletions(-)

diff --git a/crates/styx-parse/src/parser/mod.rs b/crates/styx-parse/src/parser/mod.rs
index fa826f3..92eada2 100644
--- a/crates/styx-parse/src/parser/mod.rs
+++ b/crates/styx-parse/src/parser/mod.rs
@@ -60,7 +60,6 @@ enum ParserState {
 
     /// At implicit document root.
     DocumentRoot {
-        seen_keys: HashMap<KeyValue, Span>,
         pending_doc_comment: Option<Span>,
         path_state: PathState,
         /// Whether we've emitted ObjectStart for the implicit root object.
@@ -70,7 +69,7 @@ enum ParserState {
     /// Inside explicit object { ... }.
     InObject {
         start_span: Span,
-        seen_keys: HashMap<KeyValue, Span>,
+        path_state: PathState,
         pending_doc_comment: Option<Span>,
         /// Parent state to restore when we pop.
         parent: Box<ParserState>,
@@ -139,7 +138,6 @@ impl<'src> Parser<'src> {
         match &self.state {
             ParserState::BeforeDocument => {
                 self.state = ParserState::DocumentRoot {
-                    seen_keys: HashMap::new(),
                     pending_doc_comment: None,
                     path_state: PathState::default(),
                     emitted_object_start: false,
@@ -293,7 +291,7 @@ impl<'src> Parser<'src> {
                     // Explicit root object - after it closes, document is done
                     self.state = ParserState::InObject {
                         start_span: span,
-                        seen_keys: HashMap::new(),
+                        path_state: PathState::default(),
                         pending_doc_comment: None,
                         parent: Box::new(ParserState::AfterDocument),
                     };
@@ -492,37 +490,19 @@ impl<'src> Parser<'src> {
         } = &key_atom.content
             && value.contains('.')
         {
-            self.emit_dotted_path_entry(value.clone(), key_atom.span, atoms, true);
+            self.emit_dotted_path_entry(value.clone(), key_atom.span, atoms);
             return;
         }
 
         // Simple key - use path state for duplicate detection at root level
         // (path_state handles both simple and dotted paths uniformly)
-        let key_value = KeyValue::from_atom(key_atom);
-
-        if let ParserState::DocumentRoot { path_state, .. } = &mut self.state {
-            // Check path state - this handles duplicates for us
-            let path = vec![key_value];
-            let value_kind = if atoms.len() >= 2 {
-                match &atoms[1].content {
-                    AtomContent::Object { .. } | AtomContent::Attributes(_) => {
-                        PathValueKind::Object
-                    }
-                    _ => PathValueKind::Terminal,
-                }
-            } else {
-                PathValueKind::Terminal
-            };
-
-            if let Err(err) = path_state.check_and_update(&path, key_atom.span, value_kind) {
-                self.emit_path_error(err, key_atom.span);
-            }
-        }
+        let path = [KeyValue::from_atom(key_atom)];
+        self.check_path(&path, key_atom.span, atoms);
 
         self.emit_simple_entry(atoms);
     }
 
-    /// Emit entry inside an object (no path state).
+    /// Emit entry inside the explicit root object.
     fn emit_entry_in_object(&mut self, atoms: &[Atom<'src>]) {
         if atoms.is_empty() {
             return;
@@ -551,27 +531,13 @@ impl<'src> Parser<'src> {
         } = &key_atom.content
             && value.contains('.')
         {
-            self.emit_dotted_path_entry(value.clone(), key_atom.span, atoms, false);
+            self.emit_dotted_path_entry(value.clone(), key_atom.span, atoms);
             return;
         }
 
         // Simple key - check for duplicates
-        let key_value = KeyValue::from_atom(key_atom);
-
-        if let ParserState::InObject { seen_keys, .. } = &mut self.state {
-            if let Some(&original_span) = seen_keys.get(&key_value) {
-                self.event_queue.push_back(Event {
-                    span: key_atom.span,
-                    kind: EventKind::Error {
-                        kind: ParseErrorKind::DuplicateKey {
-                            original: original_span,
-                        },
-                    },
-                });
-            } else {
-                seen_keys.insert(key_value, key_atom.span);
-            }
-        }
+        let path = [KeyValue::from_atom(key_atom)];
+        self.check_path(&path, key_atom.span, atoms);
 
         self.emit_simple_entry(atoms);
     }
@@ -1015,7 +981,6 @@ impl<'src> Parser<'src> {
         path_text: Cow<'src, str>,
         path_span: Span,
         atoms: &[Atom<'src>],
-        check_path_state: bool,
     ) {
         let segments: Vec<&str> = path_text.split('.').collect();
 
@@ -1037,36 +1002,12 @@ impl<'src> Parser<'src> {
             return;
         }
 
-        // Check path state at root
-        if check_path_state
-            && let ParserState::DocumentRoot {
-                seen_keys,
-                path_state,
-                ..
-            } = &mut self.state
-        {
-            let first_key_value = KeyValue::Scalar(segments[0].to_string());
-            seen_keys.entry(first_key_value).or_insert(path_span);
-
-            let path: Vec<KeyValue> = segments
-                .iter()
-                .map(|s| KeyValue::Scalar(s.to_string()))
-                .collect();
-            let value_kind = if atoms.len() >= 2 {
-                match &atoms[1].content {
-                    AtomContent::Object { .. } | AtomContent::Attributes(_) => {
-                        PathValueKind::Object
-                    }
-                    _ => PathValueKind::Terminal,
-                }
-            } else {
-                PathValueKind::Terminal
-            };
-
-            if let Err(err) = path_state.check_and_update(&path, path_span, value_kind) {
-                self.emit_path_error(err, path_span);
-            }
-        }
+        // Check path state
+        let path: Vec<KeyValue> = segments
+            .iter()
+            .map(|s| KeyValue::Scalar(s.to_string()))
+            .collect();
+        self.check_path(&path, path_span, atoms);
 
         // Emit nested structure
         let depth = segments.len();
@@ -1133,6 +1074,25 @@ impl<'src> Parser<'src> {
         }
     }
 
+    /// Check the path of an entry (one atom, or a key and a value) against the paths
+    /// seen so far in the root object, and emit an error if it is not allowed.
+    fn check_path(&mut self, path: &[KeyValue], span: Span, atoms: &[Atom<'src>]) {
+        let (ParserState::DocumentRoot { path_state, .. }
+        | ParserState::InObject { path_state, .. }) = &mut self.state
+        else {
+            return;
+        };
+
+        let value_kind = match atoms.get(1).map(|atom| &atom.content) {
+            Some(AtomContent::Object { .. } | AtomContent::Attributes(_)) => PathValueKind::Object,
+            _ => PathValueKind::Terminal,
+        };
+
+        if let Err(err) = path_state.check_and_update(path, span, value_kind) {
+            self.emit_path_error(err, span);
+        }
+    }
+
     /// Emit path error.
     fn emit_path_error(&mut self, err: PathError, span: Span) {
         let kind = match err {
-- 
2.43.0


From b93df82c0edc580ff620b90ce38dfa8eb81c9c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:20 +0000
Subject: [PATCH 11/59] fix: reject a heredoc key in a nested object

---
 crates/styx-parse/src/parser/mod.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/styx-parse/src/parser/mod.rs b/crates/styx-parse/src/parser/mod.rs
index 92eada2..9f25bf6 100644
--- a/crates/styx-parse/src/parser/mod.rs
+++ b/crates/styx-parse/src/parser/mod.rs
@@ -1337,6 +1337,18 @@ impl<'src> Parser<'src> {
                             },
                         });
                     }
+                    if let AtomContent::Scalar {
+                        kind: ScalarKind::Heredoc,
+                        ..
+                    } = &entry.key.content
+                    {
+                        self.event_queue.push_back(Event {
+                            span: entry.key.span,
+                            kind: EventKind::Error {
+                                kind: ParseErrorKind::InvalidKey,
+                            },
+                        });
+                    }
                     self.event_queue.push_back(Event {
                         span: entry.key.span,
                         kind: EventKind::EntryStart,
-- 
2.43.0


From 4bfd9e640173d6597498230cb2a9b7024997fb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:15 +0000
Subject: [PATCH 12/59] fix: parse attributes among sequence elements in the
 CST

---
 crates/styx-cst/src/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/styx-cst/src/parser.rs b/crates/styx-cst/src/parser.rs
index c8cc148..4744dce 100644
--- a/crates/styx-cst/src/parser.rs
+++ b/crates/styx-cst/src/parser.rs
@@ -431,7 +431,11 @@ impl<'src> CstParser<'src> {
             // In sequences, each element is wrapped in an ENTRY with just a KEY
             self.builder.start_node(SyntaxKind::ENTRY.into());
             self.builder.start_node(SyntaxKind::KEY.into());
-            self.parse_atom();
+            if self.at_attribute() {
+                self.parse_attributes(Some(TokenKind::RParen));
+            } else {
+                self.parse_atom();
+            }
             self.builder.finish_node();
             self.builder.finish_node();
 
-- 
2.43.0


From afbd456127052062152217f3dda2c2cccc79c546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:51 +0000
Subject: [PATCH 13/59] fix: do not make an empty CST entry of a redundant
 comma

---
 crates/styx-cst/src/parser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/styx-cst/src/parser.rs b/crates/styx-cst/src/parser.rs
index 4744dce..b7ebf6b 100644
--- a/crates/styx-cst/src/parser.rs
+++ b/crates/styx-cst/src/parser.rs
@@ -238,6 +238,12 @@ impl<'src> CstParser<'src> {
                 break;
             }
 
+            // A separator without an entry before it is not an entry
+            if self.peek() == TokenKind::Comma {
+                self.bump();
+                continue;
+            }
+
             // Parse an entry
             self.parse_entry(closing);
 
-- 
2.43.0


From 0767dc2bcac1fc47fd5c05cbd0fd9eb96398c971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:52 +0000
Subject: [PATCH 14/59] fix: an empty object is not a block, however it is
 spread over lines

---
 crates/styx-format/src/cst_format.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/styx-format/src/cst_format.rs b/crates/styx-format/src/cst_format.rs
index 541307a..2d89adc 100644
--- a/crates/styx-format/src/cst_format.rs
+++ b/crates/styx-format/src/cst_format.rs
@@ -644,7 +644,12 @@ fn contains_block_object(node: &SyntaxNode) -> bool {
         && let Some(obj) = Object::cast(node.clone())
     {
         let sep = obj.separator();
-        if matches!(sep, Separator::Newline | Separator::Mixed) {
+        if matches!(sep, Separator::Newline | Separator::Mixed)
+            && (obj.entries().next().is_some()
+                || node
+                    .children_with_tokens()
+                    .any(|el| el.kind() == SyntaxKind::LINE_COMMENT))
+        {
             return true;
         }
         // Also check if the object contains doc comments
-- 
2.43.0


From eeba23e5de7eadfe8834255464dade05eeb6a0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:20 +0000
Subject: [PATCH 15/59] fix: keep the closing line of a heredoc alone when
 formatting

---
 crates/styx-format/src/cst_format.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/crates/styx-format/src/cst_format.rs b/crates/styx-format/src/cst_format.rs
index 2d89adc..25ed593 100644
--- a/crates/styx-format/src/cst_format.rs
+++ b/crates/styx-format/src/cst_format.rs
@@ -293,6 +293,7 @@ impl CstFormatter {
         let is_multiline = matches!(separator, Separator::Newline | Separator::Mixed)
             || has_comments
             || has_block_child
+            || contains_heredoc(node)
             || entries.is_empty(); // Empty with comments needs multiline
 
         if is_multiline {
@@ -382,10 +383,15 @@ impl CstFormatter {
             return;
         }
 
+        // A heredoc's closing delimiter must stay alone on its line
+        let has_heredoc = contains_heredoc(node);
+
         // Determine if we need multiline format
         // But collapse trivial sequences: single simple element should be inline
-        let should_collapse =
-            !has_comments && entries.len() == 1 && !contains_block_object(entries[0].syntax());
+        let should_collapse = !has_comments
+            && !has_heredoc
+            && entries.len() == 1
+            && !contains_block_object(entries[0].syntax());
 
         // Special case: single entry that is a tag with block payload - format inline with paren
         // e.g., @optional(@object{...}) should format as (@object{\n...\n}) not (\n@object{...}\n)
@@ -394,7 +400,7 @@ impl CstFormatter {
 
         let is_multiline = !should_collapse
             && !single_tag_with_block
-            && (seq.is_multiline() || has_comments || entries.is_empty());
+            && (seq.is_multiline() || has_comments || has_heredoc || entries.is_empty());
 
         if single_tag_with_block {
             // Format the single entry inline with the paren - no newline after (
@@ -652,6 +658,10 @@ fn contains_block_object(node: &SyntaxNode) -> bool {
         {
             return true;
         }
+        // An object with a heredoc inside is always spread over lines
+        if contains_heredoc(node) {
+            return true;
+        }
         // Also check if the object contains doc comments
         if node
             .children_with_tokens()
@@ -671,6 +681,11 @@ fn contains_block_object(node: &SyntaxNode) -> bool {
     false
 }
 
+/// Check if a node contains a heredoc, at any depth.
+fn contains_heredoc(node: &SyntaxNode) -> bool {
+    node.descendants().any(|n| n.kind() == SyntaxKind::HEREDOC)
+}
+
 /// Check if an entry is a schema declaration (@schema tag as key).
 fn is_schema_declaration(entry: &Entry) -> bool {
     if let Some(key) = entry.key() {
-- 
2.43.0


From c5329ff70c300aca132d63f4421917f4949c1015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:52 +0000
Subject: [PATCH 16/59] fix: do not make an empty CST entry of a comment after
 a doc comment

---
 crates/styx-cst/src/parser.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/styx-cst/src/parser.rs b/crates/styx-cst/src/parser.rs
index b7ebf6b..f6c1c19 100644
--- a/crates/styx-cst/src/parser.rs
+++ b/crates/styx-cst/src/parser.rs
@@ -224,10 +224,8 @@ impl<'src> CstParser<'src> {
             // Check for doc comments - they attach to the next entry
             while self.peek() == TokenKind::DocComment {
                 self.bump();
-                // Skip whitespace/newlines after doc comment
-                while matches!(self.peek(), TokenKind::Whitespace | TokenKind::Newline) {
-                    self.bump();
-                }
+                // Skip whitespace, newlines and line comments after doc comment
+                self.skip_trivia();
             }
 
             // Check for closing or EOF
-- 
2.43.0


From fd1281ab05afcb702d7df7be7b25ff150e562d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:52 +0000
Subject: [PATCH 17/59] fix: find the doc comments of an entry across comments
 and redundant commas

---
 crates/styx-cst/src/ast.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/styx-cst/src/ast.rs b/crates/styx-cst/src/ast.rs
index d42af1a..0c24e06 100644
--- a/crates/styx-cst/src/ast.rs
+++ b/crates/styx-cst/src/ast.rs
@@ -136,8 +136,8 @@ impl Entry {
             .siblings_with_tokens(rowan::Direction::Prev)
             .skip(1) // Skip self
             .take_while(|el| {
-                el.kind() == SyntaxKind::WHITESPACE
-                    || el.kind() == SyntaxKind::NEWLINE
+                el.kind().is_trivia()
+                    || el.kind() == SyntaxKind::COMMA
                     || el.kind() == SyntaxKind::DOC_COMMENT
             })
             .filter_map(|el| el.into_token())
-- 
2.43.0


From a86c076151778aef5ee5a5ed92b6cce5b6fe2511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:25 +0000
Subject: [PATCH 18/59] fix: quote dotted keys, tagged keys and scalars with >
 when writing

---
 crates/styx-format/src/scalar.rs       | 14 +++++++++++---
 crates/styx-format/src/value_format.rs |  3 ++-
 crates/styx-format/src/writer.rs       |  6 +++---
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/crates/styx-format/src/scalar.rs b/crates/styx-format/src/scalar.rs
index 0fb0a1a..166c004 100644
--- a/crates/styx-format/src/scalar.rs
+++ b/crates/styx-format/src/scalar.rs
@@ -10,7 +10,7 @@ use std::borrow::Cow;
 /// A bare scalar is valid when:
 /// 1. It's not empty
 /// 2. It doesn't start with characters that look like other syntax (`//`, `r#`, `<<`)
-/// 3. It doesn't contain special characters: `{}(),"=@` or whitespace
+/// 3. It doesn't contain special characters: `{}(),"=@>` or whitespace
 pub fn can_be_bare(s: &str) -> bool {
     if s.is_empty() {
         return false;
@@ -20,8 +20,16 @@ pub fn can_be_bare(s: &str) -> bool {
         return false;
     }
     // Cannot contain special characters
-    !s.chars()
-        .any(|c| matches!(c, '{' | '}' | '(' | ')' | ',' | '"' | '=' | '@') || c.is_whitespace())
+    !s.chars().any(|c| {
+        matches!(c, '{' | '}' | '(' | ')' | ',' | '"' | '=' | '@' | '>') || c.is_whitespace()
+    })
+}
+
+/// Check if a string can be written as a bare key.
+///
+/// A dot in a bare key separates the segments of a path, so such a key must be quoted.
+pub fn can_be_bare_key(s: &str) -> bool {
+    can_be_bare(s) && !s.contains('.')
 }
 
 /// Count escape sequences needed for a quoted string.
diff --git a/crates/styx-format/src/value_format.rs b/crates/styx-format/src/value_format.rs
index f4240ae..c931783 100644
--- a/crates/styx-format/src/value_format.rs
+++ b/crates/styx-format/src/value_format.rs
@@ -187,7 +187,8 @@ impl ValueFormatter {
             }
             Some(Payload::Scalar(s)) => {
                 // Always check if the text can be bare, regardless of original ScalarKind
-                if crate::scalar::can_be_bare(&s.text) {
+                // (the payload of a tag never can)
+                if key.tag.is_none() && crate::scalar::can_be_bare_key(&s.text) {
                     result.push_str(&s.text);
                 } else {
                     result.push('"');
diff --git a/crates/styx-format/src/writer.rs b/crates/styx-format/src/writer.rs
index 23cab09..ed3fd41 100644
--- a/crates/styx-format/src/writer.rs
+++ b/crates/styx-format/src/writer.rs
@@ -4,7 +4,7 @@
 //! independent of any serialization framework.
 
 use crate::options::{ForceStyle, FormatOptions};
-use crate::scalar::{can_be_bare, count_escapes, count_newlines, escape_quoted};
+use crate::scalar::{can_be_bare, can_be_bare_key, count_escapes, count_newlines, escape_quoted};
 
 /// Context for tracking serialization state.
 #[derive(Debug, Clone)]
@@ -356,7 +356,7 @@ impl StyxWriter {
         }
 
         // Write the key - keys are typically bare identifiers
-        if can_be_bare(key) {
+        if can_be_bare_key(key) {
             self.out.extend_from_slice(key.as_bytes());
         } else {
             self.write_quoted_string(key);
@@ -614,7 +614,7 @@ impl StyxWriter {
         }
 
         // Write the key
-        if can_be_bare(key) {
+        if can_be_bare_key(key) {
             self.out.extend_from_slice(key.as_bytes());
         } else {
             self.write_quoted_string(key);
-- 
2.43.0


From 763aafcfe4597eac3c3a2acee38e42334ca1a656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:25 +0000
Subject: [PATCH 19/59] fix: keep empty lines of doc comments when writing

---
 crates/styx-format/src/writer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/styx-format/src/writer.rs b/crates/styx-format/src/writer.rs
index ed3fd41..d55423a 100644
--- a/crates/styx-format/src/writer.rs
+++ b/crates/styx-format/src/writer.rs
@@ -598,7 +598,7 @@ impl StyxWriter {
         // For non-first fields, or non-root structs, add newline before doc
         let need_leading_newline = !is_first || !is_root;
 
-        for (i, line) in doc.lines().enumerate() {
+        for (i, line) in doc.split('\n').enumerate() {
             if i > 0 || need_leading_newline {
                 self.write_newline_indent();
             }
@@ -658,7 +658,7 @@ impl StyxWriter {
         // For non-first fields, or non-root structs, add newline before doc
         let need_leading_newline = !is_first || !is_root;
 
-        for (i, line) in doc.lines().enumerate() {
+        for (i, line) in doc.split('\n').enumerate() {
             if i > 0 || need_leading_newline {
                 self.write_newline_indent();
             }
-- 
2.43.0


From 41cdcd35baca9dd8114d3428da723e115dde2e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:33 +0000
Subject: [PATCH 20/59] fix: write a heredoc only where it reads back, and keep
 separator positions in step

---
 crates/styx-format/src/writer.rs | 94 +++++++++++++++++---------------
 1 file changed, 51 insertions(+), 43 deletions(-)

diff --git a/crates/styx-format/src/writer.rs b/crates/styx-format/src/writer.rs
index d55423a..440169f 100644
--- a/crates/styx-format/src/writer.rs
+++ b/crates/styx-format/src/writer.rs
@@ -720,11 +720,7 @@ impl StyxWriter {
                     // Calculate indent for this position
                     let indent = self.options.indent.repeat(self.indent_depth());
                     let newline_indent = format!("\n{}", indent);
-                    self.out.drain(comma_pos..comma_pos + 2);
-                    let bytes = newline_indent.as_bytes();
-                    for (i, &b) in bytes.iter().enumerate() {
-                        self.out.insert(comma_pos + i, b);
-                    }
+                    self.splice(comma_pos, 2, &newline_indent);
                 }
             }
         }
@@ -771,27 +767,27 @@ impl StyxWriter {
             // Insert newline + indent after the opening brace
             let indent = self.options.indent.repeat(indent_depth);
             let insert = format!("\n{}", indent);
-            for (i, b) in insert.bytes().enumerate() {
-                self.out.insert(pos + i, b);
-            }
+            self.splice(pos, 0, &insert);
+        }
+    }
 
-            // Update all positions in the stack that come after this insertion
-            for ctx in self.stack.iter_mut() {
-                if let Context::Struct {
-                    open_brace_pos: Some(p),
-                    comma_positions,
-                    ..
-                } = ctx
-                {
-                    if *p > pos {
-                        *p += insert.len();
-                    }
-                    for cp in comma_positions.iter_mut() {
-                        if *cp >= pos {
-                            *cp += insert.len();
-                        }
-                    }
-                }
+    /// Replace `remove` bytes at `pos` by `insert`, moving the recorded positions behind them.
+    fn splice(&mut self, pos: usize, remove: usize, insert: &str) {
+        self.out.splice(pos..pos + remove, insert.bytes());
+        let moved = |p: &mut usize| {
+            if *p > pos {
+                *p = *p - remove + insert.len();
+            }
+        };
+        for ctx in self.stack.iter_mut() {
+            if let Context::Struct {
+                open_brace_pos,
+                comma_positions,
+                ..
+            } = ctx
+            {
+                open_brace_pos.iter_mut().for_each(moved);
+                comma_positions.iter_mut().for_each(moved);
             }
         }
     }
@@ -824,11 +820,7 @@ impl StyxWriter {
                 && self.out[comma_pos + 1] == b' '
             {
                 // Remove ", " and insert newline+indent
-                self.out.drain(comma_pos..comma_pos + 2);
-                let bytes = newline_indent.as_bytes();
-                for (i, &b) in bytes.iter().enumerate() {
-                    self.out.insert(comma_pos + i, b);
-                }
+                self.splice(comma_pos, 2, &newline_indent);
             }
         }
     }
@@ -885,8 +877,11 @@ impl StyxWriter {
         let escape_count = count_escapes(s);
 
         // Rule 3: Use heredocs for multi-line text
-        if newline_count >= self.options.heredoc_line_threshold {
-            self.write_heredoc(s);
+        if newline_count >= self.options.heredoc_line_threshold
+            && self.line_break_follows_value()
+            && let Some(delimiter) = heredoc_delimiter(s)
+        {
+            self.write_heredoc(s, delimiter);
             return;
         }
 
@@ -930,26 +925,39 @@ impl StyxWriter {
         }
     }
 
-    /// Write a heredoc string.
-    fn write_heredoc(&mut self, s: &str) {
-        // Find a delimiter that doesn't appear in the string
-        let delimiters = ["TEXT", "END", "HEREDOC", "DOC", "STR", "CONTENT"];
-        let delimiter = delimiters
-            .iter()
-            .find(|d| !s.contains(*d))
-            .unwrap_or(&"TEXT");
+    /// Whether a line break is certain to follow the value written next, as the closing
+    /// delimiter of a heredoc needs.
+    fn line_break_follows_value(&self) -> bool {
+        match self.stack.last() {
+            None => true,
+            Some(Context::Struct { is_root: true, .. }) => true,
+            Some(Context::Struct {
+                force_multiline, ..
+            }) => *force_multiline && !self.should_inline(),
+            Some(Context::Seq { .. }) => false,
+        }
+    }
 
+    /// Write a heredoc string.
+    fn write_heredoc(&mut self, s: &str, delimiter: &str) {
         self.out.extend_from_slice(b"<<");
         self.out.extend_from_slice(delimiter.as_bytes());
         self.out.push(b'\n');
         self.out.extend_from_slice(s.as_bytes());
-        if !s.ends_with('\n') {
-            self.out.push(b'\n');
-        }
         self.out.extend_from_slice(delimiter.as_bytes());
     }
 }
 
+/// Find a heredoc delimiter for a string, if the string can be written as a heredoc at all:
+/// a heredoc consists of whole lines.
+fn heredoc_delimiter(s: &str) -> Option<&'static str> {
+    if !s.ends_with('\n') || s.contains('\r') {
+        return None;
+    }
+    let delimiters = ["TEXT", "END", "HEREDOC", "DOC", "STR", "CONTENT"];
+    delimiters.into_iter().find(|d| !s.contains(d))
+}
+
 impl Default for StyxWriter {
     fn default() -> Self {
         Self::new()
-- 
2.43.0


From 0ca60e34a69969d35790b486212bb1bc93b1a7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:08 +0000
Subject: [PATCH 21/59] fix: separate units and bare tags from their neighbours
 in a sequence

---
 crates/styx-format/src/value_format.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/styx-format/src/value_format.rs b/crates/styx-format/src/value_format.rs
index c931783..fe94234 100644
--- a/crates/styx-format/src/value_format.rs
+++ b/crates/styx-format/src/value_format.rs
@@ -78,10 +78,12 @@ impl ValueFormatter {
         match &value.payload {
             None => {
                 // No payload - if no tag either, this is unit (@)
-                if !has_tag {
-                    self.writer.write_str("@");
+                if has_tag {
+                    // Tag was already written and nothing attaches to it
+                    self.writer.clear_skip_before_value();
+                } else {
+                    self.writer.write_null();
                 }
-                // If there's a tag but no payload, tag was already written
             }
             Some(Payload::Scalar(s)) => {
                 // If tagged, wrap scalar in parens: @tag(scalar)
-- 
2.43.0


From c3fb538136a4ed8f980b983c48f712814c7f9a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:08 +0000
Subject: [PATCH 22/59] fix: do not write a raw string right after a tag

---
 crates/styx-format/src/writer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/styx-format/src/writer.rs b/crates/styx-format/src/writer.rs
index 440169f..c1b392b 100644
--- a/crates/styx-format/src/writer.rs
+++ b/crates/styx-format/src/writer.rs
@@ -885,8 +885,9 @@ impl StyxWriter {
             return;
         }
 
-        // Rule 2: Use raw strings for complex escaping (> 3 escapes)
-        if escape_count > 3 && !s.contains("\"#") {
+        // Rule 2: Use raw strings for complex escaping (> 3 escapes), but not after a tag,
+        // whose name would run on into the `r`
+        if !force_quote && escape_count > 3 && !s.contains("\"#") {
             self.write_raw_string(s);
             return;
         }
-- 
2.43.0


From 04112633efd1098c79d51e71a3dbf14abb09e180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:57 +0000
Subject: [PATCH 23/59] fix: read an empty document as an empty object in
 facet-styx

---
 crates/facet-styx/src/parser.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/facet-styx/src/parser.rs b/crates/facet-styx/src/parser.rs
index 9837d33..a3dd53c 100644
--- a/crates/facet-styx/src/parser.rs
+++ b/crates/facet-styx/src/parser.rs
@@ -270,7 +270,14 @@ impl<'de> StyxParser<'de> {
 
             EventKind::DocumentEnd => {
                 if self.at_implicit_root {
-                    Ok(None)
+                    // The root object never started: an empty document is an empty object
+                    self.at_implicit_root = false;
+                    self.current_span = Some(span);
+                    self.peeked_events
+                        .push(self.event(ParseEventKind::StructEnd));
+                    Ok(Some(
+                        self.event(ParseEventKind::StructStart(ContainerKind::Object)),
+                    ))
                 } else {
                     // Expression mode - no implicit root, skip DocumentEnd
                     Ok(None)
-- 
2.43.0


From 1029ff61f53bc8168e9ffe5bb7454dc655e74fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:09 +0000
Subject: [PATCH 24/59] fix: keep payloads attached to their tags, and quoted,
 when writing typed values

Numbers and booleans after a tag were written bare (@n1 for @n"1"), serde_styx
separated payloads from their tags by a space (two values inside a sequence) and
facet-styx did the same with sequences and objects inside sequences; tagged keys
were written unescaped.
---
 crates/facet-styx/src/serializer.rs | 12 ++-----
 crates/serde_styx/src/ser.rs        | 54 +++++++++++++++++++----------
 crates/styx-format/src/writer.rs    | 49 +++++++++++++++-----------
 3 files changed, 67 insertions(+), 48 deletions(-)

diff --git a/crates/facet-styx/src/serializer.rs b/crates/facet-styx/src/serializer.rs
index bd7c684..92d9b5d 100644
--- a/crates/facet-styx/src/serializer.rs
+++ b/crates/facet-styx/src/serializer.rs
@@ -8,7 +8,7 @@ use facet_format::{
     FieldKey, FieldLocationHint, FormatSerializer, ScalarValue, SerializeError, serialize_root,
 };
 use facet_reflect::{HasFields, Peek};
-use styx_format::{FormatOptions, StyxWriter};
+use styx_format::{FormatOptions, StyxWriter, escape_quoted};
 
 // Re-export FormatOptions as SerializeOptions for backwards compatibility
 pub use styx_format::FormatOptions as SerializeOptions;
@@ -227,7 +227,6 @@ impl FormatSerializer for StyxSerializer {
         trace!(is_root, "begin_struct");
         self.at_root = false;
         self.just_wrote_tag = false;
-        self.writer.clear_skip_before_value();
         self.writer.begin_struct(is_root);
         Ok(())
     }
@@ -260,11 +259,7 @@ impl FormatSerializer for StyxSerializer {
         ) {
             (Some(tag), Some(name)) => {
                 // @tag"name" - tagged with value
-                let key_str = if tag.is_empty() {
-                    format!("@\"{}\"", name)
-                } else {
-                    format!("@{}\"{}\"", tag, name)
-                };
+                let key_str = format!("@{}\"{}\"", tag, escape_quoted(name));
                 if !doc_lines.is_empty() {
                     self.writer
                         .write_doc_comment_and_key_raw(&doc_lines.join("\n"), &key_str);
@@ -325,7 +320,6 @@ impl FormatSerializer for StyxSerializer {
         trace!("begin_seq");
         self.at_root = false;
         self.just_wrote_tag = false;
-        self.writer.clear_skip_before_value();
         self.writer.begin_seq();
         Ok(())
     }
@@ -660,7 +654,6 @@ impl FormatSerializer for CompactStyxSerializer {
     fn begin_struct(&mut self) -> Result<(), Self::Error> {
         // Never treat as root in compact mode
         self.just_wrote_tag = false;
-        self.writer.clear_skip_before_value();
         self.writer.begin_struct(false);
         Ok(())
     }
@@ -677,7 +670,6 @@ impl FormatSerializer for CompactStyxSerializer {
 
     fn begin_seq(&mut self) -> Result<(), Self::Error> {
         self.just_wrote_tag = false;
-        self.writer.clear_skip_before_value();
         self.writer.begin_seq();
         Ok(())
     }
diff --git a/crates/serde_styx/src/ser.rs b/crates/serde_styx/src/ser.rs
index 1e4af34..acb2d8e 100644
--- a/crates/serde_styx/src/ser.rs
+++ b/crates/serde_styx/src/ser.rs
@@ -5,6 +5,24 @@ use styx_format::{FormatOptions, StyxWriter};
 
 use crate::error::{Error, Result};
 
+/// Write a tag, chained if it is itself the payload of a tag.
+fn write_tag(writer: &mut StyxWriter, name: &str) {
+    if writer.after_tag() {
+        writer.write_tag_chain_segment(name);
+    } else {
+        writer.write_variant_tag(name);
+    }
+}
+
+/// Write unit, which a tag without a payload already stands for.
+fn write_unit(writer: &mut StyxWriter) {
+    if writer.after_tag() {
+        writer.clear_skip_before_value();
+    } else {
+        writer.write_null();
+    }
+}
+
 /// Styx serializer implementing serde::Serializer.
 pub struct Serializer {
     writer: StyxWriter,
@@ -133,7 +151,7 @@ impl<'a> ser::Serializer for &'a mut Serializer {
 
     fn serialize_none(self) -> Result<()> {
         self.at_root = false;
-        self.writer.write_null();
+        write_unit(&mut self.writer);
         Ok(())
     }
 
@@ -143,7 +161,7 @@ impl<'a> ser::Serializer for &'a mut Serializer {
 
     fn serialize_unit(self) -> Result<()> {
         self.at_root = false;
-        self.writer.write_null();
+        write_unit(&mut self.writer);
         Ok(())
     }
 
@@ -158,7 +176,8 @@ impl<'a> ser::Serializer for &'a mut Serializer {
         variant: &'static str,
     ) -> Result<()> {
         self.at_root = false;
-        self.writer.write_variant_tag(variant);
+        write_tag(&mut self.writer, variant);
+        self.writer.clear_skip_before_value();
         Ok(())
     }
 
@@ -178,8 +197,7 @@ impl<'a> ser::Serializer for &'a mut Serializer {
         value: &T,
     ) -> Result<()> {
         self.at_root = false;
-        self.writer.write_variant_tag(variant);
-        self.writer.write_byte(b' ');
+        write_tag(&mut self.writer, variant);
         value.serialize(&mut *self)
     }
 
@@ -209,8 +227,8 @@ impl<'a> ser::Serializer for &'a mut Serializer {
         _len: usize,
     ) -> Result<Self::SerializeTupleVariant> {
         self.at_root = false;
-        self.writer.write_variant_tag(variant);
-        self.writer.begin_seq();
+        write_tag(&mut self.writer, variant);
+        self.writer.begin_seq_after_tag();
         Ok(SeqSerializer { ser: self })
     }
 
@@ -236,8 +254,8 @@ impl<'a> ser::Serializer for &'a mut Serializer {
         _len: usize,
     ) -> Result<Self::SerializeStructVariant> {
         self.at_root = false;
-        self.writer.write_variant_tag(variant);
-        self.writer.begin_struct(false);
+        write_tag(&mut self.writer, variant);
+        self.writer.begin_struct_after_tag(false);
         Ok(StructSerializer { ser: self })
     }
 }
@@ -656,7 +674,7 @@ impl<'a> ser::Serializer for &'a mut CompactSerializer {
     }
 
     fn serialize_none(self) -> Result<()> {
-        self.writer.write_null();
+        write_unit(&mut self.writer);
         Ok(())
     }
 
@@ -665,7 +683,7 @@ impl<'a> ser::Serializer for &'a mut CompactSerializer {
     }
 
     fn serialize_unit(self) -> Result<()> {
-        self.writer.write_null();
+        write_unit(&mut self.writer);
         Ok(())
     }
 
@@ -679,7 +697,8 @@ impl<'a> ser::Serializer for &'a mut CompactSerializer {
         _variant_index: u32,
         variant: &'static str,
     ) -> Result<()> {
-        self.writer.write_variant_tag(variant);
+        write_tag(&mut self.writer, variant);
+        self.writer.clear_skip_before_value();
         Ok(())
     }
 
@@ -698,8 +717,7 @@ impl<'a> ser::Serializer for &'a mut CompactSerializer {
         variant: &'static str,
         value: &T,
     ) -> Result<()> {
-        self.writer.write_variant_tag(variant);
-        self.writer.write_byte(b' ');
+        write_tag(&mut self.writer, variant);
         value.serialize(&mut *self)
     }
 
@@ -727,8 +745,8 @@ impl<'a> ser::Serializer for &'a mut CompactSerializer {
         variant: &'static str,
         _len: usize,
     ) -> Result<Self::SerializeTupleVariant> {
-        self.writer.write_variant_tag(variant);
-        self.writer.begin_seq();
+        write_tag(&mut self.writer, variant);
+        self.writer.begin_seq_after_tag();
         Ok(CompactSeqSerializer { ser: self })
     }
 
@@ -749,8 +767,8 @@ impl<'a> ser::Serializer for &'a mut CompactSerializer {
         variant: &'static str,
         _len: usize,
     ) -> Result<Self::SerializeStructVariant> {
-        self.writer.write_variant_tag(variant);
-        self.writer.begin_struct(false);
+        write_tag(&mut self.writer, variant);
+        self.writer.begin_struct_after_tag(false);
         Ok(CompactStructSerializer { ser: self })
     }
 }
diff --git a/crates/styx-format/src/writer.rs b/crates/styx-format/src/writer.rs
index c1b392b..755fd9b 100644
--- a/crates/styx-format/src/writer.rs
+++ b/crates/styx-format/src/writer.rs
@@ -194,6 +194,7 @@ impl StyxWriter {
     /// If `force_multiline` is true, the struct will never be inlined.
     pub fn begin_struct_with_options(&mut self, is_root: bool, force_multiline: bool) {
         self.before_value();
+        self.force_quote_next_scalar = false;
 
         // A struct starts inline if it's appearing as a value on the same line as its key
         // (i.e., not the root and the opening brace is on the same line)
@@ -225,8 +226,8 @@ impl StyxWriter {
     /// Begin a struct directly after a tag (no space before the brace).
     pub fn begin_struct_after_tag(&mut self, force_multiline: bool) {
         // Don't call before_value() - we want no space after the tag
-        // Clear the force_quote flag since the tag's payload is a struct, not a scalar
-        self.force_quote_next_scalar = false;
+        // Clear the tag flags since the tag's payload is a struct, not a scalar
+        self.clear_skip_before_value();
         self.out.push(b'{');
         let open_pos = self.out.len(); // Position right after '{'
         self.stack.push(Context::Struct {
@@ -408,6 +409,7 @@ impl StyxWriter {
     /// Begin a sequence.
     pub fn begin_seq(&mut self) {
         self.before_value();
+        self.force_quote_next_scalar = false;
         self.out.push(b'(');
         // Sequences always start inline (on the same line as their key)
         self.stack.push(Context::Seq {
@@ -443,47 +445,38 @@ impl StyxWriter {
     /// Write a null/unit value.
     pub fn write_null(&mut self) {
         self.before_value();
+        self.force_quote_next_scalar = false;
         self.out.push(b'@');
     }
 
     /// Write a boolean value.
     pub fn write_bool(&mut self, v: bool) {
-        self.before_value();
-        if v {
-            self.out.extend_from_slice(b"true");
-        } else {
-            self.out.extend_from_slice(b"false");
-        }
+        self.write_plain(if v { "true" } else { "false" });
     }
 
     /// Write an i64 value.
     pub fn write_i64(&mut self, v: i64) {
-        self.before_value();
-        self.out.extend_from_slice(v.to_string().as_bytes());
+        self.write_plain(&v.to_string());
     }
 
     /// Write a u64 value.
     pub fn write_u64(&mut self, v: u64) {
-        self.before_value();
-        self.out.extend_from_slice(v.to_string().as_bytes());
+        self.write_plain(&v.to_string());
     }
 
     /// Write an i128 value.
     pub fn write_i128(&mut self, v: i128) {
-        self.before_value();
-        self.out.extend_from_slice(v.to_string().as_bytes());
+        self.write_plain(&v.to_string());
     }
 
     /// Write a u128 value.
     pub fn write_u128(&mut self, v: u128) {
-        self.before_value();
-        self.out.extend_from_slice(v.to_string().as_bytes());
+        self.write_plain(&v.to_string());
     }
 
     /// Write an f64 value.
     pub fn write_f64(&mut self, v: f64) {
-        self.before_value();
-        self.out.extend_from_slice(v.to_string().as_bytes());
+        self.write_plain(&v.to_string());
     }
 
     /// Write a string value with appropriate quoting.
@@ -503,6 +496,7 @@ impl StyxWriter {
     /// Write bytes as hex-encoded string.
     pub fn write_bytes(&mut self, bytes: &[u8]) {
         self.before_value();
+        self.force_quote_next_scalar = false;
         self.out.push(b'"');
         for byte in bytes.iter() {
             let hex = |d: u8| {
@@ -544,6 +538,11 @@ impl StyxWriter {
         self.force_quote_next_scalar = true;
     }
 
+    /// Whether a tag was just written, so that what comes next is its payload.
+    pub fn after_tag(&self) -> bool {
+        self.skip_next_before_value
+    }
+
     /// Clear tag-follow state when no attached payload will be written.
     pub fn clear_skip_before_value(&mut self) {
         self.skip_next_before_value = false;
@@ -552,8 +551,8 @@ impl StyxWriter {
 
     /// Begin a sequence directly after a tag (no space before the paren).
     pub fn begin_seq_after_tag(&mut self) {
-        // Clear the force_quote flag since the tag's payload is a sequence, not a scalar
-        self.force_quote_next_scalar = false;
+        // Clear the tag flags since the tag's payload is a sequence, not a scalar
+        self.clear_skip_before_value();
         self.out.push(b'(');
         // Sequences after tags always start inline
         self.stack.push(Context::Seq {
@@ -825,6 +824,16 @@ impl StyxWriter {
         }
     }
 
+    /// Write text that needs no quotes, except after a tag.
+    fn write_plain(&mut self, text: &str) {
+        self.before_value();
+        if std::mem::take(&mut self.force_quote_next_scalar) {
+            self.write_quoted_string(text);
+        } else {
+            self.out.extend_from_slice(text.as_bytes());
+        }
+    }
+
     /// Handle separator before a value in a container.
     pub fn before_value(&mut self) {
         // If we just wrote a tag, skip spacing for the payload
-- 
2.43.0


From 07fd033896e02a981148f1214423e810c26338dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:09 +0000
Subject: [PATCH 25/59] fix: read serde_styx documents through the event parser

The token-based deserializer could not read tags (so no enum with a payload),
heredocs, quoted or raw numbers, attributes, dotted keys, implicit units, 128-bit
integers or documents with an @schema declaration, took tokens of the next line
for values, and accepted documents that are not valid.
---
 crates/serde_styx/src/de.rs  | 653 ++++++++++++++---------------------
 crates/serde_styx/src/lib.rs |   4 +-
 2 files changed, 262 insertions(+), 395 deletions(-)

diff --git a/crates/serde_styx/src/de.rs b/crates/serde_styx/src/de.rs
index 8527351..77cc16c 100644
--- a/crates/serde_styx/src/de.rs
+++ b/crates/serde_styx/src/de.rs
@@ -1,231 +1,210 @@
 //! Serde deserializer for Styx.
 
+use std::borrow::Cow;
+
 use serde::de::{self, Visitor};
-use styx_parse::{ScalarKind, Span, Token, TokenKind, Tokenizer};
+use styx_parse::{Event, EventKind, Parser, ScalarKind};
 
 use crate::error::{Error, Result};
 
 /// Styx deserializer implementing serde::Deserializer.
+///
+/// Reads the validated events of `styx_parse::Parser`.
 pub struct Deserializer<'de> {
-    lexer: Tokenizer<'de>,
-    /// Peeked token (if any).
-    peeked_token: Option<Token<'de>>,
-    /// Current span for error reporting.
-    current_span: Option<Span>,
-    /// Whether we've started the implicit root struct.
-    root_started: bool,
+    source: &'de str,
+    /// Created by the first access: a scalar, a sequence or an enum is read as a single
+    /// expression, anything else as a document.
+    parser: Option<Parser<'de>>,
+    /// Events put back (last one first).
+    peeked: Vec<EventKind<'de>>,
 }
 
 impl<'de> Deserializer<'de> {
     /// Create a new deserializer for the given source.
     pub fn new(source: &'de str) -> Self {
         Self {
-            lexer: Tokenizer::new(source),
-            peeked_token: None,
-            current_span: None,
-            root_started: false,
+            source,
+            parser: None,
+            peeked: Vec::new(),
         }
     }
 
-    /// Peek at the next token without consuming it.
-    fn peek_token(&mut self) -> Option<&Token<'de>> {
-        if self.peeked_token.is_none() {
-            loop {
-                let token = self.lexer.next_token();
-                match token.kind {
-                    TokenKind::Whitespace | TokenKind::LineComment | TokenKind::Newline => continue,
-                    TokenKind::Eof => {
-                        self.peeked_token = Some(token);
-                        break;
-                    }
-                    _ => {
-                        self.peeked_token = Some(token);
-                        break;
-                    }
-                }
-            }
+    /// At the root, read the source as a single expression rather than as a document.
+    fn expect_expression(&mut self) {
+        if self.parser.is_none() {
+            self.parser = Some(Parser::new_expr(self.source));
         }
-        self.peeked_token.as_ref()
     }
 
-    /// Consume the next token.
-    fn next_token(&mut self) -> Token<'de> {
-        if let Some(token) = self.peeked_token.take() {
-            self.current_span = Some(token.span);
-            return token;
+    /// Consume the next event, skipping comments and structural markers.
+    fn next_event(&mut self) -> Result<Option<EventKind<'de>>> {
+        if let Some(event) = self.peeked.pop() {
+            return Ok(Some(event));
         }
-        loop {
-            let token = self.lexer.next_token();
-            match token.kind {
-                TokenKind::Whitespace | TokenKind::LineComment | TokenKind::Newline => continue,
-                _ => {
-                    self.current_span = Some(token.span);
-                    return token;
+        let source = self.source;
+        let parser = self.parser.get_or_insert_with(|| Parser::new(source));
+        while let Some(Event { span, kind }) = parser.next_event() {
+            match kind {
+                EventKind::DocumentStart
+                | EventKind::DocumentEnd
+                | EventKind::EntryStart
+                | EventKind::EntryEnd
+                | EventKind::Comment { .. }
+                | EventKind::DocComment { .. } => {}
+                EventKind::Error { kind } => {
+                    return Err(Error::new(format!("{kind} at offset {}", span.start)));
                 }
+                kind => return Ok(Some(kind)),
             }
         }
+        Ok(None)
     }
 
-    /// Skip commas between entries.
-    fn skip_comma(&mut self) {
-        if let Some(token) = self.peek_token()
-            && token.kind == TokenKind::Comma
+    /// Look at the next event without consuming it.
+    fn peek_event(&mut self) -> Result<Option<&EventKind<'de>>> {
+        if self.peeked.is_empty()
+            && let Some(event) = self.next_event()?
         {
-            self.next_token();
+            self.peeked.push(event);
         }
+        Ok(self.peeked.last())
     }
 
-    /// Parse a scalar value.
-    fn parse_scalar(&self, text: &'de str, kind: ScalarKind) -> ScalarValue<'de> {
-        match kind {
-            ScalarKind::Bare => {
-                if text == "true" {
-                    ScalarValue::Bool(true)
-                } else if text == "false" {
-                    ScalarValue::Bool(false)
-                } else if text == "null" {
-                    ScalarValue::Null
-                } else if let Ok(n) = text.parse::<i64>() {
-                    ScalarValue::I64(n)
-                } else if let Ok(n) = text.parse::<u64>() {
-                    ScalarValue::U64(n)
-                } else if let Ok(n) = text.parse::<f64>() {
-                    ScalarValue::F64(n)
-                } else {
-                    ScalarValue::Str(text)
-                }
-            }
-            ScalarKind::Quoted => {
-                let inner = self.unescape_quoted(text);
-                ScalarValue::String(inner)
+    /// Consume the given closing event.
+    fn expect_end(&mut self, end: EventKind<'de>) -> Result<()> {
+        match self.next_event()? {
+            Some(event) if event == end => Ok(()),
+            other => Err(self.unexpected("end of value", other)),
+        }
+    }
+
+    /// Consume a scalar and return its content. All scalar kinds are alike: the type being
+    /// deserialized decides how the content is interpreted.
+    fn scalar(&mut self, expected: &str) -> Result<Cow<'de, str>> {
+        self.expect_expression();
+        match self.next_event()? {
+            Some(EventKind::Scalar { value, .. }) => Ok(value),
+            other => Err(self.unexpected(expected, other)),
+        }
+    }
+
+    /// Consume a scalar and parse its content.
+    fn parse<T: std::str::FromStr>(&mut self, expected: &str) -> Result<T> {
+        let text = self.scalar(expected)?;
+        text.parse()
+            .map_err(|_| Error::new(format!("expected {expected}, got {text:?}")))
+    }
+
+    /// Consume an object.
+    fn read_map<V: Visitor<'de>>(&mut self, root: bool, visitor: V) -> Result<V::Value> {
+        match self.next_event()? {
+            Some(EventKind::ObjectStart) => {
+                let value = visitor.visit_map(MapAccess { de: self, root })?;
+                self.expect_end(EventKind::ObjectEnd)?;
+                Ok(value)
             }
-            ScalarKind::Raw | ScalarKind::Heredoc => ScalarValue::Str(text),
+            // An empty document is an empty object
+            None if root => visitor.visit_map(MapAccess { de: self, root }),
+            other => Err(self.unexpected("object {", other)),
         }
     }
 
-    /// Unescape a quoted string.
-    fn unescape_quoted(&self, text: &'de str) -> String {
-        // Remove surrounding quotes
-        let inner = if text.starts_with('"') && text.ends_with('"') && text.len() >= 2 {
-            &text[1..text.len() - 1]
-        } else {
-            text
-        };
+    /// Check that nothing follows the value that was read.
+    pub(crate) fn end(&mut self) -> Result<()> {
+        match self.next_event()? {
+            None => Ok(()),
+            other => Err(self.unexpected("end of input", other)),
+        }
+    }
 
-        styx_format::unescape_quoted(inner).into_owned()
+    /// Consume the events of the next value.
+    fn skip_value(&mut self) -> Result<()> {
+        let mut depth = 0usize;
+        while let Some(event) = self.next_event()? {
+            match event {
+                EventKind::ObjectStart | EventKind::SequenceStart | EventKind::TagStart { .. } => {
+                    depth += 1
+                }
+                EventKind::ObjectEnd | EventKind::SequenceEnd | EventKind::TagEnd => {
+                    depth = depth.saturating_sub(1);
+                }
+                _ => {}
+            }
+            if depth == 0 {
+                break;
+            }
+        }
+        Ok(())
     }
 
-    fn error(&self, msg: impl Into<String>) -> Error {
-        Error::new(msg)
+    fn unexpected(&self, expected: &str, got: Option<EventKind<'de>>) -> Error {
+        match got {
+            Some(EventKind::Scalar { value, .. }) => {
+                Error::new(format!("expected {expected}, got {value:?}"))
+            }
+            Some(EventKind::Unit) => Error::new(format!("expected {expected}, got unit")),
+            Some(EventKind::TagStart { name }) => {
+                Error::new(format!("expected {expected}, got tag @{name}"))
+            }
+            Some(event) => Error::new(format!("expected {expected}, got {event:?}")),
+            None => Error::new(format!("expected {expected}, got end of input")),
+        }
     }
 }
 
-/// Internal scalar value representation.
-enum ScalarValue<'de> {
-    Null,
-    Bool(bool),
-    I64(i64),
-    U64(u64),
-    F64(f64),
-    Str(&'de str),
-    String(String),
+fn visit_text<'de, V: Visitor<'de>>(visitor: V, text: Cow<'de, str>) -> Result<V::Value> {
+    match text {
+        Cow::Borrowed(s) => visitor.visit_borrowed_str(s),
+        Cow::Owned(s) => visitor.visit_string(s),
+    }
 }
 
 impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
     type Error = Error;
 
     fn deserialize_any<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        let token = self.peek_token().cloned();
-        match token {
-            Some(token) => match token.kind {
-                TokenKind::LBrace => self.deserialize_map(visitor),
-                TokenKind::LParen => self.deserialize_seq(visitor),
-                TokenKind::At => {
-                    self.next_token();
-                    // Check if it's a tag or unit
-                    if let Some(next) = self.peek_token() {
-                        if next.kind == TokenKind::BareScalar && next.span.start == token.span.end {
-                            // It's a tag - treat as enum
-                            let name_token = self.next_token();
-                            visitor.visit_enum(EnumAccess {
-                                de: self,
-                                variant: name_token.text,
-                            })
-                        } else {
-                            visitor.visit_unit()
-                        }
-                    } else {
-                        visitor.visit_unit()
-                    }
-                }
-                TokenKind::BareScalar => {
-                    let token = self.next_token();
-                    match self.parse_scalar(token.text, ScalarKind::Bare) {
-                        ScalarValue::Null => visitor.visit_unit(),
-                        ScalarValue::Bool(v) => visitor.visit_bool(v),
-                        ScalarValue::I64(v) => visitor.visit_i64(v),
-                        ScalarValue::U64(v) => visitor.visit_u64(v),
-                        ScalarValue::F64(v) => visitor.visit_f64(v),
-                        ScalarValue::Str(s) => visitor.visit_borrowed_str(s),
-                        ScalarValue::String(s) => visitor.visit_string(s),
-                    }
-                }
-                TokenKind::QuotedScalar => {
-                    let token = self.next_token();
-                    let s = self.unescape_quoted(token.text);
-                    visitor.visit_string(s)
-                }
-                TokenKind::RawScalar => {
-                    let token = self.next_token();
-                    // Extract content from r#"..."#
-                    let text = token.text;
-                    let start = text.find('"').map(|i| i + 1).unwrap_or(0);
-                    let end = text.rfind('"').unwrap_or(text.len());
-                    visitor.visit_borrowed_str(&text[start..end])
-                }
-                TokenKind::HeredocStart => {
-                    self.next_token();
-                    let mut content = String::new();
-                    loop {
-                        let next = self.next_token();
-                        match next.kind {
-                            TokenKind::HeredocContent => content.push_str(next.text),
-                            TokenKind::HeredocEnd => break,
-                            _ => break,
-                        }
-                    }
-                    visitor.visit_string(content)
-                }
-                TokenKind::Eof => {
-                    // At EOF, try to deserialize as empty struct if at root
-                    if !self.root_started {
-                        self.root_started = true;
-                        visitor.visit_map(MapAccess { de: self })
-                    } else {
-                        Err(self.error("unexpected end of input"))
-                    }
-                }
-                _ => {
-                    // At root level, start implicit struct
-                    if !self.root_started {
-                        self.root_started = true;
-                        visitor.visit_map(MapAccess { de: self })
-                    } else {
-                        Err(self.error(format!("unexpected token: {:?}", token.kind)))
-                    }
+        if self.source.trim_start().starts_with('(') {
+            // Only an expression can start with a sequence
+            self.expect_expression();
+        }
+        let root = self.parser.is_none();
+        match self.peek_event()? {
+            Some(EventKind::ObjectStart) => self.read_map(root, visitor),
+            Some(EventKind::SequenceStart) => self.deserialize_seq(visitor),
+            Some(EventKind::TagStart { .. }) => self.deserialize_enum("", &[], visitor),
+            Some(EventKind::Unit) => self.deserialize_unit(visitor),
+            Some(EventKind::Scalar {
+                kind: ScalarKind::Bare,
+                ..
+            }) => {
+                let text = self.scalar("scalar")?;
+                if text == "true" {
+                    visitor.visit_bool(true)
+                } else if text == "false" {
+                    visitor.visit_bool(false)
+                } else if text == "null" {
+                    visitor.visit_unit()
+                } else if let Ok(n) = text.parse() {
+                    visitor.visit_i64(n)
+                } else if let Ok(n) = text.parse() {
+                    visitor.visit_u64(n)
+                } else if let Ok(n) = text.parse() {
+                    visitor.visit_f64(n)
+                } else {
+                    visit_text(visitor, text)
                 }
-            },
-            None => Err(self.error("unexpected end of input")),
+            }
+            Some(EventKind::Scalar { .. }) => self.deserialize_str(visitor),
+            None if root => self.read_map(root, visitor),
+            _ => {
+                let event = self.next_event()?;
+                Err(self.unexpected("value", event))
+            }
         }
     }
 
     fn deserialize_bool<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        let token = self.next_token();
-        match token.text {
-            "true" => visitor.visit_bool(true),
-            "false" => visitor.visit_bool(false),
-            _ => Err(self.error(format!("expected bool, got {:?}", token.text))),
-        }
+        visitor.visit_bool(self.parse("bool")?)
     }
 
     fn deserialize_i8<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
@@ -241,12 +220,11 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
     }
 
     fn deserialize_i64<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        let token = self.next_token();
-        let n: i64 = token
-            .text
-            .parse()
-            .map_err(|_| self.error(format!("expected integer, got {:?}", token.text)))?;
-        visitor.visit_i64(n)
+        visitor.visit_i64(self.parse("integer")?)
+    }
+
+    fn deserialize_i128<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
+        visitor.visit_i128(self.parse("integer")?)
     }
 
     fn deserialize_u8<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
@@ -262,12 +240,11 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
     }
 
     fn deserialize_u64<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        let token = self.next_token();
-        let n: u64 = token
-            .text
-            .parse()
-            .map_err(|_| self.error(format!("expected unsigned integer, got {:?}", token.text)))?;
-        visitor.visit_u64(n)
+        visitor.visit_u64(self.parse("unsigned integer")?)
+    }
+
+    fn deserialize_u128<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
+        visitor.visit_u128(self.parse("unsigned integer")?)
     }
 
     fn deserialize_f32<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
@@ -275,43 +252,15 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
     }
 
     fn deserialize_f64<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        let token = self.next_token();
-        let n: f64 = token
-            .text
-            .parse()
-            .map_err(|_| self.error(format!("expected float, got {:?}", token.text)))?;
-        visitor.visit_f64(n)
+        visitor.visit_f64(self.parse("float")?)
     }
 
     fn deserialize_char<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        let token = self.next_token();
-        let s = if token.kind == TokenKind::QuotedScalar {
-            self.unescape_quoted(token.text)
-        } else {
-            token.text.to_string()
-        };
-        let c = s
-            .chars()
-            .next()
-            .ok_or_else(|| self.error("expected char"))?;
-        visitor.visit_char(c)
+        visitor.visit_char(self.parse("char")?)
     }
 
     fn deserialize_str<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        let token = self.next_token();
-        match token.kind {
-            TokenKind::QuotedScalar => {
-                let s = self.unescape_quoted(token.text);
-                visitor.visit_string(s)
-            }
-            TokenKind::RawScalar => {
-                let text = token.text;
-                let start = text.find('"').map(|i| i + 1).unwrap_or(0);
-                let end = text.rfind('"').unwrap_or(text.len());
-                visitor.visit_borrowed_str(&text[start..end])
-            }
-            _ => visitor.visit_borrowed_str(token.text),
-        }
+        visit_text(visitor, self.scalar("string")?)
     }
 
     fn deserialize_string<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
@@ -320,18 +269,12 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
 
     fn deserialize_bytes<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
         // Decode hex string
-        let token = self.next_token();
-        let text = if token.kind == TokenKind::QuotedScalar {
-            &token.text[1..token.text.len() - 1]
-        } else {
-            token.text
-        };
-
+        let text = self.scalar("bytes")?;
         let mut bytes = Vec::with_capacity(text.len() / 2);
         let mut chars = text.chars();
         while let (Some(a), Some(b)) = (chars.next(), chars.next()) {
             let byte = u8::from_str_radix(&format!("{}{}", a, b), 16)
-                .map_err(|_| self.error("invalid hex in bytes"))?;
+                .map_err(|_| Error::new("invalid hex in bytes"))?;
             bytes.push(byte);
         }
         visitor.visit_bytes(&bytes)
@@ -342,34 +285,23 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
     }
 
     fn deserialize_option<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        if let Some(token) = self.peek_token()
-            && token.kind == TokenKind::At
-        {
-            // Check if it's just @ (unit/none) or @tag
-            let token = self.next_token();
-            if let Some(next) = self.peek_token()
-                && next.kind == TokenKind::BareScalar
-                && next.span.start == token.span.end
-            {
-                // It's a tag - put back and deserialize as Some
-                self.peeked_token = Some(Token {
-                    kind: TokenKind::At,
-                    text: "@",
-                    span: token.span,
-                });
-                return visitor.visit_some(self);
+        if self.parser.is_none() {
+            // At the root, `@` alone is none; the type inside decides how to read anything else
+            if self.source.trim() == "@" {
+                return visitor.visit_none();
             }
+        } else if self.peek_event()? == Some(&EventKind::Unit) {
+            self.next_event()?;
             return visitor.visit_none();
         }
         visitor.visit_some(self)
     }
 
     fn deserialize_unit<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        let token = self.next_token();
-        if token.kind == TokenKind::At {
-            visitor.visit_unit()
-        } else {
-            Err(self.error("expected unit (@)"))
+        self.expect_expression();
+        match self.next_event()? {
+            Some(EventKind::Unit) => visitor.visit_unit(),
+            other => Err(self.unexpected("unit (@)", other)),
         }
     }
 
@@ -390,11 +322,14 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
     }
 
     fn deserialize_seq<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        let token = self.next_token();
-        if token.kind != TokenKind::LParen {
-            return Err(self.error("expected sequence ("));
+        self.expect_expression();
+        match self.next_event()? {
+            Some(EventKind::SequenceStart) => {}
+            other => return Err(self.unexpected("sequence (", other)),
         }
-        visitor.visit_seq(SeqAccess { de: self })
+        let value = visitor.visit_seq(SeqAccess { de: self })?;
+        self.expect_end(EventKind::SequenceEnd)?;
+        Ok(value)
     }
 
     fn deserialize_tuple<V: Visitor<'de>>(self, _len: usize, visitor: V) -> Result<V::Value> {
@@ -411,12 +346,8 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
     }
 
     fn deserialize_map<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        if let Some(token) = self.peek_token()
-            && token.kind == TokenKind::LBrace
-        {
-            self.next_token();
-        }
-        visitor.visit_map(MapAccess { de: self })
+        let root = self.parser.is_none();
+        self.read_map(root, visitor)
     }
 
     fn deserialize_struct<V: Visitor<'de>>(
@@ -425,19 +356,7 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
         _fields: &'static [&'static str],
         visitor: V,
     ) -> Result<V::Value> {
-        // Check if we're at root level (no braces) or explicit struct
-        if let Some(token) = self.peek_token()
-            && token.kind == TokenKind::LBrace
-        {
-            self.next_token();
-            return visitor.visit_map(MapAccess { de: self });
-        }
-
-        // Implicit root struct
-        if !self.root_started {
-            self.root_started = true;
-        }
-        visitor.visit_map(MapAccess { de: self })
+        self.deserialize_map(visitor)
     }
 
     fn deserialize_enum<V: Visitor<'de>>(
@@ -446,38 +365,28 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
         _variants: &'static [&'static str],
         visitor: V,
     ) -> Result<V::Value> {
-        let token = self.next_token();
-        if token.kind == TokenKind::At {
-            // Tagged enum
-            let name_token = self.next_token();
-            if name_token.kind != TokenKind::BareScalar {
-                return Err(self.error("expected variant name after @"));
+        self.expect_expression();
+        match self.next_event()? {
+            Some(EventKind::TagStart { name }) => {
+                let variant = Cow::Borrowed(name);
+                let value = visitor.visit_enum(EnumAccess { de: self, variant })?;
+                self.expect_end(EventKind::TagEnd)?;
+                Ok(value)
             }
-            visitor.visit_enum(EnumAccess {
-                de: self,
-                variant: name_token.text,
-            })
-        } else if token.kind == TokenKind::BareScalar {
             // Untagged string variant
-            visitor.visit_enum(EnumAccess {
-                de: self,
-                variant: token.text,
-            })
-        } else {
-            Err(self.error("expected enum variant"))
+            Some(EventKind::Scalar { value, .. }) => {
+                self.peeked.push(EventKind::Unit);
+                visitor.visit_enum(EnumAccess {
+                    de: self,
+                    variant: value,
+                })
+            }
+            other => Err(self.unexpected("enum variant", other)),
         }
     }
 
     fn deserialize_identifier<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        let token = self.next_token();
-        match token.kind {
-            TokenKind::BareScalar => visitor.visit_borrowed_str(token.text),
-            TokenKind::QuotedScalar => {
-                let s = self.unescape_quoted(token.text);
-                visitor.visit_string(s)
-            }
-            _ => Err(self.error("expected identifier")),
-        }
+        self.deserialize_str(visitor)
     }
 
     fn deserialize_ignored_any<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
@@ -487,62 +396,6 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
     }
 }
 
-impl<'de> Deserializer<'de> {
-    fn skip_value(&mut self) -> Result<()> {
-        let token = self.next_token();
-        match token.kind {
-            TokenKind::LBrace => {
-                let mut depth = 1;
-                while depth > 0 {
-                    let t = self.next_token();
-                    match t.kind {
-                        TokenKind::LBrace => depth += 1,
-                        TokenKind::RBrace => depth -= 1,
-                        TokenKind::Eof => break,
-                        _ => {}
-                    }
-                }
-            }
-            TokenKind::LParen => {
-                let mut depth = 1;
-                while depth > 0 {
-                    let t = self.next_token();
-                    match t.kind {
-                        TokenKind::LParen => depth += 1,
-                        TokenKind::RParen => depth -= 1,
-                        TokenKind::Eof => break,
-                        _ => {}
-                    }
-                }
-            }
-            TokenKind::At => {
-                // Could be unit or tag with value
-                if let Some(next) = self.peek_token()
-                    && next.kind == TokenKind::BareScalar
-                {
-                    self.next_token();
-                    // Check for payload
-                    if let Some(next) = self.peek_token()
-                        && !matches!(
-                            next.kind,
-                            TokenKind::RBrace
-                                | TokenKind::RParen
-                                | TokenKind::Comma
-                                | TokenKind::Eof
-                        )
-                    {
-                        self.skip_value()?;
-                    }
-                }
-            }
-            _ => {
-                // Scalar - already consumed
-            }
-        }
-        Ok(())
-    }
-}
-
 /// Sequence access for serde.
 struct SeqAccess<'a, 'de> {
     de: &'a mut Deserializer<'de>,
@@ -555,18 +408,9 @@ impl<'a, 'de> de::SeqAccess<'de> for SeqAccess<'a, 'de> {
     where
         T: de::DeserializeSeed<'de>,
     {
-        self.de.skip_comma();
-
-        if let Some(token) = self.de.peek_token() {
-            if token.kind == TokenKind::RParen {
-                self.de.next_token();
-                return Ok(None);
-            }
-            if token.kind == TokenKind::Eof {
-                return Err(self.de.error("unexpected end of sequence"));
-            }
+        if self.de.peek_event()? == Some(&EventKind::SequenceEnd) {
+            return Ok(None);
         }
-
         seed.deserialize(&mut *self.de).map(Some)
     }
 }
@@ -574,6 +418,8 @@ impl<'a, 'de> de::SeqAccess<'de> for SeqAccess<'a, 'de> {
 /// Map access for serde.
 struct MapAccess<'a, 'de> {
     de: &'a mut Deserializer<'de>,
+    /// Whether this is the root object, where `@schema` declares the schema of the document.
+    root: bool,
 }
 
 impl<'a, 'de> de::MapAccess<'de> for MapAccess<'a, 'de> {
@@ -583,31 +429,37 @@ impl<'a, 'de> de::MapAccess<'de> for MapAccess<'a, 'de> {
     where
         K: de::DeserializeSeed<'de>,
     {
-        self.de.skip_comma();
-
-        let token_kind = self.de.peek_token().map(|t| t.kind);
-        match token_kind {
-            Some(TokenKind::RBrace) => {
-                self.de.next_token();
-                return Ok(None);
-            }
-            Some(TokenKind::Eof) | None => {
-                return Ok(None);
-            }
-            Some(TokenKind::BareScalar) | Some(TokenKind::QuotedScalar) => {
-                // This is a key
-            }
-            Some(TokenKind::DocComment) => {
-                // Skip doc comments
-                self.de.next_token();
-                return self.next_key_seed(seed);
-            }
-            Some(kind) => {
-                return Err(self.de.error(format!("expected key, got {:?}", kind)));
+        loop {
+            match self.de.next_event()? {
+                Some(EventKind::Key {
+                    tag: None,
+                    payload: Some(value),
+                    kind,
+                }) => {
+                    // Keys are read like scalars
+                    self.de.peeked.push(EventKind::Scalar { value, kind });
+                    return seed.deserialize(&mut *self.de).map(Some);
+                }
+                Some(EventKind::Key {
+                    tag: None,
+                    payload: None,
+                    ..
+                }) => {
+                    self.de.peeked.push(EventKind::Unit);
+                    return seed.deserialize(&mut *self.de).map(Some);
+                }
+                Some(EventKind::Key {
+                    tag: Some("schema"),
+                    ..
+                }) if self.root => self.de.skip_value()?,
+                Some(EventKind::ObjectEnd) => {
+                    self.de.peeked.push(EventKind::ObjectEnd);
+                    return Ok(None);
+                }
+                None if self.root => return Ok(None),
+                other => return Err(self.de.unexpected("key", other)),
             }
         }
-
-        seed.deserialize(&mut *self.de).map(Some)
     }
 
     fn next_value_seed<V>(&mut self, seed: V) -> Result<V::Value>
@@ -621,7 +473,7 @@ impl<'a, 'de> de::MapAccess<'de> for MapAccess<'a, 'de> {
 /// Enum access for serde.
 struct EnumAccess<'a, 'de> {
     de: &'a mut Deserializer<'de>,
-    variant: &'de str,
+    variant: Cow<'de, str>,
 }
 
 impl<'a, 'de> de::EnumAccess<'de> for EnumAccess<'a, 'de> {
@@ -632,7 +484,10 @@ impl<'a, 'de> de::EnumAccess<'de> for EnumAccess<'a, 'de> {
     where
         V: de::DeserializeSeed<'de>,
     {
-        let variant = seed.deserialize(de::value::BorrowedStrDeserializer::new(self.variant))?;
+        let variant = match self.variant {
+            Cow::Borrowed(s) => seed.deserialize(de::value::BorrowedStrDeserializer::new(s)),
+            Cow::Owned(s) => seed.deserialize(de::value::StringDeserializer::new(s)),
+        }?;
         Ok((variant, VariantAccess { de: self.de }))
     }
 }
@@ -642,31 +497,41 @@ struct VariantAccess<'a, 'de> {
     de: &'a mut Deserializer<'de>,
 }
 
+impl<'a, 'de> VariantAccess<'a, 'de> {
+    /// A tag without a payload carries unit.
+    fn payload(self) -> Result<&'a mut Deserializer<'de>> {
+        if self.de.peek_event()? == Some(&EventKind::TagEnd) {
+            self.de.peeked.push(EventKind::Unit);
+        }
+        Ok(self.de)
+    }
+}
+
 impl<'a, 'de> de::VariantAccess<'de> for VariantAccess<'a, 'de> {
     type Error = Error;
 
     fn unit_variant(self) -> Result<()> {
-        Ok(())
+        de::Deserialize::deserialize(self.payload()?)
     }
 
     fn newtype_variant_seed<T>(self, seed: T) -> Result<T::Value>
     where
         T: de::DeserializeSeed<'de>,
     {
-        seed.deserialize(self.de)
+        seed.deserialize(self.payload()?)
     }
 
     fn tuple_variant<V>(self, _len: usize, visitor: V) -> Result<V::Value>
     where
         V: Visitor<'de>,
     {
-        de::Deserializer::deserialize_seq(self.de, visitor)
+        de::Deserializer::deserialize_seq(self.payload()?, visitor)
     }
 
     fn struct_variant<V>(self, _fields: &'static [&'static str], visitor: V) -> Result<V::Value>
     where
         V: Visitor<'de>,
     {
-        de::Deserializer::deserialize_map(self.de, visitor)
+        de::Deserializer::deserialize_map(self.payload()?, visitor)
     }
 }
diff --git a/crates/serde_styx/src/lib.rs b/crates/serde_styx/src/lib.rs
index a73e871..3885910 100644
--- a/crates/serde_styx/src/lib.rs
+++ b/crates/serde_styx/src/lib.rs
@@ -72,7 +72,9 @@ where
     T: serde::de::Deserialize<'de>,
 {
     let mut deserializer = Deserializer::new(s);
-    T::deserialize(&mut deserializer)
+    let value = T::deserialize(&mut deserializer)?;
+    deserializer.end()?;
+    Ok(value)
 }
 
 /// Serialize a value to a Styx string.
-- 
2.43.0


From a894b3b41ac0223fd1519fb30a29d38488230f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:11 +0000
Subject: [PATCH 26/59] fix: round f32 once when serde_styx reads it

---
 crates/serde_styx/src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/serde_styx/src/de.rs b/crates/serde_styx/src/de.rs
index 77cc16c..1a57aaf 100644
--- a/crates/serde_styx/src/de.rs
+++ b/crates/serde_styx/src/de.rs
@@ -248,7 +248,7 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
     }
 
     fn deserialize_f32<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        self.deserialize_f64(visitor)
+        visitor.visit_f32(self.parse("float")?)
     }
 
     fn deserialize_f64<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-- 
2.43.0


From e7290be618a685b82f6b946b131335b9e1cf06a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:42 +0000
Subject: [PATCH 27/59] fix: validate enum payloads with their span, unit
 payloads and a fixed fallback order

---
 crates/facet-styx/src/schema_validate.rs | 45 +++++++++++++++---------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/crates/facet-styx/src/schema_validate.rs b/crates/facet-styx/src/schema_validate.rs
index fca8df7..1aab4c5 100644
--- a/crates/facet-styx/src/schema_validate.rs
+++ b/crates/facet-styx/src/schema_validate.rs
@@ -794,7 +794,7 @@ impl<'a> Validator<'a> {
         let payload_value = value.payload.as_ref().map(|p| Value {
             tag: None,
             payload: Some(p.clone()),
-            span: None,
+            span: value.span,
         });
 
         let expected_variants: Vec<String> = schema.0.keys().map(|k| k.value.clone()).collect();
@@ -802,14 +802,16 @@ impl<'a> Validator<'a> {
         match schema.0.get(&Documented::new(tag.to_string())) {
             Some(variant_schema) => {
                 match (&payload_value, variant_schema) {
-                    (None, Schema::Unit) => {
-                        // @variant with unit schema - OK
-                    }
                     (None, Schema::Type { name: Some(n) }) if n == "unit" => {
                         // @variant with @unit type ref - OK
                     }
-                    (None, Schema::Type { name: None }) => {
-                        // @variant with @ schema - OK (unit)
+                    (None, _)
+                        if self
+                            .validate_value(&Value::unit(), variant_schema, path)
+                            .is_valid() =>
+                    {
+                        // No payload is the unit payload: OK where the variant's schema
+                        // accepts unit (@unit, @, @optional(...), @any, ...)
                     }
                     (Some(p), _) => {
                         let variant_path = if path.is_empty() {
@@ -863,22 +865,31 @@ impl<'a> Validator<'a> {
         // Only scalars can fall back
         let text = value.scalar_text()?;
 
-        // Look for a variant whose schema matches this value
-        for variant_schema in schema.0.values() {
-            match variant_schema {
+        // Variants whose schema may match this value, in a fixed order (the map has none)
+        let mut candidates: Vec<(&str, &'s Schema)> = schema
+            .0
+            .iter()
+            .filter(|(_, variant_schema)| match variant_schema {
                 // @string accepts any scalar
-                Schema::String(_) => return Some(variant_schema),
+                Schema::String(_) => true,
                 // @int accepts scalars that parse as integers
-                Schema::Int(_) if text.parse::<i64>().is_ok() => return Some(variant_schema),
+                Schema::Int(_) => text.parse::<i128>().is_ok(),
                 // @float accepts scalars that parse as floats
-                Schema::Float(_) if text.parse::<f64>().is_ok() => return Some(variant_schema),
+                Schema::Float(_) => text.parse::<f64>().is_ok(),
                 // @bool accepts "true" or "false"
-                Schema::Bool if text == "true" || text == "false" => return Some(variant_schema),
-                _ => continue,
-            }
-        }
+                Schema::Bool => text == "true" || text == "false",
+                _ => false,
+            })
+            .map(|(name, variant_schema)| (name.value.as_str(), variant_schema))
+            .collect();
+        candidates.sort_by_key(|(name, _)| *name);
 
-        None
+        // Prefer one that accepts the value, constraints included
+        candidates
+            .iter()
+            .find(|(_, s)| self.validate_value(value, s, "").is_valid())
+            .or(candidates.first())
+            .map(|(_, s)| *s)
     }
 
     fn validate_one_of(&self, value: &Value, schema: &OneOfSchema, path: &str) -> ValidationResult {
-- 
2.43.0


From 9fd788dd3a04df41e9a94233ac0a4cb5818c6a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:42 +0000
Subject: [PATCH 28/59] fix: stop validation of types defined as themselves
 instead of overflowing the stack

---
 crates/facet-styx/src/schema_validate.rs | 25 +++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/crates/facet-styx/src/schema_validate.rs b/crates/facet-styx/src/schema_validate.rs
index 1aab4c5..151727e 100644
--- a/crates/facet-styx/src/schema_validate.rs
+++ b/crates/facet-styx/src/schema_validate.rs
@@ -2,6 +2,7 @@
 //!
 //! Validates `styx_tree::Value` instances against `Schema` definitions.
 
+use std::cell::RefCell;
 use std::collections::HashSet;
 
 use styx_tree::{Payload, Value};
@@ -68,12 +69,18 @@ use crate::schema_types::{
 pub struct Validator<'a> {
     /// The schema file containing type definitions.
     schema_file: &'a SchemaFile,
+    /// Named types being matched against a value, to stop types that refer to themselves
+    /// without consuming any of the value (e.g. `A @optional(@A)`).
+    active: RefCell<Vec<(String, *const Value)>>,
 }
 
 impl<'a> Validator<'a> {
     /// Create a new validator with the given schema.
     pub fn new(schema_file: &'a SchemaFile) -> Self {
-        Self { schema_file }
+        Self {
+            schema_file,
+            active: RefCell::new(Vec::new()),
+        }
     }
 
     /// Validate a document against the schema's root type.
@@ -1075,7 +1082,23 @@ impl<'a> Validator<'a> {
             Some(name) => {
                 // Named type reference - look up in schema
                 if let Some(type_schema) = self.schema_file.schema.get(&Some(name.to_string())) {
+                    let entry = (name.to_string(), value as *const Value);
+                    if self.active.borrow().contains(&entry) {
+                        result.error(
+                            ValidationError::new(
+                                path,
+                                ValidationErrorKind::SchemaError {
+                                    reason: format!("type '{name}' refers to itself"),
+                                },
+                                format!("type '{name}' is defined as itself"),
+                            )
+                            .with_span(value.span),
+                        );
+                        return result;
+                    }
+                    self.active.borrow_mut().push(entry);
                     result.merge(self.validate_value(value, type_schema, path));
+                    self.active.borrow_mut().pop();
                 } else {
                     result.error(
                         ValidationError::new(
-- 
2.43.0


From ac3e42ad9827025c165e810f4f2538a8899bd702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:42 +0000
Subject: [PATCH 29/59] fix: schema floats are finite JSON numbers

---
 crates/facet-styx/src/schema_validate.rs | 31 +++++++++++++++++++++---
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/crates/facet-styx/src/schema_validate.rs b/crates/facet-styx/src/schema_validate.rs
index 151727e..b759d56 100644
--- a/crates/facet-styx/src/schema_validate.rs
+++ b/crates/facet-styx/src/schema_validate.rs
@@ -65,6 +65,29 @@ use crate::schema_types::{
     SchemaFile, SeqSchema, StringConstraints, TupleSchema, UnionSchema,
 };
 
+/// Parse a float as schemas define it: JSON number syntax, finite.
+fn parse_float(text: &str) -> Option<f64> {
+    let digits = |s: &str| !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit());
+
+    let unsigned = text.strip_prefix('-').unwrap_or(text);
+    let (mantissa, exponent) = match unsigned.split_once(['e', 'E']) {
+        Some((m, e)) => (m, Some(e.strip_prefix(['+', '-']).unwrap_or(e))),
+        None => (unsigned, None),
+    };
+    let (integer, fraction) = match mantissa.split_once('.') {
+        Some((i, f)) => (i, Some(f)),
+        None => (mantissa, None),
+    };
+    if !digits(integer)
+        || (integer.len() > 1 && integer.starts_with('0'))
+        || fraction.is_some_and(|f| !digits(f))
+        || exponent.is_some_and(|e| !digits(e))
+    {
+        return None;
+    }
+    text.parse::<f64>().ok().filter(|n| n.is_finite())
+}
+
 /// Validator for Styx documents.
 pub struct Validator<'a> {
     /// The schema file containing type definitions.
@@ -326,9 +349,9 @@ impl<'a> Validator<'a> {
             }
         };
 
-        let parsed = match text.parse::<f64>() {
-            Ok(n) => n,
-            Err(_) => {
+        let parsed = match parse_float(text) {
+            Some(n) => n,
+            None => {
                 result.error(
                     ValidationError::new(
                         path,
@@ -882,7 +905,7 @@ impl<'a> Validator<'a> {
                 // @int accepts scalars that parse as integers
                 Schema::Int(_) => text.parse::<i128>().is_ok(),
                 // @float accepts scalars that parse as floats
-                Schema::Float(_) => text.parse::<f64>().is_ok(),
+                Schema::Float(_) => parse_float(text).is_some(),
                 // @bool accepts "true" or "false"
                 Schema::Bool => text == "true" || text == "false",
                 _ => false,
-- 
2.43.0


From 9e447cd6ddfee4cd423f1e665a227189dc71f518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:42 +0000
Subject: [PATCH 30/59] fix: schema string lengths count characters; deprecated
 optional fields stay optional

---
 crates/facet-styx/src/schema_validate.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/crates/facet-styx/src/schema_validate.rs b/crates/facet-styx/src/schema_validate.rs
index b759d56..8f6ac6e 100644
--- a/crates/facet-styx/src/schema_validate.rs
+++ b/crates/facet-styx/src/schema_validate.rs
@@ -214,14 +214,15 @@ impl<'a> Validator<'a> {
 
         // Apply constraints if present
         if let Some(c) = constraints {
+            let len = text.chars().count();
             if let Some(min) = c.min_len
-                && text.len() < min
+                && len < min
             {
                 result.error(
                     ValidationError::new(
                         path,
                         ValidationErrorKind::InvalidValue {
-                            reason: format!("string length {} < minimum {}", text.len(), min),
+                            reason: format!("string length {} < minimum {}", len, min),
                         },
                         format!("string too short (min length: {})", min),
                     )
@@ -229,13 +230,13 @@ impl<'a> Validator<'a> {
                 );
             }
             if let Some(max) = c.max_len
-                && text.len() > max
+                && len > max
             {
                 result.error(
                     ValidationError::new(
                         path,
                         ValidationErrorKind::InvalidValue {
-                            reason: format!("string length {} > maximum {}", text.len(), max),
+                            reason: format!("string length {} > maximum {}", len, max),
                         },
                         format!("string too long (max length: {})", max),
                     )
@@ -555,8 +556,12 @@ impl<'a> Validator<'a> {
             };
 
             if !seen_fields.contains(&Some(name)) {
-                // Optional and Default fields are not required
-                if !matches!(field_schema, Schema::Optional(_) | Schema::Default(_)) {
+                // Optional and Default fields are not required, deprecated or not
+                let mut inner = field_schema;
+                while let Schema::Deprecated(deprecated) = inner {
+                    inner = &deprecated.0.1.value;
+                }
+                if !matches!(inner, Schema::Optional(_) | Schema::Default(_)) {
                     let field_path = if path.is_empty() {
                         name.to_string()
                     } else {
-- 
2.43.0


From 17662e99f3a546154fe3b9ad2f7b70d93a3fcdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:48 +0000
Subject: [PATCH 31/59] fix: validate objects with the fields of their @flatten
 entries

---
 crates/facet-styx/src/schema_validate.rs | 94 ++++++++++++++++++++----
 1 file changed, 81 insertions(+), 13 deletions(-)

diff --git a/crates/facet-styx/src/schema_validate.rs b/crates/facet-styx/src/schema_validate.rs
index 8f6ac6e..2a4e658 100644
--- a/crates/facet-styx/src/schema_validate.rs
+++ b/crates/facet-styx/src/schema_validate.rs
@@ -481,12 +481,34 @@ impl<'a> Validator<'a> {
             }
         };
 
+        // The fields of the object, those of flattened types included
+        let fields = self.object_fields(schema);
+        let mut defined: HashSet<&ObjectKey> = HashSet::new();
+        for (key, _) in &fields {
+            if !defined.insert(&key.value) {
+                let name = key.value.name().unwrap_or("@");
+                result.error(
+                    ValidationError::new(
+                        path,
+                        ValidationErrorKind::SchemaError {
+                            reason: format!("flattened field '{name}' conflicts"),
+                        },
+                        format!("field '{name}' is defined more than once by @flatten"),
+                    )
+                    .with_span(value.span),
+                );
+            }
+        }
+
         let mut seen_fields: HashSet<Option<&str>> = HashSet::new();
         // Look up catch-all schema - find any key that is a typed pattern or unit
-        let additional_schema = schema
-            .0
-            .iter()
-            .find_map(|(k, v)| if k.value.tag.is_some() { Some(v) } else { None });
+        let additional_schema = fields.iter().find_map(|(k, v)| {
+            if k.value.tag.is_some() {
+                Some(*v)
+            } else {
+                None
+            }
+        });
 
         for entry in &obj.entries {
             let key_opt: Option<&str> = if entry.key.is_unit() {
@@ -516,18 +538,17 @@ impl<'a> Validator<'a> {
 
             seen_fields.insert(key_opt);
 
-            // Look up by Documented<ObjectKey> - for named fields
-            let lookup_key = Documented::new(ObjectKey::named(key_opt.unwrap_or("")));
-            if let Some(field_schema) = schema.0.get(&lookup_key) {
+            // Look up by ObjectKey - for named fields
+            let lookup_key = ObjectKey::named(key_opt.unwrap_or(""));
+            if let Some((_, field_schema)) = fields.iter().find(|(k, _)| k.value == lookup_key) {
                 result.merge(self.validate_value(&entry.value, field_schema, &field_path));
             } else if let Some(add_schema) = additional_schema {
                 result.merge(self.validate_value(&entry.value, add_schema, &field_path));
             } else {
                 // Collect valid field names for error message
-                let valid_fields: Vec<String> = schema
-                    .0
-                    .keys()
-                    .filter_map(|k| k.value.name().map(|s| s.to_string()))
+                let valid_fields: Vec<String> = fields
+                    .iter()
+                    .filter_map(|(k, _)| k.value.name().map(|s| s.to_string()))
                     .collect();
 
                 // Try to find a similar field name (typo detection)
@@ -549,7 +570,7 @@ impl<'a> Validator<'a> {
         }
 
         // Check for missing required fields
-        for (field_name_doc, field_schema) in &schema.0 {
+        for (field_name_doc, field_schema) in &fields {
             // Skip catch-all fields (typed patterns like @string)
             let Some(name) = field_name_doc.value.name() else {
                 continue;
@@ -557,7 +578,7 @@ impl<'a> Validator<'a> {
 
             if !seen_fields.contains(&Some(name)) {
                 // Optional and Default fields are not required, deprecated or not
-                let mut inner = field_schema;
+                let mut inner = *field_schema;
                 while let Schema::Deprecated(deprecated) = inner {
                     inner = &deprecated.0.1.value;
                 }
@@ -584,6 +605,53 @@ impl<'a> Validator<'a> {
         result
     }
 
+    /// The fields of an object schema, with `@flatten` fields replaced by the fields of the
+    /// object type they name.
+    fn object_fields<'s>(
+        &'s self,
+        schema: &'s ObjectSchema,
+    ) -> Vec<(&'s Documented<ObjectKey>, &'s Schema)> {
+        fn collect<'s>(
+            validator: &'s Validator<'_>,
+            schema: &'s ObjectSchema,
+            within: &mut Vec<*const ObjectSchema>,
+            fields: &mut Vec<(&'s Documented<ObjectKey>, &'s Schema)>,
+        ) {
+            within.push(schema);
+            for (key, field_schema) in &schema.0 {
+                match validator.flattened_object(field_schema) {
+                    Some(inner) if !within.contains(&(inner as *const ObjectSchema)) => {
+                        collect(validator, inner, within, fields);
+                    }
+                    _ => fields.push((key, field_schema)),
+                }
+            }
+            within.pop();
+        }
+
+        let mut fields = Vec::new();
+        collect(self, schema, &mut Vec::new(), &mut fields);
+        fields
+    }
+
+    /// The object schema a `@flatten(...)` names, following type references.
+    fn flattened_object<'s>(&'s self, schema: &'s Schema) -> Option<&'s ObjectSchema> {
+        let Schema::Flatten(flatten) = schema else {
+            return None;
+        };
+        let mut inner: &Schema = &flatten.0.0.value;
+        for _ in 0..=self.schema_file.schema.len() {
+            match inner {
+                Schema::Object(object) => return Some(object),
+                Schema::Type { name: Some(name) } => {
+                    inner = self.schema_file.schema.get(&Some(name.clone()))?;
+                }
+                _ => return None,
+            }
+        }
+        None
+    }
+
     fn validate_seq(&self, value: &Value, schema: &SeqSchema, path: &str) -> ValidationResult {
         let mut result = ValidationResult::ok();
 
-- 
2.43.0


From e61b507d1a4568d6c467f645e72e1e3dd44b4bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:48 +0000
Subject: [PATCH 32/59] fix: compare @one-of values by the text they denote

---
 crates/facet-styx/src/schema_types.rs    | 17 +++++++++++++++++
 crates/facet-styx/src/schema_validate.rs | 10 ++++++----
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/crates/facet-styx/src/schema_types.rs b/crates/facet-styx/src/schema_types.rs
index 813f088..0653d9f 100644
--- a/crates/facet-styx/src/schema_types.rs
+++ b/crates/facet-styx/src/schema_types.rs
@@ -341,6 +341,23 @@ impl RawStyx {
     pub fn as_str(&self) -> &str {
         &self.0
     }
+
+    /// The text the expression denotes if it is a scalar (`"a b"` denotes `a b`);
+    /// the expression itself otherwise.
+    pub fn scalar_text(&self) -> String {
+        let mut text = None;
+        let mut parser = styx_parse::Parser::new_expr(&self.0);
+        while let Some(event) = parser.next_event() {
+            match event.kind {
+                styx_parse::EventKind::DocumentStart | styx_parse::EventKind::DocumentEnd => {}
+                styx_parse::EventKind::Scalar { value, .. } if text.is_none() => {
+                    text = Some(value.into_owned());
+                }
+                _ => return self.0.clone(),
+            }
+        }
+        text.unwrap_or_else(|| self.0.clone())
+    }
 }
 
 impl std::fmt::Display for RawStyx {
diff --git a/crates/facet-styx/src/schema_validate.rs b/crates/facet-styx/src/schema_validate.rs
index 2a4e658..b590629 100644
--- a/crates/facet-styx/src/schema_validate.rs
+++ b/crates/facet-styx/src/schema_validate.rs
@@ -499,6 +499,9 @@ impl<'a> Validator<'a> {
                 );
             }
         }
+        if !result.is_valid() {
+            return result;
+        }
 
         let mut seen_fields: HashSet<Option<&str>> = HashSet::new();
         // Look up catch-all schema - find any key that is a typed pattern or unit
@@ -1033,11 +1036,10 @@ impl<'a> Validator<'a> {
         };
 
         // Check if the value is in the allowed list
-        let allowed_strings: Vec<&str> = allowed_values.iter().map(|v| v.as_str()).collect();
-        if !allowed_strings.contains(&value_text) {
+        let allowed_strings: Vec<String> = allowed_values.iter().map(|v| v.scalar_text()).collect();
+        if !allowed_strings.iter().any(|v| v == value_text) {
             // Try to find a similar value for suggestions
-            let allowed_owned: Vec<String> = allowed_values.iter().map(|v| v.0.clone()).collect();
-            let suggestion = suggest_similar(value_text, &allowed_owned).map(String::from);
+            let suggestion = suggest_similar(value_text, &allowed_strings).map(String::from);
 
             result.error(
                 ValidationError::new(
-- 
2.43.0


From 76723fff2ba76d9c278b35ff6ace4bb99ad2ca2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:48 +0000
Subject: [PATCH 33/59] fix: a raw heredoc value swallowed the text written
 after it

---
 crates/facet-styx/src/serializer.rs | 31 ++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/crates/facet-styx/src/serializer.rs b/crates/facet-styx/src/serializer.rs
index 92d9b5d..8a62d90 100644
--- a/crates/facet-styx/src/serializer.rs
+++ b/crates/facet-styx/src/serializer.rs
@@ -13,6 +13,35 @@ use styx_format::{FormatOptions, StyxWriter, escape_quoted};
 // Re-export FormatOptions as SerializeOptions for backwards compatibility
 pub use styx_format::FormatOptions as SerializeOptions;
 
+/// A raw expression, made fit to be followed by more text on its last line: only a line end
+/// may follow a heredoc, so a heredoc at the end is written as a quoted string instead.
+fn end_without_heredoc(content: &str) -> Cow<'_, str> {
+    if !content.contains("<<") {
+        return Cow::Borrowed(content);
+    }
+    let mut last = None;
+    let mut lexer = styx_parse::Lexer::new(content);
+    loop {
+        match lexer.next_lexeme() {
+            styx_parse::Lexeme::Eof => break,
+            styx_parse::Lexeme::Newline { .. } => {}
+            lexeme => last = Some(lexeme),
+        }
+    }
+    match last {
+        Some(styx_parse::Lexeme::Scalar {
+            span,
+            value,
+            kind: styx_parse::ScalarKind::Heredoc,
+        }) => Cow::Owned(format!(
+            "{}\"{}\"",
+            &content[..span.start as usize],
+            escape_quoted(&value)
+        )),
+        _ => Cow::Borrowed(content),
+    }
+}
+
 /// Extract a FieldKey from a Peek value (typically a map key).
 ///
 /// Handles metadata containers like `Documented<ObjectKey>` by extracting
@@ -420,7 +449,7 @@ impl FormatSerializer for StyxSerializer {
         self.at_root = false;
         self.just_wrote_tag = false;
         self.writer.before_value();
-        self.writer.write_str(content);
+        self.writer.write_str(&end_without_heredoc(content));
         Ok(())
     }
 
-- 
2.43.0


From 6977959fc27d391f2fdab78b2eff386eb625800f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:40 +0000
Subject: [PATCH 34/59] fix: pick the catch-all of an object schema in a fixed
 order

---
 crates/facet-styx/src/schema_validate.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/crates/facet-styx/src/schema_validate.rs b/crates/facet-styx/src/schema_validate.rs
index b590629..72532ba 100644
--- a/crates/facet-styx/src/schema_validate.rs
+++ b/crates/facet-styx/src/schema_validate.rs
@@ -505,13 +505,12 @@ impl<'a> Validator<'a> {
 
         let mut seen_fields: HashSet<Option<&str>> = HashSet::new();
         // Look up catch-all schema - find any key that is a typed pattern or unit
-        let additional_schema = fields.iter().find_map(|(k, v)| {
-            if k.value.tag.is_some() {
-                Some(*v)
-            } else {
-                None
-            }
-        });
+        // (with several, a fixed one: the map they come from has no order)
+        let additional_schema = fields
+            .iter()
+            .filter_map(|(k, v)| k.value.tag.as_deref().map(|tag| (tag, *v)))
+            .min_by_key(|(tag, _)| (tag.is_empty(), *tag))
+            .map(|(_, v)| v);
 
         for entry in &obj.entries {
             let key_opt: Option<&str> = if entry.key.is_unit() {
-- 
2.43.0


From 438a1c8f83acd17f723d8285d06a6c78beb4a100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:00 +0000
Subject: [PATCH 35/59] fix: schemas of types sharing a name, plain tuples,
 flattened structs and one-element tuples

---
 crates/facet-styx/src/schema_gen.rs | 111 ++++++++++++++++++++--------
 1 file changed, 80 insertions(+), 31 deletions(-)

diff --git a/crates/facet-styx/src/schema_gen.rs b/crates/facet-styx/src/schema_gen.rs
index 48cc54e..8cce0bd 100644
--- a/crates/facet-styx/src/schema_gen.rs
+++ b/crates/facet-styx/src/schema_gen.rs
@@ -4,8 +4,8 @@
 //! that implement `Facet`.
 
 use facet_core::{
-    Def, DefaultSource, Facet, Field, NumericType, PrimitiveType, PtrConst, PtrMut, PtrUninit,
-    Shape, ShapeLayout, Type, UserType,
+    ConstTypeId, Def, DefaultSource, Facet, Field, NumericType, PrimitiveType, PtrConst, PtrMut,
+    PtrUninit, Shape, ShapeLayout, StructKind, Type, UserType,
 };
 use facet_reflect::Peek;
 use std::collections::{HashMap, HashSet};
@@ -253,7 +253,7 @@ fn generate_schema_file_inner<T: facet_core::Facet<'static>>(
             continue;
         }
 
-        let type_name = pending_shape.type_identifier.to_string();
+        let type_name = generator.type_name(pending_shape);
         // Only add if not already defined
         if !schema_map.contains_key(&Some(type_name.clone()))
             && let Some(type_schema) = generator.generate_type_definition(pending_shape)
@@ -317,9 +317,11 @@ fn schema_to_tag_name(schema: &Schema) -> String {
 /// Internal schema generator that builds typed Schema structs.
 struct SchemaGenerator {
     /// Types currently being generated (for cycle detection)
-    generating: HashSet<&'static str>,
+    generating: HashSet<ConstTypeId>,
     /// Types that have been queued for definition
-    queued_types: HashSet<&'static str>,
+    queued_types: HashSet<ConstTypeId>,
+    /// Names of the types referenced so far
+    names: HashMap<ConstTypeId, String>,
     /// Types pending generation (shapes to process)
     pending_types: Vec<&'static Shape>,
 }
@@ -329,10 +331,27 @@ impl SchemaGenerator {
         Self {
             generating: HashSet::new(),
             queued_types: HashSet::new(),
+            names: HashMap::new(),
             pending_types: Vec::new(),
         }
     }
 
+    /// The name a type has in the schema: its identifier, made unique if several types share
+    /// it (instances of a generic type, types of the same name from different modules).
+    fn type_name(&mut self, shape: &'static Shape) -> String {
+        if let Some(name) = self.names.get(&shape.id) {
+            return name.clone();
+        }
+        let mut name = shape.type_identifier.to_string();
+        let mut count = 1;
+        while self.names.values().any(|taken| *taken == name) {
+            count += 1;
+            name = format!("{}{count}", shape.type_identifier);
+        }
+        self.names.insert(shape.id, name.clone());
+        name
+    }
+
     /// Queue a type for definition if not already queued.
     fn queue_type(&mut self, shape: &'static Shape) {
         // Schema is a well-known built-in type - don't queue it or its dependencies
@@ -340,9 +359,7 @@ impl SchemaGenerator {
             return;
         }
 
-        let type_id = shape.type_identifier;
-        if !self.queued_types.contains(type_id) {
-            self.queued_types.insert(type_id);
+        if self.queued_types.insert(shape.id) {
             self.pending_types.push(shape);
         }
     }
@@ -357,14 +374,19 @@ impl SchemaGenerator {
     fn generate_type_definition(&mut self, shape: &'static Shape) -> Option<Schema> {
         match &shape.ty {
             Type::User(user) => {
-                let type_id = shape.type_identifier;
-                self.generating.insert(type_id);
+                self.generating.insert(shape.id);
                 let result = match user {
+                    // Transparent newtype - unwrap
+                    UserType::Struct(struct_type)
+                        if shape.inner.is_some() && struct_type.fields.len() == 1 =>
+                    {
+                        Some(self.shape_to_schema(struct_type.fields[0].shape()))
+                    }
                     UserType::Struct(struct_type) => Some(self.struct_to_schema(struct_type)),
                     UserType::Enum(enum_type) => Some(self.enum_to_schema(enum_type)),
                     _ => None,
                 };
-                self.generating.remove(type_id);
+                self.generating.remove(&shape.id);
                 result
             }
             _ => None,
@@ -502,11 +524,18 @@ impl SchemaGenerator {
             };
         }
 
+        // Plain tuples have no name to refer to them by - describe them in place
+        if let UserType::Struct(struct_type) = user
+            && struct_type.kind == StructKind::Tuple
+        {
+            return self.struct_to_schema(struct_type);
+        }
+
         // Cycle detection - if we're already generating this type, return a reference
-        if self.generating.contains(type_id) {
+        if self.generating.contains(&shape.id) {
             self.queue_type(shape);
             return Schema::Type {
-                name: Some(type_id.to_string()),
+                name: Some(self.type_name(shape)),
             };
         }
 
@@ -516,7 +545,7 @@ impl SchemaGenerator {
             UserType::Struct(_) | UserType::Enum(_) => {
                 self.queue_type(shape);
                 Schema::Type {
-                    name: Some(type_id.to_string()),
+                    name: Some(self.type_name(shape)),
                 }
             }
             UserType::Union(_) => Schema::Any,
@@ -535,30 +564,27 @@ impl SchemaGenerator {
     }
 
     fn struct_to_schema(&mut self, struct_type: &facet_core::StructType) -> Schema {
-        use facet_core::StructKind;
-
         match struct_type.kind {
             StructKind::Unit => Schema::Unit,
             StructKind::Tuple | StructKind::TupleStruct => {
-                if struct_type.fields.len() == 1 {
-                    // Newtype - unwrap
-                    self.shape_to_schema(struct_type.fields[0].shape())
-                } else {
-                    // Tuple with multiple fields - each position has a distinct type
-                    let elements: Vec<Documented<Schema>> = struct_type
-                        .fields
-                        .iter()
-                        .map(|field| Documented::new(self.shape_to_schema(field.shape())))
-                        .collect();
-                    Schema::Tuple(TupleSchema(elements))
-                }
+                // Each position has a distinct type
+                let elements: Vec<Documented<Schema>> = struct_type
+                    .fields
+                    .iter()
+                    .map(|field| Documented::new(self.shape_to_schema(field.shape())))
+                    .collect();
+                Schema::Tuple(TupleSchema(elements))
             }
             StructKind::Struct => {
                 let mut fields: HashMap<Documented<ObjectKey>, Schema> = HashMap::new();
 
                 for field in struct_type.fields {
                     let field_name = field.effective_name();
-                    let field_schema = self.shape_to_schema(field.shape());
+                    let field_schema = if field.is_flattened() {
+                        self.flattened_to_schema(field.shape())
+                    } else {
+                        self.shape_to_schema(field.shape())
+                    };
 
                     // Extract doc comments from field
                     let doc = if field.doc.is_empty() {
@@ -651,9 +677,32 @@ impl SchemaGenerator {
         }
     }
 
-    fn enum_to_schema(&mut self, enum_type: &facet_core::EnumType) -> Schema {
-        use facet_core::StructKind;
+    /// Convert the shape of a flattened field: the entries of a struct become entries of its
+    /// parent, so they are needed in place rather than behind a reference.
+    fn flattened_to_schema(&mut self, shape: &'static Shape) -> Schema {
+        if let Some(inner_shape) = facet_reflect::get_metadata_container_value_shape(shape) {
+            return self.flattened_to_schema(inner_shape);
+        }
+        if let Def::Pointer(ptr_def) = &shape.def
+            && let Some(pointee) = ptr_def.pointee
+        {
+            return self.flattened_to_schema(pointee);
+        }
+        match (&shape.def, &shape.ty) {
+            (Def::Undefined, Type::User(UserType::Struct(struct_type)))
+                if struct_type.kind == StructKind::Struct
+                    && !self.generating.contains(&shape.id) =>
+            {
+                self.generating.insert(shape.id);
+                let schema = self.struct_to_schema(struct_type);
+                self.generating.remove(&shape.id);
+                schema
+            }
+            _ => self.shape_to_schema(shape),
+        }
+    }
 
+    fn enum_to_schema(&mut self, enum_type: &facet_core::EnumType) -> Schema {
         // If any variant has #[facet(other)], this enum accepts any tag,
         // so emit @any instead of trying to enumerate variants
         if enum_type.variants.iter().any(|v| v.is_other()) {
-- 
2.43.0


From 3b12b60890667ba5c9fc1ed29e2bbd72e1e73caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:57 +0000
Subject: [PATCH 36/59] fix: language server positions count UTF-16 units;
 formatting and edits cover the whole current document

---
 crates/styx-lsp/src/extensions.rs | 35 +++----------
 crates/styx-lsp/src/server.rs     | 86 ++++++++++---------------------
 2 files changed, 35 insertions(+), 86 deletions(-)

diff --git a/crates/styx-lsp/src/extensions.rs b/crates/styx-lsp/src/extensions.rs
index 6d46ff3..e7e561d 100644
--- a/crates/styx-lsp/src/extensions.rs
+++ b/crates/styx-lsp/src/extensions.rs
@@ -33,13 +33,13 @@ use styx_tree::Value;
 use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
 use tokio::process::{Child, ChildStdin, ChildStdout, Command};
 use tokio::sync::RwLock;
-use tower_lsp::lsp_types::Url;
+use tower_lsp::lsp_types::{Position, Url};
 use tracing::{debug, info, warn};
 use vox_stream::StreamLink;
 
 use crate::config::{self, StyxUserConfig};
 use crate::schema_validation::resolve_schema;
-use crate::server::DocumentMap;
+use crate::server::{DocumentMap, offset_to_position, position_to_offset};
 
 /// A duplex stream combining a child process's stdin and stdout.
 ///
@@ -384,11 +384,7 @@ impl StyxLspHost for StyxLspHostImpl {
             return None;
         }
 
-        let content = &doc.content[..offset];
-        let line = content.chars().filter(|&c| c == '\n').count() as u32;
-        let last_newline = content.rfind('\n').map(|i| i + 1).unwrap_or(0);
-        let character = (offset - last_newline) as u32;
-
+        let Position { line, character } = offset_to_position(&doc.content, offset);
         Some(styx_lsp_ext::Position { line, character })
     }
 
@@ -397,28 +393,11 @@ impl StyxLspHost for StyxLspHostImpl {
         let docs = self.documents.read().await;
         let doc = docs.get(&uri)?;
 
-        let mut offset = 0;
-        let mut current_line = 0;
-
-        for ch in doc.content.chars() {
-            if current_line == params.position.line {
-                for (char_offset, c) in doc.content[offset..].chars().enumerate() {
-                    if char_offset == params.position.character as usize {
-                        return Some(offset as u32);
-                    }
-                    if c == '\n' {
-                        break;
-                    }
-                    offset += c.len_utf8();
-                }
-                return Some(offset as u32);
-            }
-            if ch == '\n' {
-                current_line += 1;
-            }
-            offset += ch.len_utf8();
+        let position = Position::new(params.position.line, params.position.character);
+        if position.line as usize > doc.content.matches('\n').count() {
+            return None;
         }
 
-        None
+        Some(position_to_offset(&doc.content, position) as u32)
     }
 }
diff --git a/crates/styx-lsp/src/server.rs b/crates/styx-lsp/src/server.rs
index dee83b1..8f10471 100644
--- a/crates/styx-lsp/src/server.rs
+++ b/crates/styx-lsp/src/server.rs
@@ -544,8 +544,8 @@ impl LanguageServer for StyxLanguageServer {
         let uri = params.text_document.uri;
         let version = params.text_document.version;
 
-        // With FULL sync, we get the entire document content
-        if let Some(change) = params.content_changes.into_iter().next() {
+        // With FULL sync, we get the entire document content (the last change is the newest)
+        if let Some(change) = params.content_changes.into_iter().next_back() {
             let content = change.text;
 
             // Parse the document (CST)
@@ -1891,20 +1891,13 @@ impl LanguageServer for StyxLanguageServer {
         }
 
         // Replace the entire document
-        let lines: Vec<&str> = doc.content.lines().collect();
-        let last_line = lines.len().saturating_sub(1);
-        let last_char = lines.last().map(|l| l.len()).unwrap_or(0);
-
         Ok(Some(vec![TextEdit {
             range: Range {
                 start: Position {
                     line: 0,
                     character: 0,
                 },
-                end: Position {
-                    line: last_line as u32,
-                    character: last_char as u32,
-                },
+                end: offset_to_position(&doc.content, doc.content.len()),
             },
             new_text: formatted,
         }]))
@@ -1989,54 +1982,30 @@ impl LanguageServer for StyxLanguageServer {
 /// Uses the CST for accurate position information. Counts OBJECT and SEQUENCE
 /// nodes in the ancestor chain from the given offset.
 fn find_nesting_depth_cst(parse: &styx_cst::Parse, offset: usize) -> usize {
-    use styx_cst::{SyntaxKind, TextSize, TokenAtOffset};
+    use styx_cst::{SyntaxKind, TextSize};
 
     let root = parse.syntax();
     let offset = TextSize::new(offset as u32);
 
-    // Find the token at this offset
-    let token = match root.token_at_offset(offset) {
-        TokenAtOffset::None => return 0,
-        TokenAtOffset::Single(t) => {
-            // If we're exactly at the end of a closing delimiter, we're semantically outside
-            if matches!(t.kind(), SyntaxKind::R_BRACE | SyntaxKind::R_PAREN)
-                && t.text_range().end() == offset
-            {
-                // We're at the end of a closing brace - count depth excluding this container
-                let mut depth: usize = 0;
-                let mut node = t.parent();
-                while let Some(n) = node {
-                    if matches!(n.kind(), SyntaxKind::OBJECT | SyntaxKind::SEQUENCE) {
-                        depth += 1;
-                    }
-                    node = n.parent();
-                }
-                // Subtract 1 because we're outside the innermost container
-                return depth.saturating_sub(1);
-            }
-            t
-        }
-        TokenAtOffset::Between(left, right) => {
-            // When between two tokens, choose based on what makes semantic sense:
-            // - If left is a closing delimiter (} or )), cursor is OUTSIDE, prefer right
-            // - Otherwise prefer left (e.g., after newline inside a block)
-            match left.kind() {
-                SyntaxKind::R_BRACE | SyntaxKind::R_PAREN => right,
-                _ => left,
-            }
-        }
+    // Every container around the offset is an ancestor of the token before it
+    let Some(token) = root.token_at_offset(offset).left_biased() else {
+        return 0;
     };
 
-    // Walk up the ancestor chain, counting OBJECT and SEQUENCE nodes
     let mut depth = 0;
     let mut node = token.parent();
 
     while let Some(n) = node {
-        match n.kind() {
-            SyntaxKind::OBJECT | SyntaxKind::SEQUENCE => {
+        if matches!(n.kind(), SyntaxKind::OBJECT | SyntaxKind::SEQUENCE) {
+            // Before the opening delimiter and after the closing one we are outside
+            let range = n.text_range();
+            let closed = n.last_token().is_some_and(|t| {
+                matches!(t.kind(), SyntaxKind::R_BRACE | SyntaxKind::R_PAREN)
+                    && t.parent().as_ref() == Some(&n)
+            });
+            if range.start() < offset && (offset < range.end() || !closed) {
                 depth += 1;
             }
-            _ => {}
         }
         node = n.parent();
     }
@@ -2145,8 +2114,8 @@ fn find_schema_declaration_range(tree: &Value, content: &str) -> Option<Range> {
     None
 }
 
-/// Convert byte offset to LSP Position
-fn offset_to_position(content: &str, offset: usize) -> Position {
+/// Convert byte offset to LSP Position (characters are counted in UTF-16 code units)
+pub(crate) fn offset_to_position(content: &str, offset: usize) -> Position {
     let mut line = 0u32;
     let mut col = 0u32;
 
@@ -2158,20 +2127,20 @@ fn offset_to_position(content: &str, offset: usize) -> Position {
             line += 1;
             col = 0;
         } else {
-            col += 1;
+            col += ch.len_utf16() as u32;
         }
     }
 
     Position::new(line, col)
 }
 
-/// Convert LSP Position to byte offset
-fn position_to_offset(content: &str, position: Position) -> usize {
+/// Convert LSP Position (characters are counted in UTF-16 code units) to byte offset
+pub(crate) fn position_to_offset(content: &str, position: Position) -> usize {
     let mut current_line = 0u32;
     let mut current_col = 0u32;
 
     for (i, ch) in content.char_indices() {
-        if current_line == position.line && current_col == position.character {
+        if current_line == position.line && current_col >= position.character {
             return i;
         }
         if ch == '\n' {
@@ -2182,7 +2151,7 @@ fn position_to_offset(content: &str, position: Position) -> usize {
             current_line += 1;
             current_col = 0;
         } else {
-            current_col += 1;
+            current_col += ch.len_utf16() as u32;
         }
     }
 
@@ -2991,8 +2960,9 @@ fn get_word_range_at_position(content: &str, position: Position) -> Option<(Stri
     // Find the start of the current word by scanning backwards
     let before = &content[..offset];
     let word_start = before
-        .rfind(|c: char| c.is_whitespace() || c == '{' || c == '}')
-        .map(|i| i + 1)
+        .char_indices()
+        .rfind(|(_, c)| c.is_whitespace() || matches!(c, '{' | '}'))
+        .map(|(i, c)| i + c.len_utf8())
         .unwrap_or(0);
 
     let word = &before[word_start..];
@@ -3003,7 +2973,7 @@ fn get_word_range_at_position(content: &str, position: Position) -> Option<(Stri
         let start_position = offset_to_position(content, word_start);
         let range = Range {
             start: start_position,
-            end: position,
+            end: offset_to_position(content, offset),
         };
         Some((word.to_string(), range))
     }
@@ -3239,7 +3209,7 @@ fn find_field_insert_position(content: &str) -> InsertPosition {
             return InsertPosition {
                 position: Position {
                     line: i as u32,
-                    character: line.len() as u32,
+                    character: line.encode_utf16().count() as u32,
                 },
                 indent,
             };
@@ -3250,7 +3220,7 @@ fn find_field_insert_position(content: &str) -> InsertPosition {
     InsertPosition {
         position: Position {
             line: lines.len().saturating_sub(1) as u32,
-            character: lines.last().map(|l| l.len()).unwrap_or(0) as u32,
+            character: lines.last().map_or(0, |l| l.encode_utf16().count()) as u32,
         },
         indent: String::new(),
     }
-- 
2.43.0


From 6aec92d95ebdb87407879d093e23a18fd3ba29f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:57 +0000
Subject: [PATCH 37/59] fix: highlight what was skipped or shifted: comments in
 sequences, unit keys, explicit roots, heredocs, tagged keys

---
 crates/styx-lsp/src/semantic_tokens.rs | 96 ++++++++++++++++----------
 1 file changed, 60 insertions(+), 36 deletions(-)

diff --git a/crates/styx-lsp/src/semantic_tokens.rs b/crates/styx-lsp/src/semantic_tokens.rs
index c062977..0d2f61a 100644
--- a/crates/styx-lsp/src/semantic_tokens.rs
+++ b/crates/styx-lsp/src/semantic_tokens.rs
@@ -171,7 +171,11 @@ fn walk_node_for_spans(node: &SyntaxNode, spans: &mut Vec<HighlightSpan>, ctx: W
         SyntaxKind::SEQUENCE => {
             let seq_ctx = WalkContext { in_sequence: true };
             for child in node.children_with_tokens() {
-                if let Some(child_node) = child.as_node() {
+                if let Some(token) = child.as_token() {
+                    if token.kind() == SyntaxKind::LINE_COMMENT {
+                        add_span_from_syntax(spans, token, TokenType::Comment, false);
+                    }
+                } else if let Some(child_node) = child.as_node() {
                     walk_node_for_spans(child_node, spans, seq_ctx);
                 }
             }
@@ -212,8 +216,14 @@ fn walk_node_for_spans(node: &SyntaxNode, spans: &mut Vec<HighlightSpan>, ctx: W
         SyntaxKind::ATTRIBUTE => {
             for child in node.children_with_tokens() {
                 if let Some(token) = child.as_token() {
-                    if token.kind() == SyntaxKind::GT {
-                        add_span_from_syntax(spans, token, TokenType::Operator, false);
+                    match token.kind() {
+                        SyntaxKind::GT => {
+                            add_span_from_syntax(spans, token, TokenType::Operator, false);
+                        }
+                        kind if is_scalar_token(kind) => {
+                            add_span_from_syntax(spans, token, TokenType::Property, false);
+                        }
+                        _ => {}
                     }
                 } else if let Some(child_node) = child.as_node() {
                     if child_node.kind() == SyntaxKind::KEY {
@@ -225,6 +235,12 @@ fn walk_node_for_spans(node: &SyntaxNode, spans: &mut Vec<HighlightSpan>, ctx: W
             }
         }
         _ => {
+            // The entries of an object have keys, wherever the object is
+            let ctx = if node.kind() == SyntaxKind::OBJECT {
+                WalkContext::default()
+            } else {
+                ctx
+            };
             // Handle comments at token level
             for child in node.children_with_tokens() {
                 if let Some(token) = child.as_token() {
@@ -266,6 +282,8 @@ fn collect_key_spans(node: &SyntaxNode, spans: &mut Vec<HighlightSpan>) {
                             && token.kind() == SyntaxKind::TAG_TOKEN
                         {
                             add_span_from_syntax(spans, token, TokenType::Property, false);
+                        } else if let Some(payload) = t.as_node() {
+                            walk_node_for_spans(payload, spans, WalkContext::default());
                         }
                     }
                 }
@@ -279,7 +297,8 @@ fn collect_key_spans(node: &SyntaxNode, spans: &mut Vec<HighlightSpan>) {
                         }
                     }
                 }
-                _ => {}
+                // e.g. the explicit root object
+                _ => walk_node_for_spans(child_node, spans, WalkContext::default()),
             }
         }
     }
@@ -318,7 +337,7 @@ fn collect_key_spans_as_values(node: &SyntaxNode, spans: &mut Vec<HighlightSpan>
                 SyntaxKind::OBJECT => {
                     walk_node_for_spans(child_node, spans, WalkContext::default());
                 }
-                _ => {}
+                _ => walk_node_for_spans(child_node, spans, WalkContext::default()),
             }
         }
     }
@@ -374,7 +393,11 @@ fn walk_node(node: &SyntaxNode, content: &str, tokens: &mut Vec<RawToken>, ctx:
             // Sequence - entries inside are values, not key-value pairs
             let seq_ctx = WalkContext { in_sequence: true };
             for child in node.children_with_tokens() {
-                if let Some(child_node) = child.as_node() {
+                if let Some(token) = child.as_token() {
+                    if token.kind() == SyntaxKind::LINE_COMMENT {
+                        add_token_from_syntax(tokens, content, token, TokenType::Comment, 0);
+                    }
+                } else if let Some(child_node) = child.as_node() {
                     walk_node(child_node, content, tokens, seq_ctx);
                 }
             }
@@ -437,6 +460,12 @@ fn walk_node(node: &SyntaxNode, content: &str, tokens: &mut Vec<RawToken>, ctx:
             }
         }
         _ => {
+            // The entries of an object have keys, wherever the object is
+            let ctx = if node.kind() == SyntaxKind::OBJECT {
+                WalkContext::default()
+            } else {
+                ctx
+            };
             // Recurse into children, but also check for tokens at this level
             for child in node.children_with_tokens() {
                 if let Some(token) = child.as_token() {
@@ -493,10 +522,13 @@ fn collect_key_tokens(node: &SyntaxNode, content: &str, tokens: &mut Vec<RawToke
                             && token.kind() == SyntaxKind::TAG_TOKEN
                         {
                             add_token_from_syntax(tokens, content, token, TokenType::Property, 0);
+                        } else if let Some(payload) = tag_child.as_node() {
+                            walk_node(payload, content, tokens, WalkContext::default());
                         }
                     }
                 }
-                _ => {}
+                // e.g. a unit key, or the explicit root object
+                _ => walk_node(child_node, content, tokens, WalkContext::default()),
             }
         }
     }
@@ -549,7 +581,7 @@ fn collect_key_tokens_as_values(node: &SyntaxNode, content: &str, tokens: &mut V
                     // Objects should use regular object context (keys are properties)
                     walk_node(child_node, content, tokens, WalkContext::default());
                 }
-                _ => {}
+                _ => walk_node(child_node, content, tokens, WalkContext::default()),
             }
         }
     }
@@ -564,6 +596,9 @@ fn is_scalar_token(kind: SyntaxKind) -> bool {
 }
 
 /// Add a token from a syntax token
+///
+/// Positions and lengths are counted in UTF-16 code units. A token that spans several
+/// lines becomes one token per line: clients need not support multi-line tokens.
 fn add_token_from_syntax(
     tokens: &mut Vec<RawToken>,
     content: &str,
@@ -573,36 +608,25 @@ fn add_token_from_syntax(
 ) {
     let start: usize = token.text_range().start().into();
     let end: usize = token.text_range().end().into();
-    let (line, start_char) = offset_to_line_col(content, start);
-    let length = (end - start) as u32;
-
-    tokens.push(RawToken {
-        line,
-        start_char,
-        length,
-        token_type,
-        modifiers,
-    });
-}
-
-/// Convert byte offset to (line, column)
-fn offset_to_line_col(content: &str, offset: usize) -> (u32, u32) {
-    let mut line = 0u32;
-    let mut col = 0u32;
-
-    for (i, ch) in content.char_indices() {
-        if i >= offset {
-            break;
-        }
-        if ch == '\n' {
-            line += 1;
-            col = 0;
-        } else {
-            col += 1;
+    let Position {
+        mut line,
+        character: mut start_char,
+    } = crate::server::offset_to_position(content, start);
+
+    for text in content[start..end].split('\n') {
+        let length = text.trim_end_matches('\r').encode_utf16().count() as u32;
+        if length > 0 {
+            tokens.push(RawToken {
+                line,
+                start_char,
+                length,
+                token_type,
+                modifiers,
+            });
         }
+        line += 1;
+        start_char = 0;
     }
-
-    (line, col)
 }
 
 /// Encode raw tokens as LSP semantic tokens (delta-encoded)
-- 
2.43.0


From cc4e453262b8d40d259096e431adf5ee484a555b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:57 +0000
Subject: [PATCH 38/59] fix: hover, definition and completion follow the schema
 by path, through optional, flattened and recursive types

---
 crates/styx-lsp/src/schema_validation.rs | 129 ++++++++------
 crates/styx-lsp/src/server.rs            | 204 ++++++++++++-----------
 2 files changed, 193 insertions(+), 140 deletions(-)

diff --git a/crates/styx-lsp/src/schema_validation.rs b/crates/styx-lsp/src/schema_validation.rs
index 90edee3..564d2c4 100644
--- a/crates/styx-lsp/src/schema_validation.rs
+++ b/crates/styx-lsp/src/schema_validation.rs
@@ -355,18 +355,30 @@ pub fn get_schema_fields(schema_file: &SchemaFile) -> Vec<SchemaField> {
         return fields;
     };
 
-    collect_object_fields(root_schema, schema_file, &mut fields);
+    collect_object_fields(root_schema, schema_file, &mut Vec::new(), &mut fields);
     fields
 }
 
 /// Recursively collect fields from a schema, handling wrappers like @object.
-fn collect_object_fields(schema: &Schema, schema_file: &SchemaFile, fields: &mut Vec<SchemaField>) {
+/// `seen` has the types that were collected already: types may refer to themselves.
+fn collect_object_fields(
+    schema: &Schema,
+    schema_file: &SchemaFile,
+    seen: &mut Vec<String>,
+    fields: &mut Vec<SchemaField>,
+) {
     match schema {
         Schema::Object(obj) => {
             for (key, field_schema) in &obj.0 {
                 // Skip the catch-all @ field (those with no name)
                 let Some(name) = key.name() else { continue };
 
+                // A flattened type contributes its fields, the key itself is no field
+                if let Schema::Flatten(_) = field_schema {
+                    collect_object_fields(field_schema, schema_file, seen, fields);
+                    continue;
+                }
+
                 let (optional, default_value, inner_schema) =
                     unwrap_field_modifiers(field_schema.clone());
 
@@ -379,15 +391,20 @@ fn collect_object_fields(schema: &Schema, schema_file: &SchemaFile, fields: &mut
             }
         }
         Schema::Flatten(flatten) => {
-            collect_object_fields(&flatten.0.0, schema_file, fields);
+            collect_object_fields(&flatten.0.0, schema_file, seen, fields);
         }
+        Schema::Optional(opt) => collect_object_fields(&opt.0.0, schema_file, seen, fields),
+        Schema::Default(def) => collect_object_fields(&def.0.1, schema_file, seen, fields),
+        Schema::Deprecated(dep) => collect_object_fields(&dep.0.1, schema_file, seen, fields),
         Schema::Type {
             name: Some(type_name),
         } => {
             // Resolve the type reference and collect its fields
-            if let Some(type_schema) = schema_file.schema.get(&Some(type_name.clone())) {
-                let resolved = resolve_type_reference(type_schema, schema_file);
-                collect_object_fields(&resolved, schema_file, fields);
+            if !seen.contains(type_name)
+                && let Some(type_schema) = schema_file.schema.get(&Some(type_name.clone()))
+            {
+                seen.push(type_name.clone());
+                collect_object_fields(type_schema, schema_file, seen, fields);
             }
         }
         _ => {}
@@ -607,13 +624,16 @@ fn find_object_at_offset_recursive(
 /// Get the schema for a given path within a schema file.
 pub fn get_schema_at_path(schema_file: &SchemaFile, path: &[String]) -> Option<Schema> {
     let root_schema = schema_file.schema.get(&None)?;
-    get_schema_at_path_recursive(root_schema, path, schema_file)
+    get_schema_at_path_recursive(root_schema, path, schema_file, &mut Vec::new())
 }
 
+/// `seen` has the types that were entered since the last step along the path: types may refer
+/// to themselves.
 fn get_schema_at_path_recursive(
     schema: &Schema,
     path: &[String],
     schema_file: &SchemaFile,
+    seen: &mut Vec<String>,
 ) -> Option<Schema> {
     if path.is_empty() {
         return Some(schema.clone());
@@ -621,15 +641,16 @@ fn get_schema_at_path_recursive(
 
     let field_name = &path[0];
     let rest = &path[1..];
+    let step =
+        |schema: &Schema| get_schema_at_path_recursive(schema, rest, schema_file, &mut Vec::new());
 
     match schema {
         Schema::Object(obj) => {
-            // First try exact named field match
-            if let Some(field_schema) = obj
-                .0
-                .get(&Documented::new(ObjectKey::named(field_name.clone())))
+            // First try exact named field match, also in flattened types
+            if let Some(field_schema) =
+                find_declared_field(schema, field_name, schema_file, &mut Vec::new())
             {
-                return get_schema_at_path_recursive(field_schema, rest, schema_file);
+                return step(field_schema);
             }
 
             // Try catch-all keys (like @string or @)
@@ -638,7 +659,7 @@ fn get_schema_at_path_recursive(
                 // or unit catch-all @ (tag = Some(""), value = None)
                 // key is Documented<ObjectKey>, so key.value is the ObjectKey
                 if key.value.value.is_none() && key.value.tag.is_some() {
-                    return get_schema_at_path_recursive(field_schema, rest, schema_file);
+                    return step(field_schema);
                 }
             }
 
@@ -652,30 +673,63 @@ fn get_schema_at_path_recursive(
                     .0
                     .get(&Documented::new(variant_name.to_string()))
                 {
-                    return get_schema_at_path_recursive(variant_schema, rest, schema_file);
+                    return step(variant_schema);
                 }
             }
             None
         }
         Schema::Map(map_schema) => {
             // For @map(@V) or @map(@K @V), any key navigates to the value type.
-            // If 1 element: that's the value type (key defaults to @string).
-            // If 2 elements: first is key type, second is value type.
-            let value_schema = if map_schema.0.len() == 1 {
-                &map_schema.0[0].value
-            } else {
-                &map_schema.0[1].value
-            };
-            get_schema_at_path_recursive(value_schema, rest, schema_file)
+            // The last element is the value type (with one element, the key defaults to @string).
+            step(&map_schema.0.last()?.value)
         }
-        Schema::Optional(opt) => get_schema_at_path_recursive(&opt.0.0, path, schema_file),
-        Schema::Default(def) => get_schema_at_path_recursive(&def.0.1, path, schema_file),
-        Schema::Deprecated(dep) => get_schema_at_path_recursive(&dep.0.1, path, schema_file),
+        Schema::Optional(opt) => get_schema_at_path_recursive(&opt.0.0, path, schema_file, seen),
+        Schema::Default(def) => get_schema_at_path_recursive(&def.0.1, path, schema_file, seen),
+        Schema::Deprecated(dep) => get_schema_at_path_recursive(&dep.0.1, path, schema_file, seen),
         Schema::Type {
             name: Some(type_name),
-        } => {
+        } if !seen.contains(type_name) => {
+            seen.push(type_name.clone());
+            let type_schema = schema_file.schema.get(&Some(type_name.clone()))?;
+            get_schema_at_path_recursive(type_schema, path, schema_file, seen)
+        }
+        _ => None,
+    }
+}
+
+/// Find the field that an object type declares under a name, itself or in the types it flattens.
+/// `seen` has the types that were searched already.
+fn find_declared_field<'a>(
+    schema: &'a Schema,
+    name: &str,
+    schema_file: &'a SchemaFile,
+    seen: &mut Vec<&'a str>,
+) -> Option<&'a Schema> {
+    match schema {
+        Schema::Object(obj) => {
+            if let Some(field_schema) = obj
+                .0
+                .get(&Documented::new(ObjectKey::named(name.to_string())))
+                && !matches!(field_schema, Schema::Flatten(_))
+            {
+                return Some(field_schema);
+            }
+            obj.0.values().find_map(|field_schema| match field_schema {
+                Schema::Flatten(flatten) => {
+                    find_declared_field(&flatten.0.0, name, schema_file, seen)
+                }
+                _ => None,
+            })
+        }
+        Schema::Optional(opt) => find_declared_field(&opt.0.0, name, schema_file, seen),
+        Schema::Default(def) => find_declared_field(&def.0.1, name, schema_file, seen),
+        Schema::Deprecated(dep) => find_declared_field(&dep.0.1, name, schema_file, seen),
+        Schema::Type {
+            name: Some(type_name),
+        } if !seen.contains(&type_name.as_str()) => {
+            seen.push(type_name);
             let type_schema = schema_file.schema.get(&Some(type_name.clone()))?;
-            get_schema_at_path_recursive(type_schema, path, schema_file)
+            find_declared_field(type_schema, name, schema_file, seen)
         }
         _ => None,
     }
@@ -687,30 +741,11 @@ pub fn get_schema_fields_at_path(schema_file: &SchemaFile, path: &[String]) -> V
         return Vec::new();
     };
 
-    // Resolve type references to get the actual schema
-    let resolved = resolve_type_reference(&schema, schema_file);
-
     let mut fields = Vec::new();
-    collect_object_fields(&resolved, schema_file, &mut fields);
+    collect_object_fields(&schema, schema_file, &mut Vec::new(), &mut fields);
     fields
 }
 
-/// Resolve a type reference to its actual schema definition.
-fn resolve_type_reference(schema: &Schema, schema_file: &SchemaFile) -> Schema {
-    match schema {
-        Schema::Type {
-            name: Some(type_name),
-        } => {
-            if let Some(type_schema) = schema_file.schema.get(&Some(type_name.clone())) {
-                resolve_type_reference(type_schema, schema_file)
-            } else {
-                schema.clone()
-            }
-        }
-        other => other.clone(),
-    }
-}
-
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/crates/styx-lsp/src/server.rs b/crates/styx-lsp/src/server.rs
index 8f10471..eed49ea 100644
--- a/crates/styx-lsp/src/server.rs
+++ b/crates/styx-lsp/src/server.rs
@@ -687,9 +687,9 @@ impl LanguageServer for StyxLanguageServer {
         }
 
         // Case 2: On a field name in a doc - jump to schema definition
-        if let Some(field_name) = find_field_key_at_offset(tree, offset)
+        if let Some(field_path) = find_field_path_at_offset(tree, offset)
             && let Some(ref schema) = resolved
-            && let Some(field_range) = find_field_in_schema_source(&schema.source, &field_name)
+            && let Some(field_range) = find_field_declaration(&schema.source, &field_path)
         {
             return Ok(Some(GotoDefinitionResponse::Scalar(Location {
                 uri: schema.uri.clone(),
@@ -908,8 +908,7 @@ impl LanguageServer for StyxLanguageServer {
 
             if let Some(field_info) = get_field_info_from_schema(&schema.source, &path_refs) {
                 // Create a link to the field in the schema
-                let field_name = field_path.last().map(|s| s.as_str()).unwrap_or("");
-                let field_range = find_field_in_schema_source(&schema.source, field_name);
+                let field_range = find_field_declaration(&schema.source, &field_path);
                 let schema_link = {
                     let mut link_uri = schema.uri.clone();
                     if let Some(range) = field_range {
@@ -2207,19 +2206,20 @@ fn find_path_in_value(value: &Value, offset: usize) -> Option<Vec<PathSegment>>
                     return Some(vec![PathSegment::Field(key.to_string())]);
                 }
             }
+            // Recurse into the value (the objects that a dotted path implies have no span of
+            // their own around what is in them)
+            if let Some(mut nested_path) = find_path_in_value(&entry.value, offset) {
+                // Prepend current key to the path
+                if let Some(key) = entry.key.as_str() {
+                    nested_path.insert(0, PathSegment::Field(key.to_string()));
+                }
+                return Some(nested_path);
+            }
             // Check if cursor is within this entry's value
             if let Some(span) = entry.value.span {
                 let start = span.start as usize;
                 let end = span.end as usize;
                 if offset >= start && offset < end {
-                    // Recurse into the value
-                    if let Some(mut nested_path) = find_path_in_value(&entry.value, offset) {
-                        // Prepend current key to the path
-                        if let Some(key) = entry.key.as_str() {
-                            nested_path.insert(0, PathSegment::Field(key.to_string()));
-                        }
-                        return Some(nested_path);
-                    }
                     // We're on the value but not in a nested field - return this key
                     if let Some(key) = entry.key.as_str() {
                         return Some(vec![PathSegment::Field(key.to_string())]);
@@ -2385,6 +2385,20 @@ struct FieldInfo {
     type_str: String,
     /// Doc comment if present
     doc_comment: Option<String>,
+    /// Where the schema declares the field (none for the keys of a map)
+    key_span: Option<styx_tree::Span>,
+}
+
+/// Find where the schema declares the field at a path.
+fn find_field_declaration(schema_source: &str, field_path: &[String]) -> Option<Range> {
+    let path: Vec<&str> = field_path.iter().map(|s| s.as_str()).collect();
+    match get_field_info_from_schema(schema_source, &path) {
+        Some(info) => info.key_span.map(|span| Range {
+            start: offset_to_position(schema_source, span.start as usize),
+            end: offset_to_position(schema_source, span.end as usize),
+        }),
+        None => find_field_in_schema_source(schema_source, path.last()?),
+    }
 }
 
 fn get_field_info_from_schema(schema_source: &str, field_path: &[&str]) -> Option<FieldInfo> {
@@ -2413,15 +2427,18 @@ fn get_field_info_in_schema(schema_block: &Value, path: &[&str]) -> Option<Field
         .find(|e| e.key.is_unit())
         .map(|e| &e.value)?;
 
-    get_field_info_in_type(root, path, schema_obj)
+    get_field_info_in_type(root, path, schema_obj, &mut Vec::new())
 }
 
 /// Recursively get field info from a type value, following a path.
 /// schema_defs contains all type definitions for resolving references like @Hint.
-fn get_field_info_in_type(
-    value: &Value,
+/// `seen` has the types that were searched since the last step along the path: types may refer
+/// to themselves.
+fn get_field_info_in_type<'a>(
+    value: &'a Value,
     path: &[&str],
-    schema_defs: &styx_tree::Object,
+    schema_defs: &'a styx_tree::Object,
+    seen: &mut Vec<&'a Value>,
 ) -> Option<FieldInfo> {
     if path.is_empty() {
         return None;
@@ -2429,14 +2446,18 @@ fn get_field_info_in_type(
 
     let field_name = path[0];
     let remaining_path = &path[1..];
+    let value = unwrap_field_type(value, schema_defs);
+    if seen.iter().any(|s| std::ptr::eq(*s, value)) {
+        return None;
+    }
+    seen.push(value);
+    let step = |value| get_field_info_in_type(value, remaining_path, schema_defs, &mut Vec::new());
 
     // Check if value is a @seq type - if so, skip numeric indices and recurse into element type
     if let Some(seq_element_type) = extract_seq_element_type(value) {
         // If the path segment is a numeric index, skip it and continue into the element type
         if field_name.parse::<usize>().is_ok() {
-            // Resolve type reference if needed (e.g., @seq(@Spec) -> look up Spec)
-            let resolved = resolve_type_reference(seq_element_type, schema_defs);
-            return get_field_info_in_type(resolved, remaining_path, schema_defs);
+            return step(seq_element_type);
         }
     }
 
@@ -2447,28 +2468,11 @@ fn get_field_info_in_type(
             return Some(FieldInfo {
                 type_str: format_type_concise(map_value_type),
                 doc_comment: None, // Map keys don't have individual doc comments
+                key_span: None,
             });
         } else {
             // Need to go deeper into the map value type
-            // If it's a type reference like @Hint, resolve it first
-            let resolved = resolve_type_reference(map_value_type, schema_defs);
-            return get_field_info_in_type(resolved, remaining_path, schema_defs);
-        }
-    }
-
-    // Check if value is an @object{@KeyType @ValueType} (catch-all pattern)
-    // This handles schemas like `@ @object{@string @Decl}` where any string key is valid
-    if let Some(catchall_value_type) = extract_object_catchall_value_type(value) {
-        if remaining_path.is_empty() {
-            // We're hovering on a catch-all key - return the value type
-            return Some(FieldInfo {
-                type_str: format_type_concise(catchall_value_type),
-                doc_comment: None, // Catch-all keys don't have individual doc comments
-            });
-        } else {
-            // Need to go deeper into the catch-all value type
-            let resolved = resolve_type_reference(catchall_value_type, schema_defs);
-            return get_field_info_in_type(resolved, remaining_path, schema_defs);
+            return step(map_value_type);
         }
     }
 
@@ -2478,41 +2482,76 @@ fn get_field_info_in_type(
     if let Some(enum_obj) = extract_enum_object(value) {
         // Search all enum variants for the field
         for entry in &enum_obj.entries {
-            // Resolve the variant's value type and recurse
-            let resolved = resolve_type_reference(&entry.value, schema_defs);
-            if let Some(info) = get_field_info_in_type(resolved, path, schema_defs) {
+            // Look into the variant's value type
+            if let Some(info) = get_field_info_in_type(&entry.value, path, schema_defs, seen) {
                 return Some(info);
             }
         }
         return None;
     }
 
-    // Try to get the object - handle various wrappings (also resolves type refs)
-    let obj = extract_object_from_value_with_defs(value, schema_defs)?;
+    // Otherwise an object: a declared field, or a catch-all pattern like `@object{@string @Decl}`
+    // where any string key is valid
+    let entry = find_declared_field(value, Some(field_name), schema_defs, &mut Vec::new())
+        .or_else(|| find_declared_field(value, None, schema_defs, &mut Vec::new()))?;
+    if !remaining_path.is_empty() {
+        // Need to go deeper
+        return step(&entry.value);
+    }
+    Some(FieldInfo {
+        type_str: format_type_concise(&entry.value),
+        // Catch-all keys don't have individual doc comments
+        doc_comment: entry.key.as_str().and_then(|_| entry.doc_comment.clone()),
+        key_span: entry.key.span,
+    })
+}
 
-    for entry in &obj.entries {
-        if entry.key.as_str() == Some(field_name) {
-            if remaining_path.is_empty() {
-                // This is the target field
-                return Some(FieldInfo {
-                    type_str: format_type_concise(&entry.value),
-                    doc_comment: entry.doc_comment.clone(),
-                });
-            } else {
-                // Need to go deeper - unwrap wrappers like @optional
-                return get_field_info_in_type(&entry.value, remaining_path, schema_defs);
-            }
-        }
+/// Find the entry that declares a field (or the catch-all, without a name) in an object type, or
+/// in the types that it flattens. `seen` has the types that were searched already.
+fn find_declared_field<'a>(
+    value: &'a Value,
+    name: Option<&str>,
+    schema_defs: &'a styx_tree::Object,
+    seen: &mut Vec<&'a Value>,
+) -> Option<&'a styx_tree::Entry> {
+    let value = unwrap_field_type(value, schema_defs);
+    if seen.iter().any(|s| std::ptr::eq(*s, value)) {
+        return None;
+    }
+    seen.push(value);
 
-        // Check unit key entries (root schema)
-        if entry.key.is_unit()
-            && let Some(found) = get_field_info_in_type(&entry.value, path, schema_defs)
-        {
-            return Some(found);
+    let obj = extract_object_from_value_with_defs(value, schema_defs, &mut Vec::new())?;
+    let declares = |entry: &styx_tree::Entry| match name {
+        // (the key of a flattened type is no field)
+        Some(_) => entry.key.as_str() == name && entry.value.tag_name() != Some("flatten"),
+        None => entry.key.payload.is_none(),
+    };
+    obj.entries.iter().find(|e| declares(e)).or_else(|| {
+        // Fields that the object takes over from another type
+        obj.entries
+            .iter()
+            .filter(|e| e.value.tag_name() == Some("flatten"))
+            .filter_map(|e| e.value.as_sequence()?.items.first())
+            .find_map(|flattened| find_declared_field(flattened, name, schema_defs, seen))
+    })
+}
+
+/// Look through type references, @optional, @default and @deprecated.
+fn unwrap_field_type<'a>(mut value: &'a Value, schema_defs: &'a styx_tree::Object) -> &'a Value {
+    // Types may refer to each other in a circle
+    for _ in 0..64 {
+        let inner = match (value.tag_name(), value.as_sequence()) {
+            (Some("optional"), Some(seq)) => seq.items.first(),
+            (Some("default" | "deprecated"), Some(seq)) => seq.items.get(1),
+            _ => None,
+        };
+        let next = inner.unwrap_or_else(|| resolve_type_reference(value, schema_defs));
+        if std::ptr::eq(next, value) {
+            break;
         }
+        value = next;
     }
-
-    None
+    value
 }
 
 /// Resolve a type reference like @Hint to its definition in the schema.
@@ -2596,44 +2635,22 @@ fn extract_enum_object(value: &Value) -> Option<&styx_tree::Object> {
     value.as_object()
 }
 
-/// Extract the catch-all value type from an `@object{@KeyType @ValueType}` pattern.
-///
-/// In Styx schemas, `@object{@string @Decl}` means "an object where any string key
-/// maps to a value of type @Decl". The key entry has a tagged key (like `@string`)
-/// rather than a scalar key.
-///
-/// Returns Some(value_type) if the object has exactly one entry with a tagged key
-/// (indicating a catch-all pattern), None otherwise.
-fn extract_object_catchall_value_type(value: &Value) -> Option<&Value> {
-    // Must be @object{...}
-    let tag = value.tag.as_ref()?;
-    if tag.name != "object" {
-        return None;
-    }
-
-    let obj = value.as_object()?;
-
-    // Catch-all pattern: exactly one entry with a tagged key (like @string)
-    if obj.entries.len() == 1 {
-        let entry = &obj.entries[0];
-        // Key must be tagged (e.g., @string), not a scalar
-        if entry.key.tag.is_some() && entry.key.payload.is_none() {
-            return Some(&entry.value);
-        }
-    }
-
-    None
-}
-
 /// Extract an object from a value, unwrapping wrappers like @optional, @default, etc.
 /// Also resolves type references using schema_defs.
 fn extract_object_from_value_with_defs<'a>(
     value: &'a Value,
     schema_defs: &'a styx_tree::Object,
+    seen: &mut Vec<&'a Value>,
 ) -> Option<&'a styx_tree::Object> {
     // First resolve if it's a type reference
     let resolved = resolve_type_reference(value, schema_defs);
 
+    // Types may refer to themselves
+    if seen.iter().any(|s| std::ptr::eq(*s, resolved)) {
+        return None;
+    }
+    seen.push(resolved);
+
     // Direct object
     if let Some(obj) = resolved.as_object() {
         return Some(obj);
@@ -2647,7 +2664,8 @@ fn extract_object_from_value_with_defs<'a>(
             Some(styx_tree::Payload::Sequence(seq)) => {
                 // Look for object inside the sequence (recursively resolving type refs)
                 for item in &seq.items {
-                    if let Some(obj) = extract_object_from_value_with_defs(item, schema_defs) {
+                    if let Some(obj) = extract_object_from_value_with_defs(item, schema_defs, seen)
+                    {
                         return Some(obj);
                     }
                 }
-- 
2.43.0


From bc9b0e8564fa08599ee573a9af7263c952ac61e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:36 +0000
Subject: [PATCH 39/59] fix: sibling dotted paths are read into one object by
 facet-styx and serde_styx

---
 crates/facet-styx/src/parser.rs |  10 ++-
 crates/serde_styx/src/de.rs     |  10 ++-
 crates/styx-parse/src/lib.rs    |   3 +
 crates/styx-parse/src/merge.rs  | 138 ++++++++++++++++++++++++++++++++
 4 files changed, 153 insertions(+), 8 deletions(-)
 create mode 100644 crates/styx-parse/src/merge.rs

diff --git a/crates/facet-styx/src/parser.rs b/crates/facet-styx/src/parser.rs
index a3dd53c..904a642 100644
--- a/crates/facet-styx/src/parser.rs
+++ b/crates/facet-styx/src/parser.rs
@@ -14,7 +14,9 @@ use facet_format::{
     ParseEvent, ParseEventKind, SavePoint, ScalarTypeHint, ScalarValue,
 };
 use facet_reflect::Span as ReflectSpan;
-use styx_parse::{Event, EventKind, ParseErrorKind, Parser, ScalarKind as StyxScalarKind, Span};
+use styx_parse::{
+    Event, EventKind, MergedParser, ParseErrorKind, Parser, ScalarKind as StyxScalarKind, Span,
+};
 
 mod inner {
     use super::*;
@@ -25,21 +27,21 @@ mod inner {
     /// across multiple match arms.
     #[derive(Clone)]
     pub struct InnerParser<'de> {
-        inner: Parser<'de>,
+        inner: MergedParser<'de>,
         input: &'de str,
     }
 
     impl<'de> InnerParser<'de> {
         pub fn new(input: &'de str) -> Self {
             Self {
-                inner: Parser::new(input),
+                inner: MergedParser::new(Parser::new(input)),
                 input,
             }
         }
 
         pub fn new_expr(input: &'de str) -> Self {
             Self {
-                inner: Parser::new_expr(input),
+                inner: MergedParser::new(Parser::new_expr(input)),
                 input,
             }
         }
diff --git a/crates/serde_styx/src/de.rs b/crates/serde_styx/src/de.rs
index 1a57aaf..90548cc 100644
--- a/crates/serde_styx/src/de.rs
+++ b/crates/serde_styx/src/de.rs
@@ -3,7 +3,7 @@
 use std::borrow::Cow;
 
 use serde::de::{self, Visitor};
-use styx_parse::{Event, EventKind, Parser, ScalarKind};
+use styx_parse::{Event, EventKind, MergedParser, Parser, ScalarKind};
 
 use crate::error::{Error, Result};
 
@@ -14,7 +14,7 @@ pub struct Deserializer<'de> {
     source: &'de str,
     /// Created by the first access: a scalar, a sequence or an enum is read as a single
     /// expression, anything else as a document.
-    parser: Option<Parser<'de>>,
+    parser: Option<MergedParser<'de>>,
     /// Events put back (last one first).
     peeked: Vec<EventKind<'de>>,
 }
@@ -32,7 +32,7 @@ impl<'de> Deserializer<'de> {
     /// At the root, read the source as a single expression rather than as a document.
     fn expect_expression(&mut self) {
         if self.parser.is_none() {
-            self.parser = Some(Parser::new_expr(self.source));
+            self.parser = Some(MergedParser::new(Parser::new_expr(self.source)));
         }
     }
 
@@ -42,7 +42,9 @@ impl<'de> Deserializer<'de> {
             return Ok(Some(event));
         }
         let source = self.source;
-        let parser = self.parser.get_or_insert_with(|| Parser::new(source));
+        let parser = self
+            .parser
+            .get_or_insert_with(|| MergedParser::new(Parser::new(source)));
         while let Some(Event { span, kind }) = parser.next_event() {
             match kind {
                 EventKind::DocumentStart
diff --git a/crates/styx-parse/src/lib.rs b/crates/styx-parse/src/lib.rs
index ef06bc3..4289129 100644
--- a/crates/styx-parse/src/lib.rs
+++ b/crates/styx-parse/src/lib.rs
@@ -8,5 +8,8 @@ pub use events::{Event, EventKind, ParseErrorKind, ScalarKind};
 mod lexer;
 pub use lexer::{Lexeme, Lexer};
 
+mod merge;
+pub use merge::MergedParser;
+
 mod parser;
 pub use parser::Parser;
diff --git a/crates/styx-parse/src/merge.rs b/crates/styx-parse/src/merge.rs
new file mode 100644
index 0000000..7f66f5d
--- /dev/null
+++ b/crates/styx-parse/src/merge.rs
@@ -0,0 +1,138 @@
+//! Joining sibling dotted paths.
+
+use std::borrow::Cow;
+use std::collections::VecDeque;
+
+use crate::{Event, EventKind, Parser};
+
+/// The events of a [`Parser`], with the objects of sibling dotted paths joined.
+///
+/// The parser reports each dotted path as entries of its own: `a.b 1` followed by
+/// `a.c 2` is two entries `a`. A deserializer needs the one object they denote, so
+/// here they arrive as `a { b 1, c 2 }`. Siblings are contiguous, so nothing has to
+/// be buffered beyond the end of an object.
+#[derive(Clone)]
+pub struct MergedParser<'src> {
+    parser: Parser<'src>,
+    queue: VecDeque<Event<'src>>,
+    /// Key of each open entry (None: not a plain scalar).
+    keys: Vec<Option<Cow<'src, str>>>,
+}
+
+impl<'src> MergedParser<'src> {
+    /// Join the sibling paths in the events of the given parser.
+    pub fn new(parser: Parser<'src>) -> Self {
+        Self {
+            parser,
+            queue: VecDeque::new(),
+            keys: Vec::new(),
+        }
+    }
+
+    /// Get the next event.
+    pub fn next_event(&mut self) -> Option<Event<'src>> {
+        if self.queue.is_empty() {
+            let event = self.parser.next_event()?;
+            if event.kind == EventKind::ObjectEnd {
+                self.close_object(event);
+            } else {
+                self.push(event);
+            }
+        }
+        self.queue.pop_front()
+    }
+
+    /// Queue an event.
+    fn push(&mut self, event: Event<'src>) {
+        match &event.kind {
+            EventKind::EntryStart => self.keys.push(None),
+            EventKind::Key { .. } => {
+                if let Some(key) = self.keys.last_mut() {
+                    *key = plain_key(&event);
+                }
+            }
+            EventKind::EntryEnd => {
+                self.keys.pop();
+            }
+            _ => {}
+        }
+        self.queue.push_back(event);
+    }
+
+    /// At the end of an object, find out which of the entries that end here are continued
+    /// by the next one, and leave those open.
+    fn close_object(&mut self, end: Event<'src>) {
+        // Entries that end here (innermost first), each with the key it has.
+        let mut closed = Vec::new();
+        let mut object_end = Some(end);
+        let mut next = self.parser.next_event();
+        while object_end.is_some()
+            && let Some(entry_end) = next.take_if(|e| e.kind == EventKind::EntryEnd)
+            && let Some(end) = object_end.take()
+        {
+            closed.push((end, entry_end, self.keys.pop().flatten()));
+            next = self.parser.next_event();
+            object_end = next.take_if(|e| e.kind == EventKind::ObjectEnd);
+            if object_end.is_some() {
+                next = self.parser.next_event();
+            }
+        }
+
+        let mut pending = Vec::new();
+        if object_end.is_none() {
+            while let Some(comment) = next.take_if(|e| {
+                matches!(
+                    e.kind,
+                    EventKind::Comment { .. } | EventKind::DocComment { .. }
+                )
+            }) {
+                pending.push(comment);
+                next = self.parser.next_event();
+            }
+            while let Some((_, _, key)) = closed.last()
+                && let Some(start) = next.take_if(|e| e.kind == EventKind::EntryStart)
+            {
+                let entry_key = self.parser.next_event();
+                let value = self.parser.next_event();
+                if key.is_some()
+                    && entry_key.as_ref().and_then(plain_key) == *key
+                    && value
+                        .as_ref()
+                        .is_some_and(|e| e.kind == EventKind::ObjectStart)
+                {
+                    self.keys.push(key.clone());
+                    closed.pop();
+                    next = self.parser.next_event();
+                } else {
+                    pending.push(start);
+                    pending.extend(entry_key);
+                    next = value;
+                    break;
+                }
+            }
+        }
+
+        // The keys of these entries are already off the stack.
+        for (end, entry_end, _) in closed {
+            self.queue.push_back(end);
+            self.queue.push_back(entry_end);
+        }
+        self.queue.extend(object_end);
+        for event in pending {
+            self.push(event);
+        }
+        if let Some(event) = next {
+            self.push(event);
+        }
+    }
+}
+
+/// The key, if it is a plain scalar.
+fn plain_key<'src>(event: &Event<'src>) -> Option<Cow<'src, str>> {
+    match &event.kind {
+        EventKind::Key {
+            tag: None, payload, ..
+        } => payload.clone(),
+        _ => None,
+    }
+}
-- 
2.43.0


From 6a94943aff8613c04906ffc5d7bdecc7d183a5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:36 +0000
Subject: [PATCH 40/59] fix: sibling dotted paths are one object to the
 validator and in JSON

---
 crates/facet-styx/src/schema_validate.rs |  4 +-
 crates/styx-cli/src/main.rs              |  2 +-
 crates/styx-tree/src/value.rs            | 48 ++++++++++++++++++++++++
 crates/styx-wasm/src/lib.rs              |  2 +-
 4 files changed, 52 insertions(+), 4 deletions(-)

diff --git a/crates/facet-styx/src/schema_validate.rs b/crates/facet-styx/src/schema_validate.rs
index 72532ba..af84a4a 100644
--- a/crates/facet-styx/src/schema_validate.rs
+++ b/crates/facet-styx/src/schema_validate.rs
@@ -110,7 +110,7 @@ impl<'a> Validator<'a> {
     pub fn validate_document(&self, doc: &Value) -> ValidationResult {
         // Look up the root schema (key None = unit/@)
         match self.schema_file.schema.get(&None) {
-            Some(root_schema) => self.validate_value(doc, root_schema, ""),
+            Some(root_schema) => self.validate_value(&doc.with_joined_paths(), root_schema, ""),
             None => {
                 let mut result = ValidationResult::ok();
                 result.error(
@@ -131,7 +131,7 @@ impl<'a> Validator<'a> {
     /// Validate a value against a specific named type.
     pub fn validate_as_type(&self, value: &Value, type_name: &str) -> ValidationResult {
         match self.schema_file.schema.get(&Some(type_name.to_string())) {
-            Some(schema) => self.validate_value(value, schema, ""),
+            Some(schema) => self.validate_value(&value.with_joined_paths(), schema, ""),
             None => {
                 let mut result = ValidationResult::ok();
                 result.error(
diff --git a/crates/styx-cli/src/main.rs b/crates/styx-cli/src/main.rs
index bb47ebf..8263c4d 100644
--- a/crates/styx-cli/src/main.rs
+++ b/crates/styx-cli/src/main.rs
@@ -381,7 +381,7 @@ fn run_file_mode(args: &[String]) -> Result<(), CliError> {
     // Determine output format and destination
     if let Some(ref json_path) = opts.json_out {
         // JSON output
-        let json = value_to_json(&value);
+        let json = value_to_json(&value.with_joined_paths());
         let output =
             serde_json::to_string_pretty(&json).map_err(|e| CliError::Io(io::Error::other(e)))?;
         write_output(json_path, &output)?;
diff --git a/crates/styx-tree/src/value.rs b/crates/styx-tree/src/value.rs
index edcb540..62e1b23 100644
--- a/crates/styx-tree/src/value.rs
+++ b/crates/styx-tree/src/value.rs
@@ -254,6 +254,18 @@ impl Value {
         self
     }
 
+    /// The value in which the objects of sibling dotted paths are joined.
+    ///
+    /// The tree keeps each dotted path of a document as an entry of its own: `a.b 1` followed
+    /// by `a.c 2` is two entries `a`. Together they denote the one object `a { b 1, c 2 }`.
+    pub fn with_joined_paths(&self) -> Value {
+        let mut value = self.clone();
+        if let Some(object) = value.as_object_mut() {
+            object.join_paths();
+        }
+        value
+    }
+
     /// Get a value by path.
     ///
     /// Path segments are separated by `.`.
@@ -328,6 +340,42 @@ impl Value {
 }
 
 impl Object {
+    /// Join neighbouring entries that hold objects under the same plain key.
+    fn join_paths(&mut self) {
+        fn joins(a: &Entry, b: &Entry) -> bool {
+            a.key.as_str().is_some()
+                && a.key.as_str() == b.key.as_str()
+                && [a, b]
+                    .iter()
+                    .all(|e| e.value.tag.is_none() && e.value.as_object().is_some())
+        }
+
+        fn finish(entry: Option<&mut Entry>, grown: bool) {
+            if grown && let Some(object) = entry.and_then(|e| e.value.as_object_mut()) {
+                object.join_paths();
+            }
+        }
+
+        let mut joined: Vec<Entry> = Vec::with_capacity(self.entries.len());
+        let mut grown = false;
+        for mut entry in std::mem::take(&mut self.entries) {
+            if let Some(last) = joined.last_mut()
+                && joins(last, &entry)
+                && let (Some(to), Some(from)) =
+                    (last.value.as_object_mut(), entry.value.as_object_mut())
+            {
+                to.entries.append(&mut from.entries);
+                grown = true;
+            } else {
+                finish(joined.last_mut(), grown);
+                joined.push(entry);
+                grown = false;
+            }
+        }
+        finish(joined.last_mut(), grown);
+        self.entries = joined;
+    }
+
     /// Get entry value by key (for untagged scalar keys).
     pub fn get(&self, key: &str) -> Option<&Value> {
         self.entries
diff --git a/crates/styx-wasm/src/lib.rs b/crates/styx-wasm/src/lib.rs
index 694135d..74ada38 100644
--- a/crates/styx-wasm/src/lib.rs
+++ b/crates/styx-wasm/src/lib.rs
@@ -78,7 +78,7 @@ pub fn parse(source: &str) -> JsValue {
 pub fn to_json(source: &str) -> JsValue {
     match styx_tree::parse(source) {
         Ok(value) => {
-            let json_value = value_to_json(&value);
+            let json_value = value_to_json(&value.with_joined_paths());
             let json_string =
                 serde_json::to_string_pretty(&json_value).unwrap_or_else(|e| e.to_string());
 
-- 
2.43.0


From ecacd62da3608541cd06f045184ccbca7a779345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:36 +0000
Subject: [PATCH 41/59] fix: tag keys such as @schema keep their name in JSON
 output

---
 crates/styx-cli/src/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/styx-cli/src/main.rs b/crates/styx-cli/src/main.rs
index 8263c4d..69b1976 100644
--- a/crates/styx-cli/src/main.rs
+++ b/crates/styx-cli/src/main.rs
@@ -1387,6 +1387,8 @@ fn payload_to_json(payload: &Payload) -> serde_json::Value {
                     "@".to_string()
                 } else if let Some(s) = entry.key.as_str() {
                     s.to_string()
+                } else if let (Some(tag), None) = (entry.key.tag_name(), entry.key.scalar_text()) {
+                    format!("@{tag}")
                 } else {
                     format!("{:?}", entry.key)
                 };
-- 
2.43.0


From ab448725f5b29a3958c610d79989eaa859521142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:36 +0000
Subject: [PATCH 42/59] fix: a section whose bounds overflow is not a schema
 section

---
 crates/styx-embed/src/lib.rs | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/crates/styx-embed/src/lib.rs b/crates/styx-embed/src/lib.rs
index 70969f8..a2c5fed 100644
--- a/crates/styx-embed/src/lib.rs
+++ b/crates/styx-embed/src/lib.rs
@@ -347,6 +347,11 @@ fn find_schema_section<'a>(object: &goblin::Object, data: &'a [u8]) -> Option<&'
     }
 }
 
+/// `size` bytes of the data from `start`, if it has them.
+fn part(data: &[u8], start: usize, size: usize) -> Option<&[u8]> {
+    data.get(start..start.checked_add(size)?)
+}
+
 /// Find the .styx_schemas section in an ELF binary.
 fn find_elf_section<'a>(elf: &goblin::elf::Elf, data: &'a [u8]) -> Option<&'a [u8]> {
     for section in &elf.section_headers {
@@ -355,8 +360,8 @@ fn find_elf_section<'a>(elf: &goblin::elf::Elf, data: &'a [u8]) -> Option<&'a [u
         {
             let start = section.sh_offset as usize;
             let size = section.sh_size as usize;
-            if start + size <= data.len() {
-                return Some(&data[start..start + size]);
+            if let Some(found) = part(data, start, size) {
+                return Some(found);
             }
         }
     }
@@ -374,14 +379,12 @@ fn find_macho_section<'a>(mach: &goblin::mach::Mach, data: &'a [u8]) -> Option<&
             for arch in fat.iter_arches().flatten() {
                 let start = arch.offset as usize;
                 let size = arch.size as usize;
-                if start + size <= data.len() {
-                    let arch_data = &data[start..start + size];
-                    if let Ok(goblin::Object::Mach(Mach::Binary(macho))) =
+                if let Some(arch_data) = part(data, start, size)
+                    && let Ok(goblin::Object::Mach(Mach::Binary(macho))) =
                         goblin::Object::parse(arch_data)
-                        && let Some(section) = find_macho_section_in_binary(&macho, arch_data)
-                    {
-                        return Some(section);
-                    }
+                    && let Some(section) = find_macho_section_in_binary(&macho, arch_data)
+                {
+                    return Some(section);
                 }
             }
             None
@@ -404,8 +407,8 @@ fn find_macho_section_in_binary<'a>(
                 {
                     let start = section.offset as usize;
                     let size = section.size as usize;
-                    if start + size <= data.len() {
-                        return Some(&data[start..start + size]);
+                    if let Some(found) = part(data, start, size) {
+                        return Some(found);
                     }
                 }
             }
@@ -422,8 +425,8 @@ fn find_pe_section<'a>(pe: &goblin::pe::PE, data: &'a [u8]) -> Option<&'a [u8]>
         {
             let start = section.pointer_to_raw_data as usize;
             let size = section.size_of_raw_data as usize;
-            if start + size <= data.len() {
-                return Some(&data[start..start + size]);
+            if let Some(found) = part(data, start, size) {
+                return Some(found);
             }
         }
     }
-- 
2.43.0


From 59af1a5b786fd34f3988e4084434e16d933aff41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:37 +0000
Subject: [PATCH 43/59] fix: embedding macros read every string literal, join
 meta paths and report errors as items

---
 crates/styx-embed-macros/src/lib.rs | 126 +++++++++++++---------------
 1 file changed, 58 insertions(+), 68 deletions(-)

diff --git a/crates/styx-embed-macros/src/lib.rs b/crates/styx-embed-macros/src/lib.rs
index 7fee368..54bf9f4 100644
--- a/crates/styx-embed-macros/src/lib.rs
+++ b/crates/styx-embed-macros/src/lib.rs
@@ -19,7 +19,9 @@ const MAGIC: &[u8; 16] = b"STYX_SCHEMA_V2\0\0";
 ///
 /// Looks for `meta { id <value> }` at the root level.
 fn extract_schema_id(schema: &str) -> Result<String, String> {
-    let value = styx_tree::parse(schema).map_err(|e| format!("failed to parse schema: {e}"))?;
+    let value = styx_tree::parse(schema)
+        .map_err(|e| format!("failed to parse schema: {e}"))?
+        .with_joined_paths();
 
     let obj = value
         .as_object()
@@ -121,26 +123,41 @@ fn parse_string_literal(lit: &unsynn::Literal) -> Option<String> {
     // Regular string: "..."
     if s.starts_with('"') && s.ends_with('"') && s.len() >= 2 {
         let inner = &s[1..s.len() - 1];
-        // Handle basic escapes
         let mut result = String::new();
         let mut chars = inner.chars().peekable();
         while let Some(c) = chars.next() {
-            if c == '\\' {
-                match chars.next() {
-                    Some('n') => result.push('\n'),
-                    Some('r') => result.push('\r'),
-                    Some('t') => result.push('\t'),
-                    Some('\\') => result.push('\\'),
-                    Some('"') => result.push('"'),
-                    Some('0') => result.push('\0'),
-                    Some(other) => {
-                        result.push('\\');
-                        result.push(other);
-                    }
-                    None => result.push('\\'),
-                }
-            } else {
+            if c != '\\' {
                 result.push(c);
+                continue;
+            }
+            match chars.next()? {
+                'n' => result.push('\n'),
+                'r' => result.push('\r'),
+                't' => result.push('\t'),
+                '\\' => result.push('\\'),
+                '"' => result.push('"'),
+                '\'' => result.push('\''),
+                '0' => result.push('\0'),
+                'x' => {
+                    let hex: String = chars.by_ref().take(2).collect();
+                    result.push(u8::from_str_radix(&hex, 16).ok()? as char);
+                }
+                'u' => {
+                    let hex: String = chars
+                        .by_ref()
+                        .take_while(|&c| c != '}')
+                        .filter(|&c| c != '{' && c != '_')
+                        .collect();
+                    result.push(char::from_u32(u32::from_str_radix(&hex, 16).ok()?)?);
+                }
+                // A continued line: the line break and the white space after it are skipped.
+                '\n' => {
+                    while chars
+                        .next_if(|c| matches!(c, ' ' | '\t' | '\n' | '\r'))
+                        .is_some()
+                    {}
+                }
+                _ => return None,
             }
         }
         return Some(result);
@@ -149,6 +166,11 @@ fn parse_string_literal(lit: &unsynn::Literal) -> Option<String> {
     None
 }
 
+/// Generate an error shown by the compiler.
+fn compile_error(message: &str) -> TokenStream {
+    format!("compile_error!({message:?});").parse().unwrap()
+}
+
 /// Generate the static declaration for an embedded schema.
 fn generate_static(schema: &str) -> Result<TokenStream, String> {
     let id = extract_schema_id(schema)?;
@@ -205,26 +227,20 @@ pub fn embed_inline(input: TokenStream) -> TokenStream {
     let literal: unsynn::Literal = match Parse::parse(&mut tokens) {
         Ok(l) => l,
         Err(e) => {
-            return format!("compile_error!(\"expected string literal: {e}\")")
-                .parse()
-                .unwrap();
+            return compile_error(&format!("expected string literal: {e}"));
         }
     };
 
     let schema = match parse_string_literal(&literal) {
         Some(s) => s,
         None => {
-            return "compile_error!(\"expected string literal\")"
-                .parse()
-                .unwrap();
+            return compile_error("expected string literal");
         }
     };
 
     match generate_static(&schema) {
         Ok(ts) => ts,
-        Err(e) => format!("compile_error!(\"{}\")", e.replace('"', "\\\""))
-            .parse()
-            .unwrap(),
+        Err(e) => compile_error(&e),
     }
 }
 
@@ -244,35 +260,27 @@ pub fn embed_file(input: TokenStream) -> TokenStream {
     let literal: unsynn::Literal = match Parse::parse(&mut tokens) {
         Ok(l) => l,
         Err(e) => {
-            return format!("compile_error!(\"expected file path string: {e}\")")
-                .parse()
-                .unwrap();
+            return compile_error(&format!("expected file path string: {e}"));
         }
     };
 
     let path = match parse_string_literal(&literal) {
         Some(s) => s,
         None => {
-            return "compile_error!(\"expected string literal for file path\")"
-                .parse()
-                .unwrap();
+            return compile_error("expected string literal for file path");
         }
     };
 
     let content = match std::fs::read_to_string(&path) {
         Ok(c) => c,
         Err(e) => {
-            return format!("compile_error!(\"failed to read {}: {}\")", path, e)
-                .parse()
-                .unwrap();
+            return compile_error(&format!("failed to read {path}: {e}"));
         }
     };
 
     match generate_static(&content) {
         Ok(ts) => ts,
-        Err(e) => format!("compile_error!(\"{}\")", e.replace('"', "\\\""))
-            .parse()
-            .unwrap(),
+        Err(e) => compile_error(&e),
     }
 }
 
@@ -296,9 +304,7 @@ pub fn embed_files(input: TokenStream) -> TokenStream {
     let literals: DelimitedVec<unsynn::Literal, Comma> = match Parse::parse(&mut tokens) {
         Ok(l) => l,
         Err(e) => {
-            return format!("compile_error!(\"expected file path strings: {e}\")")
-                .parse()
-                .unwrap();
+            return compile_error(&format!("expected file path strings: {e}"));
         }
     };
 
@@ -308,35 +314,27 @@ pub fn embed_files(input: TokenStream) -> TokenStream {
         let path = match parse_string_literal(&delimited.value) {
             Some(s) => s,
             None => {
-                return "compile_error!(\"expected string literal for file path\")"
-                    .parse()
-                    .unwrap();
+                return compile_error("expected string literal for file path");
             }
         };
 
         let content = match std::fs::read_to_string(&path) {
             Ok(c) => c,
             Err(e) => {
-                return format!("compile_error!(\"failed to read {}: {}\")", path, e)
-                    .parse()
-                    .unwrap();
+                return compile_error(&format!("failed to read {path}: {e}"));
             }
         };
 
         match generate_static(&content) {
             Ok(ts) => result.extend(ts),
             Err(e) => {
-                return format!("compile_error!(\"{}\")", e.replace('"', "\\\""))
-                    .parse()
-                    .unwrap();
+                return compile_error(&e);
             }
         }
     }
 
     if result.is_empty() {
-        return "compile_error!(\"embed_files! requires at least one file\")"
-            .parse()
-            .unwrap();
+        return compile_error("embed_files! requires at least one file");
     }
 
     result
@@ -362,27 +360,23 @@ pub fn embed_outdir_file(input: TokenStream) -> TokenStream {
     let literal: unsynn::Literal = match Parse::parse(&mut tokens) {
         Ok(l) => l,
         Err(e) => {
-            return format!("compile_error!(\"expected filename string: {e}\")")
-                .parse()
-                .unwrap();
+            return compile_error(&format!("expected filename string: {e}"));
         }
     };
 
     let filename = match parse_string_literal(&literal) {
         Some(s) => s,
         None => {
-            return "compile_error!(\"expected string literal for filename\")"
-                .parse()
-                .unwrap();
+            return compile_error("expected string literal for filename");
         }
     };
 
     let out_dir = match std::env::var("OUT_DIR") {
         Ok(dir) => dir,
         Err(_) => {
-            return "compile_error!(\"OUT_DIR not set - this macro must be used in a crate with a build script\")"
-                .parse()
-                .unwrap()
+            return compile_error(
+                "OUT_DIR not set - this macro must be used in a crate with a build script",
+            );
         }
     };
 
@@ -392,17 +386,13 @@ pub fn embed_outdir_file(input: TokenStream) -> TokenStream {
     let content = match std::fs::read_to_string(&path) {
         Ok(c) => c,
         Err(e) => {
-            return format!("compile_error!(\"failed to read {}: {}\")", path_str, e)
-                .parse()
-                .unwrap();
+            return compile_error(&format!("failed to read {path_str}: {e}"));
         }
     };
 
     match generate_static(&content) {
         Ok(ts) => ts,
-        Err(e) => format!("compile_error!(\"{}\")", e.replace('"', "\\\""))
-            .parse()
-            .unwrap(),
+        Err(e) => compile_error(&e),
     }
 }
 
-- 
2.43.0


From d14e69d276a7a263d6911c5d4691010b23636692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:42 +0000
Subject: [PATCH 44/59] fix: styx-go reads documents as the Rust parser does

A document gives the same tree, and a malformed one an error, as in the Rust
parser: explicit root entries, key identity (units, tags, empty and quoted
keys, dots in quoted keys), implicit unit before a comma or after a dotted path,
one value per entry, duplicate attributes, attributes without a value, block
after a bare key, objects as keys, multi-line quoted strings, unicode escapes,
CRLF heredoc ends, heredoc delimiters, raw strings after a tag name.
A stray closing brace no longer hangs the parser.
---
 implementations/styx-go/lexer.go  | 102 ++++++++++-----------
 implementations/styx-go/parser.go | 144 ++++++++++++++++++------------
 2 files changed, 133 insertions(+), 113 deletions(-)

diff --git a/implementations/styx-go/lexer.go b/implementations/styx-go/lexer.go
index 41be29a..99e35d8 100644
--- a/implementations/styx-go/lexer.go
+++ b/implementations/styx-go/lexer.go
@@ -1,7 +1,10 @@
 package styx
 
 import (
+	"regexp"
+	"strconv"
 	"strings"
+	"unicode"
 	"unicode/utf8"
 )
 
@@ -182,7 +185,9 @@ func (l *Lexer) nextToken() (*Token, error) {
 		l.advance()
 		if isTagStart(l.peek(0)) {
 			nameStart := l.pos
-			for isTagChar(l.peek(0)) {
+			// r# starts a raw string payload
+			l.advance()
+			for isTagChar(l.peek(0)) && !strings.HasPrefix(l.source[l.pos:], "r#") {
 				l.advance()
 			}
 			name := l.source[nameStart:l.pos]
@@ -251,7 +256,7 @@ func (l *Lexer) readQuotedString(start int, hadWhitespace, hadNewline bool) (*To
 			case '"':
 				text.WriteByte('"')
 			case 'u':
-				r, err := l.readUnicodeEscape()
+				r, err := l.readUnicodeEscape(escapeStart)
 				if err != nil {
 					return nil, err
 				}
@@ -262,13 +267,6 @@ func (l *Lexer) readQuotedString(start int, hadWhitespace, hadNewline bool) (*To
 					Span:    Span{escapeStart, l.bytePos},
 				}
 			}
-		} else if ch == '\n' || ch == '\r' {
-			// Unterminated string - include the newline in the span
-			l.advance()
-			return nil, &ParseError{
-				Message: "unexpected token",
-				Span:    Span{start, l.bytePos},
-			}
 		} else {
 			text.WriteRune(l.advance())
 		}
@@ -281,49 +279,34 @@ func (l *Lexer) readQuotedString(start int, hadWhitespace, hadNewline bool) (*To
 	}
 }
 
-func (l *Lexer) readUnicodeEscape() (rune, error) {
-	if l.peek(0) == '{' {
+// readUnicodeEscape reads what follows \u: four hex digits, or any number in braces.
+func (l *Lexer) readUnicodeEscape(escapeStart int) (rune, error) {
+	braced := l.peek(0) == '{'
+	if braced {
 		l.advance()
-		var hexStr strings.Builder
-		for l.peek(0) != '}' && l.pos < len(l.source) {
-			hexStr.WriteRune(l.advance())
-		}
-		l.advance() // }
-		var r rune
-		_, err := parseHex(hexStr.String(), &r)
-		if err != nil {
-			return 0, err
-		}
-		return r, nil
 	}
-
-	var hexStr strings.Builder
-	for i := 0; i < 4; i++ {
-		hexStr.WriteRune(l.advance())
+	hexStart := l.pos
+	for isHexDigit(l.peek(0)) && (braced || l.pos < hexStart+4) {
+		l.advance()
 	}
-	var r rune
-	_, err := parseHex(hexStr.String(), &r)
-	if err != nil {
-		return 0, err
+	hex := l.source[hexStart:l.pos]
+	closed := len(hex) == 4
+	if braced {
+		closed = l.peek(0) == '}'
+		l.advance()
 	}
-	return r, nil
-}
-
-func parseHex(s string, r *rune) (int, error) {
-	var val rune
-	for _, ch := range s {
-		val *= 16
-		switch {
-		case ch >= '0' && ch <= '9':
-			val += ch - '0'
-		case ch >= 'a' && ch <= 'f':
-			val += ch - 'a' + 10
-		case ch >= 'A' && ch <= 'F':
-			val += ch - 'A' + 10
+	code, err := strconv.ParseUint(hex, 16, 32)
+	if !closed || err != nil || code > unicode.MaxRune || !utf8.ValidRune(rune(code)) {
+		return 0, &ParseError{
+			Message: "invalid unicode escape",
+			Span:    Span{escapeStart, l.bytePos},
 		}
 	}
-	*r = val
-	return len(s), nil
+	return rune(code), nil
+}
+
+func isHexDigit(ch rune) bool {
+	return (ch >= '0' && ch <= '9') || (ch >= 'a' && ch <= 'f') || (ch >= 'A' && ch <= 'F')
 }
 
 func (l *Lexer) readRawString(start int, hadWhitespace, hadNewline bool) (*Token, error) {
@@ -354,6 +337,8 @@ func (l *Lexer) readRawString(start int, hadWhitespace, hadNewline bool) (*Token
 	}
 }
 
+var heredocDelimiter = regexp.MustCompile(`^[A-Z][A-Z0-9_]{0,15}$`)
+
 func (l *Lexer) readHeredoc(start int, hadWhitespace, hadNewline bool) (*Token, error) {
 	l.advance() // <
 	l.advance() // <
@@ -370,8 +355,14 @@ func (l *Lexer) readHeredoc(start int, hadWhitespace, hadNewline bool) (*Token,
 	contentStart := l.bytePos
 
 	var text strings.Builder
-	delimStr := delimiter.String()
+	delimStr := strings.TrimSuffix(delimiter.String(), "\r")
 	bareDelimiter := strings.SplitN(delimStr, ",", 2)[0]
+	if !heredocDelimiter.MatchString(bareDelimiter) {
+		return nil, &ParseError{
+			Message: "unexpected token",
+			Span:    Span{start, start + 2 + len(bareDelimiter)},
+		}
+	}
 
 	for l.pos < len(l.source) {
 		var line strings.Builder
@@ -381,16 +372,17 @@ func (l *Lexer) readHeredoc(start int, hadWhitespace, hadNewline bool) (*Token,
 
 		lineStr := line.String()
 
-		// Check for exact match (no indentation)
-		if lineStr == bareDelimiter {
-			result := text.String()
-			return &Token{TokenHeredoc, result, Span{start, l.bytePos}, hadWhitespace, hadNewline}, nil
+		// Check for the closing delimiter, possibly indented, before LF, CRLF or the end
+		closing := lineStr
+		if l.pos < len(l.source) {
+			closing = strings.TrimSuffix(lineStr, "\r")
 		}
-
-		// Check for indented closing delimiter
-		stripped := strings.TrimLeft(lineStr, " \t")
+		stripped := strings.TrimLeft(closing, " \t")
 		if stripped == bareDelimiter {
-			indentLen := len(lineStr) - len(stripped)
+			// Leave the CR of a CRLF to what follows
+			l.pos -= len(lineStr) - len(closing)
+			l.bytePos -= len(lineStr) - len(closing)
+			indentLen := len(closing) - len(stripped)
 			// Dedent the content by stripping up to indentLen from each line
 			result := dedentHeredoc(text.String(), indentLen)
 			return &Token{TokenHeredoc, result, Span{start, l.bytePos}, hadWhitespace, hadNewline}, nil
diff --git a/implementations/styx-go/parser.go b/implementations/styx-go/parser.go
index dd1d29a..a77138c 100644
--- a/implementations/styx-go/parser.go
+++ b/implementations/styx-go/parser.go
@@ -32,8 +32,10 @@ func newPathState() *pathState {
 	}
 }
 
+// joinPath makes a map key of a path. Segments are valid UTF-8, so 0xff cannot
+// occur in them, but a quoted segment may hold dots.
 func joinPath(segments []string) string {
-	return strings.Join(segments, ".")
+	return strings.Join(segments, "\xff.")
 }
 
 // checkAndUpdate validates a path and updates the state.
@@ -52,13 +54,13 @@ func (ps *pathState) checkAndUpdate(path []string, span Span, kind pathValueKind
 		prefixKey := joinPath(prefix)
 		if ps.closedPaths[prefixKey] {
 			return &ParseError{
-				Message: "cannot reopen path `" + prefixKey + "` after sibling appeared",
+				Message: "cannot reopen path `" + strings.Join(prefix, ".") + "` after sibling appeared",
 				Span:    span,
 			}
 		}
 		if assigned, exists := ps.assignedPaths[prefixKey]; exists && assigned.kind == pathValueTerminal {
 			return &ParseError{
-				Message: "cannot nest into `" + prefixKey + "` which has a terminal value",
+				Message: "cannot nest into `" + strings.Join(prefix, ".") + "` which has a terminal value",
 				Span:    span,
 			}
 		}
@@ -192,9 +194,7 @@ func (p *parser) parse() (*Document, error) {
 		if err != nil {
 			return nil, err
 		}
-		objValue := &Value{Span: obj.Span, PayloadKind: PayloadObject, Object: obj}
-		unitKey := &Value{Span: Span{-1, -1}}
-		entries = append(entries, &Entry{Key: unitKey, Value: objValue})
+		entries = obj.Entries
 
 		// After explicit root object, only whitespace/comments/EOF are allowed
 		// Skip commas (they don't count as "content")
@@ -210,6 +210,9 @@ func (p *parser) parse() (*Document, error) {
 			for !p.check(TokenEOF) {
 				p.advance()
 			}
+			if p.err != nil {
+				return nil, p.err
+			}
 			trailingEnd := p.current.Span.Start
 			return nil, &ParseError{
 				Message: "trailing content after explicit root object",
@@ -217,6 +220,9 @@ func (p *parser) parse() (*Document, error) {
 			}
 		}
 
+		if p.err != nil {
+			return nil, p.err
+		}
 		return &Document{
 			Entries: entries,
 			Span:    Span{start, p.current.Span.End},
@@ -227,6 +233,9 @@ func (p *parser) parse() (*Document, error) {
 		if p.err != nil {
 			return nil, p.err
 		}
+		if p.check(TokenRBrace) {
+			return nil, &ParseError{Message: "unexpected token", Span: p.current.Span}
+		}
 		entry, err := p.parseEntryWithPathCheck(ps)
 		if err != nil {
 			return nil, err
@@ -235,6 +244,9 @@ func (p *parser) parse() (*Document, error) {
 			entries = append(entries, entry)
 		}
 	}
+	if p.err != nil {
+		return nil, p.err
+	}
 
 	return &Document{
 		Entries: entries,
@@ -263,15 +275,6 @@ func (p *parser) parseEntryWithPathCheck(ps *pathState) (*Entry, error) {
 		return nil, p.err
 	}
 
-	// Special case: object in key position gets implicit unit key
-	if key.PayloadKind == PayloadObject {
-		if !p.current.HadNewlineBefore && !p.check(TokenEOF, TokenRBrace, TokenComma) {
-			p.parseValue() // Drop trailing value
-		}
-		unitKey := &Value{Span: Span{-1, -1}}
-		return &Entry{Key: unitKey, Value: key}, nil
-	}
-
 	// Check for dotted path in bare scalar key
 	if key.PayloadKind == PayloadScalar && key.Scalar.Kind == ScalarBare {
 		text := key.Scalar.Text
@@ -284,34 +287,30 @@ func (p *parser) parseEntryWithPathCheck(ps *pathState) (*Entry, error) {
 		return nil, err
 	}
 
-	// Get key text for path tracking
-	keyText := p.getKeyText(key)
+	// Key identity for path tracking
+	identity := p.keyIdentity(key)
 
 	// Check for implicit unit
-	if p.current.HadNewlineBefore || p.check(TokenEOF, TokenRBrace) {
+	if p.atEntryEnd() {
 		// Validate path
-		if keyText != "" {
-			if err := ps.checkAndUpdate([]string{keyText}, key.Span, pathValueTerminal); err != nil {
-				return nil, err
-			}
+		if err := ps.checkAndUpdate([]string{identity}, key.Span, pathValueTerminal); err != nil {
+			return nil, err
 		}
 		return &Entry{Key: key, Value: &Value{Span: key.Span}}, nil
 	}
 
-	value, err := p.parseValue()
+	value, err := p.parseEntryValue(key.PayloadKind == PayloadScalar && key.Scalar.Kind == ScalarBare)
 	if err != nil {
 		return nil, err
 	}
 
 	// Determine value kind and validate path
-	if keyText != "" {
-		kind := pathValueTerminal
-		if value.PayloadKind == PayloadObject {
-			kind = pathValueObject
-		}
-		if err := ps.checkAndUpdate([]string{keyText}, key.Span, kind); err != nil {
-			return nil, err
-		}
+	kind := pathValueTerminal
+	if value.PayloadKind == PayloadObject && value.Tag == nil {
+		kind = pathValueObject
+	}
+	if err := ps.checkAndUpdate([]string{identity}, key.Span, kind); err != nil {
+		return nil, err
 	}
 
 	return &Entry{Key: key, Value: value}, nil
@@ -338,52 +337,71 @@ func (p *parser) parseEntryWithDupCheck(seenKeys map[string]Span) (*Entry, error
 		return nil, p.err
 	}
 
-	// Special case: object in key position gets implicit unit key
-	if key.PayloadKind == PayloadObject {
-		if !p.current.HadNewlineBefore && !p.check(TokenEOF, TokenRBrace, TokenComma) {
-			p.parseValue() // Drop trailing value
-		}
-		unitKey := &Value{Span: Span{-1, -1}}
-		return &Entry{Key: unitKey, Value: key}, nil
-	}
-
 	// Check for duplicate key
-	keyText := p.getKeyText(key)
-	if keyText != "" {
-		if _, exists := seenKeys[keyText]; exists {
-			return nil, &ParseError{Message: "duplicate key", Span: key.Span}
-		}
-		seenKeys[keyText] = key.Span
+	identity := p.keyIdentity(key)
+	if _, exists := seenKeys[identity]; exists {
+		return nil, &ParseError{Message: "duplicate key", Span: key.Span}
 	}
+	seenKeys[identity] = key.Span
 
 	if err := p.validateKey(key); err != nil {
 		return nil, err
 	}
 
 	// Check for implicit unit
-	if p.current.HadNewlineBefore || p.check(TokenEOF, TokenRBrace) {
+	if p.atEntryEnd() {
 		return &Entry{Key: key, Value: &Value{Span: key.Span}}, nil
 	}
 
-	value, err := p.parseValue()
+	value, err := p.parseEntryValue(key.PayloadKind == PayloadScalar && key.Scalar.Kind == ScalarBare)
 	if err != nil {
 		return nil, err
 	}
 	return &Entry{Key: key, Value: value}, nil
 }
 
-func (p *parser) getKeyText(key *Value) string {
+// atEntryEnd reports whether the entry ends here: a separator or the end of the object follows.
+func (p *parser) atEntryEnd() bool {
+	return p.current.HadNewlineBefore || p.check(TokenEOF, TokenRBrace, TokenComma)
+}
+
+// parseEntryValue parses the value after a key, which must be the last atom of the entry.
+// Whitespace must separate a block from a bare key.
+func (p *parser) parseEntryValue(bareKey bool) (*Value, error) {
+	if bareKey && p.check(TokenLBrace, TokenLParen) && !p.current.HadWhitespaceBefore {
+		return nil, &ParseError{Message: "missing whitespace before block", Span: p.current.Span}
+	}
+	value, err := p.parseValue()
+	if err != nil {
+		return nil, err
+	}
+	if p.err == nil && !p.atEntryEnd() {
+		return nil, &ParseError{Message: "unexpected token", Span: p.current.Span}
+	}
+	return value, nil
+}
+
+// keyIdentity returns a text that is equal for two keys exactly if the keys are equal.
+// Scalars are their own text; 0xff, which cannot occur in one, starts all others.
+func (p *parser) keyIdentity(key *Value) string {
+	tag := ""
+	if key.Tag != nil {
+		tag = "\xff@" + key.Tag.Name
+	}
 	if key.PayloadKind == PayloadScalar {
-		return key.Scalar.Text
+		if tag == "" {
+			return key.Scalar.Text
+		}
+		return tag + "\xff" + key.Scalar.Text
 	}
-	if key.Tag != nil && key.PayloadKind == PayloadNone {
-		return "@" + key.Tag.Name
+	if tag == "" {
+		return "\xff@"
 	}
-	return ""
+	return tag
 }
 
 func (p *parser) validateKey(key *Value) error {
-	if key.PayloadKind == PayloadSequence {
+	if key.PayloadKind == PayloadSequence || key.PayloadKind == PayloadObject {
 		return &ParseError{Message: "invalid key", Span: key.Span}
 	}
 	if key.PayloadKind == PayloadScalar && key.Scalar.Kind == ScalarHeredoc {
@@ -423,14 +441,18 @@ func (p *parser) expandDottedPathWithState(pathText string, span Span, ps *pathS
 		offset += segmentBytes + 1 // +1 for the dot
 	}
 
-	value, err := p.parseValue()
-	if err != nil {
-		return nil, err
+	// Implicit unit, or a value on the same line
+	value := &Value{Span: span}
+	if !p.atEntryEnd() {
+		var err error
+		if value, err = p.parseEntryValue(true); err != nil {
+			return nil, err
+		}
 	}
 
 	// Determine value kind for path tracking
 	kind := pathValueTerminal
-	if value.PayloadKind == PayloadObject {
+	if value.PayloadKind == PayloadObject && value.Tag == nil {
 		kind = pathValueObject
 	}
 
@@ -661,6 +683,12 @@ func (p *parser) parseAttributesAfterGT(firstKeyToken *Token) (*Value, error) {
 			}
 		}
 
+		for _, attr := range attrs {
+			if attr.Key.Scalar.Text == keyToken.Text {
+				return nil, &ParseError{Message: "duplicate key", Span: keyToken.Span}
+			}
+		}
+
 		attrKey := &Value{
 			Span:        keyToken.Span,
 			PayloadKind: PayloadScalar,
-- 
2.43.0


From 459846b4378592e2149216806b92c7b0d2df879c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:42 +0000
Subject: [PATCH 45/59] fix: styx-js reads documents as the Rust parser does

A document gives the same tree, and a malformed one an error, as in the Rust
parser: explicit root entries, key identity (units, tags, empty and quoted
keys, dots in quoted keys), implicit unit before a comma or after a dotted path,
one value per entry, duplicate attributes, attributes without a value, block
after a bare key, objects as keys, multi-line quoted strings, unicode escapes,
CRLF heredoc ends, heredoc delimiters, raw strings after a tag name.
A stray closing brace no longer hangs the parser.
---
 implementations/styx-js/src/lexer.ts  |  78 +++++++---------
 implementations/styx-js/src/parser.ts | 128 +++++++++++++-------------
 implementations/styx-js/src/types.ts  |  24 +++--
 3 files changed, 118 insertions(+), 112 deletions(-)

diff --git a/implementations/styx-js/src/lexer.ts b/implementations/styx-js/src/lexer.ts
index 1f8ac6a..8b88628 100644
--- a/implementations/styx-js/src/lexer.ts
+++ b/implementations/styx-js/src/lexer.ts
@@ -185,7 +185,9 @@ export class Lexer {
       // Check if it's a tag name
       if (this.isTagStart(this.peek())) {
         const nameStart = this.pos;
-        while (this.isTagChar(this.peek())) {
+        this.advance();
+        // r# starts a raw string payload
+        while (this.isTagChar(this.peek()) && !(this.peek() === "r" && this.peek(1) === "#")) {
           this.advance();
         }
         const name = this.source.slice(nameStart, this.pos);
@@ -283,7 +285,7 @@ export class Lexer {
             text += '"';
             break;
           case "u":
-            text += this.readUnicodeEscape();
+            text += this.readUnicodeEscape(escapeStart);
             break;
           default:
             // Unknown escape - this is a parse error
@@ -292,13 +294,6 @@ export class Lexer {
               end: this.bytePos,
             });
         }
-      } else if (ch === "\n" || ch === "\r") {
-        // Unterminated string - include the newline in the span
-        this.advance();
-        if (ch === "\r" && this.peek() === "\n") {
-          this.advance();
-        }
-        throw new ParseError("unexpected token", { start, end: this.bytePos });
       } else {
         text += this.advance();
       }
@@ -308,25 +303,26 @@ export class Lexer {
     throw new ParseError("unexpected token", { start, end: this.bytePos });
   }
 
-  private readUnicodeEscape(): string {
-    if (this.peek() === "{") {
-      this.advance(); // {
-      let hex = "";
-      while (this.peek() !== "}" && this.pos < this.source.length) {
-        hex += this.advance();
-      }
-      this.advance(); // }
-      const codePoint = parseInt(hex, 16);
-      return String.fromCodePoint(codePoint);
-    } else {
-      // \uXXXX format
-      let hex = "";
-      for (let i = 0; i < 4; i++) {
-        hex += this.advance();
-      }
-      const codePoint = parseInt(hex, 16);
-      return String.fromCodePoint(codePoint);
+  /** Read what follows \u: four hex digits, or any number in braces. */
+  private readUnicodeEscape(escapeStart: number): string {
+    const braced = this.peek() === "{";
+    if (braced) {
+      this.advance();
+    }
+    let hex = "";
+    while (/^[0-9A-Fa-f]$/.test(this.peek()) && (braced || hex.length < 4)) {
+      hex += this.advance();
+    }
+    let closed = hex.length === 4;
+    if (braced) {
+      closed = hex.length > 0 && this.peek() === "}";
+      this.advance();
+    }
+    const codePoint = parseInt(hex, 16);
+    if (!closed || codePoint > 0x10ffff || (codePoint >= 0xd800 && codePoint <= 0xdfff)) {
+      throw new ParseError("invalid unicode escape", { start: escapeStart, end: this.bytePos });
     }
+    return String.fromCodePoint(codePoint);
   }
 
   private readRawString(start: number, hadWhitespace: boolean, hadNewline: boolean): Token {
@@ -379,7 +375,11 @@ export class Lexer {
 
     // Read content until delimiter on its own line
     let text = "";
-    const bareDelimiter = delimiter.split(",")[0];
+    const bareDelimiter = delimiter.replace(/\r$/, "").split(",")[0];
+    if (!/^[A-Z][A-Z0-9_]{0,15}$/.test(bareDelimiter)) {
+      const length = new TextEncoder().encode(bareDelimiter).length;
+      throw new ParseError("unexpected token", { start, end: start + 2 + length });
+    }
 
     while (this.pos < this.source.length) {
       // Read a line
@@ -388,22 +388,14 @@ export class Lexer {
         line += this.advance();
       }
 
-      // Check for exact match (no indentation)
-      if (line === bareDelimiter) {
-        // Language hint is metadata only, does not affect content (r[scalar.heredoc.lang])
-        return {
-          type: "heredoc",
-          text,
-          span: { start, end: this.bytePos },
-          hadWhitespaceBefore: hadWhitespace,
-          hadNewlineBefore: hadNewline,
-        };
-      }
-
-      // Check for indented closing delimiter
-      const stripped = line.replace(/^[ \t]+/, "");
+      // Check for the closing delimiter, possibly indented, before LF, CRLF or the end
+      const closing = this.pos < this.source.length ? line.replace(/\r$/, "") : line;
+      const stripped = closing.replace(/^[ \t]+/, "");
       if (stripped === bareDelimiter) {
-        const indentLen = line.length - stripped.length;
+        // Leave the CR of a CRLF to what follows
+        this.pos -= line.length - closing.length;
+        this.bytePos -= line.length - closing.length;
+        const indentLen = closing.length - stripped.length;
         // Dedent the content by stripping up to indentLen from each line
         const result = this.dedentHeredoc(text, indentLen);
         // Language hint is metadata only, does not affect content (r[scalar.heredoc.lang])
diff --git a/implementations/styx-js/src/parser.ts b/implementations/styx-js/src/parser.ts
index 0f867dd..fb5be5a 100644
--- a/implementations/styx-js/src/parser.ts
+++ b/implementations/styx-js/src/parser.ts
@@ -68,9 +68,7 @@ export class Parser {
     if (this.check("lbrace")) {
       // Explicit root object - parse it and check for trailing content
       const obj = this.parseObject();
-      const objValue: Value = { payload: obj, span: obj.span };
-      const unitKey: Value = { span: { start: -1, end: -1 } };
-      entries.push({ key: unitKey, value: objValue });
+      entries.push(...obj.entries);
 
       // After explicit root object, only whitespace/comments/EOF are allowed
       // Skip commas (they don't count as "content")
@@ -100,6 +98,9 @@ export class Parser {
     }
 
     while (!this.check("eof")) {
+      if (this.check("rbrace")) {
+        throw new ParseError("unexpected token", this.current.span);
+      }
       const entry = this.parseEntryWithPathCheck(pathState);
       if (entry) {
         entries.push(entry);
@@ -129,15 +130,6 @@ export class Parser {
     // Parse the key
     const key = this.parseValue();
 
-    // Special case: object in key position gets implicit unit key
-    if (key.payload?.type === "object") {
-      if (!this.current.hadNewlineBefore && !this.check("eof", "rbrace", "comma")) {
-        this.parseValue(); // Drop trailing value
-      }
-      const unitKey: Value = { span: { start: -1, end: -1 } };
-      return { key: unitKey, value: key };
-    }
-
     // Check for dotted path in bare scalar key
     if (key.payload?.type === "scalar" && key.payload.kind === "bare") {
       const text = key.payload.text;
@@ -146,29 +138,25 @@ export class Parser {
       }
     }
 
-    // Get key text for path state
-    const keyText = this.getKeyText(key);
+    // Key identity for path state
+    const identity = this.keyIdentity(key);
 
     // Validate key
     this.validateKey(key);
 
     // Check for implicit unit (key followed by newline, EOF, or closing brace)
-    if (this.current.hadNewlineBefore || this.check("eof", "rbrace")) {
-      if (keyText !== null) {
-        pathState.checkAndUpdate([keyText], key.span, "terminal");
-      }
+    if (this.atEntryEnd()) {
+      pathState.checkAndUpdate([identity], key.span, "terminal");
       const unitValue: Value = { span: key.span };
       return { key, value: unitValue };
     }
 
     // Parse the value
-    const value = this.parseValue();
+    const value = this.parseEntryValue(key.payload?.type === "scalar" && key.payload.kind === "bare");
 
     // Determine kind from actual value
-    if (keyText !== null) {
-      const kind: PathValueKind = value.payload?.type === "object" ? "object" : "terminal";
-      pathState.checkAndUpdate([keyText], key.span, kind);
-    }
+    const kind: PathValueKind = value.payload?.type === "object" && !value.tag ? "object" : "terminal";
+    pathState.checkAndUpdate([identity], key.span, kind);
 
     return { key, value };
   }
@@ -189,10 +177,10 @@ export class Parser {
       offset += segmentBytes + 1; // +1 for the dot
     }
 
-    const value = this.parseValue();
+    const value = this.parsePathValue(span);
 
     // Determine value kind
-    const kind: PathValueKind = value.payload?.type === "object" ? "object" : "terminal";
+    const kind: PathValueKind = value.payload?.type === "object" && !value.tag ? "object" : "terminal";
 
     // Check and update path state - use full path span for error messages
     pathState.checkAndUpdate(segments, span, kind);
@@ -256,17 +244,6 @@ export class Parser {
     // Parse the key
     const key = this.parseValue();
 
-    // Special case: object in key position gets implicit unit key
-    // The parsed "value" is dropped (matches Rust styx_tree behavior)
-    if (key.payload?.type === "object") {
-      // Skip any trailing value on the same line
-      if (!this.current.hadNewlineBefore && !this.check("eof", "rbrace", "comma")) {
-        this.parseValue(); // Drop it
-      }
-      const unitKey: Value = { span: { start: -1, end: -1 } };
-      return { key: unitKey, value: key };
-    }
-
     // Check for dotted path in bare scalar key
     if (key.payload?.type === "scalar" && key.payload.kind === "bare") {
       const text = key.payload.text;
@@ -276,45 +253,44 @@ export class Parser {
     }
 
     // Check for duplicate key
-    const keyText = this.getKeyText(key);
-    if (keyText !== null) {
-      const existing = seenKeys.get(keyText);
-      if (existing) {
-        throw new ParseError(`duplicate key`, key.span);
-      }
-      seenKeys.set(keyText, key.span);
+    const identity = this.keyIdentity(key);
+    if (seenKeys.has(identity)) {
+      throw new ParseError(`duplicate key`, key.span);
     }
+    seenKeys.set(identity, key.span);
 
     // Validate key
     this.validateKey(key);
 
     // Check for implicit unit (key followed by newline, EOF, or closing brace)
-    if (this.current.hadNewlineBefore || this.check("eof", "rbrace")) {
+    if (this.atEntryEnd()) {
       // Implicit unit - no value provided
       const unitValue: Value = { span: key.span };
       return { key, value: unitValue };
     }
 
     // Parse the value
-    const value = this.parseValue();
+    const value = this.parseEntryValue(key.payload?.type === "scalar" && key.payload.kind === "bare");
 
     return { key, value };
   }
 
-  private getKeyText(key: Value): string | null {
+  /**
+   * A text that is equal for two keys exactly if the keys are equal. Scalars are their own
+   * text; a lone surrogate, which cannot occur in one, starts all others.
+   */
+  private keyIdentity(key: Value): string {
+    const tag = key.tag ? `\ud800@${key.tag.name}` : "";
     if (key.payload?.type === "scalar") {
-      return key.payload.text;
-    }
-    if (key.tag && !key.payload) {
-      return `@${key.tag.name}`;
+      return tag ? `${tag}\ud800${key.payload.text}` : key.payload.text;
     }
-    return null;
+    return tag || "\ud800@";
   }
 
   private validateKey(key: Value): void {
     if (key.payload) {
-      // Sequences cannot be used as keys
-      if (key.payload.type === "sequence") {
+      // Sequences and objects cannot be used as keys
+      if (key.payload.type === "sequence" || key.payload.type === "object") {
         throw new ParseError(`invalid key`, key.span);
       }
       // Heredocs cannot be used as keys
@@ -328,12 +304,34 @@ export class Parser {
 
   /** Get the span of just the heredoc opening marker (<<TAG\n). */
   private heredocStartSpan(heredocSpan: Span): Span {
-    const text = this.source.slice(heredocSpan.start, heredocSpan.end);
-    const newlineIdx = text.indexOf("\n");
+    const text = new TextEncoder().encode(this.source).slice(heredocSpan.start, heredocSpan.end);
+    const newlineIdx = text.indexOf(0x0a);
     const endOffset = newlineIdx >= 0 ? newlineIdx + 1 : text.length;
     return { start: heredocSpan.start, end: heredocSpan.start + endOffset };
   }
 
+  /** The value of a dotted path: on the same line, or an implicit unit. */
+  private parsePathValue(span: Span): Value {
+    return this.atEntryEnd() ? { span } : this.parseEntryValue(true);
+  }
+
+  /** Whether the entry ends here: a separator or the end of the object follows. */
+  private atEntryEnd(): boolean {
+    return this.current.hadNewlineBefore || this.check("eof", "rbrace", "comma");
+  }
+
+  /** Parse the value after a key, which must be the last atom of the entry; whitespace separates a block from a bare key. */
+  private parseEntryValue(bareKey: boolean): Value {
+    if (bareKey && this.check("lbrace", "lparen") && !this.current.hadWhitespaceBefore) {
+      throw new ParseError("missing whitespace before block", this.current.span);
+    }
+    const value = this.parseValue();
+    if (!this.atEntryEnd()) {
+      throw new ParseError("unexpected token", this.current.span);
+    }
+    return value;
+  }
+
   private expandDottedPath(pathText: string, span: Span, seenKeys: Map<string, Span>): Entry {
     const segments = pathText.split(".");
 
@@ -357,7 +355,7 @@ export class Parser {
       offset += segmentBytes + 1; // +1 for the dot
     }
 
-    const value = this.parseValue();
+    const value = this.parsePathValue(span);
 
     // Build nested structure from inside out
     let result: Value = value;
@@ -491,11 +489,7 @@ export class Parser {
       if (nextToken.type === "gt" && !nextToken.hadWhitespaceBefore) {
         // Attribute syntax: key>value
         this.advance(); // consume >
-        const afterGT = this.current;
-        if (afterGT.hadNewlineBefore || this.check("eof", "rbrace", "rparen")) {
-          // Trailing > without a value is a parse error
-          throw new ParseError("expected a value", nextToken.span);
-        }
+        this.checkAttributeValue(nextToken);
         // Parse as attributes (we already consumed >)
         return this.parseAttributesAfterGT(scalarToken);
       }
@@ -568,6 +562,13 @@ export class Parser {
     return { payload: obj, span: obj.span };
   }
 
+  /** A > without a value right after it is a parse error. */
+  private checkAttributeValue(gt: Token): void {
+    if (this.current.hadWhitespaceBefore || this.check("eof", "rbrace", "rparen", "comma")) {
+      throw new ParseError("expected a value", gt.span);
+    }
+  }
+
   private parseAttributesAfterGT(firstKeyToken: Token): Value {
     // Same as parseAttributesStartingWith but > was already consumed
     const attrs: Entry[] = [];
@@ -595,7 +596,10 @@ export class Parser {
       }
 
       this.advance();
-      this.advance();
+      this.checkAttributeValue(this.advance());
+      if (attrs.some((attr) => (attr.key.payload as Scalar).text === keyToken.text)) {
+        throw new ParseError("duplicate key", keyToken.span);
+      }
 
       const attrKey: Value = {
         payload: {
diff --git a/implementations/styx-js/src/types.ts b/implementations/styx-js/src/types.ts
index 31ed14b..af56fd2 100644
--- a/implementations/styx-js/src/types.ts
+++ b/implementations/styx-js/src/types.ts
@@ -10,6 +10,16 @@ export type ScalarKind = "bare" | "quoted" | "raw" | "heredoc";
 /** Path value kind for tracking */
 export type PathValueKind = "object" | "terminal";
 
+/** Make a map key of a path. A quoted segment may hold dots, but no lone surrogate. */
+function pathKey(path: string[]): string {
+  return path.join("\ud800.");
+}
+
+/** Spell a path for an error message. */
+function pathText(path: string[]): string {
+  return path.join(".").replaceAll("\ud800", "");
+}
+
 /** Track path state for detecting reopen-path and nest-into-terminal errors */
 export class PathState {
   currentPath: string[] = [];
@@ -17,7 +27,7 @@ export class PathState {
   assignedPaths = new Map<string, { kind: PathValueKind; span: Span }>();
 
   checkAndUpdate(path: string[], span: Span, kind: PathValueKind): void {
-    const fullPath = path.join(".");
+    const fullPath = pathKey(path);
 
     // 1. Check for duplicate
     const existing = this.assignedPaths.get(fullPath);
@@ -26,18 +36,18 @@ export class PathState {
         throw new ParseError("duplicate key", span);
       }
       // Both are objects - it's a reopen attempt
-      throw new ParseError(`cannot reopen path \`${fullPath}\` after sibling appeared`, span);
+      throw new ParseError(`cannot reopen path \`${pathText(path)}\` after sibling appeared`, span);
     }
 
     // 2. Check if any prefix is closed (has had siblings) or is terminal
     for (let i = 1; i < path.length; i++) {
-      const prefix = path.slice(0, i).join(".");
+      const prefix = pathKey(path.slice(0, i));
       if (this.closedPaths.has(prefix)) {
-        throw new ParseError(`cannot reopen path \`${prefix}\` after sibling appeared`, span);
+        throw new ParseError(`cannot reopen path \`${pathText(path.slice(0, i))}\` after sibling appeared`, span);
       }
       const prefixEntry = this.assignedPaths.get(prefix);
       if (prefixEntry && prefixEntry.kind === "terminal") {
-        throw new ParseError(`cannot nest into \`${prefix}\` which has a terminal value`, span);
+        throw new ParseError(`cannot nest into \`${pathText(path.slice(0, i))}\` which has a terminal value`, span);
       }
     }
 
@@ -53,13 +63,13 @@ export class PathState {
 
     // 4. Close all divergent paths from current path
     for (let i = commonLen; i < this.currentPath.length; i++) {
-      const divergent = this.currentPath.slice(0, i + 1).join(".");
+      const divergent = pathKey(this.currentPath.slice(0, i + 1));
       this.closedPaths.add(divergent);
     }
 
     // 5. Record intermediate segments as objects
     for (let i = 0; i < path.length - 1; i++) {
-      const prefix = path.slice(0, i + 1).join(".");
+      const prefix = pathKey(path.slice(0, i + 1));
       if (!this.assignedPaths.has(prefix)) {
         this.assignedPaths.set(prefix, { kind: "object", span });
       }
-- 
2.43.0


From 4431e7369f9ce05d718840c4a9d6531d67bdb7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:42 +0000
Subject: [PATCH 46/59] fix: styx-py reads documents as the Rust parser does

A document gives the same tree, and a malformed one an error, as in the Rust
parser: explicit root entries, key identity (units, tags, empty and quoted
keys, dots in quoted keys), implicit unit before a comma or after a dotted path,
one value per entry, duplicate attributes, attributes without a value, block
after a bare key, objects as keys, multi-line quoted strings, unicode escapes,
CRLF heredoc ends, heredoc delimiters, raw strings after a tag name.
A stray closing brace no longer hangs the parser.
---
 implementations/styx-py/styx/lexer.py  |  65 +++++-----
 implementations/styx-py/styx/parser.py | 163 ++++++++++++++-----------
 2 files changed, 128 insertions(+), 100 deletions(-)

diff --git a/implementations/styx-py/styx/lexer.py b/implementations/styx-py/styx/lexer.py
index ce97622..7efbc21 100644
--- a/implementations/styx-py/styx/lexer.py
+++ b/implementations/styx-py/styx/lexer.py
@@ -44,6 +44,8 @@ SPECIAL_CHARS: Final[frozenset[str]] = frozenset(
 )
 
 TAG_START_RE: Final[re.Pattern[str]] = re.compile(r"[A-Za-z_]")
+HEREDOC_DELIMITER_RE: Final[re.Pattern[str]] = re.compile(r"[A-Z][A-Z0-9_]{0,15}")
+HEX_DIGIT_RE: Final[re.Pattern[str]] = re.compile(r"[0-9A-Fa-f]")
 TAG_CHAR_RE: Final[re.Pattern[str]] = re.compile(r"[A-Za-z0-9_\-]")
 
 
@@ -158,7 +160,11 @@ class Lexer:
             self._advance()
             if self._is_tag_start(self._peek()):
                 name_start = self.pos
-                while self._is_tag_char(self._peek()):
+                self._advance()
+                # r# starts a raw string payload
+                while self._is_tag_char(self._peek()) and not self.source.startswith(
+                    "r#", self.pos
+                ):
                     self._advance()
                 name = self.source[name_start : self.pos]
                 return Token(
@@ -177,7 +183,7 @@ class Lexer:
         # Heredoc - only if << is followed by uppercase letter
         if ch == "<" and self._peek(1) == "<":
             after_lt_lt = self._peek(2)
-            if after_lt_lt.isupper():
+            if after_lt_lt.isascii() and after_lt_lt.isupper():
                 return self._read_heredoc(start, had_whitespace, had_newline)
             # << not followed by uppercase - return error at just <<
             self._advance()  # <
@@ -219,38 +225,34 @@ class Lexer:
                     case '"':
                         text += '"'
                     case "u":
-                        text += self._read_unicode_escape()
+                        text += self._read_unicode_escape(escape_start)
                     case _:
                         raise ParseError(
                             f"invalid escape sequence: \\{escaped}",
                             Span(escape_start, self.byte_pos),
                         )
-            elif ch in ("\n", "\r"):
-                # Unterminated string - include the newline in the span
-                self._advance()
-                if ch == "\r" and self._peek() == "\n":
-                    self._advance()
-                raise ParseError("unexpected token", Span(start, self.byte_pos))
             else:
                 text += self._advance()
 
         # EOF without closing quote - error
         raise ParseError("unexpected token", Span(start, self.byte_pos))
 
-    def _read_unicode_escape(self) -> str:
-        """Read a unicode escape sequence."""
-        if self._peek() == "{":
+    def _read_unicode_escape(self, escape_start: int) -> str:
+        """Read what follows \\u: four hex digits, or any number in braces."""
+        braced = self._peek() == "{"
+        if braced:
             self._advance()
-            hex_str = ""
-            while self._peek() != "}" and self.pos < len(self.source):
-                hex_str += self._advance()
+        hex_str = ""
+        while HEX_DIGIT_RE.match(self._peek()) and (braced or len(hex_str) < 4):
+            hex_str += self._advance()
+        closed = len(hex_str) == 4
+        if braced:
+            closed = hex_str != "" and self._peek() == "}"
             self._advance()
-            return chr(int(hex_str, 16))
-        else:
-            hex_str = ""
-            for _ in range(4):
-                hex_str += self._advance()
-            return chr(int(hex_str, 16))
+        code = int(hex_str, 16) if closed else -1
+        if not 0 <= code <= 0x10FFFF or 0xD800 <= code <= 0xDFFF:
+            raise ParseError("invalid unicode escape", Span(escape_start, self.byte_pos))
+        return chr(code)
 
     def _read_raw_string(self, start: int, had_whitespace: bool, had_newline: bool) -> Token:
         """Read a raw string."""
@@ -290,23 +292,24 @@ class Lexer:
         content_start = self.byte_pos
 
         text = ""
-        bare_delimiter = delimiter.split(",")[0]
+        bare_delimiter = delimiter.removesuffix("\r").split(",")[0]
+        if not HEREDOC_DELIMITER_RE.fullmatch(bare_delimiter):
+            end = start + 2 + len(bare_delimiter.encode("utf-8"))
+            raise ParseError("unexpected token", Span(start, end))
 
         while self.pos < len(self.source):
             line = ""
             while self.pos < len(self.source) and self._peek() != "\n":
                 line += self._advance()
 
-            # Check for exact match (no indentation)
-            if line == bare_delimiter:
-                return Token(
-                    TokenType.HEREDOC, text, Span(start, self.byte_pos), had_whitespace, had_newline
-                )
-
-            # Check for indented closing delimiter
-            stripped = line.lstrip(" \t")
+            # Check for the closing delimiter, possibly indented, before LF, CRLF or the end
+            closing = line.removesuffix("\r") if self.pos < len(self.source) else line
+            stripped = closing.lstrip(" \t")
             if stripped == bare_delimiter:
-                indent_len = len(line) - len(stripped)
+                # Leave the CR of a CRLF to what follows
+                self.pos -= len(line) - len(closing)
+                self.byte_pos -= len(line) - len(closing)
+                indent_len = len(closing) - len(stripped)
                 # Dedent the content by stripping up to indent_len from each line
                 result = self._dedent_heredoc(text, indent_len)
                 return Token(
diff --git a/implementations/styx-py/styx/parser.py b/implementations/styx-py/styx/parser.py
index ba451a9..656e106 100644
--- a/implementations/styx-py/styx/parser.py
+++ b/implementations/styx-py/styx/parser.py
@@ -18,6 +18,16 @@ from .types import (
 )
 
 
+def _path_key(path: list[str]) -> str:
+    """Make a dictionary key of a path. A quoted segment may hold dots, but no surrogate."""
+    return "\ud800.".join(path)
+
+
+def _path_text(path: list[str]) -> str:
+    """Spell a path for an error message."""
+    return ".".join(path).replace("\ud800", "")
+
+
 class PathState:
     """Track path state for detecting reopen-path and nest-into-terminal errors."""
 
@@ -30,7 +40,7 @@ class PathState:
 
     def check_and_update(self, path: list[str], span: Span, kind: PathValueKind) -> None:
         """Check path validity and update state. Raises ParseError if invalid."""
-        full_path = ".".join(path)
+        full_path = _path_key(path)
 
         # 1. Check for duplicate
         if full_path in self.assigned_paths:
@@ -38,18 +48,23 @@ class PathState:
             if existing_kind == PathValueKind.TERMINAL:
                 raise ParseError("duplicate key", span)
             # Both are objects - it's a reopen attempt
-            raise ParseError(f"cannot reopen path `{full_path}` after sibling appeared", span)
+            raise ParseError(
+                f"cannot reopen path `{_path_text(path)}` after sibling appeared", span
+            )
 
         # 2. Check if any prefix is closed (has had siblings) or is terminal
         for i in range(1, len(path)):
-            prefix = ".".join(path[:i])
+            prefix = _path_key(path[:i])
             if prefix in self.closed_paths:
-                raise ParseError(f"cannot reopen path `{prefix}` after sibling appeared", span)
+                raise ParseError(
+                    f"cannot reopen path `{_path_text(path[:i])}` after sibling appeared", span
+                )
             if prefix in self.assigned_paths:
                 prefix_kind, _prefix_span = self.assigned_paths[prefix]
                 if prefix_kind == PathValueKind.TERMINAL:
                     raise ParseError(
-                        f"cannot nest into `{prefix}` which has a terminal value", span
+                        f"cannot nest into `{_path_text(path[:i])}` which has a terminal value",
+                        span,
                     )
 
         # 3. Find common prefix length with current path
@@ -62,12 +77,12 @@ class PathState:
 
         # 4. Close all divergent paths from current path
         for i in range(common_len, len(self.current_path)):
-            divergent = ".".join(self.current_path[: i + 1])
+            divergent = _path_key(self.current_path[: i + 1])
             self.closed_paths.add(divergent)
 
         # 5. Record intermediate segments as objects
         for i in range(len(path) - 1):
-            prefix = ".".join(path[: i + 1])
+            prefix = _path_key(path[: i + 1])
             if prefix not in self.assigned_paths:
                 self.assigned_paths[prefix] = (PathValueKind.OBJECT, span)
 
@@ -130,9 +145,7 @@ class Parser:
         if self._check(TokenType.LBRACE):
             # Explicit root object - parse it and check for trailing content
             obj = self._parse_object()
-            obj_value = Value(span=obj.span, payload=obj)
-            unit_key = Value(span=Span(-1, -1))
-            entries.append(Entry(key=unit_key, value=obj_value))
+            entries = obj.entries
 
             # After explicit root object, only whitespace/comments/EOF are allowed
             # Skip commas (they don't count as "content")
@@ -158,6 +171,8 @@ class Parser:
             )
 
         while not self._check(TokenType.EOF):
+            if self._check(TokenType.RBRACE):
+                raise ParseError("unexpected token", self.current.span)
             entry = self._parse_entry_with_path_check(path_state)
             if entry:
                 entries.append(entry)
@@ -181,15 +196,6 @@ class Parser:
 
         key = self._parse_value()
 
-        # Special case: object in key position gets implicit unit key
-        if key.payload is not None and isinstance(key.payload, StyxObject):
-            if not self.current.had_newline_before and not self._check(
-                TokenType.EOF, TokenType.RBRACE, TokenType.COMMA
-            ):
-                self._parse_value()  # Drop trailing value
-            unit_key = Value(span=Span(-1, -1))
-            return Entry(key=unit_key, value=key)
-
         # Check for dotted path in bare scalar key
         if (
             key.payload is not None
@@ -201,25 +207,23 @@ class Parser:
                 return self._expand_dotted_path_with_state(text, key.span, path_state)
 
         # Check key validity with path state
-        key_text = self._get_key_text(key)
+        identity = self._key_identity(key)
 
         self._validate_key(key)
 
         # Check for implicit unit
-        if self.current.had_newline_before or self._check(TokenType.EOF, TokenType.RBRACE):
-            if key_text is not None:
-                path_state.check_and_update([key_text], key.span, PathValueKind.TERMINAL)
+        if self._at_entry_end():
+            path_state.check_and_update([identity], key.span, PathValueKind.TERMINAL)
             return Entry(key=key, value=Value(span=key.span))
 
-        value = self._parse_value()
+        value = self._parse_entry_value(self._is_bare(key))
 
         # Determine kind from actual value
-        if key_text is not None:
-            if value.payload is not None and isinstance(value.payload, StyxObject):
-                kind = PathValueKind.OBJECT
-            else:
-                kind = PathValueKind.TERMINAL
-            path_state.check_and_update([key_text], key.span, kind)
+        if value.tag is None and isinstance(value.payload, StyxObject):
+            kind = PathValueKind.OBJECT
+        else:
+            kind = PathValueKind.TERMINAL
+        path_state.check_and_update([identity], key.span, kind)
 
         return Entry(key=key, value=value)
 
@@ -237,15 +241,6 @@ class Parser:
 
         key = self._parse_value()
 
-        # Special case: object in key position gets implicit unit key
-        if key.payload is not None and isinstance(key.payload, StyxObject):
-            if not self.current.had_newline_before and not self._check(
-                TokenType.EOF, TokenType.RBRACE, TokenType.COMMA
-            ):
-                self._parse_value()  # Drop trailing value
-            unit_key = Value(span=Span(-1, -1))
-            return Entry(key=unit_key, value=key)
-
         # Check for dotted path in bare scalar key
         if (
             key.payload is not None
@@ -257,33 +252,60 @@ class Parser:
                 return self._expand_dotted_path(text, key.span, seen_keys)
 
         # Check for duplicate key
-        key_text = self._get_key_text(key)
-        if key_text is not None:
-            if key_text in seen_keys:
-                raise ParseError("duplicate key", key.span)
-            seen_keys[key_text] = key.span
+        identity = self._key_identity(key)
+        if identity in seen_keys:
+            raise ParseError("duplicate key", key.span)
+        seen_keys[identity] = key.span
 
         self._validate_key(key)
 
         # Check for implicit unit
-        if self.current.had_newline_before or self._check(TokenType.EOF, TokenType.RBRACE):
+        if self._at_entry_end():
             return Entry(key=key, value=Value(span=key.span))
 
-        value = self._parse_value()
+        value = self._parse_entry_value(self._is_bare(key))
         return Entry(key=key, value=value)
 
-    def _get_key_text(self, key: Value) -> str | None:
-        """Get the text representation of a key for duplicate checking."""
-        if key.payload is not None and isinstance(key.payload, Scalar):
-            return key.payload.text
-        if key.tag is not None and key.payload is None:
-            return f"@{key.tag.name}"
-        return None
+    def _at_entry_end(self) -> bool:
+        """Whether the entry ends here: a separator or the end of the object follows."""
+        return self.current.had_newline_before or self._check(
+            TokenType.EOF, TokenType.RBRACE, TokenType.COMMA
+        )
+
+    def _is_bare(self, key: Value) -> bool:
+        """Whether a key is a bare scalar."""
+        return isinstance(key.payload, Scalar) and key.payload.kind == ScalarKind.BARE
+
+    def _parse_entry_value(self, bare_key: bool) -> Value:
+        """Parse the value after a key, which must be the last atom of the entry.
+
+        Whitespace must separate a block from a bare key.
+        """
+        if (
+            bare_key
+            and self._check(TokenType.LBRACE, TokenType.LPAREN)
+            and not self.current.had_whitespace_before
+        ):
+            raise ParseError("missing whitespace before block", self.current.span)
+        value = self._parse_value()
+        if not self._at_entry_end():
+            raise ParseError("unexpected token", self.current.span)
+        return value
+
+    def _key_identity(self, key: Value) -> str:
+        """Get a text that is equal for two keys exactly if the keys are equal.
+
+        Scalars are their own text; a surrogate, which cannot occur in one, starts all others.
+        """
+        tag = "" if key.tag is None else f"\ud800@{key.tag.name}"
+        if isinstance(key.payload, Scalar):
+            return f"{tag}\ud800{key.payload.text}" if tag else key.payload.text
+        return tag or "\ud800@"
 
     def _validate_key(self, key: Value) -> None:
         """Validate that a value can be used as a key."""
         if key.payload is not None:
-            if isinstance(key.payload, Sequence):
+            if isinstance(key.payload, (Sequence, StyxObject)):
                 raise ParseError("invalid key", key.span)
             if isinstance(key.payload, Scalar) and key.payload.kind == ScalarKind.HEREDOC:
                 # Point at just the opening marker (<<TAG), not the whole content
@@ -292,8 +314,8 @@ class Parser:
 
     def _heredoc_start_span(self, heredoc_span: Span) -> Span:
         """Get the span of just the heredoc opening marker (<<TAG\\n)."""
-        text = self.source[heredoc_span.start : heredoc_span.end]
-        newline_idx = text.find("\n")
+        text = self.source.encode("utf-8")[heredoc_span.start : heredoc_span.end]
+        newline_idx = text.find(b"\n")
         end_offset = newline_idx + 1 if newline_idx >= 0 else len(text)
         return Span(heredoc_span.start, heredoc_span.start + end_offset)
 
@@ -315,10 +337,10 @@ class Parser:
             offset += segment_bytes + 1  # +1 for the dot
 
         # Parse the value
-        value = self._parse_value()
+        value = Value(span=span) if self._at_entry_end() else self._parse_entry_value(True)
 
         # Determine value kind
-        if value.payload is not None and isinstance(value.payload, StyxObject):
+        if value.tag is None and isinstance(value.payload, StyxObject):
             kind = PathValueKind.OBJECT
         else:
             kind = PathValueKind.TERMINAL
@@ -374,7 +396,7 @@ class Parser:
             segment_spans.append(Span(offset, offset + segment_bytes))
             offset += segment_bytes + 1
 
-        value = self._parse_value()
+        value = Value(span=span) if self._at_entry_end() else self._parse_entry_value(True)
 
         result = value
         for i in range(len(segments) - 1, 0, -1):
@@ -479,14 +501,8 @@ class Parser:
             scalar_token = self._advance()
             next_token = self.current
 
-            # Attribute syntax: scalar>value - but only if there's actually a value after >
-            # If > is at EOF or followed by newline, just treat scalar as the value
-            if (
-                next_token.type == TokenType.GT
-                and not next_token.had_whitespace_before
-                and not self._peek().had_newline_before
-                and self._peek().type != TokenType.EOF
-            ):
+            # Attribute syntax: scalar>value
+            if next_token.type == TokenType.GT and not next_token.had_whitespace_before:
                 return self._parse_attributes_starting_with(scalar_token)
 
             return Value(
@@ -501,12 +517,19 @@ class Parser:
         scalar = self._parse_scalar()
         return Value(span=scalar.span, payload=scalar)
 
+    def _check_attribute_value(self, gt: Token) -> None:
+        """A > without a value right after it is a parse error."""
+        if self.current.had_whitespace_before or self._check(
+            TokenType.EOF, TokenType.RBRACE, TokenType.RPAREN, TokenType.COMMA
+        ):
+            raise ParseError("expected a value", gt.span)
+
     def _parse_attributes_starting_with(self, first_key_token: Token) -> Value:
         """Parse attribute syntax (key>value key>value ...)."""
         attrs: list[Entry] = []
         start_span = first_key_token.span
 
-        self._expect(TokenType.GT)
+        self._check_attribute_value(self._expect(TokenType.GT))
         first_key = Value(
             span=first_key_token.span,
             payload=Scalar(
@@ -527,7 +550,9 @@ class Parser:
                 break
 
             self._advance()
-            self._advance()
+            self._check_attribute_value(self._advance())
+            if any(key_token.text == attr.key.payload.text for attr in attrs):
+                raise ParseError("duplicate key", key_token.span)
 
             attr_key = Value(
                 span=key_token.span,
-- 
2.43.0


From bb3824dc166b8331b8613a7a078ec108c58eac98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:01 +0000
Subject: [PATCH 47/59] fix: find values below the second of two sibling dotted
 paths

---
 crates/styx-tree/src/lib.rs   | 12 ++++++------
 crates/styx-tree/src/value.rs | 22 ++++++++++------------
 2 files changed, 16 insertions(+), 18 deletions(-)

diff --git a/crates/styx-tree/src/lib.rs b/crates/styx-tree/src/lib.rs
index 69fb624..0f5132d 100644
--- a/crates/styx-tree/src/lib.rs
+++ b/crates/styx-tree/src/lib.rs
@@ -54,12 +54,12 @@ impl Document {
         }
 
         let (segment, rest) = split_path(path);
-        let value = self.root.get(segment)?;
-        if rest.is_empty() {
-            Some(value)
-        } else {
-            value.get(rest)
-        }
+        // Sibling dotted paths repeat the key they share
+        self.root
+            .entries
+            .iter()
+            .filter(|e| e.key.as_str() == Some(segment))
+            .find_map(|e| e.value.get(rest))
     }
 }
 
diff --git a/crates/styx-tree/src/value.rs b/crates/styx-tree/src/value.rs
index 62e1b23..29f0676 100644
--- a/crates/styx-tree/src/value.rs
+++ b/crates/styx-tree/src/value.rs
@@ -279,12 +279,11 @@ impl Value {
 
         match &self.payload {
             Some(Payload::Object(obj)) => {
-                let value = obj.get(segment)?;
-                if rest.is_empty() {
-                    Some(value)
-                } else {
-                    value.get(rest)
-                }
+                // Sibling dotted paths repeat the key they share
+                obj.entries
+                    .iter()
+                    .filter(|e| e.key.as_str() == Some(segment))
+                    .find_map(|e| e.value.get(rest))
             }
             Some(Payload::Sequence(seq)) => {
                 // Handle [n] indexing
@@ -314,12 +313,11 @@ impl Value {
 
         match &mut self.payload {
             Some(Payload::Object(obj)) => {
-                let value = obj.get_mut(segment)?;
-                if rest.is_empty() {
-                    Some(value)
-                } else {
-                    value.get_mut(rest)
-                }
+                // Sibling dotted paths repeat the key they share
+                obj.entries
+                    .iter_mut()
+                    .filter(|e| e.key.as_str() == Some(segment))
+                    .find_map(|e| e.value.get_mut(rest))
             }
             Some(Payload::Sequence(seq)) => {
                 if segment.starts_with('[') && segment.ends_with(']') {
-- 
2.43.0


From 25ad9e3cb9ed9ab569490e10ecd166ec285bffef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:25 +0000
Subject: [PATCH 48/59] fix: the inline style keeps closing braces on the line,
 the multiline style breaks every object

---
 crates/styx-format/src/writer.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/styx-format/src/writer.rs b/crates/styx-format/src/writer.rs
index 755fd9b..b20f51b 100644
--- a/crates/styx-format/src/writer.rs
+++ b/crates/styx-format/src/writer.rs
@@ -153,6 +153,11 @@ impl StyxWriter {
         self.available_width() >= self.options.min_inline_width
     }
 
+    /// Whether the options ask for newlines between the fields of every struct.
+    fn is_forced_multiline(&self) -> bool {
+        self.options.force_style == ForceStyle::Multiline
+    }
+
     /// Write indentation for the current depth.
     pub fn write_indent(&mut self) {
         for _ in 0..self.indent_depth() {
@@ -196,6 +201,8 @@ impl StyxWriter {
         self.before_value();
         self.force_quote_next_scalar = false;
 
+        let force_multiline = force_multiline || self.is_forced_multiline();
+
         // A struct starts inline if it's appearing as a value on the same line as its key
         // (i.e., not the root and the opening brace is on the same line)
         let inline_start = !is_root;
@@ -228,6 +235,7 @@ impl StyxWriter {
         // Don't call before_value() - we want no space after the tag
         // Clear the tag flags since the tag's payload is a struct, not a scalar
         self.clear_skip_before_value();
+        let force_multiline = force_multiline || self.is_forced_multiline();
         self.out.push(b'{');
         let open_pos = self.out.len(); // Position right after '{'
         self.stack.push(Context::Struct {
@@ -389,9 +397,10 @@ impl StyxWriter {
                 } else {
                     // Add newline before closing brace only if:
                     // - We wrote at least one field, AND
-                    // - Either forced multiline OR (not inline start AND not should_inline)
+                    // - The fields are on lines of their own: not should_inline, and either
+                    //   forced multiline or not inline start
                     let needs_newline =
-                        !first && (force_multiline || (!inline_start && !should_inline));
+                        !first && !should_inline && (force_multiline || !inline_start);
                     if needs_newline {
                         // Newline before closing brace
                         self.out.push(b'\n');
-- 
2.43.0


From 2cc40bf329f122e17fbf1e775261a3bb53f140a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:49 +0000
Subject: [PATCH 49/59] fix: the typed syntax tree decodes raw strings and
 unicode escapes

---
 crates/styx-cst/src/ast.rs | 38 +++++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/crates/styx-cst/src/ast.rs b/crates/styx-cst/src/ast.rs
index 0c24e06..da15286 100644
--- a/crates/styx-cst/src/ast.rs
+++ b/crates/styx-cst/src/ast.rs
@@ -157,7 +157,7 @@ impl Key {
                     return match token.kind() {
                         SyntaxKind::BARE_SCALAR => token.text().to_string(),
                         SyntaxKind::QUOTED_SCALAR => unescape_quoted(token.text()),
-                        SyntaxKind::RAW_SCALAR => token.text().to_string(),
+                        SyntaxKind::RAW_SCALAR => raw_content(token.text()).to_string(),
                         _ => continue,
                     };
                 }
@@ -367,7 +367,7 @@ impl Scalar {
             return match token.kind() {
                 SyntaxKind::BARE_SCALAR => token.text().to_string(),
                 SyntaxKind::QUOTED_SCALAR => unescape_quoted(token.text()),
-                SyntaxKind::RAW_SCALAR => token.text().to_string(),
+                SyntaxKind::RAW_SCALAR => raw_content(token.text()).to_string(),
                 _ => continue,
             };
         }
@@ -466,7 +466,7 @@ fn unescape_quoted(text: &str) -> String {
         .unwrap_or(text);
 
     let mut result = String::with_capacity(inner.len());
-    let mut chars = inner.chars().peekable();
+    let mut chars = inner.chars();
 
     while let Some(c) = chars.next() {
         if c == '\\' {
@@ -476,6 +476,13 @@ fn unescape_quoted(text: &str) -> String {
                 Some('t') => result.push('\t'),
                 Some('\\') => result.push('\\'),
                 Some('"') => result.push('"'),
+                Some('u') => match take_unicode_escape(chars.as_str()) {
+                    Some((c, rest)) => {
+                        result.push(c);
+                        chars = rest.chars();
+                    }
+                    None => result.push_str("\\u"),
+                },
                 Some(c) => {
                     // Unknown escape, keep as-is
                     result.push('\\');
@@ -491,6 +498,31 @@ fn unescape_quoted(text: &str) -> String {
     result
 }
 
+/// Read what follows `\u`: four hex digits, or a number in braces.
+fn take_unicode_escape(text: &str) -> Option<(char, &str)> {
+    let (hex, rest) = match text.strip_prefix('{') {
+        Some(braced) => braced.split_once('}')?,
+        None => text.split_at_checked(4)?,
+    };
+    let c = char::from_u32(u32::from_str_radix(hex, 16).ok()?)?;
+    Some((c, rest))
+}
+
+/// The content of a raw string: without `r#"` and `"#`.
+fn raw_content(text: &str) -> &str {
+    let inner = text
+        .strip_prefix('r')
+        .map(|s| s.trim_start_matches('#'))
+        .and_then(|s| s.strip_prefix('"'));
+    match inner {
+        Some(inner) => {
+            let inner = inner.trim_end_matches('#');
+            inner.strip_suffix('"').unwrap_or(inner)
+        }
+        None => text,
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From f6b487444b51b95f004afbf27188912dd65f2328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:49 +0000
Subject: [PATCH 50/59] fix: elements of a sequence include attribute objects

---
 crates/styx-cst/src/ast.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/styx-cst/src/ast.rs b/crates/styx-cst/src/ast.rs
index da15286..bc4385e 100644
--- a/crates/styx-cst/src/ast.rs
+++ b/crates/styx-cst/src/ast.rs
@@ -295,6 +295,7 @@ impl Sequence {
                                     | SyntaxKind::UNIT
                                     | SyntaxKind::TAG
                                     | SyntaxKind::HEREDOC
+                                    | SyntaxKind::ATTRIBUTES
                             )
                         })
                     })
@@ -308,6 +309,7 @@ impl Sequence {
                         | SyntaxKind::UNIT
                         | SyntaxKind::TAG
                         | SyntaxKind::HEREDOC
+                        | SyntaxKind::ATTRIBUTES
                 )
                 .then_some(n)
             }
-- 
2.43.0


From 07ce9477ddc55da827f7a657917aa92cc61355d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:50 +0000
Subject: [PATCH 51/59] fix: doc comments of an entry come in source order

---
 crates/styx-cst/src/ast.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/styx-cst/src/ast.rs b/crates/styx-cst/src/ast.rs
index bc4385e..32bf68e 100644
--- a/crates/styx-cst/src/ast.rs
+++ b/crates/styx-cst/src/ast.rs
@@ -129,10 +129,11 @@ impl Entry {
         self.key().map(|k| k.text_content())
     }
 
-    /// Get preceding doc comments.
+    /// Get preceding doc comments, in source order.
     pub fn doc_comments(&self) -> impl Iterator<Item = SyntaxToken> {
         // Look for DOC_COMMENT tokens before this entry in the parent
-        self.0
+        let mut comments: Vec<_> = self
+            .0
             .siblings_with_tokens(rowan::Direction::Prev)
             .skip(1) // Skip self
             .take_while(|el| {
@@ -142,6 +143,9 @@ impl Entry {
             })
             .filter_map(|el| el.into_token())
             .filter(|t| t.kind() == SyntaxKind::DOC_COMMENT)
+            .collect();
+        comments.reverse();
+        comments.into_iter()
     }
 }
 
-- 
2.43.0


From 7da50c5c45cb986fdf85936a4e5e11b6b80cc987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:50 +0000
Subject: [PATCH 52/59] fix: the content of a heredoc is free of its
 indentation

---
 crates/styx-cst/src/ast.rs | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/crates/styx-cst/src/ast.rs b/crates/styx-cst/src/ast.rs
index 32bf68e..6dea826 100644
--- a/crates/styx-cst/src/ast.rs
+++ b/crates/styx-cst/src/ast.rs
@@ -428,18 +428,27 @@ impl Tag {
 // === Heredoc ===
 
 impl Heredoc {
-    /// Get the heredoc content (without delimiters).
+    /// Get the heredoc content (without delimiters, and without the indentation that the
+    /// closing delimiter sets).
     pub fn content(&self) -> String {
-        for token in self
-            .0
-            .children_with_tokens()
-            .filter_map(|el| el.into_token())
-        {
-            if token.kind() == SyntaxKind::HEREDOC_CONTENT {
-                return token.text().to_string();
-            }
-        }
-        String::new()
+        let token_text = |kind| {
+            self.0
+                .children_with_tokens()
+                .filter_map(|el| el.into_token())
+                .find(|t| t.kind() == kind)
+                .map(|t| t.text().to_string())
+                .unwrap_or_default()
+        };
+        let content = token_text(SyntaxKind::HEREDOC_CONTENT);
+        let end = token_text(SyntaxKind::HEREDOC_END);
+        let indent = end.len() - end.trim_start_matches([' ', '\t']).len();
+        content
+            .split_inclusive('\n')
+            .map(|line| {
+                let blank = line.len() - line.trim_start_matches([' ', '\t']).len();
+                &line[blank.min(indent)..]
+            })
+            .collect()
     }
 
     /// Get the delimiter name.
@@ -450,10 +459,11 @@ impl Heredoc {
             .filter_map(|el| el.into_token())
         {
             if token.kind() == SyntaxKind::HEREDOC_START {
-                // Extract delimiter from <<DELIM\n
+                // Extract delimiter from <<DELIM\n or <<DELIM,lang\n
                 let text = token.text();
                 if let Some(rest) = text.strip_prefix("<<") {
-                    return Some(rest.trim_end().to_string());
+                    let delimiter = rest.split(',').next().unwrap_or(rest);
+                    return Some(delimiter.trim_end().to_string());
                 }
             }
         }
-- 
2.43.0


From d8025b8515aaf335bc75e5340597475ba6291a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:52 +0000
Subject: [PATCH 53/59] fix: map keys of an enum type are written by the name
 of the variant

---
 crates/facet-styx/src/serializer.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/facet-styx/src/serializer.rs b/crates/facet-styx/src/serializer.rs
index 8a62d90..a2be4fe 100644
--- a/crates/facet-styx/src/serializer.rs
+++ b/crates/facet-styx/src/serializer.rs
@@ -132,6 +132,17 @@ fn extract_field_key<'mem, 'facet>(key: Peek<'mem, 'facet>) -> Option<FieldKey<'
         return Some(FieldKey::new(s, FieldLocationHint::KeyValue));
     }
 
+    // A unit variant goes by its name
+    if let Ok(key) = key.into_enum()
+        && let Ok(variant) = key.active_variant()
+        && variant.data.fields.is_empty()
+    {
+        return Some(FieldKey::new(
+            variant.effective_name(),
+            FieldLocationHint::KeyValue,
+        ));
+    }
+
     None
 }
 
-- 
2.43.0


From 758d8f7e1970ddfcefda436fa8c723904095a066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:22 +0000
Subject: [PATCH 54/59] fix: compact output writes documented, tagged and unit
 keys

---
 crates/facet-styx/src/serializer.rs | 44 +++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/crates/facet-styx/src/serializer.rs b/crates/facet-styx/src/serializer.rs
index a2be4fe..898a4c0 100644
--- a/crates/facet-styx/src/serializer.rs
+++ b/crates/facet-styx/src/serializer.rs
@@ -704,6 +704,50 @@ impl FormatSerializer for CompactStyxSerializer {
         self.writer.field_key(key).map_err(StyxSerializeError::new)
     }
 
+    fn emit_field_key(&mut self, key: &FieldKey<'_>) -> Result<(), Self::Error> {
+        // (a doc comment has no place on a single line)
+        match (key.tag(), key.name()) {
+            (None, Some(name)) => self.field_key(name),
+            (tag, name) => {
+                self.just_wrote_tag = false;
+                self.writer.clear_skip_before_value();
+                let mut key = format!("@{}", tag.map_or("", |tag| tag.as_ref()));
+                if let Some(name) = name {
+                    key.push_str(&format!("\"{}\"", escape_quoted(name)));
+                }
+                self.writer
+                    .field_key_raw(&key)
+                    .map_err(StyxSerializeError::new)
+            }
+        }
+    }
+
+    fn serialize_map_key(&mut self, key: Peek<'_, '_>) -> Result<bool, Self::Error> {
+        match extract_field_key(key) {
+            Some(key) => self.emit_field_key(&key).map(|()| true),
+            None => Ok(false),
+        }
+    }
+
+    fn serialize_metadata_container(
+        &mut self,
+        container: &facet_reflect::PeekStruct<'_, '_>,
+    ) -> Result<bool, Self::Error> {
+        for (f, field_value) in container.fields() {
+            if f.metadata_kind() == Some("tag") {
+                if let Ok(opt) = field_value.into_option()
+                    && let Some(inner) = opt.value()
+                    && let Some(tag) = inner.as_str()
+                {
+                    self.write_variant_tag(tag)?;
+                }
+                break;
+            }
+        }
+        // The caller serializes the value
+        Ok(false)
+    }
+
     fn end_struct(&mut self) -> Result<(), Self::Error> {
         self.writer.end_struct().map_err(StyxSerializeError::new)
     }
-- 
2.43.0


From 8f9b8da97440bef075463459da5177566ab02408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:55 +0000
Subject: [PATCH 55/59] fix: rendered errors point at the right place in text
 that is not ASCII

---
 crates/facet-styx/src/error.rs        | 30 ++++++++++++++++++++-------
 crates/facet-styx/src/schema_error.rs | 15 ++++++++++----
 crates/styx-tree/src/diagnostic.rs    |  4 +++-
 3 files changed, 37 insertions(+), 12 deletions(-)

diff --git a/crates/facet-styx/src/error.rs b/crates/facet-styx/src/error.rs
index 97bd380..40cf36b 100644
--- a/crates/facet-styx/src/error.rs
+++ b/crates/facet-styx/src/error.rs
@@ -1,18 +1,33 @@
 //! Error types for Styx parsing.
 
-use ariadne::{Color, Config, Label, Report, ReportKind, Source};
+use ariadne::{Color, Config, IndexType, Label, Report, ReportKind, Source};
 use facet_format::{DeserializeError, DeserializeErrorKind};
 
 /// Get ariadne config, respecting NO_COLOR env var.
 fn ariadne_config() -> Config {
     let no_color = std::env::var("NO_COLOR").is_ok();
+    // Spans count bytes
+    let config = Config::default().with_index_type(IndexType::Byte);
     if no_color {
-        Config::default().with_color(false)
+        config.with_color(false)
     } else {
-        Config::default()
+        config
     }
 }
 
+/// The range of bytes, extended to whole characters of the source.
+pub(crate) fn whole_chars(range: std::ops::Range<usize>, source: &str) -> std::ops::Range<usize> {
+    let mut start = range.start.min(source.len());
+    while !source.is_char_boundary(start) {
+        start -= 1;
+    }
+    let mut end = range.end.clamp(start, source.len());
+    while !source.is_char_boundary(end) {
+        end += 1;
+    }
+    start..end
+}
+
 /// Convert a facet_reflect::Span to a Range<usize>.
 fn reflect_span_to_range(span: &facet_reflect::Span) -> std::ops::Range<usize> {
     let start = span.offset as usize;
@@ -63,7 +78,8 @@ fn build_deserialize_error_report<'a>(
         .span
         .as_ref()
         .map(reflect_span_to_range)
-        .unwrap_or(0..source.len().max(1));
+        .unwrap_or(0..source.len());
+    let range = whole_chars(range, source);
 
     match &err.kind {
         // Missing field from facet-format
@@ -126,7 +142,7 @@ fn build_deserialize_error_report<'a>(
 
         // Unexpected EOF
         DeserializeErrorKind::UnexpectedEof { expected } => {
-            let eof_range = source.len().saturating_sub(1)..source.len().max(1);
+            let eof_range = whole_chars(source.len().saturating_sub(1)..source.len(), source);
             Report::build(ReportKind::Error, (filename, eof_range.clone()))
                 .with_config(config)
                 .with_message("unexpected end of input")
@@ -139,14 +155,14 @@ fn build_deserialize_error_report<'a>(
 
         // Unsupported operation
         DeserializeErrorKind::Unsupported { message } => {
-            Report::build(ReportKind::Error, (filename, 0..1))
+            Report::build(ReportKind::Error, (filename, 0..0))
                 .with_config(config)
                 .with_message(format!("unsupported: {}", message))
         }
 
         // Cannot borrow
         DeserializeErrorKind::CannotBorrow { reason } => {
-            Report::build(ReportKind::Error, (filename, 0..1))
+            Report::build(ReportKind::Error, (filename, 0..0))
                 .with_config(config)
                 .with_message(reason)
         }
diff --git a/crates/facet-styx/src/schema_error.rs b/crates/facet-styx/src/schema_error.rs
index e81aaf9..3ebab8f 100644
--- a/crates/facet-styx/src/schema_error.rs
+++ b/crates/facet-styx/src/schema_error.rs
@@ -1,15 +1,19 @@
 //! Validation error types.
 
-use ariadne::{Color, Config, Label, Report, ReportKind, Source};
+use ariadne::{Color, Config, IndexType, Label, Report, ReportKind, Source};
 use styx_parse::Span;
 
+use crate::error::whole_chars;
+
 /// Get ariadne config, respecting NO_COLOR env var.
 fn ariadne_config() -> Config {
     let no_color = std::env::var("NO_COLOR").is_ok();
+    // Spans count bytes
+    let config = Config::default().with_index_type(IndexType::Byte);
     if no_color {
-        Config::default().with_color(false)
+        config.with_color(false)
     } else {
-        Config::default()
+        config
     }
 }
 
@@ -163,7 +167,7 @@ impl ValidationError {
 
     /// Write the error report to a writer.
     pub fn write_report<W: std::io::Write>(&self, filename: &str, source: &str, writer: W) {
-        let report = self.build_report(filename);
+        let report = self.build_report(filename, source);
         let _ = report
             .with_config(ariadne_config())
             .finish()
@@ -174,11 +178,13 @@ impl ValidationError {
     fn build_report<'a>(
         &self,
         filename: &'a str,
+        source: &str,
     ) -> ariadne::ReportBuilder<'static, (&'a str, std::ops::Range<usize>)> {
         let range = self
             .span
             .map(|s| s.start as usize..s.end as usize)
             .unwrap_or(0..1);
+        let range = whole_chars(range, source);
 
         let path_info = if self.path.is_empty() {
             String::new()
@@ -428,6 +434,7 @@ impl ValidationWarning {
             .span
             .map(|s| s.start as usize..s.end as usize)
             .unwrap_or(0..1);
+        let range = whole_chars(range, source);
 
         let report = match &self.kind {
             ValidationWarningKind::Deprecated { reason } => {
diff --git a/crates/styx-tree/src/diagnostic.rs b/crates/styx-tree/src/diagnostic.rs
index 84d93da..95e1a9d 100644
--- a/crates/styx-tree/src/diagnostic.rs
+++ b/crates/styx-tree/src/diagnostic.rs
@@ -1,6 +1,6 @@
 //! Diagnostic rendering for parser errors.
 
-use ariadne::{Color, Label, Report, ReportKind, Source};
+use ariadne::{Color, Config, IndexType, Label, Report, ReportKind, Source};
 use styx_parse::{ParseErrorKind, Span};
 
 /// A parser error with source location.
@@ -31,6 +31,8 @@ impl ParseError {
     pub fn write_report<W: std::io::Write>(&self, filename: &str, source: &str, writer: W) {
         let report = self.build_report(filename);
         let _ = report
+            // Spans count bytes
+            .with_config(Config::default().with_index_type(IndexType::Byte))
             .finish()
             .write((filename, Source::from(source)), writer);
     }
-- 
2.43.0


From 5328ad3295560c8c263aa03d3ed1e8f045664568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:28 +0000
Subject: [PATCH 56/59] fix: reports of the schema validator heed NO_COLOR

---
 crates/facet-styx/src/schema_error.rs | 40 +++++++++++++++------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/crates/facet-styx/src/schema_error.rs b/crates/facet-styx/src/schema_error.rs
index 3ebab8f..42e45ad 100644
--- a/crates/facet-styx/src/schema_error.rs
+++ b/crates/facet-styx/src/schema_error.rs
@@ -17,6 +17,14 @@ fn ariadne_config() -> Config {
     }
 }
 
+/// Start a report; the config comes first because colors are chosen as labels are added.
+fn start_report<'a>(
+    kind: ReportKind<'static>,
+    span: (&'a str, std::ops::Range<usize>),
+) -> ariadne::ReportBuilder<'static, (&'a str, std::ops::Range<usize>)> {
+    Report::build(kind, span).with_config(ariadne_config())
+}
+
 /// Result of validating a document against a schema.
 #[derive(Debug, Clone)]
 pub struct ValidationResult {
@@ -169,7 +177,6 @@ impl ValidationError {
     pub fn write_report<W: std::io::Write>(&self, filename: &str, source: &str, writer: W) {
         let report = self.build_report(filename, source);
         let _ = report
-            .with_config(ariadne_config())
             .finish()
             .write((filename, Source::from(source)), writer);
     }
@@ -194,7 +201,7 @@ impl ValidationError {
 
         match &self.kind {
             ValidationErrorKind::MissingField { field } => {
-                Report::build(ReportKind::Error, (filename, range.clone()))
+                start_report(ReportKind::Error, (filename, range.clone()))
                     .with_message(format!("missing required field '{}'", field))
                     .with_label(
                         Label::new((filename, range))
@@ -209,7 +216,7 @@ impl ValidationError {
                 valid_fields,
                 suggestion,
             } => {
-                let mut builder = Report::build(ReportKind::Error, (filename, range.clone()))
+                let mut builder = start_report(ReportKind::Error, (filename, range.clone()))
                     .with_message(format!("unknown field '{}'", field))
                     .with_label(
                         Label::new((filename, range.clone()))
@@ -230,7 +237,7 @@ impl ValidationError {
             }
 
             ValidationErrorKind::TypeMismatch { expected, got } => {
-                Report::build(ReportKind::Error, (filename, range.clone()))
+                start_report(ReportKind::Error, (filename, range.clone()))
                     .with_message(format!("type mismatch{}", path_info))
                     .with_label(
                         Label::new((filename, range))
@@ -240,7 +247,7 @@ impl ValidationError {
             }
 
             ValidationErrorKind::InvalidValue { reason } => {
-                Report::build(ReportKind::Error, (filename, range.clone()))
+                start_report(ReportKind::Error, (filename, range.clone()))
                     .with_message(format!("invalid value{}", path_info))
                     .with_label(
                         Label::new((filename, range))
@@ -250,7 +257,7 @@ impl ValidationError {
             }
 
             ValidationErrorKind::UnknownType { name } => {
-                Report::build(ReportKind::Error, (filename, range.clone()))
+                start_report(ReportKind::Error, (filename, range.clone()))
                     .with_message(format!("unknown type '{}'", name))
                     .with_label(
                         Label::new((filename, range))
@@ -261,7 +268,7 @@ impl ValidationError {
 
             ValidationErrorKind::InvalidVariant { expected, got } => {
                 let expected_list = expected.join(", ");
-                Report::build(ReportKind::Error, (filename, range.clone()))
+                start_report(ReportKind::Error, (filename, range.clone()))
                     .with_message(format!("invalid enum variant '@{}'", got))
                     .with_label(
                         Label::new((filename, range))
@@ -272,7 +279,7 @@ impl ValidationError {
 
             ValidationErrorKind::UnionMismatch { tried } => {
                 let tried_list = tried.join(", ");
-                Report::build(ReportKind::Error, (filename, range.clone()))
+                start_report(ReportKind::Error, (filename, range.clone()))
                     .with_message(format!(
                         "value doesn't match any union variant{}",
                         path_info
@@ -285,7 +292,7 @@ impl ValidationError {
             }
 
             ValidationErrorKind::ExpectedObject => {
-                Report::build(ReportKind::Error, (filename, range.clone()))
+                start_report(ReportKind::Error, (filename, range.clone()))
                     .with_message(format!("expected object{}", path_info))
                     .with_label(
                         Label::new((filename, range))
@@ -295,7 +302,7 @@ impl ValidationError {
             }
 
             ValidationErrorKind::ExpectedSequence => {
-                Report::build(ReportKind::Error, (filename, range.clone()))
+                start_report(ReportKind::Error, (filename, range.clone()))
                     .with_message(format!("expected sequence{}", path_info))
                     .with_label(
                         Label::new((filename, range))
@@ -305,7 +312,7 @@ impl ValidationError {
             }
 
             ValidationErrorKind::ExpectedScalar => {
-                Report::build(ReportKind::Error, (filename, range.clone()))
+                start_report(ReportKind::Error, (filename, range.clone()))
                     .with_message(format!("expected scalar value{}", path_info))
                     .with_label(
                         Label::new((filename, range))
@@ -315,7 +322,7 @@ impl ValidationError {
             }
 
             ValidationErrorKind::ExpectedTagged => {
-                Report::build(ReportKind::Error, (filename, range.clone()))
+                start_report(ReportKind::Error, (filename, range.clone()))
                     .with_message(format!("expected tagged value{}", path_info))
                     .with_label(
                         Label::new((filename, range))
@@ -325,7 +332,7 @@ impl ValidationError {
             }
 
             ValidationErrorKind::WrongTag { expected, got } => {
-                Report::build(ReportKind::Error, (filename, range.clone()))
+                start_report(ReportKind::Error, (filename, range.clone()))
                     .with_message(format!("wrong tag{}", path_info))
                     .with_label(
                         Label::new((filename, range))
@@ -335,7 +342,7 @@ impl ValidationError {
             }
 
             ValidationErrorKind::SchemaError { reason } => {
-                Report::build(ReportKind::Error, (filename, range.clone()))
+                start_report(ReportKind::Error, (filename, range.clone()))
                     .with_message("schema error")
                     .with_label(
                         Label::new((filename, range))
@@ -438,7 +445,7 @@ impl ValidationWarning {
 
         let report = match &self.kind {
             ValidationWarningKind::Deprecated { reason } => {
-                Report::build(ReportKind::Warning, (filename, range.clone()))
+                start_report(ReportKind::Warning, (filename, range.clone()))
                     .with_message("deprecated")
                     .with_label(
                         Label::new((filename, range))
@@ -447,7 +454,7 @@ impl ValidationWarning {
                     )
             }
             ValidationWarningKind::IgnoredField { field } => {
-                Report::build(ReportKind::Warning, (filename, range.clone()))
+                start_report(ReportKind::Warning, (filename, range.clone()))
                     .with_message(format!("field '{}' will be ignored", field))
                     .with_label(
                         Label::new((filename, range))
@@ -458,7 +465,6 @@ impl ValidationWarning {
         };
 
         let _ = report
-            .with_config(ariadne_config())
             .finish()
             .write((filename, Source::from(source)), writer);
     }
-- 
2.43.0


From aa0c23c0a5f7c463f3123bf07e0fd954ad99f8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:18 +0000
Subject: [PATCH 57/59] fix: diff and publish compare the types of fields and
 variants

Only added and removed names were looked at: changing a field from @string to
@int, making an optional field required or tightening a limit was reported as
no change, and publish refused documentation-only releases.
---
 crates/styx-cli/src/main.rs | 222 ++++++++++++++++++++++++++++++------
 1 file changed, 186 insertions(+), 36 deletions(-)

diff --git a/crates/styx-cli/src/main.rs b/crates/styx-cli/src/main.rs
index 69b1976..0cce696 100644
--- a/crates/styx-cli/src/main.rs
+++ b/crates/styx-cli/src/main.rs
@@ -1521,7 +1521,8 @@ fn run_publish(schema_file: &str, yes: bool) -> Result<(), CliError> {
             let baseline_tree = styx_tree::parse(&baseline_content)
                 .map_err(|e| CliError::Parse(format!("invalid baseline schema: {e}")))?;
 
-            let changes = compare_schemas(&baseline_tree, &local_tree);
+            let mut changes = compare_schemas(&baseline_tree, &local_tree);
+            changes.note_other_changes(&baseline_content, &schema_content);
 
             if changes.breaking.is_empty()
                 && changes.additive.is_empty()
@@ -1703,7 +1704,8 @@ fn run_diff(schema_file: &str, crate_name: &str, baseline: Option<&str>) -> Resu
     let baseline_tree = styx_tree::parse(&baseline_content)
         .map_err(|e| CliError::Parse(format!("invalid baseline schema: {e}")))?;
 
-    let changes = compare_schemas(&baseline_tree, &local_tree);
+    let mut changes = compare_schemas(&baseline_tree, &local_tree);
+    changes.note_other_changes(&baseline_content, &local_content);
 
     if changes.breaking.is_empty() && changes.additive.is_empty() && changes.patch.is_empty() {
         eprintln!("No changes detected.");
@@ -1809,11 +1811,26 @@ struct SchemaChanges {
     patch: Vec<String>,
 }
 
+impl SchemaChanges {
+    /// Files that differ in what says nothing about types still call for a release.
+    fn note_other_changes(&mut self, baseline: &str, local: &str) {
+        if self.breaking.is_empty()
+            && self.additive.is_empty()
+            && self.patch.is_empty()
+            && baseline != local
+        {
+            self.patch
+                .push("changed documentation, metadata or formatting".into());
+        }
+    }
+}
+
 fn compare_schemas(baseline: &Value, local: &Value) -> SchemaChanges {
     let mut changes = SchemaChanges::default();
 
-    let baseline_schema = extract_schema_map(baseline);
-    let local_schema = extract_schema_map(local);
+    let (baseline, local) = (baseline.with_joined_paths(), local.with_joined_paths());
+    let baseline_schema = extract_schema_map(&baseline);
+    let local_schema = extract_schema_map(&local);
 
     for name in baseline_schema.keys() {
         if !local_schema.contains_key(name) {
@@ -1839,8 +1856,8 @@ fn compare_schemas(baseline: &Value, local: &Value) -> SchemaChanges {
     changes
 }
 
-fn extract_schema_map(value: &Value) -> std::collections::HashMap<Option<String>, &Value> {
-    let mut map = std::collections::HashMap::new();
+fn extract_schema_map(value: &Value) -> std::collections::BTreeMap<Option<String>, &Value> {
+    let mut map = std::collections::BTreeMap::new();
 
     if let Some(Payload::Object(obj)) = &value.payload {
         for entry in &obj.entries {
@@ -1868,27 +1885,160 @@ fn compare_type_definitions(
     local: &Value,
     changes: &mut SchemaChanges,
 ) {
+    if same_type(baseline, local) {
+        return;
+    }
+
     let baseline_tag = baseline.tag.as_ref().map(|t| t.name.as_str());
     let local_tag = local.tag.as_ref().map(|t| t.name.as_str());
+    let baseline_items = payload_items(baseline);
+    let local_items = payload_items(local);
 
     if baseline_tag != local_tag {
-        changes.breaking.push(format!(
+        match (local_tag, local_items) {
+            // Its fields are those of the object around it
+            _ if baseline_tag == Some("flatten") => {}
+            (Some("deprecated"), [_, inner]) => {
+                changes.patch.push(format!("deprecated `{type_name}`"));
+                compare_type_definitions(type_name, baseline, inner, changes);
+                return;
+            }
+            _ if baseline_tag == Some("deprecated") && baseline_items.len() == 2 => {
+                changes.patch.push(format!("undeprecated `{type_name}`"));
+                compare_type_definitions(type_name, &baseline_items[1], local, changes);
+                return;
+            }
+            (Some("optional"), [inner]) | (Some("default"), [_, inner])
+                if !is_optional_field(baseline) =>
+            {
+                changes
+                    .additive
+                    .push(format!("`{type_name}` became optional"));
+                compare_type_definitions(type_name, baseline, inner, changes);
+                return;
+            }
+            _ => {}
+        }
+        let widened = match local_tag {
+            _ if baseline_tag == Some("flatten") || is_optional_field(baseline) => false,
+            Some("any") => true,
+            Some("union") => contains_type(local_items, baseline),
+            _ => false,
+        };
+        let change = format!(
             "type `{type_name}` changed from @{} to @{}",
             baseline_tag.unwrap_or("(none)"),
             local_tag.unwrap_or("(none)")
-        ));
+        );
+        if widened {
+            changes.additive.push(change);
+        } else {
+            changes.breaking.push(change);
+        }
         return;
     }
 
-    if baseline_tag == Some("object") {
-        compare_object_fields(type_name, baseline, local, changes);
+    match baseline_tag {
+        Some("object") => compare_object_fields(type_name, baseline, local, changes),
+        Some("enum") => compare_enum_variants(type_name, baseline, local, changes),
+        Some("union") => {
+            if !baseline_items.iter().all(|t| contains_type(local_items, t)) {
+                changes
+                    .breaking
+                    .push(format!("removed member of union `{type_name}`"));
+            }
+            if !local_items.iter().all(|t| contains_type(baseline_items, t)) {
+                changes
+                    .additive
+                    .push(format!("added member to union `{type_name}`"));
+            }
+        }
+        Some("int" | "float" | "string") => {
+            let baseline_limits = extract_object_fields(baseline);
+            let local_limits = extract_object_fields(local);
+            for (name, limit) in &local_limits {
+                if !is_looser(name, baseline_limits.get(name).copied(), limit) {
+                    changes
+                        .breaking
+                        .push(format!("tightened {name} of `{type_name}`"));
+                }
+            }
+            for (name, limit) in &baseline_limits {
+                let kept = local_limits.get(name);
+                if kept.is_none_or(|kept| !is_looser(name, Some(kept), limit)) {
+                    changes
+                        .additive
+                        .push(format!("loosened {name} of `{type_name}`"));
+                }
+            }
+        }
+        Some("optional" | "default" | "deprecated" | "seq" | "tuple" | "map")
+            if baseline_items.len() == local_items.len() =>
+        {
+            for (i, (old, new)) in baseline_items.iter().zip(local_items).enumerate() {
+                let is_note = i == 0 && matches!(baseline_tag, Some("default" | "deprecated"));
+                if !is_note {
+                    compare_type_definitions(type_name, old, new, changes);
+                } else if !same_type(old, new) {
+                    changes.patch.push(format!("changed `{type_name}`"));
+                }
+            }
+        }
+        _ => changes.breaking.push(format!("changed `{type_name}`")),
+    }
+}
+
+/// Whether two types are written alike: positions, documentation and quoting aside.
+fn same_type(a: &Value, b: &Value) -> bool {
+    if a.tag.as_ref().map(|t| &t.name) != b.tag.as_ref().map(|t| &t.name) {
+        return false;
     }
+    match (&a.payload, &b.payload) {
+        (None, None) => true,
+        (Some(Payload::Scalar(a)), Some(Payload::Scalar(b))) => a.text == b.text,
+        (Some(Payload::Sequence(a)), Some(Payload::Sequence(b))) => {
+            a.items.len() == b.items.len()
+                && a.items.iter().zip(&b.items).all(|(a, b)| same_type(a, b))
+        }
+        (Some(Payload::Object(a)), Some(Payload::Object(b))) => {
+            a.entries.len() == b.entries.len()
+                && (a.entries.iter().zip(&b.entries))
+                    .all(|(a, b)| same_type(&a.key, &b.key) && same_type(&a.value, &b.value))
+        }
+        _ => false,
+    }
+}
 
-    if baseline_tag == Some("enum") {
-        compare_enum_variants(type_name, baseline, local, changes);
+fn payload_items(value: &Value) -> &[Value] {
+    match &value.payload {
+        Some(Payload::Sequence(seq)) => &seq.items,
+        _ => &[],
     }
 }
 
+fn contains_type(types: &[Value], wanted: &Value) -> bool {
+    types.iter().any(|t| same_type(t, wanted))
+}
+
+/// Whether the new limit of a scalar type permits all that the old one (if any) permits.
+fn is_looser(name: &str, old: Option<&Value>, new: &Value) -> bool {
+    let Some(old) = old else { return false };
+    let text = |value: &Value| value.as_str().unwrap_or_default().to_string();
+    let order = match (text(old).parse::<i128>(), text(new).parse::<i128>()) {
+        (Ok(old), Ok(new)) => Some(new.cmp(&old)),
+        _ => match (text(old).parse::<f64>(), text(new).parse::<f64>()) {
+            (Ok(old), Ok(new)) => new.partial_cmp(&old),
+            _ => None,
+        },
+    };
+    same_type(old, new)
+        || match name {
+            "min" | "minLen" => order.is_some_and(|o| o.is_le()),
+            "max" | "maxLen" => order.is_some_and(|o| o.is_ge()),
+            _ => false,
+        }
+}
+
 fn compare_object_fields(
     type_name: &str,
     baseline: &Value,
@@ -1907,8 +2057,12 @@ fn compare_object_fields(
     }
 
     for (field_name, field_type) in &local_fields {
-        if !baseline_fields.contains_key(field_name) {
-            let is_optional = is_optional_field(field_type);
+        if let Some(baseline_type) = baseline_fields.get(field_name) {
+            let field_path = format!("{type_name}.{field_name}");
+            compare_type_definitions(&field_path, baseline_type, field_type, changes);
+        } else {
+            // Fields of any name are never required
+            let is_optional = is_optional_field(field_type) || field_name.starts_with('@');
             if is_optional {
                 changes.additive.push(format!(
                     "added optional field `{field_name}` to `{type_name}`"
@@ -1922,13 +2076,17 @@ fn compare_object_fields(
     }
 }
 
-fn extract_object_fields(value: &Value) -> std::collections::HashMap<String, &Value> {
-    let mut fields = std::collections::HashMap::new();
+fn extract_object_fields(value: &Value) -> std::collections::BTreeMap<String, &Value> {
+    let mut fields = std::collections::BTreeMap::new();
 
     if let Some(Payload::Object(obj)) = &value.payload {
         for entry in &obj.entries {
             if let Some(name) = entry.key.as_str() {
                 fields.insert(name.to_string(), &entry.value);
+            } else if let Some(tag) = &entry.key.tag {
+                fields.insert(format!("@{}", tag.name), &entry.value);
+            } else {
+                fields.insert("@".to_string(), &entry.value);
             }
         }
     }
@@ -1937,6 +2095,9 @@ fn extract_object_fields(value: &Value) -> std::collections::HashMap<String, &Va
 }
 
 fn is_optional_field(value: &Value) -> bool {
+    if let (Some("deprecated"), [_, inner]) = (value.tag_name(), payload_items(value)) {
+        return is_optional_field(inner);
+    }
     value
         .tag
         .as_ref()
@@ -1950,19 +2111,22 @@ fn compare_enum_variants(
     local: &Value,
     changes: &mut SchemaChanges,
 ) {
-    let baseline_variants = extract_enum_variants(baseline);
-    let local_variants = extract_enum_variants(local);
+    let baseline_variants = extract_object_fields(baseline);
+    let local_variants = extract_object_fields(local);
 
-    for variant in &baseline_variants {
-        if !local_variants.contains(variant) {
+    for variant in baseline_variants.keys() {
+        if !local_variants.contains_key(variant) {
             changes
                 .breaking
                 .push(format!("removed variant `{variant}` from `{type_name}`"));
         }
     }
 
-    for variant in &local_variants {
-        if !baseline_variants.contains(variant) {
+    for (variant, payload) in &local_variants {
+        if let Some(baseline_payload) = baseline_variants.get(variant) {
+            let variant_path = format!("{type_name}.{variant}");
+            compare_type_definitions(&variant_path, baseline_payload, payload, changes);
+        } else {
             changes
                 .additive
                 .push(format!("added variant `{variant}` to `{type_name}`"));
@@ -1970,20 +2134,6 @@ fn compare_enum_variants(
     }
 }
 
-fn extract_enum_variants(value: &Value) -> Vec<String> {
-    let mut variants = Vec::new();
-
-    if let Some(Payload::Object(obj)) = &value.payload {
-        for entry in &obj.entries {
-            if let Some(name) = entry.key.as_str() {
-                variants.push(name.to_string());
-            }
-        }
-    }
-
-    variants
-}
-
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From b3719dd0bbb1ace25a3a4505ce5743b5f0973e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:27 +0000
Subject: [PATCH 58/59] fix: the crate name and version do not pass through a
 shell

styx diff and styx publish built a sh -c command line from the crate name and
the version that the registry reports: quotes in either ran as commands.
---
 crates/styx-cli/src/main.rs | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/crates/styx-cli/src/main.rs b/crates/styx-cli/src/main.rs
index 0cce696..8364ff3 100644
--- a/crates/styx-cli/src/main.rs
+++ b/crates/styx-cli/src/main.rs
@@ -1774,17 +1774,30 @@ fn fetch_crate_schema(crate_name: &str, version: &str) -> Result<String, CliErro
         std::env::temp_dir().join(format!("styx-diff-{}-{}", crate_name, std::process::id()));
     std::fs::create_dir_all(&temp_dir)?;
 
-    let status = std::process::Command::new("sh")
-        .arg("-c")
-        .arg(format!(
-            "curl -sfL '{}' | tar xzf - -C '{}'",
-            url,
-            temp_dir.display()
-        ))
-        .status()
-        .map_err(|e| CliError::Io(io::Error::new(e.kind(), format!("download failed: {e}"))))?;
+    // No shell: the name and the version may hold anything
+    let download = || -> io::Result<bool> {
+        let mut curl = std::process::Command::new("curl")
+            .args(["-sfL", &url])
+            .stdout(std::process::Stdio::piped())
+            .spawn()?;
+        let mut tar = std::process::Command::new("tar");
+        tar.args(["xzf", "-", "-C"]).arg(&temp_dir);
+        if let Some(archive) = curl.stdout.take() {
+            tar.stdin(archive);
+        }
+        let unpacked = tar.status();
+        // The pipe ends with the command
+        drop(tar);
+        let fetched = curl.wait()?;
+        Ok(unpacked?.success() && fetched.success())
+    };
+
+    let downloaded = download().map_err(|e| {
+        let _ = std::fs::remove_dir_all(&temp_dir);
+        CliError::Io(io::Error::new(e.kind(), format!("download failed: {e}")))
+    })?;
 
-    if !status.success() {
+    if !downloaded {
         let _ = std::fs::remove_dir_all(&temp_dir);
         return Err(CliError::Usage(format!(
             "failed to download {crate_name}@{version}"
-- 
2.43.0


From 3adcccc286030eea23c133d81e725600b097c24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:28 +0000
Subject: [PATCH 59/59] fix: styx-wasm JSON conversion of null, big numbers,
 quoted scalars and odd tags

to_json turned null into undefined, answered null for integers beyond 2^53,
made numbers and booleans of quoted text and null of nan and inf. from_json
wrote invalid documents for arrays at the root and for tag names that Styx does
not have, and lost tags inside tags.
---
 crates/styx-wasm/src/lib.rs | 150 ++++++++++++++++++++++++------------
 1 file changed, 101 insertions(+), 49 deletions(-)

diff --git a/crates/styx-wasm/src/lib.rs b/crates/styx-wasm/src/lib.rs
index 74ada38..f9fa0ec 100644
--- a/crates/styx-wasm/src/lib.rs
+++ b/crates/styx-wasm/src/lib.rs
@@ -12,7 +12,9 @@ use wasm_bindgen::prelude::*;
 
 /// Serialize a value to JsValue using plain objects (not Maps).
 fn to_js_value<T: Serialize>(value: &T) -> Result<JsValue, serde_wasm_bindgen::Error> {
-    let serializer = serde_wasm_bindgen::Serializer::new().serialize_maps_as_objects(true);
+    let serializer = serde_wasm_bindgen::Serializer::new()
+        .serialize_maps_as_objects(true)
+        .serialize_missing_as_null(true);
     value.serialize(&serializer)
 }
 
@@ -84,7 +86,7 @@ pub fn to_json(source: &str) -> JsValue {
 
             to_js_value(&json!({
                 "success": true,
-                "json": json_value,
+                "json": round_numbers(json_value),
                 "jsonString": json_string
             }))
             .unwrap_or(JsValue::NULL)
@@ -97,6 +99,19 @@ pub fn to_json(source: &str) -> JsValue {
     }
 }
 
+/// Round the integers that a JavaScript number cannot hold, like `JSON.parse` does.
+fn round_numbers(value: serde_json::Value) -> serde_json::Value {
+    match value {
+        serde_json::Value::Number(n) => json!(n.as_f64()),
+        serde_json::Value::Array(items) => items.into_iter().map(round_numbers).collect(),
+        serde_json::Value::Object(map) => map
+            .into_iter()
+            .map(|(key, value)| (key, round_numbers(value)))
+            .collect(),
+        other => other,
+    }
+}
+
 /// Convert a Styx Value to a JSON value.
 fn value_to_json(value: &Value) -> serde_json::Value {
     let tag = value.tag.as_ref().map(|t| t.name.as_str());
@@ -117,27 +132,33 @@ fn value_to_json(value: &Value) -> serde_json::Value {
 /// Convert a Styx Payload to a JSON value.
 fn payload_to_json(payload: &Payload) -> serde_json::Value {
     match payload {
-        Payload::Scalar(s) => {
-            // Try to parse as number or boolean
-            if let Ok(n) = s.text.parse::<i64>() {
-                json!(n)
-            } else if let Ok(n) = s.text.parse::<f64>() {
-                json!(n)
-            } else if s.text == "true" {
-                json!(true)
-            } else if s.text == "false" {
-                json!(false)
-            } else if s.text == "null" {
-                json!(null)
-            } else {
-                json!(s.text)
-            }
-        }
+        // Only bare scalars can stand for anything but text
+        Payload::Scalar(s) if s.kind == ScalarKind::Bare => bare_to_json(&s.text),
+        Payload::Scalar(s) => json!(s.text),
         Payload::Sequence(seq) => sequence_to_json(seq),
         Payload::Object(obj) => object_to_json(obj),
     }
 }
 
+/// Convert the text of a bare scalar to a number, a boolean, null or a string.
+fn bare_to_json(text: &str) -> serde_json::Value {
+    if let Ok(n) = text.parse::<i64>() {
+        json!(n)
+    } else if let Ok(n) = text.parse::<u64>() {
+        json!(n)
+    } else if let Some(n) = text.parse::<f64>().ok().filter(|n| n.is_finite()) {
+        json!(n)
+    } else if text == "true" {
+        json!(true)
+    } else if text == "false" {
+        json!(false)
+    } else if text == "null" {
+        json!(null)
+    } else {
+        json!(text)
+    }
+}
+
 /// Convert a Styx Sequence to a JSON array.
 fn sequence_to_json(seq: &Sequence) -> serde_json::Value {
     let items: Vec<serde_json::Value> = seq.items.iter().map(value_to_json).collect();
@@ -228,8 +249,8 @@ pub fn validate(source: &str) -> bool {
 #[wasm_bindgen]
 pub fn from_json(json_source: &str) -> JsValue {
     match serde_json::from_str::<serde_json::Value>(json_source) {
-        Ok(json_value) => {
-            let styx_value = json_to_value(&json_value);
+        Ok(serde_json::Value::Object(root)) => {
+            let styx_value = object_to_value(&root);
             let styx_string =
                 styx_format::format_value(&styx_value, styx_format::FormatOptions::default());
 
@@ -239,6 +260,11 @@ pub fn from_json(json_source: &str) -> JsValue {
             }))
             .unwrap_or(JsValue::NULL)
         }
+        Ok(_) => to_js_value(&json!({
+            "success": false,
+            "error": "the root of a Styx document is an object"
+        }))
+        .unwrap_or(JsValue::NULL),
         Err(e) => to_js_value(&json!({
             "success": false,
             "error": e.to_string()
@@ -301,50 +327,76 @@ fn json_to_value(json: &serde_json::Value) -> Value {
 
         serde_json::Value::Object(obj) => {
             // Check for tagged value: {"$tag": "name", "$value": ...}
-            if let Some(serde_json::Value::String(tag_name)) = obj.get("$tag") {
-                let payload = obj.get("$value").and_then(|v| json_to_value(v).payload);
+            if let Some((tag_name, tagged)) = as_tagged(obj) {
                 return Value {
                     tag: Some(Tag {
-                        name: tag_name.clone(),
+                        name: tag_name.to_string(),
                         span: None,
                     }),
-                    payload,
+                    payload: tagged.and_then(|v| json_to_value(v).payload),
                     span: None,
                 };
             }
 
             // Regular object
-            let entries = obj
-                .iter()
-                .map(|(k, v)| Entry {
-                    key: Value {
-                        tag: None,
-                        payload: Some(Payload::Scalar(Scalar {
-                            text: k.clone(),
-                            kind: if needs_quoting(k) {
-                                ScalarKind::Quoted
-                            } else {
-                                ScalarKind::Bare
-                            },
-                            span: None,
-                        })),
-                        span: None,
-                    },
-                    value: json_to_value(v),
-                    doc_comment: None,
-                })
-                .collect();
+            object_to_value(obj)
+        }
+    }
+}
 
-            Value {
+/// Convert a JSON object to a Styx object.
+fn object_to_value(obj: &serde_json::Map<String, serde_json::Value>) -> Value {
+    let entries = obj
+        .iter()
+        .map(|(k, v)| Entry {
+            key: Value {
                 tag: None,
-                payload: Some(Payload::Object(Object {
-                    entries,
+                payload: Some(Payload::Scalar(Scalar {
+                    text: k.clone(),
+                    kind: if needs_quoting(k) {
+                        ScalarKind::Quoted
+                    } else {
+                        ScalarKind::Bare
+                    },
                     span: None,
                 })),
                 span: None,
-            }
-        }
+            },
+            value: json_to_value(v),
+            doc_comment: None,
+        })
+        .collect();
+
+    Value {
+        tag: None,
+        payload: Some(Payload::Object(Object {
+            entries,
+            span: None,
+        })),
+        span: None,
+    }
+}
+
+/// The tag and payload of a JSON object that stands for a tagged value.
+///
+/// Anything else that has a `$tag` (other keys, a name that no tag can have, a tag
+/// around another tag) is a regular object.
+fn as_tagged(
+    obj: &serde_json::Map<String, serde_json::Value>,
+) -> Option<(&str, Option<&serde_json::Value>)> {
+    let name = obj.get("$tag")?.as_str()?;
+    let payload = obj.get("$value");
+    let is_name = name.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_')
+        && name
+            .chars()
+            .all(|c| c.is_ascii_alphanumeric() || matches!(c, '_' | '-'));
+    let nested = payload
+        .and_then(|v| v.as_object())
+        .is_some_and(|inner| as_tagged(inner).is_some());
+    if !is_name || nested || obj.len() != 1 + payload.is_some() as usize {
+        return None;
     }
+    Some((name, payload))
 }
 
 /// Check if a string needs quoting in Styx.
-- 
2.43.0

