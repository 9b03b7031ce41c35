From 7b9ac5917f639f06a0871210d27f8aa3f8a71459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:44 +0000
Subject: [PATCH 01/84] fix: raw strings with more than 255 hash marks are
 delimited by all of their hashes

The tokenizer counted the hashes in a u8: 256 or more made it panic with
overflow checks on, and otherwise end the string early.
---
 crates/styx-tokenizer/src/tokenizer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/styx-tokenizer/src/tokenizer.rs b/crates/styx-tokenizer/src/tokenizer.rs
index 5f1cdac..46b0588 100644
--- a/crates/styx-tokenizer/src/tokenizer.rs
+++ b/crates/styx-tokenizer/src/tokenizer.rs
@@ -533,9 +533,9 @@ impl<'src> Tokenizer<'src> {
         self.advance();
 
         // Count and consume `#` marks
-        let mut hash_count: u8 = 0;
+        let mut hash_count = 0usize;
         while self.peek() == Some('#') {
-            hash_count = hash_count.saturating_add(1);
+            hash_count += 1;
             self.advance();
         }
 
@@ -556,7 +556,7 @@ impl<'src> Tokenizer<'src> {
                 }
                 Some('"') => {
                     // Check for closing sequence
-                    let mut matched_hashes = 0u8;
+                    let mut matched_hashes = 0usize;
                     let mut lookahead = 1;
                     while matched_hashes < hash_count {
                         if self.peek_nth(lookahead) == Some('#') {
-- 
2.43.0


From 5a4fe9fccf71bcbd1fa9f9c5c723d220e40e2d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:54 +0000
Subject: [PATCH 02/84] fix: a heredoc directly after a tag is the tag's
 payload

The language reference lists heredocs among tag payloads; '@tag<<EOF' was read
as a unit tag followed by a third atom.
---
 crates/styx-parse/src/lexer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/styx-parse/src/lexer.rs b/crates/styx-parse/src/lexer.rs
index ecc01e0..533c274 100644
--- a/crates/styx-parse/src/lexer.rs
+++ b/crates/styx-parse/src/lexer.rs
@@ -29,7 +29,7 @@ pub enum Lexeme<'src> {
     Tag {
         span: Span,
         name: &'src str,
-        /// True if an immediate payload follows (no whitespace): `@tag{}`, `@tag()`, `@tag"x"`, `@tag@`
+        /// True if an immediate payload follows (no whitespace): `@tag{}`, `@tag()`, `@tag"x"`, `@tag<<EOF`, `@tag@`
         has_payload: bool,
     },
 
@@ -192,7 +192,7 @@ impl<'src> Lexer<'src> {
                 let is_chained = name.contains("/@");
 
                 // Check if payload follows immediately (no whitespace)
-                // Payload can be: { ( " r#" @ or Tag
+                // Payload can be: { ( " r#" << @ or Tag
                 let payload_tok = self.peek_token();
                 let is_adjacent = payload_tok.span.start == tok.span.end;
                 let is_valid_payload = matches!(
@@ -201,6 +201,7 @@ impl<'src> Lexer<'src> {
                         | TokenKind::LParen
                         | TokenKind::QuotedScalar
                         | TokenKind::RawScalar
+                        | TokenKind::HeredocStart
                         | TokenKind::At
                         | TokenKind::Tag
                 );
-- 
2.43.0


From b2f004633699ef39cb2d5eb0e1752f719a0ebf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:09 +0000
Subject: [PATCH 03/84] fix: every malformed unicode escape is reported as an
 error

A four-digit escape that is too short and not at the end of the digits, a
surrogate, an empty or out-of-range \u{} were rejected by the lexer but not
listed by validate_escapes, so the scalar was accepted with text missing; an
escape error next to a multi-byte character sliced inside the character.
---
 crates/styx-parse/src/parser/mod.rs | 47 ++++++++++++++---------------
 1 file changed, 23 insertions(+), 24 deletions(-)

diff --git a/crates/styx-parse/src/parser/mod.rs b/crates/styx-parse/src/parser/mod.rs
index 7fd353a..1eb9162 100644
--- a/crates/styx-parse/src/parser/mod.rs
+++ b/crates/styx-parse/src/parser/mod.rs
@@ -1942,38 +1942,28 @@ fn validate_escapes(text: &str) -> Vec<(usize, String)> {
                 Some((_, 'u')) => match chars.peek() {
                     Some((_, '{')) => {
                         chars.next();
-                        let mut valid = true;
-                        let mut found_close = false;
-                        for (_, c) in chars.by_ref() {
+                        let digits_start = chars.peek().map(|(i, _)| *i).unwrap_or(text.len());
+                        let mut digits = None;
+                        for (i, c) in chars.by_ref() {
                             if c == '}' {
-                                found_close = true;
+                                digits = Some(&text[digits_start..i]);
                                 break;
                             }
-                            if !c.is_ascii_hexdigit() {
-                                valid = false;
-                            }
                         }
-                        if !found_close || !valid {
+                        if !digits.is_some_and(is_code_point) {
                             let end = chars.peek().map(|(i, _)| *i).unwrap_or(text.len());
-                            let seq = &text[escape_start..end.min(escape_start + 12)];
-                            errors.push((escape_start, seq.to_string()));
+                            let end = text.floor_char_boundary(end.min(escape_start + 12));
+                            errors.push((escape_start, text[escape_start..end].to_string()));
                         }
                     }
-                    Some((_, c)) if c.is_ascii_hexdigit() => {
-                        let mut count = 1;
-                        while count < 4 {
-                            match chars.peek() {
-                                Some((_, c)) if c.is_ascii_hexdigit() => {
-                                    chars.next();
-                                    count += 1;
-                                }
-                                _ => break,
-                            }
+                    Some(&(digits_start, c)) if c.is_ascii_hexdigit() => {
+                        let mut count = 0;
+                        while count < 4 && chars.next_if(|(_, c)| c.is_ascii_hexdigit()).is_some() {
+                            count += 1;
                         }
-                        if count != 4 {
-                            let end = chars.peek().map(|(i, _)| *i).unwrap_or(text.len());
-                            let seq = &text[escape_start..end];
-                            errors.push((escape_start, seq.to_string()));
+                        let end = chars.peek().map(|(i, _)| *i).unwrap_or(text.len());
+                        if count != 4 || !is_code_point(&text[digits_start..end]) {
+                            errors.push((escape_start, text[escape_start..end].to_string()));
                         }
                     }
                     _ => {
@@ -1993,5 +1983,14 @@ fn validate_escapes(text: &str) -> Vec<(usize, String)> {
     errors
 }
 
+/// Whether `digits` are the hex digits of a Unicode scalar value.
+fn is_code_point(digits: &str) -> bool {
+    digits.chars().all(|c| c.is_ascii_hexdigit())
+        && u32::from_str_radix(digits, 16)
+            .ok()
+            .and_then(char::from_u32)
+            .is_some()
+}
+
 #[cfg(test)]
 mod tests;
-- 
2.43.0


From ff5f08076617263c8f80e9b7ba6b3c59f38d727a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:12 +0000
Subject: [PATCH 04/84] fix: escapes in a tagged key's quoted payload are not
 validated twice

The lexer has already unescaped the text, so a payload such as "a\\\\q" was
reported as an invalid escape.
---
 crates/styx-parse/src/parser/mod.rs | 18 +-----------------
 1 file changed, 1 insertion(+), 17 deletions(-)

diff --git a/crates/styx-parse/src/parser/mod.rs b/crates/styx-parse/src/parser/mod.rs
index 1eb9162..4b913fd 100644
--- a/crates/styx-parse/src/parser/mod.rs
+++ b/crates/styx-parse/src/parser/mod.rs
@@ -1196,9 +1196,7 @@ impl<'src> Parser<'src> {
                     }
                     Some(inner) => match &inner.content {
                         AtomContent::Scalar { value, kind } => {
-                            if *kind == ScalarKind::Quoted {
-                                self.emit_escape_errors(value, inner.span);
-                            }
+                            // The lexer already processed escape sequences.
                             self.event_queue.push_back(Event {
                                 span: atom.span,
                                 kind: EventKind::Key {
@@ -1502,20 +1500,6 @@ impl<'src> Parser<'src> {
             }
         }
     }
-
-    /// Emit escape errors.
-    fn emit_escape_errors(&mut self, text: &str, span: Span) {
-        for (offset, seq) in validate_escapes(text) {
-            let error_start = span.start + offset as u32;
-            let error_span = Span::new(error_start, error_start + seq.len() as u32);
-            self.event_queue.push_back(Event {
-                span: error_span,
-                kind: EventKind::Error {
-                    kind: ParseErrorKind::InvalidEscape(seq),
-                },
-            });
-        }
-    }
 }
 
 // ============================================================================
-- 
2.43.0


From 9c46ab43c84f2aab3373eac2ecce053b02dad55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:15 +0000
Subject: [PATCH 05/84] fix: duplicate and reopened keys at the root are found
 wherever they are

Root keys that had been closed were not remembered, a key that is a prefix of
the open dotted path was not a duplicate, and tagged or unit keys were compared
by a string that drops the tag's payload.
---
 crates/styx-parse/src/parser/mod.rs | 120 +++++++++++-----------------
 1 file changed, 45 insertions(+), 75 deletions(-)

diff --git a/crates/styx-parse/src/parser/mod.rs b/crates/styx-parse/src/parser/mod.rs
index 4b913fd..f5f4625 100644
--- a/crates/styx-parse/src/parser/mod.rs
+++ b/crates/styx-parse/src/parser/mod.rs
@@ -493,8 +493,7 @@ impl<'src> Parser<'src> {
 
         if let ParserState::DocumentRoot { path_state, .. } = &mut self.state {
             // Check path state - this handles duplicates for us
-            let key_text = key_value.to_key_string();
-            let path = vec![key_text];
+            let path = [key_value];
             let value_kind = if atoms.len() >= 2 {
                 match &atoms[1].content {
                     AtomContent::Object { .. } | AtomContent::Attributes(_) => {
@@ -1040,7 +1039,10 @@ impl<'src> Parser<'src> {
             let first_key_value = KeyValue::Scalar(segments[0].to_string());
             seen_keys.entry(first_key_value).or_insert(path_span);
 
-            let path: Vec<String> = segments.iter().map(|s| s.to_string()).collect();
+            let path: Vec<KeyValue> = segments
+                .iter()
+                .map(|s| KeyValue::Scalar(s.to_string()))
+                .collect();
             let value_kind = if atoms.len() >= 2 {
                 match &atoms[1].content {
                     AtomContent::Object { .. } | AtomContent::Attributes(_) => {
@@ -1633,13 +1635,13 @@ enum PathError {
 /// - Which child keys have been "closed" (can't be reopened)
 #[derive(Debug, Clone)]
 struct PathSegment {
-    key: String,
+    key: KeyValue,
     span: Span,
     value_kind: PathValueKind,
     /// Keys that have been closed at this level. When we move from a.b.c to a.b.d,
     /// we add "c" to the closed_children of the "b" segment. This is O(siblings at this level)
     /// rather than O(all paths ever seen).
-    closed_children: HashMap<String, Span>,
+    closed_children: HashMap<KeyValue, Span>,
 }
 
 /// Path state tracker with O(depth) memory usage.
@@ -1653,12 +1655,14 @@ struct PathSegment {
 struct PathState {
     /// The current path, as a stack of segments. Length is O(max depth).
     segments: Vec<PathSegment>,
+    /// Top-level keys that have been closed.
+    closed_roots: HashMap<KeyValue, Span>,
 }
 
 impl PathState {
     fn check_and_update(
         &mut self,
-        path: &[String],
+        path: &[KeyValue],
         span: Span,
         value_kind: PathValueKind,
     ) -> Result<(), PathError> {
@@ -1671,32 +1675,28 @@ impl PathState {
             .segments
             .iter()
             .zip(path.iter())
-            .take_while(|(seg, key)| seg.key == **key)
+            .take_while(|(seg, key)| &seg.key == *key)
             .count();
 
-        // Special case: if the entire path matches, check for duplicate
-        // This happens when we see `a 1` then `a 2` - the path ["a"] fully matches
-        if common_len == path.len()
-            && common_len == self.segments.len()
-            && !self.segments.is_empty()
-        {
-            // Exact same path - this is a duplicate
+        // The whole path is already there: either exactly as it is (`a 1` then `a 2`),
+        // or as a prefix of the current one (`a.b 1` then `a 2`)
+        if common_len == path.len() {
             return Err(PathError::Duplicate {
-                original: self.segments.last().unwrap().span,
+                original: self.segments[common_len - 1].span,
             });
         }
 
-        // Close segments beyond common prefix and check for reopening
+        // Close segments beyond common prefix
         // We iterate from deepest to shallowest
         while self.segments.len() > common_len {
             let closed_segment = self.segments.pop().unwrap();
 
-            // Add this key to parent's closed_children (if there is a parent)
-            if let Some(parent) = self.segments.last_mut() {
-                parent
-                    .closed_children
-                    .insert(closed_segment.key, closed_segment.span);
-            }
+            // Add this key to its parent's closed children
+            let closed = match self.segments.last_mut() {
+                Some(parent) => &mut parent.closed_children,
+                None => &mut self.closed_roots,
+            };
+            closed.insert(closed_segment.key, closed_segment.span);
         }
 
         // Now process each new segment of the path
@@ -1708,68 +1708,38 @@ impl PathState {
                 PathValueKind::Object
             };
 
-            if i == common_len && common_len < self.segments.len() {
-                // This case shouldn't happen after the while loop above, but handle defensively
-                unreachable!("segments should have been truncated");
-            }
-
-            if i < self.segments.len() {
-                // We're on the same path segment - check for exact duplicate
-                let existing = &self.segments[i];
-                if existing.key == *key && is_last {
-                    return Err(PathError::Duplicate {
-                        original: existing.span,
-                    });
-                }
-            } else if i == 0 {
-                // Root level - no parent to check
-                // Check if we already have a root segment with this key
-                if !self.segments.is_empty() && self.segments[0].key == *key {
-                    if is_last {
-                        return Err(PathError::Duplicate {
-                            original: self.segments[0].span,
-                        });
-                    }
-                    // Continue using existing segment
-                    continue;
-                }
-                // New root segment
-                self.segments.push(PathSegment {
-                    key: key.clone(),
-                    span,
-                    value_kind: segment_value_kind,
-                    closed_children: HashMap::new(),
-                });
-            } else {
-                // Check parent's closed_children for reopening
-                let parent = &self.segments[i - 1];
-
+            let closed = match self.segments.last() {
                 // Check if parent is terminal (can't nest into it)
-                if parent.value_kind == PathValueKind::Terminal {
+                Some(parent) if parent.value_kind == PathValueKind::Terminal => {
                     return Err(PathError::NestIntoTerminal {
-                        terminal_path: self.segments.iter().map(|s| s.key.clone()).collect(),
-                    });
-                }
-
-                // Check if this key was already closed at this level
-                if parent.closed_children.contains_key(key) {
-                    return Err(PathError::Reopened {
-                        closed_path: self.segments[..i]
+                        terminal_path: self
+                            .segments
                             .iter()
-                            .map(|s| s.key.clone())
-                            .chain(std::iter::once(key.clone()))
+                            .map(|s| s.key.to_key_string())
                             .collect(),
                     });
                 }
+                Some(parent) => &parent.closed_children,
+                None => &self.closed_roots,
+            };
 
-                // Add new segment
-                self.segments.push(PathSegment {
-                    key: key.clone(),
-                    span,
-                    value_kind: segment_value_kind,
-                    closed_children: HashMap::new(),
+            // Check if this key was already closed at this level
+            if let Some(&original) = closed.get(key) {
+                if path.len() == 1 {
+                    return Err(PathError::Duplicate { original });
+                }
+                return Err(PathError::Reopened {
+                    closed_path: path[..=i].iter().map(|k| k.to_key_string()).collect(),
                 });
             }
+
+            // Add new segment
+            self.segments.push(PathSegment {
+                key: key.clone(),
+                span,
+                value_kind: segment_value_kind,
+                closed_children: HashMap::new(),
+            });
         }
 
         // Update the value_kind of the last segment to match what was passed in
-- 
2.43.0


From 2a98bfaf1e50495b2babe6b6612b1b3bf6b02591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:17 +0000
Subject: [PATCH 06/84] fix: a repeated attribute key is reported as a
 duplicate

---
 crates/styx-parse/src/parser/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/styx-parse/src/parser/mod.rs b/crates/styx-parse/src/parser/mod.rs
index f5f4625..ac6e4ed 100644
--- a/crates/styx-parse/src/parser/mod.rs
+++ b/crates/styx-parse/src/parser/mod.rs
@@ -1439,7 +1439,18 @@ impl<'src> Parser<'src> {
                     kind: EventKind::ObjectStart,
                 });
 
+                let mut seen_keys: HashMap<&str, Span> = HashMap::new();
                 for attr in attrs {
+                    if let Some(&original) = seen_keys.get(attr.key) {
+                        self.event_queue.push_back(Event {
+                            span: attr.key_span,
+                            kind: EventKind::Error {
+                                kind: ParseErrorKind::DuplicateKey { original },
+                            },
+                        });
+                    } else {
+                        seen_keys.insert(attr.key, attr.key_span);
+                    }
                     self.event_queue.push_back(Event {
                         span: attr.key_span,
                         kind: EventKind::EntryStart,
-- 
2.43.0


From 8748a3c43153283a78bf5a4ae0f97350628c9d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:51 +0000
Subject: [PATCH 07/84] fix: key paths in an explicit root object follow the
 same rules as at an implicit root

Dotted keys there were not checked at all: duplicates, reopened paths and
nesting into a value went unreported.
---
 crates/styx-parse/src/parser/mod.rs | 99 ++++++++---------------------
 1 file changed, 28 insertions(+), 71 deletions(-)

diff --git a/crates/styx-parse/src/parser/mod.rs b/crates/styx-parse/src/parser/mod.rs
index ac6e4ed..949c2c7 100644
--- a/crates/styx-parse/src/parser/mod.rs
+++ b/crates/styx-parse/src/parser/mod.rs
@@ -60,7 +60,6 @@ enum ParserState {
 
     /// At implicit document root.
     DocumentRoot {
-        seen_keys: HashMap<KeyValue, Span>,
         pending_doc_comment: Option<Span>,
         path_state: PathState,
         /// Whether we've emitted ObjectStart for the implicit root object.
@@ -70,7 +69,7 @@ enum ParserState {
     /// Inside explicit object { ... }.
     InObject {
         start_span: Span,
-        seen_keys: HashMap<KeyValue, Span>,
+        path_state: PathState,
         pending_doc_comment: Option<Span>,
         /// Parent state to restore when we pop.
         parent: Box<ParserState>,
@@ -139,7 +138,6 @@ impl<'src> Parser<'src> {
         match &self.state {
             ParserState::BeforeDocument => {
                 self.state = ParserState::DocumentRoot {
-                    seen_keys: HashMap::new(),
                     pending_doc_comment: None,
                     path_state: PathState::default(),
                     emitted_object_start: false,
@@ -284,7 +282,7 @@ impl<'src> Parser<'src> {
                     // Explicit root object - after it closes, document is done
                     self.state = ParserState::InObject {
                         start_span: span,
-                        seen_keys: HashMap::new(),
+                        path_state: PathState::default(),
                         pending_doc_comment: None,
                         parent: Box::new(ParserState::AfterDocument),
                     };
@@ -483,32 +481,14 @@ impl<'src> Parser<'src> {
         } = &key_atom.content
             && value.contains('.')
         {
-            self.emit_dotted_path_entry(value.clone(), key_atom.span, atoms, true);
+            self.emit_dotted_path_entry(value.clone(), key_atom.span, atoms);
             return;
         }
 
         // Simple key - use path state for duplicate detection at root level
         // (path_state handles both simple and dotted paths uniformly)
         let key_value = KeyValue::from_atom(key_atom);
-
-        if let ParserState::DocumentRoot { path_state, .. } = &mut self.state {
-            // Check path state - this handles duplicates for us
-            let path = [key_value];
-            let value_kind = if atoms.len() >= 2 {
-                match &atoms[1].content {
-                    AtomContent::Object { .. } | AtomContent::Attributes(_) => {
-                        PathValueKind::Object
-                    }
-                    _ => PathValueKind::Terminal,
-                }
-            } else {
-                PathValueKind::Terminal
-            };
-
-            if let Err(err) = path_state.check_and_update(&path, key_atom.span, value_kind) {
-                self.emit_path_error(err, key_atom.span);
-            }
-        }
+        self.check_path(&[key_value], key_atom.span, atoms);
 
         self.emit_simple_entry(atoms);
     }
@@ -542,27 +522,13 @@ impl<'src> Parser<'src> {
         } = &key_atom.content
             && value.contains('.')
         {
-            self.emit_dotted_path_entry(value.clone(), key_atom.span, atoms, false);
+            self.emit_dotted_path_entry(value.clone(), key_atom.span, atoms);
             return;
         }
 
         // Simple key - check for duplicates
         let key_value = KeyValue::from_atom(key_atom);
-
-        if let ParserState::InObject { seen_keys, .. } = &mut self.state {
-            if let Some(&original_span) = seen_keys.get(&key_value) {
-                self.event_queue.push_back(Event {
-                    span: key_atom.span,
-                    kind: EventKind::Error {
-                        kind: ParseErrorKind::DuplicateKey {
-                            original: original_span,
-                        },
-                    },
-                });
-            } else {
-                seen_keys.insert(key_value, key_atom.span);
-            }
-        }
+        self.check_path(&[key_value], key_atom.span, atoms);
 
         self.emit_simple_entry(atoms);
     }
@@ -1006,7 +972,6 @@ impl<'src> Parser<'src> {
         path_text: Cow<'src, str>,
         path_span: Span,
         atoms: &[Atom<'src>],
-        check_path_state: bool,
     ) {
         let segments: Vec<&str> = path_text.split('.').collect();
 
@@ -1028,36 +993,11 @@ impl<'src> Parser<'src> {
             return;
         }
 
-        // Check path state at root
-        if check_path_state
-            && let ParserState::DocumentRoot {
-                seen_keys,
-                path_state,
-                ..
-            } = &mut self.state
-        {
-            let first_key_value = KeyValue::Scalar(segments[0].to_string());
-            seen_keys.entry(first_key_value).or_insert(path_span);
-
-            let path: Vec<KeyValue> = segments
-                .iter()
-                .map(|s| KeyValue::Scalar(s.to_string()))
-                .collect();
-            let value_kind = if atoms.len() >= 2 {
-                match &atoms[1].content {
-                    AtomContent::Object { .. } | AtomContent::Attributes(_) => {
-                        PathValueKind::Object
-                    }
-                    _ => PathValueKind::Terminal,
-                }
-            } else {
-                PathValueKind::Terminal
-            };
-
-            if let Err(err) = path_state.check_and_update(&path, path_span, value_kind) {
-                self.emit_path_error(err, path_span);
-            }
-        }
+        let path: Vec<KeyValue> = segments
+            .iter()
+            .map(|s| KeyValue::Scalar(s.to_string()))
+            .collect();
+        self.check_path(&path, path_span, atoms);
 
         // Emit nested structure
         let depth = segments.len();
@@ -1124,6 +1064,23 @@ impl<'src> Parser<'src> {
         }
     }
 
+    /// Check an entry's key path against the ones before it in the root object.
+    fn check_path(&mut self, path: &[KeyValue], span: Span, atoms: &[Atom<'src>]) {
+        let value_kind = match atoms.get(1).map(|atom| &atom.content) {
+            Some(AtomContent::Object { .. } | AtomContent::Attributes(_)) => PathValueKind::Object,
+            _ => PathValueKind::Terminal,
+        };
+
+        let (ParserState::DocumentRoot { path_state, .. }
+        | ParserState::InObject { path_state, .. }) = &mut self.state
+        else {
+            return;
+        };
+        if let Err(err) = path_state.check_and_update(path, span, value_kind) {
+            self.emit_path_error(err, span);
+        }
+    }
+
     /// Emit path error.
     fn emit_path_error(&mut self, err: PathError, span: Span) {
         let kind = match err {
-- 
2.43.0


From 79ab05aa86651d3df35200b159612878df61ab6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:53 +0000
Subject: [PATCH 08/84] fix: an object in key position after other entries is
 not an explicit root

It was read as the root object, which left the implicit root open and dropped
everything after its closing brace; it is an invalid key.
---
 crates/styx-parse/src/parser/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/styx-parse/src/parser/mod.rs b/crates/styx-parse/src/parser/mod.rs
index 949c2c7..84a90ac 100644
--- a/crates/styx-parse/src/parser/mod.rs
+++ b/crates/styx-parse/src/parser/mod.rs
@@ -278,7 +278,15 @@ impl<'src> Parser<'src> {
                     });
                     return self.event_queue.pop_front();
                 }
-                Lexeme::ObjectStart { span } => {
+                Lexeme::ObjectStart { span }
+                    if !matches!(
+                        self.state,
+                        ParserState::DocumentRoot {
+                            emitted_object_start: true,
+                            ..
+                        }
+                    ) =>
+                {
                     // Explicit root object - after it closes, document is done
                     self.state = ParserState::InObject {
                         start_span: span,
-- 
2.43.0


From f4c50b1c5fe1fd40a8d51b8572518924d124cfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:55 +0000
Subject: [PATCH 09/84] fix: heredoc keys are rejected inside nested objects
 and after tags too

---
 crates/styx-parse/src/parser/mod.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/crates/styx-parse/src/parser/mod.rs b/crates/styx-parse/src/parser/mod.rs
index 84a90ac..b6439e2 100644
--- a/crates/styx-parse/src/parser/mod.rs
+++ b/crates/styx-parse/src/parser/mod.rs
@@ -1163,6 +1163,14 @@ impl<'src> Parser<'src> {
                     }
                     Some(inner) => match &inner.content {
                         AtomContent::Scalar { value, kind } => {
+                            if *kind == ScalarKind::Heredoc {
+                                self.event_queue.push_back(Event {
+                                    span: self.heredoc_start_span(inner.span),
+                                    kind: EventKind::Error {
+                                        kind: ParseErrorKind::InvalidKey,
+                                    },
+                                });
+                            }
                             // The lexer already processed escape sequences.
                             self.event_queue.push_back(Event {
                                 span: atom.span,
@@ -1325,6 +1333,18 @@ impl<'src> Parser<'src> {
                 }
 
                 for entry in entries {
+                    if let AtomContent::Scalar {
+                        kind: ScalarKind::Heredoc,
+                        ..
+                    } = &entry.key.content
+                    {
+                        self.event_queue.push_back(Event {
+                            span: self.heredoc_start_span(entry.key.span),
+                            kind: EventKind::Error {
+                                kind: ParseErrorKind::InvalidKey,
+                            },
+                        });
+                    }
                     if let Some((span, lines)) = &entry.doc_comment {
                         self.event_queue.push_back(Event {
                             span: *span,
-- 
2.43.0


From 6b47e904dbfb2c07832d5ac07b018d44fd9bf385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:00 +0000
Subject: [PATCH 10/84] fix: serde_styx rejects text that is not a valid
 document

---
 crates/serde_styx/src/lib.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/serde_styx/src/lib.rs b/crates/serde_styx/src/lib.rs
index a73e871..751246c 100644
--- a/crates/serde_styx/src/lib.rs
+++ b/crates/serde_styx/src/lib.rs
@@ -71,6 +71,17 @@ pub fn from_str<'de, T>(s: &'de str) -> Result<T>
 where
     T: serde::de::Deserialize<'de>,
 {
+    // The deserializer works on tokens and stops early; the grammar is checked here.
+    let mut parser = styx_parse::Parser::new(s);
+    while let Some(event) = parser.next_event() {
+        if let styx_parse::EventKind::Error { kind } = event.kind {
+            return Err(Error::new(format!(
+                "{kind} at {}..{}",
+                event.span.start, event.span.end
+            )));
+        }
+    }
+
     let mut deserializer = Deserializer::new(s);
     T::deserialize(&mut deserializer)
 }
-- 
2.43.0


From b7818593f7dcb24698e3d72f2a0dd830a670d0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:43 +0000
Subject: [PATCH 11/84] fix: a tag key with an explicit unit payload equals the
 bare tag key

---
 crates/styx-parse/src/parser/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/styx-parse/src/parser/mod.rs b/crates/styx-parse/src/parser/mod.rs
index b6439e2..95a7fdd 100644
--- a/crates/styx-parse/src/parser/mod.rs
+++ b/crates/styx-parse/src/parser/mod.rs
@@ -1584,7 +1584,12 @@ impl KeyValue {
             AtomContent::Unit => KeyValue::Unit,
             AtomContent::Tag { name, payload, .. } => KeyValue::Tagged {
                 name: (*name).to_string(),
-                payload: payload.as_ref().map(|p| Box::new(KeyValue::from_atom(p))),
+                // `@a@` spells out the unit payload that `@a` implies
+                payload: payload
+                    .as_ref()
+                    .map(|p| KeyValue::from_atom(p))
+                    .filter(|p| *p != KeyValue::Unit)
+                    .map(Box::new),
             },
             AtomContent::Object { .. } => KeyValue::Scalar("{}".into()),
             AtomContent::Sequence { .. } => KeyValue::Scalar("()".into()),
-- 
2.43.0


From 0d6f1c9100d5016547a12a71ed911664073fb40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:43 +0000
Subject: [PATCH 12/84] fix: the formatter leaves documents alone that have
 errors the CST does not check for

---
 crates/styx-format/src/cst_format.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/crates/styx-format/src/cst_format.rs b/crates/styx-format/src/cst_format.rs
index 541307a..f0aa241 100644
--- a/crates/styx-format/src/cst_format.rs
+++ b/crates/styx-format/src/cst_format.rs
@@ -6,6 +6,7 @@
 use styx_cst::{
     AstNode, Document, Entry, NodeOrToken, Object, Separator, Sequence, SyntaxKind, SyntaxNode,
 };
+use styx_parse::{EventKind, ParseErrorKind};
 
 use crate::FormatOptions;
 
@@ -24,13 +25,36 @@ pub fn format_cst(node: &SyntaxNode, options: FormatOptions) -> String {
 /// Returns the original source if parsing fails.
 pub fn format_source(source: &str, options: FormatOptions) -> String {
     let parsed = styx_cst::parse(source);
-    if !parsed.is_ok() {
+    if !parsed.is_ok() || has_errors(source) {
         // Don't format documents with parse errors
         return source.to_string();
     }
     format_cst(&parsed.syntax(), options)
 }
 
+/// Whether the document has a syntax error the CST does not check for (escapes, tag
+/// names, keys, ...). Formatting such a text could turn it into a different document.
+///
+/// Repeated keys and extra atoms are about the meaning of entries that can be told apart
+/// all the same; documents with those are formatted.
+fn has_errors(source: &str) -> bool {
+    let mut parser = styx_parse::Parser::new(source);
+    while let Some(event) = parser.next_event() {
+        if let EventKind::Error { kind } = event.kind
+            && !matches!(
+                kind,
+                ParseErrorKind::DuplicateKey { .. }
+                    | ParseErrorKind::ReopenedPath { .. }
+                    | ParseErrorKind::NestIntoTerminal { .. }
+                    | ParseErrorKind::TooManyAtoms
+            )
+        {
+            return true;
+        }
+    }
+    false
+}
+
 struct CstFormatter {
     out: String,
     options: FormatOptions,
-- 
2.43.0


From 202d55f7a6d13861d2505924402ad29a4be9633f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:29 +0000
Subject: [PATCH 13/84] fix: a sequence ending with a heredoc keeps its closing
 parenthesis on another line

---
 crates/styx-format/src/cst_format.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/crates/styx-format/src/cst_format.rs b/crates/styx-format/src/cst_format.rs
index f0aa241..943a527 100644
--- a/crates/styx-format/src/cst_format.rs
+++ b/crates/styx-format/src/cst_format.rs
@@ -408,8 +408,14 @@ impl CstFormatter {
 
         // Determine if we need multiline format
         // But collapse trivial sequences: single simple element should be inline
-        let should_collapse =
-            !has_comments && entries.len() == 1 && !contains_block_object(entries[0].syntax());
+        // (a heredoc's closing delimiter has to stay alone on its line)
+        let ends_with_heredoc = entries
+            .last()
+            .is_some_and(|e| ends_with_heredoc(e.syntax()));
+        let should_collapse = !has_comments
+            && entries.len() == 1
+            && !ends_with_heredoc
+            && !contains_block_object(entries[0].syntax());
 
         // Special case: single entry that is a tag with block payload - format inline with paren
         // e.g., @optional(@object{...}) should format as (@object{\n...\n}) not (\n@object{...}\n)
@@ -418,7 +424,7 @@ impl CstFormatter {
 
         let is_multiline = !should_collapse
             && !single_tag_with_block
-            && (seq.is_multiline() || has_comments || entries.is_empty());
+            && (seq.is_multiline() || has_comments || ends_with_heredoc || entries.is_empty());
 
         if single_tag_with_block {
             // Format the single entry inline with the paren - no newline after (
@@ -660,6 +666,15 @@ fn is_tag_with_block_payload(entry_node: &SyntaxNode) -> bool {
     false
 }
 
+/// Check if the text of a node ends with a heredoc's closing delimiter.
+fn ends_with_heredoc(node: &SyntaxNode) -> bool {
+    node.descendants_with_tokens()
+        .filter_map(|el| el.into_token())
+        .filter(|t| !matches!(t.kind(), SyntaxKind::WHITESPACE | SyntaxKind::NEWLINE))
+        .last()
+        .is_some_and(|t| t.kind() == SyntaxKind::HEREDOC_END)
+}
+
 /// Recursively check if a node contains a block-style object or doc comments.
 /// Objects with doc comments also need to be block-formatted.
 fn contains_block_object(node: &SyntaxNode) -> bool {
-- 
2.43.0


From 1e7f12ab956c701bb9d41e3da70a2dbb290dfb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:24 +0000
Subject: [PATCH 14/84] fix: formatting is stable when an empty object spans
 lines

---
 crates/styx-format/src/cst_format.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/styx-format/src/cst_format.rs b/crates/styx-format/src/cst_format.rs
index 943a527..44fbb0d 100644
--- a/crates/styx-format/src/cst_format.rs
+++ b/crates/styx-format/src/cst_format.rs
@@ -682,8 +682,15 @@ fn contains_block_object(node: &SyntaxNode) -> bool {
     if node.kind() == SyntaxKind::OBJECT
         && let Some(obj) = Object::cast(node.clone())
     {
+        // An object with nothing in it is written `{}`, whatever its layout was
+        let is_empty = !node.children_with_tokens().any(|el| {
+            matches!(
+                el.kind(),
+                SyntaxKind::ENTRY | SyntaxKind::LINE_COMMENT | SyntaxKind::DOC_COMMENT
+            )
+        });
         let sep = obj.separator();
-        if matches!(sep, Separator::Newline | Separator::Mixed) {
+        if !is_empty && matches!(sep, Separator::Newline | Separator::Mixed) {
             return true;
         }
         // Also check if the object contains doc comments
-- 
2.43.0


From e536aed40f44c938c149013f137a3dae3191504e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:46 +0000
Subject: [PATCH 15/84] fix: strings with > and keys with dots are written
 quoted

---
 crates/styx-format/src/lib.rs          |  4 +++-
 crates/styx-format/src/scalar.rs       | 14 +++++++++++---
 crates/styx-format/src/value_format.rs |  2 +-
 crates/styx-format/src/writer.rs       |  6 +++---
 4 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/crates/styx-format/src/lib.rs b/crates/styx-format/src/lib.rs
index 6f0b349..af1f9c4 100644
--- a/crates/styx-format/src/lib.rs
+++ b/crates/styx-format/src/lib.rs
@@ -12,6 +12,8 @@ mod writer;
 
 pub use cst_format::{format_cst, format_source};
 pub use options::FormatOptions;
-pub use scalar::{can_be_bare, count_escapes, count_newlines, escape_quoted, unescape_quoted};
+pub use scalar::{
+    can_be_bare, can_be_bare_key, count_escapes, count_newlines, escape_quoted, unescape_quoted,
+};
 pub use value_format::{format_object_braced, format_value, format_value_default};
 pub use writer::StyxWriter;
diff --git a/crates/styx-format/src/scalar.rs b/crates/styx-format/src/scalar.rs
index 0fb0a1a..aca3d79 100644
--- a/crates/styx-format/src/scalar.rs
+++ b/crates/styx-format/src/scalar.rs
@@ -10,7 +10,7 @@ use std::borrow::Cow;
 /// A bare scalar is valid when:
 /// 1. It's not empty
 /// 2. It doesn't start with characters that look like other syntax (`//`, `r#`, `<<`)
-/// 3. It doesn't contain special characters: `{}(),"=@` or whitespace
+/// 3. It doesn't contain special characters: `{}(),"=@>` or whitespace
 pub fn can_be_bare(s: &str) -> bool {
     if s.is_empty() {
         return false;
@@ -20,8 +20,16 @@ pub fn can_be_bare(s: &str) -> bool {
         return false;
     }
     // Cannot contain special characters
-    !s.chars()
-        .any(|c| matches!(c, '{' | '}' | '(' | ')' | ',' | '"' | '=' | '@') || c.is_whitespace())
+    !s.chars().any(|c| {
+        matches!(c, '{' | '}' | '(' | ')' | ',' | '"' | '=' | '@' | '>') || c.is_whitespace()
+    })
+}
+
+/// Check if a string can be written as a bare key.
+///
+/// Bare keys are split at dots, so a key containing one must be quoted to stay a single key.
+pub fn can_be_bare_key(s: &str) -> bool {
+    can_be_bare(s) && !s.contains('.')
 }
 
 /// Count escape sequences needed for a quoted string.
diff --git a/crates/styx-format/src/value_format.rs b/crates/styx-format/src/value_format.rs
index f4240ae..e6fe71e 100644
--- a/crates/styx-format/src/value_format.rs
+++ b/crates/styx-format/src/value_format.rs
@@ -187,7 +187,7 @@ impl ValueFormatter {
             }
             Some(Payload::Scalar(s)) => {
                 // Always check if the text can be bare, regardless of original ScalarKind
-                if crate::scalar::can_be_bare(&s.text) {
+                if crate::scalar::can_be_bare_key(&s.text) {
                     result.push_str(&s.text);
                 } else {
                     result.push('"');
diff --git a/crates/styx-format/src/writer.rs b/crates/styx-format/src/writer.rs
index 23cab09..ed3fd41 100644
--- a/crates/styx-format/src/writer.rs
+++ b/crates/styx-format/src/writer.rs
@@ -4,7 +4,7 @@
 //! independent of any serialization framework.
 
 use crate::options::{ForceStyle, FormatOptions};
-use crate::scalar::{can_be_bare, count_escapes, count_newlines, escape_quoted};
+use crate::scalar::{can_be_bare, can_be_bare_key, count_escapes, count_newlines, escape_quoted};
 
 /// Context for tracking serialization state.
 #[derive(Debug, Clone)]
@@ -356,7 +356,7 @@ impl StyxWriter {
         }
 
         // Write the key - keys are typically bare identifiers
-        if can_be_bare(key) {
+        if can_be_bare_key(key) {
             self.out.extend_from_slice(key.as_bytes());
         } else {
             self.write_quoted_string(key);
@@ -614,7 +614,7 @@ impl StyxWriter {
         }
 
         // Write the key
-        if can_be_bare(key) {
+        if can_be_bare_key(key) {
             self.out.extend_from_slice(key.as_bytes());
         } else {
             self.write_quoted_string(key);
-- 
2.43.0


From ae071e4fa4c9cdf1a638cb388dcd274f9868ac68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:00 +0000
Subject: [PATCH 16/84] fix: heredocs are written only where they can stand and
 for texts they can spell

---
 crates/styx-format/src/writer.rs | 49 +++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 14 deletions(-)

diff --git a/crates/styx-format/src/writer.rs b/crates/styx-format/src/writer.rs
index ed3fd41..9c3d457 100644
--- a/crates/styx-format/src/writer.rs
+++ b/crates/styx-format/src/writer.rs
@@ -884,9 +884,12 @@ impl StyxWriter {
         let newline_count = count_newlines(s);
         let escape_count = count_escapes(s);
 
-        // Rule 3: Use heredocs for multi-line text
-        if newline_count >= self.options.heredoc_line_threshold {
-            self.write_heredoc(s);
+        // Rule 3: Use heredocs for multi-line text, where one can spell the text
+        if newline_count >= self.options.heredoc_line_threshold
+            && self.heredoc_allowed()
+            && let Some(delimiter) = heredoc_delimiter(s)
+        {
+            self.write_heredoc(s, delimiter);
             return;
         }
 
@@ -930,26 +933,44 @@ impl StyxWriter {
         }
     }
 
-    /// Write a heredoc string.
-    fn write_heredoc(&mut self, s: &str) {
-        // Find a delimiter that doesn't appear in the string
-        let delimiters = ["TEXT", "END", "HEREDOC", "DOC", "STR", "CONTENT"];
-        let delimiter = delimiters
-            .iter()
-            .find(|d| !s.contains(*d))
-            .unwrap_or(&"TEXT");
+    /// Check if a heredoc may be written here.
+    ///
+    /// Nothing can follow the closing delimiter on its line, so this needs an object whose
+    /// entries are on lines of their own.
+    fn heredoc_allowed(&self) -> bool {
+        matches!(
+            self.stack.last(),
+            Some(
+                Context::Struct { is_root: true, .. }
+                    | Context::Struct {
+                        force_multiline: true,
+                        ..
+                    }
+            )
+        )
+    }
 
+    /// Write a heredoc string.
+    fn write_heredoc(&mut self, s: &str, delimiter: &str) {
         self.out.extend_from_slice(b"<<");
         self.out.extend_from_slice(delimiter.as_bytes());
         self.out.push(b'\n');
         self.out.extend_from_slice(s.as_bytes());
-        if !s.ends_with('\n') {
-            self.out.push(b'\n');
-        }
         self.out.extend_from_slice(delimiter.as_bytes());
     }
 }
 
+/// Find a delimiter for a heredoc holding exactly this text.
+///
+/// The text of a heredoc always ends with a newline, and its line endings are not its own.
+fn heredoc_delimiter(s: &str) -> Option<&'static str> {
+    if !s.ends_with('\n') || s.contains('\r') {
+        return None;
+    }
+    let delimiters = ["TEXT", "END", "HEREDOC", "DOC", "STR", "CONTENT"];
+    delimiters.into_iter().find(|d| !s.contains(d))
+}
+
 impl Default for StyxWriter {
     fn default() -> Self {
         Self::new()
-- 
2.43.0


From 10c908551f67aeebcb6f63e9a15b06545bb6c516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:40 +0000
Subject: [PATCH 17/84] fix: what follows a tag in written text is its payload
 exactly when it should be

---
 crates/styx-format/src/lib.rs          |  3 +-
 crates/styx-format/src/scalar.rs       | 21 +++++++++
 crates/styx-format/src/value_format.rs | 12 +++--
 crates/styx-format/src/writer.rs       | 65 +++++++++-----------------
 4 files changed, 52 insertions(+), 49 deletions(-)

diff --git a/crates/styx-format/src/lib.rs b/crates/styx-format/src/lib.rs
index af1f9c4..5b9ee2c 100644
--- a/crates/styx-format/src/lib.rs
+++ b/crates/styx-format/src/lib.rs
@@ -13,7 +13,8 @@ mod writer;
 pub use cst_format::{format_cst, format_source};
 pub use options::FormatOptions;
 pub use scalar::{
-    can_be_bare, can_be_bare_key, count_escapes, count_newlines, escape_quoted, unescape_quoted,
+    can_be_bare, can_be_bare_key, count_escapes, count_newlines, escape_quoted, quote_after_tag,
+    raw_string, unescape_quoted,
 };
 pub use value_format::{format_object_braced, format_value, format_value_default};
 pub use writer::StyxWriter;
diff --git a/crates/styx-format/src/scalar.rs b/crates/styx-format/src/scalar.rs
index aca3d79..82e5563 100644
--- a/crates/styx-format/src/scalar.rs
+++ b/crates/styx-format/src/scalar.rs
@@ -32,6 +32,27 @@ pub fn can_be_bare_key(s: &str) -> bool {
     can_be_bare(s) && !s.contains('.')
 }
 
+/// Spell a string as the payload of a tag, to be put directly after the tag's name.
+///
+/// Bare scalars cannot be tagged. After a name ending with `r` a quoted scalar would be read
+/// as a raw string that takes the `r`, so there the payload is a raw string itself.
+pub fn quote_after_tag(tag: &str, s: &str) -> String {
+    if tag.ends_with('r') {
+        raw_string(s)
+    } else {
+        format!("\"{}\"", escape_quoted(s))
+    }
+}
+
+/// Spell a string as a raw scalar, with as many `#` as it needs.
+pub fn raw_string(s: &str) -> String {
+    let mut hashes = String::new();
+    while s.contains(&format!("\"{hashes}")) {
+        hashes.push('#');
+    }
+    format!("r{hashes}\"{s}\"{hashes}")
+}
+
 /// Count escape sequences needed for a quoted string.
 pub fn count_escapes(s: &str) -> usize {
     s.chars()
diff --git a/crates/styx-format/src/value_format.rs b/crates/styx-format/src/value_format.rs
index e6fe71e..c5c4e6e 100644
--- a/crates/styx-format/src/value_format.rs
+++ b/crates/styx-format/src/value_format.rs
@@ -78,10 +78,12 @@ impl ValueFormatter {
         match &value.payload {
             None => {
                 // No payload - if no tag either, this is unit (@)
-                if !has_tag {
-                    self.writer.write_str("@");
+                if has_tag {
+                    // The tag was already written, and whatever follows is not its payload
+                    self.writer.clear_skip_before_value();
+                } else {
+                    self.writer.write_null();
                 }
-                // If there's a tag but no payload, tag was already written
             }
             Some(Payload::Scalar(s)) => {
                 // If tagged, wrap scalar in parens: @tag(scalar)
@@ -186,8 +188,10 @@ impl ValueFormatter {
                 // If tagged with no payload, tag is already written (e.g., @schema)
             }
             Some(Payload::Scalar(s)) => {
+                if let Some(tag) = &key.tag {
+                    result.push_str(&crate::scalar::quote_after_tag(&tag.name, &s.text));
                 // Always check if the text can be bare, regardless of original ScalarKind
-                if crate::scalar::can_be_bare_key(&s.text) {
+                } else if crate::scalar::can_be_bare_key(&s.text) {
                     result.push_str(&s.text);
                 } else {
                     result.push('"');
diff --git a/crates/styx-format/src/writer.rs b/crates/styx-format/src/writer.rs
index 9c3d457..003a7b1 100644
--- a/crates/styx-format/src/writer.rs
+++ b/crates/styx-format/src/writer.rs
@@ -4,7 +4,9 @@
 //! independent of any serialization framework.
 
 use crate::options::{ForceStyle, FormatOptions};
-use crate::scalar::{can_be_bare, can_be_bare_key, count_escapes, count_newlines, escape_quoted};
+use crate::scalar::{
+    can_be_bare, can_be_bare_key, count_escapes, count_newlines, escape_quoted, raw_string,
+};
 
 /// Context for tracking serialization state.
 #[derive(Debug, Clone)]
@@ -225,8 +227,8 @@ impl StyxWriter {
     /// Begin a struct directly after a tag (no space before the brace).
     pub fn begin_struct_after_tag(&mut self, force_multiline: bool) {
         // Don't call before_value() - we want no space after the tag
-        // Clear the force_quote flag since the tag's payload is a struct, not a scalar
-        self.force_quote_next_scalar = false;
+        // The tag has its payload now
+        self.clear_skip_before_value();
         self.out.push(b'{');
         let open_pos = self.out.len(); // Position right after '{'
         self.stack.push(Context::Struct {
@@ -443,47 +445,38 @@ impl StyxWriter {
     /// Write a null/unit value.
     pub fn write_null(&mut self) {
         self.before_value();
+        self.force_quote_next_scalar = false;
         self.out.push(b'@');
     }
 
     /// Write a boolean value.
     pub fn write_bool(&mut self, v: bool) {
-        self.before_value();
-        if v {
-            self.out.extend_from_slice(b"true");
-        } else {
-            self.out.extend_from_slice(b"false");
-        }
+        self.write_string(if v { "true" } else { "false" });
     }
 
     /// Write an i64 value.
     pub fn write_i64(&mut self, v: i64) {
-        self.before_value();
-        self.out.extend_from_slice(v.to_string().as_bytes());
+        self.write_string(&v.to_string());
     }
 
     /// Write a u64 value.
     pub fn write_u64(&mut self, v: u64) {
-        self.before_value();
-        self.out.extend_from_slice(v.to_string().as_bytes());
+        self.write_string(&v.to_string());
     }
 
     /// Write an i128 value.
     pub fn write_i128(&mut self, v: i128) {
-        self.before_value();
-        self.out.extend_from_slice(v.to_string().as_bytes());
+        self.write_string(&v.to_string());
     }
 
     /// Write a u128 value.
     pub fn write_u128(&mut self, v: u128) {
-        self.before_value();
-        self.out.extend_from_slice(v.to_string().as_bytes());
+        self.write_string(&v.to_string());
     }
 
     /// Write an f64 value.
     pub fn write_f64(&mut self, v: f64) {
-        self.before_value();
-        self.out.extend_from_slice(v.to_string().as_bytes());
+        self.write_string(&v.to_string());
     }
 
     /// Write a string value with appropriate quoting.
@@ -552,8 +545,8 @@ impl StyxWriter {
 
     /// Begin a sequence directly after a tag (no space before the paren).
     pub fn begin_seq_after_tag(&mut self) {
-        // Clear the force_quote flag since the tag's payload is a sequence, not a scalar
-        self.force_quote_next_scalar = false;
+        // The tag has its payload now
+        self.clear_skip_before_value();
         self.out.push(b'(');
         // Sequences after tags always start inline
         self.stack.push(Context::Seq {
@@ -895,7 +888,13 @@ impl StyxWriter {
 
         // Rule 2: Use raw strings for complex escaping (> 3 escapes)
         if escape_count > 3 && !s.contains("\"#") {
-            self.write_raw_string(s);
+            self.out.extend_from_slice(raw_string(s).as_bytes());
+            return;
+        }
+
+        // After a tag whose name ends with `r` a quoted string would be read as a raw one
+        if force_quote && self.out.ends_with(b"r") {
+            self.out.extend_from_slice(raw_string(s).as_bytes());
             return;
         }
 
@@ -911,28 +910,6 @@ impl StyxWriter {
         self.out.push(b'"');
     }
 
-    /// Write a raw string (r#"..."#).
-    fn write_raw_string(&mut self, s: &str) {
-        // Find the minimum number of # needed
-        let mut hashes = 0;
-        let mut check = String::from("\"");
-        while s.contains(&check) {
-            hashes += 1;
-            check = format!("\"{}#", "#".repeat(hashes - 1));
-        }
-
-        self.out.push(b'r');
-        for _ in 0..hashes {
-            self.out.push(b'#');
-        }
-        self.out.push(b'"');
-        self.out.extend_from_slice(s.as_bytes());
-        self.out.push(b'"');
-        for _ in 0..hashes {
-            self.out.push(b'#');
-        }
-    }
-
     /// Check if a heredoc may be written here.
     ///
     /// Nothing can follow the closing delimiter on its line, so this needs an object whose
-- 
2.43.0


From 6146f44bb0290d5e4fc2ed9379ef563b77f0e420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:28 +0000
Subject: [PATCH 18/84] fix: objects written with doc comments or inline style
 do not mix separators or lose empty doc lines

---
 crates/styx-format/src/writer.rs | 180 +++++++++----------------------
 1 file changed, 51 insertions(+), 129 deletions(-)

diff --git a/crates/styx-format/src/writer.rs b/crates/styx-format/src/writer.rs
index 003a7b1..dc830d1 100644
--- a/crates/styx-format/src/writer.rs
+++ b/crates/styx-format/src/writer.rs
@@ -196,6 +196,7 @@ impl StyxWriter {
     /// If `force_multiline` is true, the struct will never be inlined.
     pub fn begin_struct_with_options(&mut self, is_root: bool, force_multiline: bool) {
         self.before_value();
+        let force_multiline = force_multiline && self.options.force_style != ForceStyle::Inline;
 
         // A struct starts inline if it's appearing as a value on the same line as its key
         // (i.e., not the root and the opening brace is on the same line)
@@ -229,6 +230,7 @@ impl StyxWriter {
         // Don't call before_value() - we want no space after the tag
         // The tag has its payload now
         self.clear_skip_before_value();
+        let force_multiline = force_multiline && self.options.force_style != ForceStyle::Inline;
         self.out.push(b'{');
         let open_pos = self.out.len(); // Position right after '{'
         self.stack.push(Context::Struct {
@@ -264,7 +266,7 @@ impl StyxWriter {
 
         // Struct should be inline if it started inline AND isn't forced multiline
         let struct_is_inline = inline_start && !force_multiline;
-        let should_inline = struct_is_inline || self.should_inline();
+        let should_inline = struct_is_inline || (!force_multiline && self.should_inline());
 
         if !is_first {
             if should_inline && !is_root {
@@ -325,7 +327,7 @@ impl StyxWriter {
 
         // Struct should be inline if it started inline AND isn't forced multiline
         let struct_is_inline = inline_start && !force_multiline;
-        let should_inline = struct_is_inline || self.should_inline();
+        let should_inline = struct_is_inline || (!force_multiline && self.should_inline());
 
         if !is_first {
             if should_inline && !is_root {
@@ -591,7 +593,7 @@ impl StyxWriter {
         // For non-first fields, or non-root structs, add newline before doc
         let need_leading_newline = !is_first || !is_root;
 
-        for (i, line) in doc.lines().enumerate() {
+        for (i, line) in doc.split('\n').enumerate() {
             if i > 0 || need_leading_newline {
                 self.write_newline_indent();
             }
@@ -651,7 +653,7 @@ impl StyxWriter {
         // For non-first fields, or non-root structs, add newline before doc
         let need_leading_newline = !is_first || !is_root;
 
-        for (i, line) in doc.lines().enumerate() {
+        for (i, line) in doc.split('\n').enumerate() {
             if i > 0 || need_leading_newline {
                 self.write_newline_indent();
             }
@@ -678,113 +680,29 @@ impl StyxWriter {
     /// Propagate multiline formatting up to all parent structs that started inline.
     /// This is called when doc comments force the current struct to be multiline.
     fn propagate_multiline_to_parents(&mut self) {
-        // First, collect all comma positions from parent structs that will go multiline
-        // We need to fix these before inserting newlines
-        let mut all_comma_positions: Vec<usize> = Vec::new();
-        let mut structs_to_fix: Vec<usize> = Vec::new(); // indices in stack
-
-        for (idx, ctx) in self.stack.iter().enumerate() {
-            if let Context::Struct {
-                inline_start,
-                force_multiline,
-                is_root,
-                comma_positions,
-                ..
-            } = ctx
-                && !*is_root
-                && *inline_start
-                && !*force_multiline
-            {
-                structs_to_fix.push(idx);
-                all_comma_positions.extend(comma_positions.iter().copied());
-            }
-        }
-
-        // Fix all comma separators first (before we insert newlines which would shift positions)
-        if !all_comma_positions.is_empty() {
-            // Sort and process from end to start
-            all_comma_positions.sort_unstable();
-            for &comma_pos in all_comma_positions.iter().rev() {
-                // Replace ", " with newline + appropriate indent
-                if comma_pos + 2 <= self.out.len()
-                    && self.out[comma_pos] == b','
-                    && self.out[comma_pos + 1] == b' '
-                {
-                    // Calculate indent for this position
-                    let indent = self.options.indent.repeat(self.indent_depth());
-                    let newline_indent = format!("\n{}", indent);
-                    self.out.drain(comma_pos..comma_pos + 2);
-                    let bytes = newline_indent.as_bytes();
-                    for (i, &b) in bytes.iter().enumerate() {
-                        self.out.insert(comma_pos + i, b);
-                    }
-                }
-            }
-        }
-
-        // Clear comma positions from structs we're fixing
-        for &idx in &structs_to_fix {
-            if let Some(Context::Struct {
-                comma_positions, ..
-            }) = self.stack.get_mut(idx)
-            {
-                comma_positions.clear();
-            }
-        }
-
-        // Now collect positions and effective depths of structs that need newline after brace
-        let mut fixes: Vec<(usize, usize)> = Vec::new(); // (open_brace_pos, effective_depth)
-
         let mut effective_depth = 0;
-        for ctx in self.stack.iter_mut() {
-            if let Context::Struct {
+        for idx in 0..self.stack.len() {
+            let Context::Struct {
                 inline_start,
                 force_multiline,
-                is_root,
+                is_root: false,
                 open_brace_pos: Some(pos),
                 ..
-            } = ctx
-            {
-                // Root doesn't add depth
-                if !*is_root {
-                    // If this struct started inline but hasn't been fixed yet
-                    if *inline_start && !*force_multiline {
-                        *force_multiline = true;
-                        // Content inside this struct should be at effective_depth + 1
-                        fixes.push((*pos, effective_depth + 1));
-                    }
-                    // After forcing multiline, this struct now contributes to depth
-                    effective_depth += 1;
-                }
-            }
-        }
-
-        // Apply fixes from end to start (so positions stay valid)
-        for (pos, indent_depth) in fixes.into_iter().rev() {
-            // Insert newline + indent after the opening brace
-            let indent = self.options.indent.repeat(indent_depth);
-            let insert = format!("\n{}", indent);
-            for (i, b) in insert.bytes().enumerate() {
-                self.out.insert(pos + i, b);
-            }
-
-            // Update all positions in the stack that come after this insertion
-            for ctx in self.stack.iter_mut() {
-                if let Context::Struct {
-                    open_brace_pos: Some(p),
-                    comma_positions,
-                    ..
-                } = ctx
-                {
-                    if *p > pos {
-                        *p += insert.len();
-                    }
-                    for cp in comma_positions.iter_mut() {
-                        if *cp >= pos {
-                            *cp += insert.len();
-                        }
-                    }
-                }
+            } = &mut self.stack[idx]
+            else {
+                continue;
+            };
+            // After forcing multiline, this struct contributes to depth
+            effective_depth += 1;
+
+            // If this struct started inline but hasn't been fixed yet
+            if *inline_start && !*force_multiline {
+                *force_multiline = true;
+                let pos = *pos;
+                let newline_indent = format!("\n{}", self.options.indent.repeat(effective_depth));
+                self.replace_commas(idx, &newline_indent);
+                // Insert newline + indent after the opening brace
+                self.splice(pos, 0, newline_indent.as_bytes());
             }
         }
     }
@@ -792,35 +710,39 @@ impl StyxWriter {
     /// Fix any comma separators in the current struct by replacing them with newlines.
     /// Call this when switching from inline to multiline formatting mid-struct.
     fn fix_comma_separators(&mut self) {
-        // Extract comma positions from current struct context
-        let comma_positions = match self.stack.last_mut() {
-            Some(Context::Struct {
+        let newline_indent = format!("\n{}", self.options.indent.repeat(self.indent_depth()));
+        if let Some(last) = self.stack.len().checked_sub(1) {
+            self.replace_commas(last, &newline_indent);
+        }
+    }
+
+    /// Replace the comma separators written in one struct of the stack.
+    fn replace_commas(&mut self, idx: usize, newline_indent: &str) {
+        let comma_positions = match &mut self.stack[idx] {
+            Context::Struct {
                 comma_positions, ..
-            }) => std::mem::take(comma_positions),
+            } => std::mem::take(comma_positions),
             _ => return,
         };
-
-        if comma_positions.is_empty() {
-            return;
+        // From end to start, so earlier positions stay valid
+        for pos in comma_positions.into_iter().rev() {
+            self.splice(pos, ", ".len(), newline_indent.as_bytes());
         }
+    }
 
-        // Calculate the indentation string for this struct
-        let indent = self.options.indent.repeat(self.indent_depth());
-        let newline_indent = format!("\n{}", indent);
-
-        // Process comma positions from end to start (so earlier positions stay valid)
-        for &comma_pos in comma_positions.iter().rev() {
-            // Replace ", " (2 bytes) with "\n" + indent
-            // First, verify this position has ", " (sanity check)
-            if comma_pos + 2 <= self.out.len()
-                && self.out[comma_pos] == b','
-                && self.out[comma_pos + 1] == b' '
+    /// Replace `len` bytes of the output at `pos`, keeping the recorded positions valid.
+    fn splice(&mut self, pos: usize, len: usize, with: &[u8]) {
+        self.out.splice(pos..pos + len, with.iter().copied());
+        for ctx in self.stack.iter_mut() {
+            if let Context::Struct {
+                open_brace_pos,
+                comma_positions,
+                ..
+            } = ctx
             {
-                // Remove ", " and insert newline+indent
-                self.out.drain(comma_pos..comma_pos + 2);
-                let bytes = newline_indent.as_bytes();
-                for (i, &b) in bytes.iter().enumerate() {
-                    self.out.insert(comma_pos + i, b);
+                let later = open_brace_pos.iter_mut().filter(|p| **p > pos);
+                for p in later.chain(comma_positions.iter_mut().filter(|p| **p >= pos)) {
+                    *p = *p + with.len() - len;
                 }
             }
         }
-- 
2.43.0


From 1577d16560c904c6a1b79099143246b26d3069aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:16 +0000
Subject: [PATCH 19/84] fix: names of tagged keys are escaped when serialized

---
 crates/facet-styx/src/serializer.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/crates/facet-styx/src/serializer.rs b/crates/facet-styx/src/serializer.rs
index bd7c684..c7b748f 100644
--- a/crates/facet-styx/src/serializer.rs
+++ b/crates/facet-styx/src/serializer.rs
@@ -260,11 +260,7 @@ impl FormatSerializer for StyxSerializer {
         ) {
             (Some(tag), Some(name)) => {
                 // @tag"name" - tagged with value
-                let key_str = if tag.is_empty() {
-                    format!("@\"{}\"", name)
-                } else {
-                    format!("@{}\"{}\"", tag, name)
-                };
+                let key_str = format!("@{tag}{}", styx_format::quote_after_tag(tag, name));
                 if !doc_lines.is_empty() {
                     self.writer
                         .write_doc_comment_and_key_raw(&doc_lines.join("\n"), &key_str);
-- 
2.43.0


From 04486b905b0639adc5291612add3e4664d689df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:27 +0000
Subject: [PATCH 20/84] fix: an empty document deserializes as an empty object

---
 crates/facet-styx/src/parser.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/facet-styx/src/parser.rs b/crates/facet-styx/src/parser.rs
index 9837d33..d5afffb 100644
--- a/crates/facet-styx/src/parser.rs
+++ b/crates/facet-styx/src/parser.rs
@@ -270,9 +270,17 @@ impl<'de> StyxParser<'de> {
 
             EventKind::DocumentEnd => {
                 if self.at_implicit_root {
-                    Ok(None)
+                    // No entries, so no root object was opened: the document is an
+                    // empty object.
+                    self.at_implicit_root = false;
+                    self.current_span = Some(span);
+                    self.peeked_events
+                        .push(self.event(ParseEventKind::StructEnd));
+                    Ok(Some(
+                        self.event(ParseEventKind::StructStart(ContainerKind::Object)),
+                    ))
                 } else {
-                    // Expression mode - no implicit root, skip DocumentEnd
+                    // The root object was closed, or expression mode - no implicit root
                     Ok(None)
                 }
             }
-- 
2.43.0


From ab9b4ea8cfe33ec54e49c008430ffccbe0be43a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:27 +0000
Subject: [PATCH 21/84] fix: objects and sequences that are a tag's payload are
 written without a space inside sequences

---
 crates/facet-styx/src/serializer.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/crates/facet-styx/src/serializer.rs b/crates/facet-styx/src/serializer.rs
index c7b748f..4409c08 100644
--- a/crates/facet-styx/src/serializer.rs
+++ b/crates/facet-styx/src/serializer.rs
@@ -226,7 +226,10 @@ impl FormatSerializer for StyxSerializer {
         let is_root = self.at_root;
         trace!(is_root, "begin_struct");
         self.at_root = false;
-        self.just_wrote_tag = false;
+        if self.just_wrote_tag {
+            // The object is the payload of the tag: no space between them.
+            return self.begin_struct_after_tag();
+        }
         self.writer.clear_skip_before_value();
         self.writer.begin_struct(is_root);
         Ok(())
@@ -320,7 +323,9 @@ impl FormatSerializer for StyxSerializer {
     fn begin_seq(&mut self) -> Result<(), Self::Error> {
         trace!("begin_seq");
         self.at_root = false;
-        self.just_wrote_tag = false;
+        if self.just_wrote_tag {
+            return self.begin_seq_after_tag();
+        }
         self.writer.clear_skip_before_value();
         self.writer.begin_seq();
         Ok(())
@@ -655,7 +660,10 @@ impl FormatSerializer for CompactStyxSerializer {
 
     fn begin_struct(&mut self) -> Result<(), Self::Error> {
         // Never treat as root in compact mode
-        self.just_wrote_tag = false;
+        if self.just_wrote_tag {
+            // The object is the payload of the tag: no space between them.
+            return self.begin_struct_after_tag();
+        }
         self.writer.clear_skip_before_value();
         self.writer.begin_struct(false);
         Ok(())
@@ -672,7 +680,9 @@ impl FormatSerializer for CompactStyxSerializer {
     }
 
     fn begin_seq(&mut self) -> Result<(), Self::Error> {
-        self.just_wrote_tag = false;
+        if self.just_wrote_tag {
+            return self.begin_seq_after_tag();
+        }
         self.writer.clear_skip_before_value();
         self.writer.begin_seq();
         Ok(())
-- 
2.43.0


From 9cced0823a559a5b0598a193c37e885e62216239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:02 +0000
Subject: [PATCH 22/84] fix: serde enum variants are written with their payload
 attached to the tag

---
 crates/serde_styx/src/ser.rs     | 6 ++++--
 crates/styx-format/src/writer.rs | 5 +++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/serde_styx/src/ser.rs b/crates/serde_styx/src/ser.rs
index 1e4af34..bf89ea0 100644
--- a/crates/serde_styx/src/ser.rs
+++ b/crates/serde_styx/src/ser.rs
@@ -159,6 +159,8 @@ impl<'a> ser::Serializer for &'a mut Serializer {
     ) -> Result<()> {
         self.at_root = false;
         self.writer.write_variant_tag(variant);
+        // No payload: what comes next is a value of its own.
+        self.writer.clear_skip_before_value();
         Ok(())
     }
 
@@ -179,7 +181,6 @@ impl<'a> ser::Serializer for &'a mut Serializer {
     ) -> Result<()> {
         self.at_root = false;
         self.writer.write_variant_tag(variant);
-        self.writer.write_byte(b' ');
         value.serialize(&mut *self)
     }
 
@@ -680,6 +681,8 @@ impl<'a> ser::Serializer for &'a mut CompactSerializer {
         variant: &'static str,
     ) -> Result<()> {
         self.writer.write_variant_tag(variant);
+        // No payload: what comes next is a value of its own.
+        self.writer.clear_skip_before_value();
         Ok(())
     }
 
@@ -699,7 +702,6 @@ impl<'a> ser::Serializer for &'a mut CompactSerializer {
         value: &T,
     ) -> Result<()> {
         self.writer.write_variant_tag(variant);
-        self.writer.write_byte(b' ');
         value.serialize(&mut *self)
     }
 
diff --git a/crates/styx-format/src/writer.rs b/crates/styx-format/src/writer.rs
index dc830d1..2c42357 100644
--- a/crates/styx-format/src/writer.rs
+++ b/crates/styx-format/src/writer.rs
@@ -510,7 +510,12 @@ impl StyxWriter {
     }
 
     /// Write a variant tag (e.g., `@some`).
+    ///
+    /// A tag written where another tag's payload is due is chained to it (`@outer/@inner`).
     pub fn write_variant_tag(&mut self, name: &str) {
+        if self.skip_next_before_value {
+            return self.write_tag_chain_segment(name);
+        }
         self.before_value();
         self.out.push(b'@');
         self.out.extend_from_slice(name.as_bytes());
-- 
2.43.0


From bda7043b6878db1a9337bbca7672a717105174e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:02 +0000
Subject: [PATCH 23/84] fix: serde_styx reads the closing parenthesis of tuples

---
 crates/serde_styx/src/de.rs | 44 ++++++++++++++++++++++++++++++++-----
 1 file changed, 39 insertions(+), 5 deletions(-)

diff --git a/crates/serde_styx/src/de.rs b/crates/serde_styx/src/de.rs
index 8527351..3de4e00 100644
--- a/crates/serde_styx/src/de.rs
+++ b/crates/serde_styx/src/de.rs
@@ -398,16 +398,26 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
     }
 
     fn deserialize_tuple<V: Visitor<'de>>(self, _len: usize, visitor: V) -> Result<V::Value> {
-        self.deserialize_seq(visitor)
+        let token = self.next_token();
+        if token.kind != TokenKind::LParen {
+            return Err(self.error("expected sequence ("));
+        }
+        // Visitors of tuples stop after the last element they want.
+        let value = visitor.visit_seq(TupleAccess { de: self })?;
+        self.skip_comma();
+        if self.next_token().kind != TokenKind::RParen {
+            return Err(self.error("too many elements in sequence"));
+        }
+        Ok(value)
     }
 
     fn deserialize_tuple_struct<V: Visitor<'de>>(
         self,
         _name: &'static str,
-        _len: usize,
+        len: usize,
         visitor: V,
     ) -> Result<V::Value> {
-        self.deserialize_seq(visitor)
+        self.deserialize_tuple(len, visitor)
     }
 
     fn deserialize_map<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
@@ -571,6 +581,30 @@ impl<'a, 'de> de::SeqAccess<'de> for SeqAccess<'a, 'de> {
     }
 }
 
+/// Sequence access for tuples: leaves the closing parenthesis to the deserializer.
+struct TupleAccess<'a, 'de> {
+    de: &'a mut Deserializer<'de>,
+}
+
+impl<'a, 'de> de::SeqAccess<'de> for TupleAccess<'a, 'de> {
+    type Error = Error;
+
+    fn next_element_seed<T>(&mut self, seed: T) -> Result<Option<T::Value>>
+    where
+        T: de::DeserializeSeed<'de>,
+    {
+        self.de.skip_comma();
+
+        if let Some(token) = self.de.peek_token()
+            && matches!(token.kind, TokenKind::RParen | TokenKind::Eof)
+        {
+            return Ok(None);
+        }
+
+        seed.deserialize(&mut *self.de).map(Some)
+    }
+}
+
 /// Map access for serde.
 struct MapAccess<'a, 'de> {
     de: &'a mut Deserializer<'de>,
@@ -656,11 +690,11 @@ impl<'a, 'de> de::VariantAccess<'de> for VariantAccess<'a, 'de> {
         seed.deserialize(self.de)
     }
 
-    fn tuple_variant<V>(self, _len: usize, visitor: V) -> Result<V::Value>
+    fn tuple_variant<V>(self, len: usize, visitor: V) -> Result<V::Value>
     where
         V: Visitor<'de>,
     {
-        de::Deserializer::deserialize_seq(self.de, visitor)
+        de::Deserializer::deserialize_tuple(self.de, len, visitor)
     }
 
     fn struct_variant<V>(self, _fields: &'static [&'static str], visitor: V) -> Result<V::Value>
-- 
2.43.0


From cca8a60af812664e7e8c183654f7e5b21c34c5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:08 +0000
Subject: [PATCH 24/84] fix: serde_styx reads tags as enum variants

---
 crates/serde_styx/src/de.rs | 125 ++++++++++++++++++++----------------
 1 file changed, 71 insertions(+), 54 deletions(-)

diff --git a/crates/serde_styx/src/de.rs b/crates/serde_styx/src/de.rs
index 3de4e00..2de17cd 100644
--- a/crates/serde_styx/src/de.rs
+++ b/crates/serde_styx/src/de.rs
@@ -142,21 +142,16 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
                 TokenKind::LParen => self.deserialize_seq(visitor),
                 TokenKind::At => {
                     self.next_token();
-                    // Check if it's a tag or unit
-                    if let Some(next) = self.peek_token() {
-                        if next.kind == TokenKind::BareScalar && next.span.start == token.span.end {
-                            // It's a tag - treat as enum
-                            let name_token = self.next_token();
-                            visitor.visit_enum(EnumAccess {
-                                de: self,
-                                variant: name_token.text,
-                            })
-                        } else {
-                            visitor.visit_unit()
-                        }
-                    } else {
-                        visitor.visit_unit()
-                    }
+                    visitor.visit_unit()
+                }
+                TokenKind::Tag => {
+                    let token = self.next_token();
+                    let (variant, has_payload) = self.split_tag(token);
+                    visitor.visit_enum(EnumAccess {
+                        de: self,
+                        variant,
+                        has_payload,
+                    })
                 }
                 TokenKind::BareScalar => {
                     let token = self.next_token();
@@ -345,20 +340,7 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
         if let Some(token) = self.peek_token()
             && token.kind == TokenKind::At
         {
-            // Check if it's just @ (unit/none) or @tag
-            let token = self.next_token();
-            if let Some(next) = self.peek_token()
-                && next.kind == TokenKind::BareScalar
-                && next.span.start == token.span.end
-            {
-                // It's a tag - put back and deserialize as Some
-                self.peeked_token = Some(Token {
-                    kind: TokenKind::At,
-                    text: "@",
-                    span: token.span,
-                });
-                return visitor.visit_some(self);
-            }
+            self.next_token();
             return visitor.visit_none();
         }
         visitor.visit_some(self)
@@ -457,21 +439,20 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
         visitor: V,
     ) -> Result<V::Value> {
         let token = self.next_token();
-        if token.kind == TokenKind::At {
+        if token.kind == TokenKind::Tag {
             // Tagged enum
-            let name_token = self.next_token();
-            if name_token.kind != TokenKind::BareScalar {
-                return Err(self.error("expected variant name after @"));
-            }
+            let (variant, has_payload) = self.split_tag(token);
             visitor.visit_enum(EnumAccess {
                 de: self,
-                variant: name_token.text,
+                variant,
+                has_payload,
             })
         } else if token.kind == TokenKind::BareScalar {
             // Untagged string variant
             visitor.visit_enum(EnumAccess {
                 de: self,
                 variant: token.text,
+                has_payload: false,
             })
         } else {
             Err(self.error("expected enum variant"))
@@ -498,6 +479,36 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
 }
 
 impl<'de> Deserializer<'de> {
+    /// Split a tag token into the (outermost) tag's name and whether it has a payload, which
+    /// is then the next thing to read: the rest of a chain (`@outer/@inner`), or a value that
+    /// follows without a space.
+    fn split_tag(&mut self, token: Token<'de>) -> (&'de str, bool) {
+        let name = &token.text[1..];
+        if let Some(slash) = name.find("/@") {
+            let text = &name[slash + 1..];
+            self.peeked_token = Some(Token {
+                kind: TokenKind::Tag,
+                text,
+                span: Span::new(token.span.end - text.len() as u32, token.span.end),
+            });
+            return (&name[..slash], true);
+        }
+        let has_payload = self.peek_token().is_some_and(|next| {
+            next.span.start == token.span.end
+                && matches!(
+                    next.kind,
+                    TokenKind::LBrace
+                        | TokenKind::LParen
+                        | TokenKind::QuotedScalar
+                        | TokenKind::RawScalar
+                        | TokenKind::HeredocStart
+                        | TokenKind::At
+                        | TokenKind::Tag
+                )
+        });
+        (name, has_payload)
+    }
+
     fn skip_value(&mut self) -> Result<()> {
         let token = self.next_token();
         match token.kind {
@@ -525,24 +536,10 @@ impl<'de> Deserializer<'de> {
                     }
                 }
             }
-            TokenKind::At => {
-                // Could be unit or tag with value
-                if let Some(next) = self.peek_token()
-                    && next.kind == TokenKind::BareScalar
-                {
-                    self.next_token();
-                    // Check for payload
-                    if let Some(next) = self.peek_token()
-                        && !matches!(
-                            next.kind,
-                            TokenKind::RBrace
-                                | TokenKind::RParen
-                                | TokenKind::Comma
-                                | TokenKind::Eof
-                        )
-                    {
-                        self.skip_value()?;
-                    }
+            TokenKind::Tag => {
+                let (_, has_payload) = self.split_tag(token);
+                if has_payload {
+                    self.skip_value()?;
                 }
             }
             _ => {
@@ -656,6 +653,7 @@ impl<'a, 'de> de::MapAccess<'de> for MapAccess<'a, 'de> {
 struct EnumAccess<'a, 'de> {
     de: &'a mut Deserializer<'de>,
     variant: &'de str,
+    has_payload: bool,
 }
 
 impl<'a, 'de> de::EnumAccess<'de> for EnumAccess<'a, 'de> {
@@ -667,19 +665,29 @@ impl<'a, 'de> de::EnumAccess<'de> for EnumAccess<'a, 'de> {
         V: de::DeserializeSeed<'de>,
     {
         let variant = seed.deserialize(de::value::BorrowedStrDeserializer::new(self.variant))?;
-        Ok((variant, VariantAccess { de: self.de }))
+        Ok((
+            variant,
+            VariantAccess {
+                de: self.de,
+                has_payload: self.has_payload,
+            },
+        ))
     }
 }
 
 /// Variant access for serde.
 struct VariantAccess<'a, 'de> {
     de: &'a mut Deserializer<'de>,
+    has_payload: bool,
 }
 
 impl<'a, 'de> de::VariantAccess<'de> for VariantAccess<'a, 'de> {
     type Error = Error;
 
     fn unit_variant(self) -> Result<()> {
+        if self.has_payload {
+            return de::Deserialize::deserialize(self.de);
+        }
         Ok(())
     }
 
@@ -687,6 +695,9 @@ impl<'a, 'de> de::VariantAccess<'de> for VariantAccess<'a, 'de> {
     where
         T: de::DeserializeSeed<'de>,
     {
+        if !self.has_payload {
+            return seed.deserialize(de::value::UnitDeserializer::new());
+        }
         seed.deserialize(self.de)
     }
 
@@ -694,6 +705,9 @@ impl<'a, 'de> de::VariantAccess<'de> for VariantAccess<'a, 'de> {
     where
         V: Visitor<'de>,
     {
+        if !self.has_payload {
+            return Err(self.de.error("expected sequence ("));
+        }
         de::Deserializer::deserialize_tuple(self.de, len, visitor)
     }
 
@@ -701,6 +715,9 @@ impl<'a, 'de> de::VariantAccess<'de> for VariantAccess<'a, 'de> {
     where
         V: Visitor<'de>,
     {
+        if !self.has_payload {
+            return Err(self.de.error("expected object {"));
+        }
         de::Deserializer::deserialize_map(self.de, visitor)
     }
 }
-- 
2.43.0


From d2c8ef0f77a490589076c47ace507805d21659dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:18 +0000
Subject: [PATCH 25/84] fix: serde_styx reads every scalar notation, heredocs
 included, into every scalar type

---
 crates/serde_styx/src/de.rs | 192 +++++++++++++-----------------------
 1 file changed, 69 insertions(+), 123 deletions(-)

diff --git a/crates/serde_styx/src/de.rs b/crates/serde_styx/src/de.rs
index 2de17cd..df74053 100644
--- a/crates/serde_styx/src/de.rs
+++ b/crates/serde_styx/src/de.rs
@@ -1,12 +1,15 @@
 //! Serde deserializer for Styx.
 
+use std::borrow::Cow;
+
 use serde::de::{self, Visitor};
-use styx_parse::{ScalarKind, Span, Token, TokenKind, Tokenizer};
+use styx_parse::{Lexeme, Lexer, Span, Token, TokenKind, Tokenizer};
 
 use crate::error::{Error, Result};
 
 /// Styx deserializer implementing serde::Deserializer.
 pub struct Deserializer<'de> {
+    source: &'de str,
     lexer: Tokenizer<'de>,
     /// Peeked token (if any).
     peeked_token: Option<Token<'de>>,
@@ -20,6 +23,7 @@ impl<'de> Deserializer<'de> {
     /// Create a new deserializer for the given source.
     pub fn new(source: &'de str) -> Self {
         Self {
+            source,
             lexer: Tokenizer::new(source),
             peeked_token: None,
             current_span: None,
@@ -75,44 +79,57 @@ impl<'de> Deserializer<'de> {
         }
     }
 
-    /// Parse a scalar value.
-    fn parse_scalar(&self, text: &'de str, kind: ScalarKind) -> ScalarValue<'de> {
-        match kind {
-            ScalarKind::Bare => {
-                if text == "true" {
-                    ScalarValue::Bool(true)
-                } else if text == "false" {
-                    ScalarValue::Bool(false)
-                } else if text == "null" {
-                    ScalarValue::Null
-                } else if let Ok(n) = text.parse::<i64>() {
-                    ScalarValue::I64(n)
-                } else if let Ok(n) = text.parse::<u64>() {
-                    ScalarValue::U64(n)
-                } else if let Ok(n) = text.parse::<f64>() {
-                    ScalarValue::F64(n)
-                } else {
-                    ScalarValue::Str(text)
-                }
-            }
-            ScalarKind::Quoted => {
-                let inner = self.unescape_quoted(text);
-                ScalarValue::String(inner)
-            }
-            ScalarKind::Raw | ScalarKind::Heredoc => ScalarValue::Str(text),
+    /// Classify the text of a bare scalar.
+    fn parse_bare(text: &'de str) -> ScalarValue<'de> {
+        if text == "true" {
+            ScalarValue::Bool(true)
+        } else if text == "false" {
+            ScalarValue::Bool(false)
+        } else if text == "null" {
+            ScalarValue::Null
+        } else if let Ok(n) = text.parse::<i64>() {
+            ScalarValue::I64(n)
+        } else if let Ok(n) = text.parse::<u64>() {
+            ScalarValue::U64(n)
+        } else if let Ok(n) = text.parse::<f64>() {
+            ScalarValue::F64(n)
+        } else {
+            ScalarValue::Str(text)
         }
     }
 
-    /// Unescape a quoted string.
-    fn unescape_quoted(&self, text: &'de str) -> String {
-        // Remove surrounding quotes
-        let inner = if text.starts_with('"') && text.ends_with('"') && text.len() >= 2 {
-            &text[1..text.len() - 1]
-        } else {
-            text
-        };
+    /// Read a scalar in any notation; its text is what the lexer makes of it.
+    fn next_scalar(&mut self) -> Result<Cow<'de, str>> {
+        let token = self.next_token();
+        let mut end = token.span.end;
+        match token.kind {
+            TokenKind::BareScalar => return Ok(Cow::Borrowed(token.text)),
+            TokenKind::QuotedScalar | TokenKind::RawScalar => {}
+            TokenKind::HeredocStart => loop {
+                let next = self.lexer.next_token();
+                match next.kind {
+                    TokenKind::HeredocContent => {}
+                    TokenKind::HeredocEnd => {
+                        end = next.span.end;
+                        break;
+                    }
+                    _ => return Err(self.error("unterminated heredoc")),
+                }
+            },
+            kind => return Err(self.error(format!("expected scalar, got {kind:?}"))),
+        }
+        let text = &self.source[token.span.start as usize..end as usize];
+        match Lexer::new(text).next_lexeme() {
+            Lexeme::Scalar { value, .. } => Ok(value),
+            _ => Err(self.error(format!("invalid scalar {text:?}"))),
+        }
+    }
 
-        styx_format::unescape_quoted(inner).into_owned()
+    /// Read a scalar and parse it.
+    fn parse_next<T: std::str::FromStr>(&mut self, expected: &str) -> Result<T> {
+        let text = self.next_scalar()?;
+        text.parse()
+            .map_err(|_| self.error(format!("expected {expected}, got {text:?}")))
     }
 
     fn error(&self, msg: impl Into<String>) -> Error {
@@ -128,7 +145,6 @@ enum ScalarValue<'de> {
     U64(u64),
     F64(f64),
     Str(&'de str),
-    String(String),
 }
 
 impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
@@ -155,41 +171,17 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
                 }
                 TokenKind::BareScalar => {
                     let token = self.next_token();
-                    match self.parse_scalar(token.text, ScalarKind::Bare) {
+                    match Deserializer::parse_bare(token.text) {
                         ScalarValue::Null => visitor.visit_unit(),
                         ScalarValue::Bool(v) => visitor.visit_bool(v),
                         ScalarValue::I64(v) => visitor.visit_i64(v),
                         ScalarValue::U64(v) => visitor.visit_u64(v),
                         ScalarValue::F64(v) => visitor.visit_f64(v),
                         ScalarValue::Str(s) => visitor.visit_borrowed_str(s),
-                        ScalarValue::String(s) => visitor.visit_string(s),
                     }
                 }
-                TokenKind::QuotedScalar => {
-                    let token = self.next_token();
-                    let s = self.unescape_quoted(token.text);
-                    visitor.visit_string(s)
-                }
-                TokenKind::RawScalar => {
-                    let token = self.next_token();
-                    // Extract content from r#"..."#
-                    let text = token.text;
-                    let start = text.find('"').map(|i| i + 1).unwrap_or(0);
-                    let end = text.rfind('"').unwrap_or(text.len());
-                    visitor.visit_borrowed_str(&text[start..end])
-                }
-                TokenKind::HeredocStart => {
-                    self.next_token();
-                    let mut content = String::new();
-                    loop {
-                        let next = self.next_token();
-                        match next.kind {
-                            TokenKind::HeredocContent => content.push_str(next.text),
-                            TokenKind::HeredocEnd => break,
-                            _ => break,
-                        }
-                    }
-                    visitor.visit_string(content)
+                TokenKind::QuotedScalar | TokenKind::RawScalar | TokenKind::HeredocStart => {
+                    self.deserialize_str(visitor)
                 }
                 TokenKind::Eof => {
                     // At EOF, try to deserialize as empty struct if at root
@@ -215,12 +207,8 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
     }
 
     fn deserialize_bool<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        let token = self.next_token();
-        match token.text {
-            "true" => visitor.visit_bool(true),
-            "false" => visitor.visit_bool(false),
-            _ => Err(self.error(format!("expected bool, got {:?}", token.text))),
-        }
+        let b = self.parse_next("bool")?;
+        visitor.visit_bool(b)
     }
 
     fn deserialize_i8<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
@@ -236,11 +224,7 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
     }
 
     fn deserialize_i64<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        let token = self.next_token();
-        let n: i64 = token
-            .text
-            .parse()
-            .map_err(|_| self.error(format!("expected integer, got {:?}", token.text)))?;
+        let n = self.parse_next("integer")?;
         visitor.visit_i64(n)
     }
 
@@ -257,11 +241,7 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
     }
 
     fn deserialize_u64<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        let token = self.next_token();
-        let n: u64 = token
-            .text
-            .parse()
-            .map_err(|_| self.error(format!("expected unsigned integer, got {:?}", token.text)))?;
+        let n = self.parse_next("unsigned integer")?;
         visitor.visit_u64(n)
     }
 
@@ -270,42 +250,19 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
     }
 
     fn deserialize_f64<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        let token = self.next_token();
-        let n: f64 = token
-            .text
-            .parse()
-            .map_err(|_| self.error(format!("expected float, got {:?}", token.text)))?;
+        let n = self.parse_next("float")?;
         visitor.visit_f64(n)
     }
 
     fn deserialize_char<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        let token = self.next_token();
-        let s = if token.kind == TokenKind::QuotedScalar {
-            self.unescape_quoted(token.text)
-        } else {
-            token.text.to_string()
-        };
-        let c = s
-            .chars()
-            .next()
-            .ok_or_else(|| self.error("expected char"))?;
+        let c = self.parse_next("char")?;
         visitor.visit_char(c)
     }
 
     fn deserialize_str<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        let token = self.next_token();
-        match token.kind {
-            TokenKind::QuotedScalar => {
-                let s = self.unescape_quoted(token.text);
-                visitor.visit_string(s)
-            }
-            TokenKind::RawScalar => {
-                let text = token.text;
-                let start = text.find('"').map(|i| i + 1).unwrap_or(0);
-                let end = text.rfind('"').unwrap_or(text.len());
-                visitor.visit_borrowed_str(&text[start..end])
-            }
-            _ => visitor.visit_borrowed_str(token.text),
+        match self.next_scalar()? {
+            Cow::Borrowed(s) => visitor.visit_borrowed_str(s),
+            Cow::Owned(s) => visitor.visit_string(s),
         }
     }
 
@@ -315,13 +272,7 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
 
     fn deserialize_bytes<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
         // Decode hex string
-        let token = self.next_token();
-        let text = if token.kind == TokenKind::QuotedScalar {
-            &token.text[1..token.text.len() - 1]
-        } else {
-            token.text
-        };
-
+        let text = self.next_scalar()?;
         let mut bytes = Vec::with_capacity(text.len() / 2);
         let mut chars = text.chars();
         while let (Some(a), Some(b)) = (chars.next(), chars.next()) {
@@ -460,15 +411,7 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
     }
 
     fn deserialize_identifier<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        let token = self.next_token();
-        match token.kind {
-            TokenKind::BareScalar => visitor.visit_borrowed_str(token.text),
-            TokenKind::QuotedScalar => {
-                let s = self.unescape_quoted(token.text);
-                visitor.visit_string(s)
-            }
-            _ => Err(self.error("expected identifier")),
-        }
+        self.deserialize_str(visitor)
     }
 
     fn deserialize_ignored_any<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
@@ -542,6 +485,9 @@ impl<'de> Deserializer<'de> {
                     self.skip_value()?;
                 }
             }
+            TokenKind::HeredocStart => {
+                while matches!(self.next_token().kind, TokenKind::HeredocContent) {}
+            }
             _ => {
                 // Scalar - already consumed
             }
-- 
2.43.0


From f2fc1cf6878084bbdd5f1fe51c7bfa4c330c67c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:18 +0000
Subject: [PATCH 26/84] fix: serde_styx reads 128-bit integers

---
 crates/serde_styx/src/de.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/serde_styx/src/de.rs b/crates/serde_styx/src/de.rs
index df74053..6c5a103 100644
--- a/crates/serde_styx/src/de.rs
+++ b/crates/serde_styx/src/de.rs
@@ -228,6 +228,11 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
         visitor.visit_i64(n)
     }
 
+    fn deserialize_i128<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
+        let n = self.parse_next("integer")?;
+        visitor.visit_i128(n)
+    }
+
     fn deserialize_u8<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
         self.deserialize_u64(visitor)
     }
@@ -245,6 +250,11 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
         visitor.visit_u64(n)
     }
 
+    fn deserialize_u128<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
+        let n = self.parse_next("unsigned integer")?;
+        visitor.visit_u128(n)
+    }
+
     fn deserialize_f32<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
         self.deserialize_f64(visitor)
     }
-- 
2.43.0


From 23a1be79ce79cbdcf1bffeb2e83fc52f8cedf4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:46 +0000
Subject: [PATCH 27/84] fix: read sibling dotted paths into one field
 (facet-styx)

---
 crates/facet-styx/src/parser.rs | 119 ++++++++++++++++++++++++++++++--
 1 file changed, 112 insertions(+), 7 deletions(-)

diff --git a/crates/facet-styx/src/parser.rs b/crates/facet-styx/src/parser.rs
index d5afffb..f75920c 100644
--- a/crates/facet-styx/src/parser.rs
+++ b/crates/facet-styx/src/parser.rs
@@ -6,6 +6,7 @@
 //! is applied before deserialization.
 
 use std::borrow::Cow;
+use std::collections::VecDeque;
 
 use crate::trace;
 use facet_core::Facet;
@@ -19,28 +20,49 @@ use styx_parse::{Event, EventKind, ParseErrorKind, Parser, ScalarKind as StyxSca
 mod inner {
     use super::*;
 
-    /// Wrapper around styx-parse::Parser that converts errors to Results.
+    /// Wrapper around styx-parse::Parser that converts errors to Results and joins
+    /// sibling dotted paths.
     ///
     /// This ensures error handling happens in ONE place instead of being scattered
     /// across multiple match arms.
+    ///
+    /// The parser emits each dotted path as a chain of objects of its own, so `a.b 1`
+    /// followed by `a.c 2` opens `a` twice. Siblings are contiguous, so the end of an object
+    /// is held back until the next key shows whether a path goes on inside that object.
     #[derive(Clone)]
     pub struct InnerParser<'de> {
         inner: Parser<'de>,
         input: &'de str,
+        /// Events to be returned before reading on.
+        queue: VecDeque<Event<'de>>,
+        /// Number of containers open in the source.
+        depth: usize,
+        /// The key just read, as long as it has no value.
+        key: Option<Cow<'de, str>>,
+        /// Keys of the objects open at the end of the current path, from the root object on.
+        path: Vec<Cow<'de, str>>,
+        /// Ends held back of the innermost objects of `path`, innermost first.
+        held: Vec<Event<'de>>,
     }
 
     impl<'de> InnerParser<'de> {
         pub fn new(input: &'de str) -> Self {
-            Self {
-                inner: Parser::new(input),
-                input,
-            }
+            Self::with_parser(Parser::new(input), input)
         }
 
         pub fn new_expr(input: &'de str) -> Self {
+            Self::with_parser(Parser::new_expr(input), input)
+        }
+
+        fn with_parser(inner: Parser<'de>, input: &'de str) -> Self {
             Self {
-                inner: Parser::new_expr(input),
+                inner,
                 input,
+                queue: VecDeque::new(),
+                depth: 0,
+                key: None,
+                path: Vec::new(),
+                held: Vec::new(),
             }
         }
 
@@ -62,7 +84,7 @@ mod inner {
             )
         }
 
-        pub fn next_event(&mut self) -> Result<Option<Event<'de>>, ParseError> {
+        fn read_event(&mut self) -> Result<Option<Event<'de>>, ParseError> {
             let next_ev = self.inner.next_event();
             trace!(?next_ev, "inner_wrapper");
 
@@ -75,6 +97,89 @@ mod inner {
                 None => Ok(None),
             }
         }
+
+        pub fn next_event(&mut self) -> Result<Option<Event<'de>>, ParseError> {
+            loop {
+                if let Some(event) = self.queue.pop_front() {
+                    return Ok(Some(event));
+                }
+                let Some(event) = self.read_event()? else {
+                    return Ok(None);
+                };
+                match &event.kind {
+                    EventKind::DocComment { .. }
+                    | EventKind::Comment { .. }
+                    | EventKind::EntryStart
+                    | EventKind::EntryEnd => return Ok(Some(event)),
+
+                    EventKind::Key {
+                        tag: None,
+                        payload: Some(key),
+                        ..
+                    } => {
+                        let next = self.path.len() - self.held.len();
+                        if !self.held.is_empty() && self.path[next] == *key {
+                            // The same key can only come again in a sibling path
+                            let start = self.read_event()?;
+                            if matches!(
+                                start.as_ref().map(|e| &e.kind),
+                                Some(EventKind::ObjectStart)
+                            ) {
+                                self.depth += 1;
+                                self.held.pop();
+                                continue;
+                            }
+                            self.close_held();
+                            self.queue.push_back(event);
+                            self.queue.extend(start);
+                            continue;
+                        }
+                        self.key = Some(key.clone());
+                        self.close_held();
+                        self.queue.push_back(event);
+                    }
+
+                    EventKind::ObjectStart => {
+                        if let Some(key) = self.key.take()
+                            && self.depth == self.path.len() + 1
+                        {
+                            self.path.push(key);
+                        }
+                        self.depth += 1;
+                        return Ok(Some(event));
+                    }
+
+                    EventKind::ObjectEnd => {
+                        let open = self.path.len() - self.held.len();
+                        let on_path = open > 0 && self.depth == open + 1;
+                        self.depth -= 1;
+                        if on_path {
+                            self.held.push(event);
+                            continue;
+                        }
+                        self.close_held();
+                        self.queue.push_back(event);
+                    }
+
+                    kind => {
+                        match kind {
+                            EventKind::SequenceStart => self.depth += 1,
+                            EventKind::SequenceEnd => self.depth -= 1,
+                            _ => {}
+                        }
+                        self.key = None;
+                        self.close_held();
+                        self.queue.push_back(event);
+                    }
+                }
+            }
+        }
+
+        /// Queue the ends that were held back, as no path goes on in their objects.
+        fn close_held(&mut self) {
+            self.path.truncate(self.path.len() - self.held.len());
+            self.queue.extend(self.held.drain(..));
+        }
     }
 }
 
-- 
2.43.0


From 9302240c59e41174480af611f09e794837aca3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:46 +0000
Subject: [PATCH 28/84] fix: serde accepts raw string keys and refuses a scalar
 where an object belongs

---
 crates/serde_styx/src/de.rs | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/crates/serde_styx/src/de.rs b/crates/serde_styx/src/de.rs
index 6c5a103..eba5012 100644
--- a/crates/serde_styx/src/de.rs
+++ b/crates/serde_styx/src/de.rs
@@ -368,7 +368,11 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
             && token.kind == TokenKind::LBrace
         {
             self.next_token();
+        } else if self.root_started {
+            // Only the root object can do without braces
+            return Err(self.error("expected object {"));
         }
+        self.root_started = true;
         visitor.visit_map(MapAccess { de: self })
     }
 
@@ -378,19 +382,7 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
         _fields: &'static [&'static str],
         visitor: V,
     ) -> Result<V::Value> {
-        // Check if we're at root level (no braces) or explicit struct
-        if let Some(token) = self.peek_token()
-            && token.kind == TokenKind::LBrace
-        {
-            self.next_token();
-            return visitor.visit_map(MapAccess { de: self });
-        }
-
-        // Implicit root struct
-        if !self.root_started {
-            self.root_started = true;
-        }
-        visitor.visit_map(MapAccess { de: self })
+        self.deserialize_map(visitor)
     }
 
     fn deserialize_enum<V: Visitor<'de>>(
@@ -581,7 +573,7 @@ impl<'a, 'de> de::MapAccess<'de> for MapAccess<'a, 'de> {
             Some(TokenKind::Eof) | None => {
                 return Ok(None);
             }
-            Some(TokenKind::BareScalar) | Some(TokenKind::QuotedScalar) => {
+            Some(TokenKind::BareScalar | TokenKind::QuotedScalar | TokenKind::RawScalar) => {
                 // This is a key
             }
             Some(TokenKind::DocComment) => {
-- 
2.43.0


From bb8fcb6b62973c99dc08bcf0958a030a4d63174b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:14 +0000
Subject: [PATCH 29/84] fix: schema validation ends on types defined in terms
 of themselves

---
 crates/facet-styx/src/schema_validate.rs | 26 +++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/crates/facet-styx/src/schema_validate.rs b/crates/facet-styx/src/schema_validate.rs
index fca8df7..ca540a0 100644
--- a/crates/facet-styx/src/schema_validate.rs
+++ b/crates/facet-styx/src/schema_validate.rs
@@ -2,6 +2,7 @@
 //!
 //! Validates `styx_tree::Value` instances against `Schema` definitions.
 
+use std::cell::RefCell;
 use std::collections::HashSet;
 
 use styx_tree::{Payload, Value};
@@ -68,12 +69,17 @@ use crate::schema_types::{
 pub struct Validator<'a> {
     /// The schema file containing type definitions.
     schema_file: &'a SchemaFile,
+    /// Type references being resolved, with the value each is applied to.
+    resolving: RefCell<Vec<(String, *const Value)>>,
 }
 
 impl<'a> Validator<'a> {
     /// Create a new validator with the given schema.
     pub fn new(schema_file: &'a SchemaFile) -> Self {
-        Self { schema_file }
+        Self {
+            schema_file,
+            resolving: RefCell::new(Vec::new()),
+        }
     }
 
     /// Validate a document against the schema's root type.
@@ -1064,7 +1070,25 @@ impl<'a> Validator<'a> {
             Some(name) => {
                 // Named type reference - look up in schema
                 if let Some(type_schema) = self.schema_file.schema.get(&Some(name.to_string())) {
+                    // Meeting a type again for the same value means it is defined in terms of
+                    // nothing but itself (`A @A`): there is no answer down that road.
+                    let step = (name.to_string(), value as *const Value);
+                    if self.resolving.borrow().contains(&step) {
+                        result.error(
+                            ValidationError::new(
+                                path,
+                                ValidationErrorKind::SchemaError {
+                                    reason: format!("type '{name}' is defined in terms of itself"),
+                                },
+                                format!("type '{name}' is defined in terms of itself"),
+                            )
+                            .with_span(value.span),
+                        );
+                        return result;
+                    }
+                    self.resolving.borrow_mut().push(step);
                     result.merge(self.validate_value(value, type_schema, path));
+                    self.resolving.borrow_mut().pop();
                 } else {
                     result.error(
                         ValidationError::new(
-- 
2.43.0


From d105178211b9b38f2db72164a87895f31ce2c3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:14 +0000
Subject: [PATCH 30/84] fix: @float accepts only JSON numbers

---
 crates/facet-styx/src/schema_validate.rs | 32 +++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/crates/facet-styx/src/schema_validate.rs b/crates/facet-styx/src/schema_validate.rs
index ca540a0..eed5994 100644
--- a/crates/facet-styx/src/schema_validate.rs
+++ b/crates/facet-styx/src/schema_validate.rs
@@ -326,8 +326,8 @@ impl<'a> Validator<'a> {
         };
 
         let parsed = match text.parse::<f64>() {
-            Ok(n) => n,
-            Err(_) => {
+            Ok(n) if is_json_number(text) && n.is_finite() => n,
+            _ => {
                 result.error(
                     ValidationError::new(
                         path,
@@ -877,7 +877,7 @@ impl<'a> Validator<'a> {
                 // @int accepts scalars that parse as integers
                 Schema::Int(_) if text.parse::<i64>().is_ok() => return Some(variant_schema),
                 // @float accepts scalars that parse as floats
-                Schema::Float(_) if text.parse::<f64>().is_ok() => return Some(variant_schema),
+                Schema::Float(_) if is_json_number(text) => return Some(variant_schema),
                 // @bool accepts "true" or "false"
                 Schema::Bool if text == "true" || text == "false" => return Some(variant_schema),
                 _ => continue,
@@ -1106,6 +1106,32 @@ impl<'a> Validator<'a> {
     }
 }
 
+/// Whether a text is written as a JSON number, the syntax of `@float` values.
+fn is_json_number(text: &str) -> bool {
+    fn digits(s: &str) -> (usize, &str) {
+        let rest = s.trim_start_matches(|c: char| c.is_ascii_digit());
+        (s.len() - rest.len(), rest)
+    }
+
+    let unsigned = text.strip_prefix('-').unwrap_or(text);
+    let (count, mut rest) = digits(unsigned);
+    if count == 0 || (count > 1 && unsigned.starts_with('0')) {
+        return false;
+    }
+    if let Some(fraction) = rest.strip_prefix('.') {
+        let (count, after) = digits(fraction);
+        if count == 0 {
+            return false;
+        }
+        rest = after;
+    }
+    if let Some(exponent) = rest.strip_prefix(['e', 'E']) {
+        let (count, after) = digits(exponent.strip_prefix(['+', '-']).unwrap_or(exponent));
+        return count > 0 && after.is_empty();
+    }
+    rest.is_empty()
+}
+
 /// Get a human-readable name for a value type.
 fn value_type_name(value: &Value) -> &'static str {
     if value.is_unit() {
-- 
2.43.0


From 4d8aa5f4641ef7db5c6e12b83f70e28852a2f5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:14 +0000
Subject: [PATCH 31/84] fix: a deprecated or named optional field may be absent

---
 crates/facet-styx/src/schema_validate.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/crates/facet-styx/src/schema_validate.rs b/crates/facet-styx/src/schema_validate.rs
index eed5994..1587edd 100644
--- a/crates/facet-styx/src/schema_validate.rs
+++ b/crates/facet-styx/src/schema_validate.rs
@@ -531,8 +531,7 @@ impl<'a> Validator<'a> {
             };
 
             if !seen_fields.contains(&Some(name)) {
-                // Optional and Default fields are not required
-                if !matches!(field_schema, Schema::Optional(_) | Schema::Default(_)) {
+                if !self.allows_absence(field_schema) {
                     let field_path = if path.is_empty() {
                         name.to_string()
                     } else {
@@ -555,6 +554,26 @@ impl<'a> Validator<'a> {
         result
     }
 
+    /// Whether a field may be left out: its type is optional or has a default, be it a deprecated
+    /// one or a named one.
+    fn allows_absence(&self, schema: &Schema) -> bool {
+        let mut schema = schema;
+        let mut names = HashSet::new();
+        loop {
+            schema = match schema {
+                Schema::Optional(_) | Schema::Default(_) => return true,
+                Schema::Deprecated(deprecated) => &deprecated.0.1.value,
+                Schema::Type { name: Some(name) } if names.insert(name) => {
+                    match self.schema_file.schema.get(&Some(name.clone())) {
+                        Some(named) => named,
+                        None => return false,
+                    }
+                }
+                _ => return false,
+            };
+        }
+    }
+
     fn validate_seq(&self, value: &Value, schema: &SeqSchema, path: &str) -> ValidationResult {
         let mut result = ValidationResult::ok();
 
-- 
2.43.0


From fdd1fb189413affbe1644192329f7f4ce29ad312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:14 +0000
Subject: [PATCH 32/84] fix: enum variants that accept unit need no payload,
 and errors in payloads have a place

---
 crates/facet-styx/src/schema_validate.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/facet-styx/src/schema_validate.rs b/crates/facet-styx/src/schema_validate.rs
index 1587edd..eeab0d6 100644
--- a/crates/facet-styx/src/schema_validate.rs
+++ b/crates/facet-styx/src/schema_validate.rs
@@ -819,7 +819,7 @@ impl<'a> Validator<'a> {
         let payload_value = value.payload.as_ref().map(|p| Value {
             tag: None,
             payload: Some(p.clone()),
-            span: None,
+            span: value.span,
         });
 
         let expected_variants: Vec<String> = schema.0.keys().map(|k| k.value.clone()).collect();
@@ -844,6 +844,11 @@ impl<'a> Validator<'a> {
                         };
                         result.merge(self.validate_value(p, variant_schema, &variant_path));
                     }
+                    // A tag alone carries unit: fine wherever the variant's schema accepts it.
+                    (None, _)
+                        if self
+                            .validate_value(&Value::unit(), variant_schema, path)
+                            .is_valid() => {}
                     (None, _) => {
                         result.error(
                             ValidationError::new(
-- 
2.43.0


From 2fcabf77c3c66ca6a7b917908d16039aa7c6a821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:14 +0000
Subject: [PATCH 33/84] fix: an untagged value is accepted by any fallback
 variant of an enum, not a random one

---
 crates/facet-styx/src/schema_validate.rs | 45 ++++++++++++++----------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/crates/facet-styx/src/schema_validate.rs b/crates/facet-styx/src/schema_validate.rs
index eeab0d6..804f046 100644
--- a/crates/facet-styx/src/schema_validate.rs
+++ b/crates/facet-styx/src/schema_validate.rs
@@ -795,10 +795,16 @@ impl<'a> Validator<'a> {
         let tag = match &value.tag {
             Some(t) => t.name.as_str(),
             None => {
-                // No tag - try to find a fallback variant that accepts this value type
-                if let Some(fallback_schema) = self.find_enum_fallback(value, schema) {
-                    // Validate against the fallback variant's schema
-                    return self.validate_value(value, fallback_schema, path);
+                // No tag - the value may stand for a variant that accepts this value type.
+                // Variants have no order, so any of them will do.
+                let mut fallbacks = self
+                    .enum_fallbacks(value, schema)
+                    .map(|fallback| self.validate_value(value, fallback, path));
+                if let Some(first) = fallbacks.next() {
+                    if first.is_valid() || fallbacks.any(|result| result.is_valid()) {
+                        return ValidationResult::ok();
+                    }
+                    return first;
                 }
                 result.error(
                     ValidationError::new(
@@ -885,30 +891,33 @@ impl<'a> Validator<'a> {
         result
     }
 
-    /// Find a fallback variant in an enum that can accept an untagged value.
+    /// Find the fallback variants in an enum that can accept an untagged value.
     ///
     /// For example, if the enum has `eq @string` variant and the value is a bare string,
-    /// this returns the `@string` schema so the value can be validated against it.
-    fn find_enum_fallback<'s>(&self, value: &Value, schema: &'s EnumSchema) -> Option<&'s Schema> {
+    /// this yields the `@string` schema so the value can be validated against it.
+    fn enum_fallbacks<'s>(
+        &self,
+        value: &'s Value,
+        schema: &'s EnumSchema,
+    ) -> impl Iterator<Item = &'s Schema> {
         // Only scalars can fall back
-        let text = value.scalar_text()?;
+        let text = value.scalar_text();
 
-        // Look for a variant whose schema matches this value
-        for variant_schema in schema.0.values() {
+        // Look for variants whose schema matches this value
+        schema.0.values().filter(move |variant_schema| {
+            let Some(text) = text else { return false };
             match variant_schema {
                 // @string accepts any scalar
-                Schema::String(_) => return Some(variant_schema),
+                Schema::String(_) => true,
                 // @int accepts scalars that parse as integers
-                Schema::Int(_) if text.parse::<i64>().is_ok() => return Some(variant_schema),
+                Schema::Int(_) => text.parse::<i128>().is_ok(),
                 // @float accepts scalars that parse as floats
-                Schema::Float(_) if is_json_number(text) => return Some(variant_schema),
+                Schema::Float(_) => is_json_number(text),
                 // @bool accepts "true" or "false"
-                Schema::Bool if text == "true" || text == "false" => return Some(variant_schema),
-                _ => continue,
+                Schema::Bool => text == "true" || text == "false",
+                _ => false,
             }
-        }
-
-        None
+        })
     }
 
     fn validate_one_of(&self, value: &Value, schema: &OneOfSchema, path: &str) -> ValidationResult {
-- 
2.43.0


From 8486b160508809bc1d178655c729fff78dced80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:56 +0000
Subject: [PATCH 34/84] fix: path lookups see every sibling dotted path

---
 crates/styx-tree/src/value.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/crates/styx-tree/src/value.rs b/crates/styx-tree/src/value.rs
index edcb540..bf5ff7e 100644
--- a/crates/styx-tree/src/value.rs
+++ b/crates/styx-tree/src/value.rs
@@ -267,11 +267,14 @@ impl Value {
 
         match &self.payload {
             Some(Payload::Object(obj)) => {
-                let value = obj.get(segment)?;
                 if rest.is_empty() {
-                    Some(value)
+                    obj.get(segment)
                 } else {
-                    value.get(rest)
+                    // Sibling dotted paths (`a.b 1`, `a.c 2`) are entries of their own.
+                    obj.entries
+                        .iter()
+                        .filter(|e| e.key.as_str() == Some(segment))
+                        .find_map(|e| e.value.get(rest))
                 }
             }
             Some(Payload::Sequence(seq)) => {
@@ -302,11 +305,13 @@ impl Value {
 
         match &mut self.payload {
             Some(Payload::Object(obj)) => {
-                let value = obj.get_mut(segment)?;
                 if rest.is_empty() {
-                    Some(value)
+                    obj.get_mut(segment)
                 } else {
-                    value.get_mut(rest)
+                    obj.entries
+                        .iter_mut()
+                        .filter(|e| e.key.as_str() == Some(segment))
+                        .find_map(|e| e.value.get_mut(rest))
                 }
             }
             Some(Payload::Sequence(seq)) => {
-- 
2.43.0


From 1353111e8946308e1194eaa28b7aa5afe5fd310f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:56 +0000
Subject: [PATCH 35/84] fix: schema validation takes sibling dotted paths as
 one object

---
 crates/facet-styx/src/schema_validate.rs |  6 ++--
 crates/styx-tree/src/value.rs            | 40 ++++++++++++++++++++++++
 2 files changed, 44 insertions(+), 2 deletions(-)

diff --git a/crates/facet-styx/src/schema_validate.rs b/crates/facet-styx/src/schema_validate.rs
index 804f046..34d4376 100644
--- a/crates/facet-styx/src/schema_validate.rs
+++ b/crates/facet-styx/src/schema_validate.rs
@@ -441,7 +441,8 @@ impl<'a> Validator<'a> {
     ) -> ValidationResult {
         let mut result = ValidationResult::ok();
 
-        let obj = match value.as_object() {
+        // Sibling dotted paths describe one object.
+        let obj = match value.as_object().map(|o| o.join_paths()) {
             Some(o) => o,
             None => {
                 result.error(
@@ -655,7 +656,8 @@ impl<'a> Validator<'a> {
     fn validate_map(&self, value: &Value, schema: &MapSchema, path: &str) -> ValidationResult {
         let mut result = ValidationResult::ok();
 
-        let obj = match value.as_object() {
+        // Sibling dotted paths describe one object.
+        let obj = match value.as_object().map(|o| o.join_paths()) {
             Some(o) => o,
             None => {
                 result.error(
diff --git a/crates/styx-tree/src/value.rs b/crates/styx-tree/src/value.rs
index bf5ff7e..2830083 100644
--- a/crates/styx-tree/src/value.rs
+++ b/crates/styx-tree/src/value.rs
@@ -11,6 +11,8 @@
 //! - `@seq(a b)` is `Value { tag: Some("seq"), payload: Some(Payload::Sequence(...)) }`
 //! - `@object{...}` is `Value { tag: Some("object"), payload: Some(Payload::Object(...)) }`
 
+use std::borrow::Cow;
+
 use styx_parse::{ScalarKind, Span};
 
 /// A Styx value: optional tag + optional payload.
@@ -333,6 +335,44 @@ impl Value {
 }
 
 impl Object {
+    /// The object with entries of equal keys put together.
+    ///
+    /// Sibling dotted paths (`a.b 1`, `a.c 2`) are separate entries that each hold an object; here
+    /// they are one entry, at the place of the first. Objects inside are left as they are.
+    pub fn join_paths(&self) -> Cow<'_, Object> {
+        let joins = |a: &Entry, b: &Entry| match (&a.key.payload, &b.key.payload) {
+            (Some(Payload::Scalar(x)), Some(Payload::Scalar(y))) => {
+                x.text == y.text
+                    && a.key.tag_name() == b.key.tag_name()
+                    && a.value.tag.is_none()
+                    && b.value.tag.is_none()
+                    && a.value.as_object().is_some()
+                    && b.value.as_object().is_some()
+            }
+            _ => false,
+        };
+        // Siblings stand next to each other.
+        if !self.entries.windows(2).any(|w| joins(&w[0], &w[1])) {
+            return Cow::Borrowed(self);
+        }
+        let mut entries: Vec<Entry> = Vec::with_capacity(self.entries.len());
+        for entry in &self.entries {
+            if let Some(last) = entries.last_mut()
+                && joins(last, entry)
+                && let Some(into) = last.value.as_object_mut()
+                && let Some(more) = entry.value.as_object()
+            {
+                into.entries.extend(more.entries.iter().cloned());
+            } else {
+                entries.push(entry.clone());
+            }
+        }
+        Cow::Owned(Object {
+            entries,
+            span: self.span,
+        })
+    }
+
     /// Get entry value by key (for untagged scalar keys).
     pub fn get(&self, key: &str) -> Option<&Value> {
         self.entries
-- 
2.43.0


From bbdd51c98a11438de92529fc091788bc4ddadaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:56 +0000
Subject: [PATCH 36/84] fix: schema validation expects the fields of flattened
 types in place

---
 crates/facet-styx/src/schema_validate.rs | 56 +++++++++++++++++++-----
 1 file changed, 44 insertions(+), 12 deletions(-)

diff --git a/crates/facet-styx/src/schema_validate.rs b/crates/facet-styx/src/schema_validate.rs
index 34d4376..1cf7d7b 100644
--- a/crates/facet-styx/src/schema_validate.rs
+++ b/crates/facet-styx/src/schema_validate.rs
@@ -458,11 +458,12 @@ impl<'a> Validator<'a> {
         };
 
         let mut seen_fields: HashSet<Option<&str>> = HashSet::new();
+        let mut schema_fields: Vec<(&ObjectKey, &Schema)> = Vec::new();
+        self.collect_fields(schema, &mut schema_fields, &mut HashSet::new());
         // Look up catch-all schema - find any key that is a typed pattern or unit
-        let additional_schema = schema
-            .0
+        let additional_schema = schema_fields
             .iter()
-            .find_map(|(k, v)| if k.value.tag.is_some() { Some(v) } else { None });
+            .find_map(|(k, v)| if k.tag.is_some() { Some(*v) } else { None });
 
         for entry in &obj.entries {
             let key_opt: Option<&str> = if entry.key.is_unit() {
@@ -492,18 +493,20 @@ impl<'a> Validator<'a> {
 
             seen_fields.insert(key_opt);
 
-            // Look up by Documented<ObjectKey> - for named fields
-            let lookup_key = Documented::new(ObjectKey::named(key_opt.unwrap_or("")));
-            if let Some(field_schema) = schema.0.get(&lookup_key) {
+            // Look up named fields
+            let field_schema = schema_fields
+                .iter()
+                .find(|(k, _)| key_opt.is_some() && k.name() == key_opt)
+                .map(|(_, v)| *v);
+            if let Some(field_schema) = field_schema {
                 result.merge(self.validate_value(&entry.value, field_schema, &field_path));
             } else if let Some(add_schema) = additional_schema {
                 result.merge(self.validate_value(&entry.value, add_schema, &field_path));
             } else {
                 // Collect valid field names for error message
-                let valid_fields: Vec<String> = schema
-                    .0
-                    .keys()
-                    .filter_map(|k| k.value.name().map(|s| s.to_string()))
+                let valid_fields: Vec<String> = schema_fields
+                    .iter()
+                    .filter_map(|(k, _)| k.name().map(|s| s.to_string()))
                     .collect();
 
                 // Try to find a similar field name (typo detection)
@@ -525,9 +528,9 @@ impl<'a> Validator<'a> {
         }
 
         // Check for missing required fields
-        for (field_name_doc, field_schema) in &schema.0 {
+        for (field_key, field_schema) in schema_fields {
             // Skip catch-all fields (typed patterns like @string)
-            let Some(name) = field_name_doc.value.name() else {
+            let Some(name) = field_key.name() else {
                 continue;
             };
 
@@ -555,6 +558,35 @@ impl<'a> Validator<'a> {
         result
     }
 
+    /// Collect the fields of an object, with those of flattened types in place of the fields that
+    /// flatten them.
+    fn collect_fields<'s>(
+        &'s self,
+        schema: &'s ObjectSchema,
+        fields: &mut Vec<(&'s ObjectKey, &'s Schema)>,
+        flattened: &mut HashSet<&'s str>,
+    ) {
+        for (key, field_schema) in &schema.0 {
+            let mut inner = match field_schema {
+                Schema::Flatten(flatten) => &*flatten.0.0.value,
+                _ => {
+                    fields.push((&key.value, field_schema));
+                    continue;
+                }
+            };
+            // Follow names; a type that flattens itself adds nothing.
+            while let Schema::Type { name: Some(name) } = inner {
+                match self.schema_file.schema.get(&Some(name.clone())) {
+                    Some(named) if flattened.insert(name) => inner = named,
+                    _ => break,
+                }
+            }
+            if let Schema::Object(object) = inner {
+                self.collect_fields(object, fields, flattened);
+            }
+        }
+    }
+
     /// Whether a field may be left out: its type is optional or has a default, be it a deprecated
     /// one or a named one.
     fn allows_absence(&self, schema: &Schema) -> bool {
-- 
2.43.0


From a3f441d6a8e750b31286aa36749933db54f8c818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:36 +0000
Subject: [PATCH 37/84] fix: values of @one-of may be written in any notation

---
 crates/facet-styx/src/schema_validate.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/facet-styx/src/schema_validate.rs b/crates/facet-styx/src/schema_validate.rs
index 1cf7d7b..6e8fd12 100644
--- a/crates/facet-styx/src/schema_validate.rs
+++ b/crates/facet-styx/src/schema_validate.rs
@@ -992,10 +992,14 @@ impl<'a> Validator<'a> {
         };
 
         // Check if the value is in the allowed list
-        let allowed_strings: Vec<&str> = allowed_values.iter().map(|v| v.as_str()).collect();
+        // (they are kept as written in the schema: quotes and all)
+        let allowed_owned: Vec<String> = allowed_values
+            .iter()
+            .map(|v| crate::from_str_expr(v.as_str()).unwrap_or_else(|_| v.0.clone()))
+            .collect();
+        let allowed_strings: Vec<&str> = allowed_owned.iter().map(|v| v.as_str()).collect();
         if !allowed_strings.contains(&value_text) {
             // Try to find a similar value for suggestions
-            let allowed_owned: Vec<String> = allowed_values.iter().map(|v| v.0.clone()).collect();
             let suggestion = suggest_similar(value_text, &allowed_owned).map(String::from);
 
             result.error(
-- 
2.43.0


From a829fcee146de69f82bcefbef5cb5ddd11a0e6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:07 +0000
Subject: [PATCH 38/84] fix: map keys that are enums, options or tagged are
 written as they are read

---
 crates/facet-styx/src/serializer.rs | 64 +++++++++++++++++++++++++++++
 1 file changed, 64 insertions(+)

diff --git a/crates/facet-styx/src/serializer.rs b/crates/facet-styx/src/serializer.rs
index 4409c08..a0a2e01 100644
--- a/crates/facet-styx/src/serializer.rs
+++ b/crates/facet-styx/src/serializer.rs
@@ -103,6 +103,17 @@ fn extract_field_key<'mem, 'facet>(key: Peek<'mem, 'facet>) -> Option<FieldKey<'
         return Some(FieldKey::new(s, FieldLocationHint::KeyValue));
     }
 
+    // Unit variants are spelled by name, as they are read
+    if let Ok(enum_) = key.into_enum()
+        && let Ok(variant) = enum_.active_variant()
+        && variant.data.fields.is_empty()
+    {
+        return Some(FieldKey::new(
+            variant.effective_name(),
+            FieldLocationHint::KeyValue,
+        ));
+    }
+
     None
 }
 
@@ -675,6 +686,22 @@ impl FormatSerializer for CompactStyxSerializer {
         self.writer.field_key(key).map_err(StyxSerializeError::new)
     }
 
+    fn emit_field_key(&mut self, key: &facet_format::FieldKey<'_>) -> Result<(), Self::Error> {
+        self.just_wrote_tag = false;
+        self.writer.clear_skip_before_value();
+        // Doc comments need lines of their own, which compact text does not have.
+        match (key.tag(), key.name()) {
+            (None, Some(name)) => self.writer.field_key(name),
+            (Some(tag), Some(name)) => self.writer.field_key_raw(&format!(
+                "@{tag}{}",
+                styx_format::quote_after_tag(tag, name)
+            )),
+            (Some(tag), None) => self.writer.field_key_raw(&format!("@{tag}")),
+            (None, None) => self.writer.field_key_raw("@"),
+        }
+        .map_err(StyxSerializeError::new)
+    }
+
     fn end_struct(&mut self) -> Result<(), Self::Error> {
         self.writer.end_struct().map_err(StyxSerializeError::new)
     }
@@ -758,6 +785,43 @@ impl FormatSerializer for CompactStyxSerializer {
         self.writer.clear_skip_before_value();
         Ok(())
     }
+
+    fn raw_serialize_shape(&self) -> Option<&'static facet_core::Shape> {
+        Some(crate::RawStyx::SHAPE)
+    }
+
+    fn raw_scalar(&mut self, content: &str) -> Result<(), Self::Error> {
+        self.just_wrote_tag = false;
+        self.writer.before_value();
+        self.writer.write_str(content);
+        Ok(())
+    }
+
+    fn serialize_map_key(&mut self, key: Peek<'_, '_>) -> Result<bool, Self::Error> {
+        if let Some(field_key) = extract_field_key(key) {
+            self.emit_field_key(&field_key)?;
+            return Ok(true);
+        }
+        Ok(false)
+    }
+
+    fn serialize_metadata_container(
+        &mut self,
+        container: &facet_reflect::PeekStruct<'_, '_>,
+    ) -> Result<bool, Self::Error> {
+        for (f, field_value) in container.fields() {
+            if f.metadata_kind() == Some("tag") {
+                if let Ok(opt) = field_value.into_option()
+                    && let Some(inner) = opt.value()
+                    && let Some(s) = inner.as_str()
+                {
+                    self.write_variant_tag(s)?;
+                }
+                break;
+            }
+        }
+        Ok(false)
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 945a61b0853e7e0f287071776dab43df4ea39692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:52 +0000
Subject: [PATCH 39/84] fix: @int accepts integers of any size

---
 crates/facet-styx/src/schema_validate.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/facet-styx/src/schema_validate.rs b/crates/facet-styx/src/schema_validate.rs
index 6e8fd12..38f51af 100644
--- a/crates/facet-styx/src/schema_validate.rs
+++ b/crates/facet-styx/src/schema_validate.rs
@@ -250,8 +250,12 @@ impl<'a> Validator<'a> {
             }
         };
 
+        use std::num::IntErrorKind;
         let parsed = match text.parse::<i128>() {
             Ok(n) => n,
+            // Integers have no limits of their own: these are past every bound there can be.
+            Err(e) if *e.kind() == IntErrorKind::PosOverflow => i128::MAX,
+            Err(e) if *e.kind() == IntErrorKind::NegOverflow => i128::MIN,
             Err(_) => {
                 result.error(
                     ValidationError::new(
-- 
2.43.0


From 095d1ab9b6a3de4e46a9a5ae11d8f1b7438de5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:52 +0000
Subject: [PATCH 40/84] fix: generated schemas describe types the way they are
 written

---
 crates/facet-styx/src/schema_gen.rs | 282 ++++++++++++++++++++++------
 1 file changed, 226 insertions(+), 56 deletions(-)

diff --git a/crates/facet-styx/src/schema_gen.rs b/crates/facet-styx/src/schema_gen.rs
index 48cc54e..bc37646 100644
--- a/crates/facet-styx/src/schema_gen.rs
+++ b/crates/facet-styx/src/schema_gen.rs
@@ -16,7 +16,8 @@ use std::ptr::NonNull;
 use crate::peek_to_string_expr;
 use crate::schema_types::{
     DefaultSchema, Documented, EnumSchema, LspExtensionConfig, MapSchema, Meta, ObjectKey,
-    ObjectSchema, OptionalSchema, RawStyx, Schema, SchemaFile, SeqSchema, TupleSchema,
+    ObjectSchema, OneOfSchema, OptionalSchema, RawStyx, Schema, SchemaFile, SeqSchema, TupleSchema,
+    UnionSchema,
 };
 
 /// Strip exactly one leading space from a doc line if present.
@@ -253,7 +254,7 @@ fn generate_schema_file_inner<T: facet_core::Facet<'static>>(
             continue;
         }
 
-        let type_name = pending_shape.type_identifier.to_string();
+        let type_name = generator.type_name(pending_shape);
         // Only add if not already defined
         if !schema_map.contains_key(&Some(type_name.clone()))
             && let Some(type_schema) = generator.generate_type_definition(pending_shape)
@@ -317,9 +318,12 @@ fn schema_to_tag_name(schema: &Schema) -> String {
 /// Internal schema generator that builds typed Schema structs.
 struct SchemaGenerator {
     /// Types currently being generated (for cycle detection)
-    generating: HashSet<&'static str>,
+    generating: HashSet<&'static Shape>,
     /// Types that have been queued for definition
-    queued_types: HashSet<&'static str>,
+    queued_types: HashSet<&'static Shape>,
+    /// Names given to types. Types that share an identifier (namesakes from
+    /// different modules, instances of one generic type) get names of their own.
+    names: HashMap<&'static Shape, String>,
     /// Types pending generation (shapes to process)
     pending_types: Vec<&'static Shape>,
 }
@@ -329,6 +333,7 @@ impl SchemaGenerator {
         Self {
             generating: HashSet::new(),
             queued_types: HashSet::new(),
+            names: HashMap::new(),
             pending_types: Vec::new(),
         }
     }
@@ -340,13 +345,27 @@ impl SchemaGenerator {
             return;
         }
 
-        let type_id = shape.type_identifier;
-        if !self.queued_types.contains(type_id) {
-            self.queued_types.insert(type_id);
+        if self.queued_types.insert(shape) {
             self.pending_types.push(shape);
         }
     }
 
+    /// The name a type is defined and referred to under.
+    fn type_name(&mut self, shape: &'static Shape) -> String {
+        if let Some(name) = self.names.get(shape) {
+            return name.clone();
+        }
+        let base = shape.type_identifier;
+        let mut name = base.to_string();
+        let mut n = 2;
+        while self.names.values().any(|taken| *taken == name) {
+            name = format!("{base}{n}");
+            n += 1;
+        }
+        self.names.insert(shape, name.clone());
+        name
+    }
+
     /// Take the next pending type to generate, if any.
     fn take_pending(&mut self) -> Option<&'static Shape> {
         self.pending_types.pop()
@@ -355,16 +374,23 @@ impl SchemaGenerator {
     /// Generate the schema definition for a user type (struct or enum).
     /// This is used when generating named type definitions.
     fn generate_type_definition(&mut self, shape: &'static Shape) -> Option<Schema> {
+        // Written as another type
+        if let Some(proxy) = shape.effective_proxy(None) {
+            return Some(self.shape_to_schema(proxy.shape));
+        }
+        // Written as what it wraps
+        if let Some(inner) = shape.inner {
+            return Some(self.shape_to_schema(inner));
+        }
         match &shape.ty {
             Type::User(user) => {
-                let type_id = shape.type_identifier;
-                self.generating.insert(type_id);
+                self.generating.insert(shape);
                 let result = match user {
                     UserType::Struct(struct_type) => Some(self.struct_to_schema(struct_type)),
-                    UserType::Enum(enum_type) => Some(self.enum_to_schema(enum_type)),
+                    UserType::Enum(enum_type) => Some(self.enum_to_schema(shape, enum_type)),
                     _ => None,
                 };
-                self.generating.remove(type_id);
+                self.generating.remove(shape);
                 result
             }
             _ => None,
@@ -378,6 +404,11 @@ impl SchemaGenerator {
             return self.shape_to_schema(inner_shape);
         }
 
+        // Written as another type
+        if let Some(proxy) = shape.effective_proxy(None) {
+            return self.shape_to_schema(proxy.shape);
+        }
+
         match &shape.def {
             Def::Scalar => self.scalar_to_schema(shape),
             Def::Option(opt_def) => {
@@ -393,7 +424,7 @@ impl SchemaGenerator {
                 Schema::Seq(SeqSchema((Documented::new(Box::new(inner)),)))
             }
             Def::Map(map_def) => {
-                let key = self.shape_to_schema(map_def.k);
+                let key = self.map_key_to_schema(map_def.k);
                 let value = self.shape_to_schema(map_def.v);
                 Schema::Map(MapSchema(vec![
                     Documented::new(key),
@@ -502,21 +533,17 @@ impl SchemaGenerator {
             };
         }
 
-        // Cycle detection - if we're already generating this type, return a reference
-        if self.generating.contains(type_id) {
-            self.queue_type(shape);
-            return Schema::Type {
-                name: Some(type_id.to_string()),
-            };
-        }
-
         match user {
+            // Tuples have no name to be defined under
+            UserType::Struct(struct_type) if struct_type.kind == facet_core::StructKind::Tuple => {
+                self.struct_to_schema(struct_type)
+            }
             // For structs and enums, always emit a type reference and queue for definition
             // This gives all complex types their own named definitions
             UserType::Struct(_) | UserType::Enum(_) => {
                 self.queue_type(shape);
                 Schema::Type {
-                    name: Some(type_id.to_string()),
+                    name: Some(self.type_name(shape)),
                 }
             }
             UserType::Union(_) => Schema::Any,
@@ -538,27 +565,22 @@ impl SchemaGenerator {
         use facet_core::StructKind;
 
         match struct_type.kind {
-            StructKind::Unit => Schema::Unit,
+            // Unit structs are written as empty objects
+            StructKind::Unit => Schema::Object(ObjectSchema(HashMap::new())),
             StructKind::Tuple | StructKind::TupleStruct => {
-                if struct_type.fields.len() == 1 {
-                    // Newtype - unwrap
-                    self.shape_to_schema(struct_type.fields[0].shape())
-                } else {
-                    // Tuple with multiple fields - each position has a distinct type
-                    let elements: Vec<Documented<Schema>> = struct_type
-                        .fields
-                        .iter()
-                        .map(|field| Documented::new(self.shape_to_schema(field.shape())))
-                        .collect();
-                    Schema::Tuple(TupleSchema(elements))
-                }
+                // Each position has a distinct type
+                let elements: Vec<Documented<Schema>> = struct_type
+                    .fields
+                    .iter()
+                    .map(|field| Documented::new(self.shape_to_schema(field.shape())))
+                    .collect();
+                Schema::Tuple(TupleSchema(elements))
             }
             StructKind::Struct => {
                 let mut fields: HashMap<Documented<ObjectKey>, Schema> = HashMap::new();
 
                 for field in struct_type.fields {
                     let field_name = field.effective_name();
-                    let field_schema = self.shape_to_schema(field.shape());
 
                     // Extract doc comments from field
                     let doc = if field.doc.is_empty() {
@@ -575,7 +597,12 @@ impl SchemaGenerator {
 
                     // Handle flattened fields - inline their contents
                     if field.is_flattened() {
-                        match field_schema {
+                        // A flattened struct has no object of its own
+                        if let Some(inner_fields) = self.flattened_fields(field.shape()) {
+                            fields.extend(inner_fields);
+                            continue;
+                        }
+                        match self.shape_to_schema(field.shape()) {
                             // Flattened map: add catch-all entry with the value type
                             Schema::Map(MapSchema(types)) => {
                                 // @map(@V) has 1 type, @map(@K @V) has 2
@@ -619,7 +646,10 @@ impl SchemaGenerator {
                         continue;
                     }
 
-                    let mut field_schema = field_schema;
+                    let mut field_schema = match field.effective_proxy(None) {
+                        Some(proxy) => self.shape_to_schema(proxy.shape),
+                        None => self.shape_to_schema(field.shape()),
+                    };
 
                     // Wrap with @default if field has a default value
                     if let Some(default_value_str) = field_default_value(field) {
@@ -651,7 +681,136 @@ impl SchemaGenerator {
         }
     }
 
-    fn enum_to_schema(&mut self, enum_type: &facet_core::EnumType) -> Schema {
+    /// The fields a flattened struct contributes to the object it is flattened into.
+    /// None if the type is not a struct with named fields.
+    fn flattened_fields(
+        &mut self,
+        shape: &'static Shape,
+    ) -> Option<HashMap<Documented<ObjectKey>, Schema>> {
+        match &shape.def {
+            Def::Pointer(ptr_def) => return self.flattened_fields(ptr_def.pointee?),
+            Def::Option(opt_def) => {
+                let mut fields = self.flattened_fields(opt_def.t)?;
+                for schema in fields.values_mut() {
+                    if !matches!(schema, Schema::Optional(_) | Schema::Default(_)) {
+                        let inner = std::mem::replace(schema, Schema::Any);
+                        *schema =
+                            Schema::Optional(OptionalSchema((Documented::new(Box::new(inner)),)));
+                    }
+                }
+                return Some(fields);
+            }
+            _ => {}
+        }
+        let Type::User(UserType::Struct(struct_type)) = &shape.ty else {
+            return None;
+        };
+        // A type flattened into itself has no end
+        if struct_type.kind != facet_core::StructKind::Struct || !self.generating.insert(shape) {
+            return None;
+        }
+        let schema = self.struct_to_schema(struct_type);
+        self.generating.remove(shape);
+        match schema {
+            Schema::Object(ObjectSchema(fields)) => Some(fields),
+            _ => None,
+        }
+    }
+
+    /// Schema of a map key: keys are written as scalars.
+    fn map_key_to_schema(&mut self, shape: &'static Shape) -> Schema {
+        match &shape.ty {
+            Type::User(UserType::Enum(enum_type)) if !matches!(shape.def, Def::Option(_)) => {
+                let names = enum_type.variants.iter().map(|v| v.effective_name());
+                Self::names_to_schema(names)
+            }
+            _ => self.shape_to_schema(shape),
+        }
+    }
+
+    /// Schema of a scalar that is one of the given names.
+    fn names_to_schema<'n>(names: impl Iterator<Item = &'n str>) -> Schema {
+        let names = names
+            .map(|n| RawStyx::new(crate::to_string_compact(n).unwrap_or_else(|_| n.to_string())))
+            .collect();
+        Schema::OneOf(OneOfSchema((
+            Documented::new(Box::new(Schema::String(None))),
+            names,
+        )))
+    }
+
+    /// Schema of what a variant holds.
+    fn variant_payload_to_schema(&mut self, variant: &'static facet_core::Variant) -> Schema {
+        use facet_core::StructKind;
+
+        match variant.data.kind {
+            StructKind::Unit => Schema::Unit,
+            StructKind::Tuple | StructKind::TupleStruct => {
+                if variant.data.fields.len() == 1 {
+                    self.shape_to_schema(variant.data.fields[0].shape())
+                } else {
+                    // Tuple variant with multiple fields
+                    let elements: Vec<Documented<Schema>> = variant
+                        .data
+                        .fields
+                        .iter()
+                        .map(|field| Documented::new(self.shape_to_schema(field.shape())))
+                        .collect();
+                    Schema::Tuple(TupleSchema(elements))
+                }
+            }
+            StructKind::Struct => self.struct_to_schema(&variant.data),
+        }
+    }
+
+    /// Schema of an enum whose variants are told apart by a field (`tag`), with what they hold
+    /// in the same object or in a field of its own (`content`).
+    fn field_tagged_enum_to_schema(
+        &mut self,
+        enum_type: &'static facet_core::EnumType,
+        numeric: bool,
+        tag: &str,
+        content: Option<&str>,
+    ) -> Schema {
+        use facet_core::StructKind;
+
+        let mut options = Vec::new();
+        for variant in enum_type.variants {
+            let mut fields = match (content, variant.data.kind) {
+                (_, StructKind::Unit) => HashMap::new(),
+                (Some(content), _) => HashMap::from([(
+                    Documented::new(ObjectKey::named(content)),
+                    self.variant_payload_to_schema(variant),
+                )]),
+                (None, StructKind::Struct) => match self.struct_to_schema(&variant.data) {
+                    Schema::Object(ObjectSchema(fields)) => fields,
+                    _ => HashMap::new(),
+                },
+                (None, _) => {
+                    let [field] = variant.data.fields else {
+                        continue;
+                    };
+                    match self.flattened_fields(field.shape()) {
+                        Some(fields) => fields,
+                        None => HashMap::from([(Documented::new(ObjectKey::unit()), Schema::Any)]),
+                    }
+                }
+            };
+            let name = match numeric {
+                true => Schema::Int(None),
+                false => Self::names_to_schema([variant.effective_name()].into_iter()),
+            };
+            fields.insert(Documented::new(ObjectKey::named(tag)), name);
+            options.push(Documented::new(Schema::Object(ObjectSchema(fields))));
+        }
+        Schema::Union(UnionSchema(options))
+    }
+
+    fn enum_to_schema(
+        &mut self,
+        shape: &'static Shape,
+        enum_type: &'static facet_core::EnumType,
+    ) -> Schema {
         use facet_core::StructKind;
 
         // If any variant has #[facet(other)], this enum accepts any tag,
@@ -660,28 +819,39 @@ impl SchemaGenerator {
             return Schema::Any;
         }
 
+        // Enums that are not written with tags
+        let numeric = shape.is_numeric();
+        if let Some(tag) = shape.get_tag_attr() {
+            let content = shape.get_content_attr();
+            return self.field_tagged_enum_to_schema(enum_type, numeric, tag, content);
+        }
+        if numeric {
+            return Schema::Int(None);
+        }
+        if shape.is_untagged() {
+            let options = enum_type.variants.iter().map(|variant| {
+                Documented::new(match variant.data.kind {
+                    StructKind::Unit => {
+                        Self::names_to_schema([variant.effective_name()].into_iter())
+                    }
+                    _ => self.variant_payload_to_schema(variant),
+                })
+            });
+            return Schema::Union(UnionSchema(options.collect()));
+        }
+        if enum_type
+            .variants
+            .iter()
+            .any(|v| v.has_builtin_attr("untagged"))
+        {
+            return Schema::Any;
+        }
+
         let mut variants: HashMap<Documented<String>, Schema> = HashMap::new();
 
         for variant in enum_type.variants {
             let variant_name = variant.effective_name().to_string();
-            let variant_schema = match variant.data.kind {
-                StructKind::Unit => Schema::Unit,
-                StructKind::Tuple | StructKind::TupleStruct => {
-                    if variant.data.fields.len() == 1 {
-                        self.shape_to_schema(variant.data.fields[0].shape())
-                    } else {
-                        // Tuple variant with multiple fields
-                        let elements: Vec<Documented<Schema>> = variant
-                            .data
-                            .fields
-                            .iter()
-                            .map(|field| Documented::new(self.shape_to_schema(field.shape())))
-                            .collect();
-                        Schema::Tuple(TupleSchema(elements))
-                    }
-                }
-                StructKind::Struct => self.struct_to_schema(&variant.data),
-            };
+            let variant_schema = self.variant_payload_to_schema(variant);
 
             // Extract doc comments from variant
             let doc = if variant.doc.is_empty() {
-- 
2.43.0


From 5099950488f3beee6f07da0fbb34eb62c0339cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:20 +0000
Subject: [PATCH 41/84] fix: corrupt embedded schemas cannot overflow offsets
 or allocate without bound

---
 crates/styx-embed/src/lib.rs | 77 +++++++++++++++++++-----------------
 1 file changed, 41 insertions(+), 36 deletions(-)

diff --git a/crates/styx-embed/src/lib.rs b/crates/styx-embed/src/lib.rs
index 70969f8..e45fcaf 100644
--- a/crates/styx-embed/src/lib.rs
+++ b/crates/styx-embed/src/lib.rs
@@ -211,8 +211,27 @@ fn try_extract_v2_at(data: &[u8], magic_pos: usize) -> Result<String, ExtractErr
     }
     let compressed = &data[pos..pos + compressed_len];
 
+    decode_schema(compressed, decompressed_len, &expected_hash)
+}
+
+/// Decompress and verify one schema.
+///
+/// The lengths come from data that may be corrupt or not a schema at all, so they
+/// are checked against each other before anything is allocated for them.
+fn decode_schema(
+    compressed: &[u8],
+    decompressed_len: usize,
+    expected_hash: &[u8; 32],
+) -> Result<String, ExtractError> {
+    let (prepended_len, block) =
+        lz4_flex::block::uncompressed_size(compressed).map_err(|_| ExtractError::Truncated)?;
+    // LZ4 needs at least one byte for every 255 bytes of output
+    if prepended_len != decompressed_len || decompressed_len / 255 > block.len() {
+        return Err(ExtractError::DecompressFailed);
+    }
+
     // Decompress
-    let decompressed = lz4_flex::decompress_size_prepended(compressed)
+    let decompressed = lz4_flex::decompress(block, decompressed_len)
         .map_err(|_| ExtractError::DecompressFailed)?;
 
     // Verify length
@@ -222,7 +241,7 @@ fn try_extract_v2_at(data: &[u8], magic_pos: usize) -> Result<String, ExtractErr
 
     // Verify hash
     let actual_hash = blake3::hash(&decompressed);
-    if actual_hash.as_bytes() != &expected_hash {
+    if actual_hash.as_bytes() != expected_hash {
         return Err(ExtractError::HashMismatch);
     }
 
@@ -241,7 +260,7 @@ fn try_extract_v1_at(data: &[u8], magic_pos: usize) -> Result<Vec<String>, Extra
     let count = u16::from_le_bytes([data[pos], data[pos + 1]]) as usize;
     pos += 2;
 
-    let mut schemas = Vec::with_capacity(count);
+    let mut schemas = Vec::new();
 
     for _ in 0..count {
         // Read header: decompressed_len (4) + compressed_len (4) + hash (32) = 40 bytes
@@ -269,23 +288,7 @@ fn try_extract_v1_at(data: &[u8], magic_pos: usize) -> Result<Vec<String>, Extra
         let compressed = &data[pos..pos + compressed_len];
         pos += compressed_len;
 
-        // Decompress
-        let decompressed = lz4_flex::decompress_size_prepended(compressed)
-            .map_err(|_| ExtractError::DecompressFailed)?;
-
-        // Verify length
-        if decompressed.len() != decompressed_len {
-            return Err(ExtractError::DecompressFailed);
-        }
-
-        // Verify hash
-        let actual_hash = blake3::hash(&decompressed);
-        if actual_hash.as_bytes() != &expected_hash {
-            return Err(ExtractError::HashMismatch);
-        }
-
-        // Convert to string
-        let schema = String::from_utf8(decompressed).map_err(|_| ExtractError::InvalidUtf8)?;
+        let schema = decode_schema(compressed, decompressed_len, &expected_hash)?;
         schemas.push(schema);
     }
 
@@ -347,16 +350,21 @@ fn find_schema_section<'a>(object: &goblin::Object, data: &'a [u8]) -> Option<&'
     }
 }
 
+/// The bytes a header says lie at `offset`, if the file has them.
+fn byte_range(data: &[u8], offset: u64, size: u64) -> Option<&[u8]> {
+    let start = usize::try_from(offset).ok()?;
+    let end = start.checked_add(usize::try_from(size).ok()?)?;
+    data.get(start..end)
+}
+
 /// Find the .styx_schemas section in an ELF binary.
 fn find_elf_section<'a>(elf: &goblin::elf::Elf, data: &'a [u8]) -> Option<&'a [u8]> {
     for section in &elf.section_headers {
         if let Some(name) = elf.shdr_strtab.get_at(section.sh_name)
             && name == section_names::ELF
         {
-            let start = section.sh_offset as usize;
-            let size = section.sh_size as usize;
-            if start + size <= data.len() {
-                return Some(&data[start..start + size]);
+            if let Some(range) = byte_range(data, section.sh_offset, section.sh_size) {
+                return Some(range);
             }
         }
     }
@@ -372,10 +380,7 @@ fn find_macho_section<'a>(mach: &goblin::mach::Mach, data: &'a [u8]) -> Option<&
         Mach::Fat(fat) => {
             // For fat binaries, try each architecture
             for arch in fat.iter_arches().flatten() {
-                let start = arch.offset as usize;
-                let size = arch.size as usize;
-                if start + size <= data.len() {
-                    let arch_data = &data[start..start + size];
+                if let Some(arch_data) = byte_range(data, arch.offset.into(), arch.size.into()) {
                     if let Ok(goblin::Object::Mach(Mach::Binary(macho))) =
                         goblin::Object::parse(arch_data)
                         && let Some(section) = find_macho_section_in_binary(&macho, arch_data)
@@ -402,10 +407,8 @@ fn find_macho_section_in_binary<'a>(
                 if let Ok(sect_name) = section.name()
                     && sect_name == section_names::MACHO_SECTION
                 {
-                    let start = section.offset as usize;
-                    let size = section.size as usize;
-                    if start + size <= data.len() {
-                        return Some(&data[start..start + size]);
+                    if let Some(range) = byte_range(data, section.offset.into(), section.size) {
+                        return Some(range);
                     }
                 }
             }
@@ -420,10 +423,12 @@ fn find_pe_section<'a>(pe: &goblin::pe::PE, data: &'a [u8]) -> Option<&'a [u8]>
         if let Ok(name) = section.name()
             && name == section_names::PE
         {
-            let start = section.pointer_to_raw_data as usize;
-            let size = section.size_of_raw_data as usize;
-            if start + size <= data.len() {
-                return Some(&data[start..start + size]);
+            if let Some(range) = byte_range(
+                data,
+                section.pointer_to_raw_data.into(),
+                section.size_of_raw_data.into(),
+            ) {
+                return Some(range);
             }
         }
     }
-- 
2.43.0


From d63b34ff1ae4f3af748a7c18922a19671c6127b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:20 +0000
Subject: [PATCH 42/84] fix: embed_inline reads every escape a string literal
 can have

---
 crates/styx-embed-macros/src/lib.rs | 47 +++++++++++++++++++----------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/crates/styx-embed-macros/src/lib.rs b/crates/styx-embed-macros/src/lib.rs
index 7fee368..6d66399 100644
--- a/crates/styx-embed-macros/src/lib.rs
+++ b/crates/styx-embed-macros/src/lib.rs
@@ -121,26 +121,41 @@ fn parse_string_literal(lit: &unsynn::Literal) -> Option<String> {
     // Regular string: "..."
     if s.starts_with('"') && s.ends_with('"') && s.len() >= 2 {
         let inner = &s[1..s.len() - 1];
-        // Handle basic escapes
         let mut result = String::new();
         let mut chars = inner.chars().peekable();
         while let Some(c) = chars.next() {
-            if c == '\\' {
-                match chars.next() {
-                    Some('n') => result.push('\n'),
-                    Some('r') => result.push('\r'),
-                    Some('t') => result.push('\t'),
-                    Some('\\') => result.push('\\'),
-                    Some('"') => result.push('"'),
-                    Some('0') => result.push('\0'),
-                    Some(other) => {
-                        result.push('\\');
-                        result.push(other);
-                    }
-                    None => result.push('\\'),
-                }
-            } else {
+            if c != '\\' {
                 result.push(c);
+                continue;
+            }
+            match chars.next()? {
+                'n' => result.push('\n'),
+                'r' => result.push('\r'),
+                't' => result.push('\t'),
+                '\\' => result.push('\\'),
+                '"' => result.push('"'),
+                '\'' => result.push('\''),
+                '0' => result.push('\0'),
+                'x' => {
+                    let digits: String = chars.by_ref().take(2).collect();
+                    result.push(char::from(u8::from_str_radix(&digits, 16).ok()?));
+                }
+                'u' => {
+                    let digits: String = chars
+                        .by_ref()
+                        .take_while(|&c| c != '}')
+                        .filter(|c| !matches!(c, '{' | '_'))
+                        .collect();
+                    result.push(char::from_u32(u32::from_str_radix(&digits, 16).ok()?)?);
+                }
+                // A line continuation: the break and the indentation after it are not content
+                '\n' => {
+                    while chars
+                        .next_if(|c| matches!(c, ' ' | '\t' | '\n' | '\r'))
+                        .is_some()
+                    {}
+                }
+                _ => return None,
             }
         }
         return Some(result);
-- 
2.43.0


From cf10621e7d2be84d9699bc929cc398bd7be94930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:52 +0000
Subject: [PATCH 43/84] fix: failing to write to standard output is an I/O
 error, not a panic

---
 crates/styx-cli/src/main.rs | 207 +++++++++++++++++++++---------------
 1 file changed, 120 insertions(+), 87 deletions(-)

diff --git a/crates/styx-cli/src/main.rs b/crates/styx-cli/src/main.rs
index bb47ebf..72b1026 100644
--- a/crates/styx-cli/src/main.rs
+++ b/crates/styx-cli/src/main.rs
@@ -13,7 +13,7 @@
 //!   styx lsp                      - subcommand (bare word)
 //!   styx tree config.styx         - subcommand with file arg
 
-use std::io::{self, IsTerminal, Read};
+use std::io::{self, IsTerminal, Read, Write};
 use std::path::Path;
 
 use facet::Facet;
@@ -34,6 +34,32 @@ const EXIT_SYNTAX_ERROR: i32 = 1;
 const EXIT_VALIDATION_ERROR: i32 = 2;
 const EXIT_IO_ERROR: i32 = 3;
 
+// ============================================================================
+// Standard output
+// ============================================================================
+
+/// `print!`, except that standard output failing is an I/O error like any other and not a panic.
+macro_rules! out {
+    ($($arg:tt)*) => { print_or_exit(format_args!($($arg)*)) };
+}
+
+/// `println!`, except that standard output failing is an I/O error like any other and not a panic.
+macro_rules! outln {
+    () => { out!("\n") };
+    ($($arg:tt)*) => { out!("{}\n", format_args!($($arg)*)) };
+}
+
+fn print_or_exit(args: std::fmt::Arguments<'_>) {
+    if let Err(e) = io::stdout().write_fmt(args) {
+        exit_with_stdout_error(e);
+    }
+}
+
+fn exit_with_stdout_error(e: io::Error) -> ! {
+    eprintln!("error: cannot write to standard output: {e}");
+    std::process::exit(EXIT_IO_ERROR);
+}
+
 // ============================================================================
 // CLI argument structures
 // ============================================================================
@@ -248,7 +274,7 @@ fn main() {
 
     // Handle --version / -V at top level
     if raw_args[0] == "--version" || raw_args[0] == "-V" {
-        println!("styx {VERSION}");
+        outln!("styx {VERSION}");
         std::process::exit(EXIT_SUCCESS);
     }
 
@@ -267,6 +293,11 @@ fn main() {
         run_subcommand_mode(&raw_args)
     };
 
+    // Whatever is still buffered has to arrive for the command to have succeeded.
+    if let Err(e) = io::stdout().flush() {
+        exit_with_stdout_error(e);
+    }
+
     match result {
         Ok(()) => std::process::exit(EXIT_SUCCESS),
         Err(e) => {
@@ -522,7 +553,7 @@ fn run_lsp() -> Result<(), CliError> {
 fn run_tokens(file: &str) -> Result<(), CliError> {
     let source = read_input(Some(file))?;
     for token in Tokenizer::new(&source) {
-        println!("{:?}", token);
+        outln!("{:?}", token);
     }
     Ok(())
 }
@@ -530,7 +561,7 @@ fn run_tokens(file: &str) -> Result<(), CliError> {
 fn run_lexemes(file: &str) -> Result<(), CliError> {
     let source = read_input(Some(file))?;
     for lexeme in Lexer::new(&source) {
-        println!("{:?}", lexeme);
+        outln!("{:?}", lexeme);
     }
     Ok(())
 }
@@ -539,7 +570,7 @@ fn run_events(file: &str) -> Result<(), CliError> {
     let source = read_input(Some(file))?;
     let mut parser = Parser::new(&source);
     while let Some(event) = parser.next_event() {
-        println!("{:?}", event);
+        outln!("{:?}", event);
     }
     Ok(())
 }
@@ -551,17 +582,17 @@ fn run_tree(format: &str, file: &str) -> Result<(), CliError> {
     match format {
         "sexp" => match styx_tree::parse(&source) {
             Ok(value) => {
-                println!("; file: {}", filename);
+                outln!("; file: {}", filename);
                 print_sexp(&value, 0);
-                println!();
+                outln!();
             }
             Err(e) => {
                 let (start, end) = match &e {
                     styx_tree::BuildError::Parse(_, span) => (span.start, span.end),
                     _ => (0, 0),
                 };
-                println!("; file: {}", filename);
-                println!("(error [{}, {}] {:?})", start, end, e.to_string());
+                outln!("; file: {}", filename);
+                outln!("(error [{}, {}] {:?})", start, end, e.to_string());
             }
         },
         "debug" => {
@@ -587,12 +618,12 @@ fn run_cst(file: &str) -> Result<(), CliError> {
     let source = read_input(Some(file))?;
     let parsed = styx_cst::parse(&source);
 
-    println!("{:#?}", parsed.syntax());
+    outln!("{:#?}", parsed.syntax());
 
     if !parsed.errors().is_empty() {
-        println!("\nParse errors:");
+        outln!("\nParse errors:");
         for err in parsed.errors() {
-            println!("  {:?}", err);
+            outln!("  {:?}", err);
         }
     }
 
@@ -616,7 +647,7 @@ fn run_extract(binary: &str) -> Result<(), CliError> {
         print_styx(schema);
         // Ensure newline after schema (print_styx doesn't add one)
         if !schema.ends_with('\n') {
-            println!();
+            outln!();
         }
     }
 
@@ -624,7 +655,7 @@ fn run_extract(binary: &str) -> Result<(), CliError> {
 }
 
 fn run_skill() -> Result<(), CliError> {
-    print!("{}", include_str!("../contrib/SKILL.md"));
+    out!("{}", include_str!("../contrib/SKILL.md"));
     Ok(())
 }
 
@@ -642,7 +673,7 @@ fn run_completions(shell: &str) -> Result<(), CliError> {
     };
 
     let completions = figue::generate_completions_for_shape(Args::SHAPE, shell_enum, "styx");
-    print!("{completions}");
+    out!("{completions}");
     Ok(())
 }
 
@@ -698,7 +729,7 @@ fn run_cache(open: bool, clear: bool) -> Result<(), CliError> {
     if clear {
         match cache::clear_cache() {
             Ok((count, size)) => {
-                println!("Cleared {} cached schemas ({} bytes)", count, size);
+                outln!("Cleared {} cached schemas ({} bytes)", count, size);
             }
             Err(e) => {
                 return Err(CliError::Io(e));
@@ -738,19 +769,21 @@ fn run_cache(open: bool, clear: bool) -> Result<(), CliError> {
         return Ok(());
     }
 
-    println!("Cache directory: {}", cache_dir.display());
+    outln!("Cache directory: {}", cache_dir.display());
 
     if let Some(stats) = cache::cache_stats() {
-        println!(
+        outln!(
             "Embedded schemas: {} ({} bytes)",
-            stats.embedded_count, stats.embedded_size
+            stats.embedded_count,
+            stats.embedded_size
         );
-        println!(
+        outln!(
             "Crate schemas: {} ({} bytes)",
-            stats.crate_count, stats.crate_size
+            stats.crate_count,
+            stats.crate_size
         );
     } else {
-        println!("(cache directory does not exist)");
+        outln!("(cache directory does not exist)");
     }
 
     Ok(())
@@ -995,7 +1028,7 @@ fn read_input(file: Option<&str>) -> Result<String, io::Error> {
 
 fn write_output(path: &str, content: &str) -> Result<(), io::Error> {
     if path == "-" {
-        print!("{content}");
+        out!("{content}");
         Ok(())
     } else {
         std::fs::write(path, content)
@@ -1075,9 +1108,9 @@ fn highlight_styx(source: &str) -> String {
 /// Print Styx source with highlighting if stdout is a TTY
 fn print_styx(source: &str) {
     if std::io::stdout().is_terminal() {
-        print!("{}", highlight_styx(source));
+        out!("{}", highlight_styx(source));
     } else {
-        print!("{source}");
+        out!("{source}");
     }
 }
 
@@ -1096,48 +1129,48 @@ fn print_tree(value: &Value, indent: usize) {
     let pad = "  ".repeat(indent);
 
     if let Some(tag) = &value.tag {
-        print!("{pad}Tagged @{}", tag.name);
+        out!("{pad}Tagged @{}", tag.name);
         match &value.payload {
             None => {
-                println!();
+                outln!();
             }
             Some(payload) => {
-                println!(" {{");
+                outln!(" {{");
                 print_payload(payload, indent + 1);
-                println!("{pad}}}");
+                outln!("{pad}}}");
             }
         }
     } else {
         match &value.payload {
             None => {
-                println!("{pad}Unit");
+                outln!("{pad}Unit");
             }
             Some(Payload::Scalar(s)) => {
-                println!("{pad}Scalar({:?}, {:?})", s.text, s.kind);
+                outln!("{pad}Scalar({:?}, {:?})", s.text, s.kind);
             }
             Some(Payload::Sequence(s)) => {
-                println!("{pad}Sequence [");
+                outln!("{pad}Sequence [");
                 for item in &s.items {
                     print_tree(item, indent + 1);
                 }
-                println!("{pad}]");
+                outln!("{pad}]");
             }
             Some(Payload::Object(o)) => {
-                println!("{pad}Object {{");
+                outln!("{pad}Object {{");
                 for entry in &o.entries {
-                    print!("{pad}  key: ");
+                    out!("{pad}  key: ");
                     print_tree_inline(&entry.key);
-                    println!();
-                    print!("{pad}  value: ");
+                    outln!();
+                    out!("{pad}  value: ");
                     if is_complex_value(&entry.value) {
-                        println!();
+                        outln!();
                         print_tree(&entry.value, indent + 2);
                     } else {
                         print_tree_inline(&entry.value);
-                        println!();
+                        outln!();
                     }
                 }
-                println!("{pad}}}");
+                outln!("{pad}}}");
             }
         }
     }
@@ -1147,31 +1180,31 @@ fn print_payload(payload: &Payload, indent: usize) {
     let pad = "  ".repeat(indent);
     match payload {
         Payload::Scalar(s) => {
-            println!("{pad}Scalar({:?}, {:?})", s.text, s.kind);
+            outln!("{pad}Scalar({:?}, {:?})", s.text, s.kind);
         }
         Payload::Sequence(s) => {
-            println!("{pad}Sequence [");
+            outln!("{pad}Sequence [");
             for item in &s.items {
                 print_tree(item, indent + 1);
             }
-            println!("{pad}]");
+            outln!("{pad}]");
         }
         Payload::Object(o) => {
-            println!("{pad}Object {{");
+            outln!("{pad}Object {{");
             for entry in &o.entries {
-                print!("{pad}  key: ");
+                out!("{pad}  key: ");
                 print_tree_inline(&entry.key);
-                println!();
-                print!("{pad}  value: ");
+                outln!();
+                out!("{pad}  value: ");
                 if is_complex_value(&entry.value) {
-                    println!();
+                    outln!();
                     print_tree(&entry.value, indent + 2);
                 } else {
                     print_tree_inline(&entry.value);
-                    println!();
+                    outln!();
                 }
             }
-            println!("{pad}}}");
+            outln!("{pad}}}");
         }
     }
 }
@@ -1189,16 +1222,16 @@ fn is_complex_value(value: &Value) -> bool {
 fn print_tree_inline(value: &Value) {
     if let Some(tag) = &value.tag {
         if value.payload.is_some() {
-            print!("Tagged @{} {{...}}", tag.name);
+            out!("Tagged @{} {{...}}", tag.name);
         } else {
-            print!("Tagged @{}", tag.name);
+            out!("Tagged @{}", tag.name);
         }
     } else {
         match &value.payload {
-            None => print!("Unit"),
-            Some(Payload::Scalar(s)) => print!("Scalar({:?})", s.text),
-            Some(Payload::Sequence(_)) => print!("Sequence [...]"),
-            Some(Payload::Object(_)) => print!("Object {{...}}"),
+            None => out!("Unit"),
+            Some(Payload::Scalar(s)) => out!("Scalar({:?})", s.text),
+            Some(Payload::Sequence(_)) => out!("Sequence [...]"),
+            Some(Payload::Object(_)) => out!("Object {{...}}"),
         }
     }
 }
@@ -1217,11 +1250,11 @@ fn print_sexp(value: &Value, indent: usize) {
             .span
             .map(|s| format!("[{}, {}]", s.start, s.end))
             .unwrap_or_else(|| "[-1, -1]".to_string());
-        println!("{pad}(document {span}");
+        outln!("{pad}(document {span}");
         for entry in &obj.entries {
             print_sexp_entry(entry, indent + 1);
         }
-        print!("{pad})");
+        out!("{pad})");
     } else {
         print_sexp_value(value, indent);
     }
@@ -1229,12 +1262,12 @@ fn print_sexp(value: &Value, indent: usize) {
 
 fn print_sexp_entry(entry: &styx_tree::Entry, indent: usize) {
     let pad = "  ".repeat(indent);
-    println!("{pad}(entry");
+    outln!("{pad}(entry");
     print_sexp_value(&entry.key, indent + 1);
-    println!();
+    outln!();
     print_sexp_value(&entry.value, indent + 1);
-    print!(")");
-    println!();
+    out!(")");
+    outln!();
 }
 
 fn print_sexp_value(value: &Value, indent: usize) {
@@ -1246,16 +1279,16 @@ fn print_sexp_value(value: &Value, indent: usize) {
 
     match (&value.tag, &value.payload) {
         (None, None) => {
-            print!("{pad}(unit {span})");
+            out!("{pad}(unit {span})");
         }
         (Some(tag), payload) => {
-            print!("{pad}(tag {span} {:?}", tag.name);
+            out!("{pad}(tag {span} {:?}", tag.name);
             if let Some(p) = payload {
-                println!();
+                outln!();
                 print_sexp_payload(p, indent + 1);
-                print!(")");
+                out!(")");
             } else {
-                print!(")");
+                out!(")");
             }
         }
         (None, Some(Payload::Scalar(s))) => {
@@ -1265,33 +1298,33 @@ fn print_sexp_value(value: &Value, indent: usize) {
                 ScalarKind::Raw => "raw",
                 ScalarKind::Heredoc => "heredoc",
             };
-            print!("{pad}(scalar {span} {kind} {:?})", s.text);
+            out!("{pad}(scalar {span} {kind} {:?})", s.text);
         }
         (None, Some(Payload::Sequence(seq))) => {
-            print!("{pad}(sequence {span}");
+            out!("{pad}(sequence {span}");
             if seq.items.is_empty() {
-                print!(")");
+                out!(")");
             } else {
-                println!();
+                outln!();
                 for (i, item) in seq.items.iter().enumerate() {
                     print_sexp_value(item, indent + 1);
                     if i < seq.items.len() - 1 {
-                        println!();
+                        outln!();
                     }
                 }
-                print!(")");
+                out!(")");
             }
         }
         (None, Some(Payload::Object(obj))) => {
-            print!("{pad}(object {span}");
+            out!("{pad}(object {span}");
             if obj.entries.is_empty() {
-                print!(")");
+                out!(")");
             } else {
-                println!();
+                outln!();
                 for entry in &obj.entries {
                     print_sexp_entry(entry, indent + 1);
                 }
-                print!("{pad})");
+                out!("{pad})");
             }
         }
     }
@@ -1311,25 +1344,25 @@ fn print_sexp_payload(payload: &Payload, indent: usize) {
                 ScalarKind::Raw => "raw",
                 ScalarKind::Heredoc => "heredoc",
             };
-            print!("{pad}(scalar {span} {kind} {:?})", s.text);
+            out!("{pad}(scalar {span} {kind} {:?})", s.text);
         }
         Payload::Sequence(seq) => {
             let span = seq
                 .span
                 .map(|s| format!("[{}, {}]", s.start, s.end))
                 .unwrap_or_else(|| "[-1, -1]".to_string());
-            print!("{pad}(sequence {span}");
+            out!("{pad}(sequence {span}");
             if seq.items.is_empty() {
-                print!(")");
+                out!(")");
             } else {
-                println!();
+                outln!();
                 for (i, item) in seq.items.iter().enumerate() {
                     print_sexp_value(item, indent + 1);
                     if i < seq.items.len() - 1 {
-                        println!();
+                        outln!();
                     }
                 }
-                print!(")");
+                out!(")");
             }
         }
         Payload::Object(obj) => {
@@ -1337,15 +1370,15 @@ fn print_sexp_payload(payload: &Payload, indent: usize) {
                 .span
                 .map(|s| format!("[{}, {}]", s.start, s.end))
                 .unwrap_or_else(|| "[-1, -1]".to_string());
-            print!("{pad}(object {span}");
+            out!("{pad}(object {span}");
             if obj.entries.is_empty() {
-                print!(")");
+                out!(")");
             } else {
-                println!();
+                outln!();
                 for entry in &obj.entries {
                     print_sexp_entry(entry, indent + 1);
                 }
-                print!("{pad})");
+                out!("{pad})");
             }
         }
     }
-- 
2.43.0


From c378a0f0b762b19459523aa74dca2f0edd50917d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:53 +0000
Subject: [PATCH 44/84] fix: arguments that are not UTF-8 are a usage error,
 not a panic

---
 crates/styx-cli/src/main.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/styx-cli/src/main.rs b/crates/styx-cli/src/main.rs
index 72b1026..f2852f1 100644
--- a/crates/styx-cli/src/main.rs
+++ b/crates/styx-cli/src/main.rs
@@ -264,7 +264,17 @@ fn is_file_arg(arg: &str) -> bool {
 }
 
 fn main() {
-    let raw_args: Vec<String> = std::env::args().skip(1).collect();
+    let raw_args: Vec<String> = match std::env::args_os()
+        .skip(1)
+        .map(|arg| arg.into_string())
+        .collect()
+    {
+        Ok(args) => args,
+        Err(arg) => {
+            eprintln!("error: argument is not valid UTF-8: {}", arg.display());
+            std::process::exit(EXIT_SYNTAX_ERROR);
+        }
+    };
 
     // Handle empty args or help
     if raw_args.is_empty() {
-- 
2.43.0


From 25814b61b310720827b4138d4c09288f8726a823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:16 +0000
Subject: [PATCH 45/84] fix: --json-out and links to the input file are refused
 as output, and several outputs are a usage error

---
 crates/styx-cli/src/main.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/crates/styx-cli/src/main.rs b/crates/styx-cli/src/main.rs
index f2852f1..63b4bc4 100644
--- a/crates/styx-cli/src/main.rs
+++ b/crates/styx-cli/src/main.rs
@@ -382,8 +382,19 @@ fn run_file_mode(args: &[String]) -> Result<(), CliError> {
         return Err(CliError::Usage("--schema requires --validate".into()));
     }
 
-    // Safety check: prevent -o pointing to same file as input
-    if let Some(ref output) = opts.output
+    // Only one output is written: asking for several would silently drop the others
+    if usize::from(opts.in_place)
+        + usize::from(opts.output.is_some())
+        + usize::from(opts.json_out.is_some())
+        > 1
+    {
+        return Err(CliError::Usage(
+            "--output, --json-out and --in-place cannot be used together".into(),
+        ));
+    }
+
+    // Safety check: prevent -o or --json-out pointing to same file as input
+    if let Some(output) = opts.output.as_ref().or(opts.json_out.as_ref())
         && opts.input != "-"
         && output != "-"
         && is_same_file(&opts.input, output)
@@ -1125,6 +1136,12 @@ fn print_styx(source: &str) {
 }
 
 fn is_same_file(a: &str, b: &str) -> bool {
+    // Links to one file have different paths
+    #[cfg(unix)]
+    if let (Ok(a), Ok(b)) = (std::fs::metadata(a), std::fs::metadata(b)) {
+        use std::os::unix::fs::MetadataExt;
+        return a.dev() == b.dev() && a.ino() == b.ino();
+    }
     match (std::fs::canonicalize(a), std::fs::canonicalize(b)) {
         (Ok(a), Ok(b)) => a == b,
         _ => a == b,
-- 
2.43.0


From 7d6f0a50ceec910cf104b890800b0a3ab64dd1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:33 +0000
Subject: [PATCH 46/84] fix: a failing write leaves the file as it was

---
 crates/styx-cli/src/main.rs | 73 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 71 insertions(+), 2 deletions(-)

diff --git a/crates/styx-cli/src/main.rs b/crates/styx-cli/src/main.rs
index 63b4bc4..60a9ce8 100644
--- a/crates/styx-cli/src/main.rs
+++ b/crates/styx-cli/src/main.rs
@@ -447,7 +447,7 @@ fn run_file_mode(args: &[String]) -> Result<(), CliError> {
         let output = format_source(&source, format_opts);
 
         if opts.in_place {
-            std::fs::write(&opts.input, &output)?;
+            write_file(&opts.input, &output)?;
         } else if let Some(ref out_path) = opts.output {
             write_output(out_path, &output)?;
         } else {
@@ -1052,10 +1052,79 @@ fn write_output(path: &str, content: &str) -> Result<(), io::Error> {
         out!("{content}");
         Ok(())
     } else {
-        std::fs::write(path, content)
+        write_file(path, content)
     }
 }
 
+/// Write a file so that failing on the way leaves what was there.
+fn write_file(path: &str, content: &str) -> Result<(), io::Error> {
+    // A file that is a link is written where the link leads.
+    let Ok(path) = std::fs::canonicalize(path) else {
+        return match std::fs::File::create_new(path) {
+            Ok(mut file) => file.write_all(content.as_bytes()).inspect_err(|_| {
+                let _ = std::fs::remove_file(path);
+            }),
+            // a link that leads to no file yet
+            Err(e) if e.kind() == io::ErrorKind::AlreadyExists => std::fs::write(path, content),
+            Err(e) => Err(e),
+        };
+    };
+    // Whoever may not write the file may not replace it either.
+    let old = std::fs::OpenOptions::new().write(true).open(&path)?;
+    let metadata = old.metadata()?;
+    if !metadata.is_file() {
+        return std::fs::write(&path, content);
+    }
+
+    let Some((temp_path, mut temp)) = create_beside(&path) else {
+        return overwrite(&path, content);
+    };
+    let written = (|| {
+        temp.set_permissions(metadata.permissions())?;
+        temp.write_all(content.as_bytes())?;
+        if !can_replace(&metadata, &temp.metadata()?) {
+            return overwrite(&path, content);
+        }
+        temp.sync_all()?;
+        std::fs::rename(&temp_path, &path).or_else(|_| overwrite(&path, content))
+    })();
+    // Gone already if it was moved into place
+    let _ = std::fs::remove_file(&temp_path);
+    written
+}
+
+/// A new, empty file in the directory of `path`.
+fn create_beside(path: &Path) -> Option<(std::path::PathBuf, std::fs::File)> {
+    let name = path.file_name()?.to_string_lossy();
+    (0..100).find_map(|i| {
+        let temp = path.with_file_name(format!(".{name}.{}.{i}.tmp", std::process::id()));
+        let file = std::fs::File::create_new(&temp).ok()?;
+        Some((temp, file))
+    })
+}
+
+/// Whether the file can be replaced with another: not if it has other names or another owner.
+#[cfg(unix)]
+fn can_replace(old: &std::fs::Metadata, new: &std::fs::Metadata) -> bool {
+    use std::os::unix::fs::MetadataExt;
+    old.nlink() == 1 && old.uid() == new.uid() && old.gid() == new.gid()
+}
+
+#[cfg(not(unix))]
+fn can_replace(_old: &std::fs::Metadata, _new: &std::fs::Metadata) -> bool {
+    true
+}
+
+/// Write over a file that cannot be replaced, putting back what was there if that fails.
+fn overwrite(path: &Path, content: &str) -> Result<(), io::Error> {
+    let old = std::fs::read(path);
+    std::fs::write(path, content).inspect_err(|_| {
+        if let Ok(old) = old {
+            let _ = std::fs::write(path, old);
+        }
+    })
+}
+
 // ============================================================================
 // Semantic highlighting for terminal output
 // ============================================================================
-- 
2.43.0


From 4c4be05f2c9ccb6a9f8042cef99fc58ecb3ebecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:04 +0000
Subject: [PATCH 47/84] fix: S-expression strings are JSON strings

---
 crates/styx-cli/src/main.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/crates/styx-cli/src/main.rs b/crates/styx-cli/src/main.rs
index 60a9ce8..78b3ac6 100644
--- a/crates/styx-cli/src/main.rs
+++ b/crates/styx-cli/src/main.rs
@@ -613,7 +613,12 @@ fn run_tree(format: &str, file: &str) -> Result<(), CliError> {
                     _ => (0, 0),
                 };
                 outln!("; file: {}", filename);
-                outln!("(error [{}, {}] {:?})", start, end, e.to_string());
+                outln!(
+                    "(error [{}, {}] {})",
+                    start,
+                    end,
+                    json_string(&e.to_string())
+                );
             }
         },
         "debug" => {
@@ -1338,6 +1343,11 @@ fn print_tree_inline(value: &Value) {
 
 use styx_parse::ScalarKind;
 
+/// Strings in the compliance format are JSON strings.
+fn json_string(text: &str) -> serde_json::Value {
+    serde_json::Value::from(text)
+}
+
 fn print_sexp(value: &Value, indent: usize) {
     let pad = "  ".repeat(indent);
 
@@ -1378,7 +1388,7 @@ fn print_sexp_value(value: &Value, indent: usize) {
             out!("{pad}(unit {span})");
         }
         (Some(tag), payload) => {
-            out!("{pad}(tag {span} {:?}", tag.name);
+            out!("{pad}(tag {span} {}", json_string(&tag.name));
             if let Some(p) = payload {
                 outln!();
                 print_sexp_payload(p, indent + 1);
@@ -1394,7 +1404,7 @@ fn print_sexp_value(value: &Value, indent: usize) {
                 ScalarKind::Raw => "raw",
                 ScalarKind::Heredoc => "heredoc",
             };
-            out!("{pad}(scalar {span} {kind} {:?})", s.text);
+            out!("{pad}(scalar {span} {kind} {})", json_string(&s.text));
         }
         (None, Some(Payload::Sequence(seq))) => {
             out!("{pad}(sequence {span}");
@@ -1440,7 +1450,7 @@ fn print_sexp_payload(payload: &Payload, indent: usize) {
                 ScalarKind::Raw => "raw",
                 ScalarKind::Heredoc => "heredoc",
             };
-            out!("{pad}(scalar {span} {kind} {:?})", s.text);
+            out!("{pad}(scalar {span} {kind} {})", json_string(&s.text));
         }
         Payload::Sequence(seq) => {
             let span = seq
-- 
2.43.0


From 7d26eeca55f58120d7fbd6ca7468fb1b2e13d6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:17 +0000
Subject: [PATCH 48/84] fix: JSON output keeps sibling dotted paths and names
 tagged keys as written

---
 crates/styx-cli/src/main.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/crates/styx-cli/src/main.rs b/crates/styx-cli/src/main.rs
index 78b3ac6..fffd3d4 100644
--- a/crates/styx-cli/src/main.rs
+++ b/crates/styx-cli/src/main.rs
@@ -1521,21 +1521,26 @@ fn payload_to_json(payload: &Payload) -> serde_json::Value {
         }
         Payload::Object(o) => {
             let mut obj = serde_json::Map::new();
-            for entry in &o.entries {
-                let key = if entry.key.is_unit() {
-                    "@".to_string()
-                } else if let Some(s) = entry.key.as_str() {
-                    s.to_string()
-                } else {
-                    format!("{:?}", entry.key)
-                };
-                obj.insert(key, value_to_json(&entry.value));
+            // Sibling dotted paths (`a.b 1`, `a.c 2`) are entries of one object
+            for entry in &o.join_paths().entries {
+                obj.insert(key_to_json(&entry.key), value_to_json(&entry.value));
             }
             serde_json::Value::Object(obj)
         }
     }
 }
 
+/// Keys that are not plain scalars are named the way they are written: `@`, `@tag`, `@tag"text"`.
+fn key_to_json(key: &Value) -> String {
+    let tag = key.tag.as_ref().map(|t| format!("@{}", t.name));
+    match (tag, key.scalar_text()) {
+        (None, Some(text)) => text.to_string(),
+        (Some(tag), Some(text)) => format!("{tag}{}", json_string(text)),
+        (Some(tag), None) => tag,
+        (None, None) => "@".to_string(),
+    }
+}
+
 // ============================================================================
 // Package command
 // ============================================================================
-- 
2.43.0


From 4df541de9817c9a11a77a65c1cfd9a4bee400d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:15 +0000
Subject: [PATCH 49/84] fix: a file that cannot be replaced is not emptied
 before it is overwritten

---
 crates/styx-cli/src/main.rs | 49 ++++++++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 14 deletions(-)

diff --git a/crates/styx-cli/src/main.rs b/crates/styx-cli/src/main.rs
index fffd3d4..94033c0 100644
--- a/crates/styx-cli/src/main.rs
+++ b/crates/styx-cli/src/main.rs
@@ -13,7 +13,7 @@
 //!   styx lsp                      - subcommand (bare word)
 //!   styx tree config.styx         - subcommand with file arg
 
-use std::io::{self, IsTerminal, Read, Write};
+use std::io::{self, IsTerminal, Read, Seek, Write};
 use std::path::Path;
 
 use facet::Facet;
@@ -1081,8 +1081,20 @@ fn write_file(path: &str, content: &str) -> Result<(), io::Error> {
         return std::fs::write(&path, content);
     }
 
-    let Some((temp_path, mut temp)) = create_beside(&path) else {
-        return overwrite(&path, content);
+    let (temp_path, mut temp) = match create_beside(&path) {
+        Ok(temp) => temp,
+        // The file may be written but nothing added to its directory
+        Err(e)
+            if matches!(
+                e.kind(),
+                io::ErrorKind::PermissionDenied
+                    | io::ErrorKind::ReadOnlyFilesystem
+                    | io::ErrorKind::InvalidFilename
+            ) =>
+        {
+            return overwrite(&path, content);
+        }
+        Err(e) => return Err(e),
     };
     let written = (|| {
         temp.set_permissions(metadata.permissions())?;
@@ -1099,13 +1111,17 @@ fn write_file(path: &str, content: &str) -> Result<(), io::Error> {
 }
 
 /// A new, empty file in the directory of `path`.
-fn create_beside(path: &Path) -> Option<(std::path::PathBuf, std::fs::File)> {
-    let name = path.file_name()?.to_string_lossy();
-    (0..100).find_map(|i| {
+fn create_beside(path: &Path) -> Result<(std::path::PathBuf, std::fs::File), io::Error> {
+    let name = path.file_name().unwrap_or_default().to_string_lossy();
+    let mut i = 0;
+    loop {
         let temp = path.with_file_name(format!(".{name}.{}.{i}.tmp", std::process::id()));
-        let file = std::fs::File::create_new(&temp).ok()?;
-        Some((temp, file))
-    })
+        match std::fs::File::create_new(&temp) {
+            Ok(file) => return Ok((temp, file)),
+            Err(e) if e.kind() == io::ErrorKind::AlreadyExists && i < 100 => i += 1,
+            Err(e) => return Err(e),
+        }
+    }
 }
 
 /// Whether the file can be replaced with another: not if it has other names or another owner.
@@ -1122,11 +1138,16 @@ fn can_replace(_old: &std::fs::Metadata, _new: &std::fs::Metadata) -> bool {
 
 /// Write over a file that cannot be replaced, putting back what was there if that fails.
 fn overwrite(path: &Path, content: &str) -> Result<(), io::Error> {
-    let old = std::fs::read(path);
-    std::fs::write(path, content).inspect_err(|_| {
-        if let Ok(old) = old {
-            let _ = std::fs::write(path, old);
-        }
+    let old = std::fs::read(path)?;
+    // Not truncated first: what the file holds keeps its place on the disk until all is written.
+    let mut file = std::fs::OpenOptions::new().write(true).open(path)?;
+    let mut put = |bytes: &[u8]| {
+        file.seek(io::SeekFrom::Start(0))?;
+        file.write_all(bytes)?;
+        file.set_len(bytes.len() as u64)
+    };
+    put(content.as_bytes()).inspect_err(|_| {
+        let _ = put(&old);
     })
 }
 
-- 
2.43.0


From d15b8a59a63fecd330c0c2cae5cc38226c4ca72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:36 +0000
Subject: [PATCH 50/84] fix: missing arguments are a usage error

---
 crates/styx-cli/src/main.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/crates/styx-cli/src/main.rs b/crates/styx-cli/src/main.rs
index 94033c0..187c318 100644
--- a/crates/styx-cli/src/main.rs
+++ b/crates/styx-cli/src/main.rs
@@ -367,9 +367,25 @@ fn print_help() {
     eprintln!("    styx completions bash           Generate bash completions");
 }
 
+/// Parse arguments, or say what is wrong with them and exit.
+fn parse_args<T: Facet<'static>>(args: &[String]) -> T {
+    let args: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
+    match figue::from_slice(&args).into_result() {
+        // Help that comes with a suggestion was not asked for: arguments are missing.
+        Err(figue::DriverError::Help {
+            text,
+            suggestion: Some(suggestion),
+        }) => {
+            eprintln!("{text}\n{}", suggestion.render_pretty());
+            std::process::exit(EXIT_SYNTAX_ERROR);
+        }
+        Ok(output) => output.get(),
+        Err(e) => figue::DriverOutcome::err(e).unwrap(),
+    }
+}
+
 fn run_file_mode(args: &[String]) -> Result<(), CliError> {
-    let args_strs: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
-    let opts: FileArgs = figue::from_slice(&args_strs).unwrap();
+    let opts: FileArgs = parse_args(args);
 
     // Validate option combinations
     if opts.in_place && opts.input == "-" {
@@ -459,8 +475,7 @@ fn run_file_mode(args: &[String]) -> Result<(), CliError> {
 }
 
 fn run_subcommand_mode(args: &[String]) -> Result<(), CliError> {
-    let args_strs: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
-    let parsed: Args = figue::from_slice(&args_strs).unwrap();
+    let parsed: Args = parse_args(args);
 
     match parsed.command {
         Some(Command::Lsp) => run_lsp(),
-- 
2.43.0


From a785190a98fe92d479c1ec35e6c313064a8695b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:44 +0000
Subject: [PATCH 51/84] fix: document path lookups see every sibling dotted
 path

---
 crates/styx-tree/src/lib.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/styx-tree/src/lib.rs b/crates/styx-tree/src/lib.rs
index 69fb624..c0e85c2 100644
--- a/crates/styx-tree/src/lib.rs
+++ b/crates/styx-tree/src/lib.rs
@@ -54,11 +54,15 @@ impl Document {
         }
 
         let (segment, rest) = split_path(path);
-        let value = self.root.get(segment)?;
         if rest.is_empty() {
-            Some(value)
+            self.root.get(segment)
         } else {
-            value.get(rest)
+            // Sibling dotted paths (`a.b 1`, `a.c 2`) are entries of their own.
+            self.root
+                .entries
+                .iter()
+                .filter(|e| e.key.as_str() == Some(segment))
+                .find_map(|e| e.value.get(rest))
         }
     }
 }
-- 
2.43.0


From 71f370cabbed24f0662a2afa8a20710db174b9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:15 +0000
Subject: [PATCH 52/84] fix: the editor grammar reads valid documents as the
 parser does

Blank lines, newlines and mixed separators in objects, empty // comments,
comment marks inside quotes, raw strings and heredocs attached to tags, tagged
and raw attribute values, several attributes after a comma-separated entry, and
a / item in a sequence were errors or took part of their surroundings.
---
 crates/tree-sitter-styx/grammar.js          |  103 +-
 crates/tree-sitter-styx/src/grammar.json    |  410 +-
 crates/tree-sitter-styx/src/node-types.json |   24 +-
 crates/tree-sitter-styx/src/parser.c        | 9347 ++++++++-----------
 crates/tree-sitter-styx/src/scanner.c       |   21 +-
 5 files changed, 4498 insertions(+), 5407 deletions(-)

diff --git a/crates/tree-sitter-styx/grammar.js b/crates/tree-sitter-styx/grammar.js
index 3217a7e..9212612 100644
--- a/crates/tree-sitter-styx/grammar.js
+++ b/crates/tree-sitter-styx/grammar.js
@@ -25,6 +25,7 @@ module.exports = grammar({
     $._tag_start, // @tagname (@ immediately followed by tag name)
     $._immediate_raw_string_start, // r#*" opening immediately after tag
     $._immediate_unit_at, // @ immediately after tag (no whitespace skip)
+    $._immediate_heredoc_start, // <<DELIM immediately after tag
   ],
 
   extras: ($) => [
@@ -32,18 +33,11 @@ module.exports = grammar({
     $.line_comment,
   ],
 
-  conflicts: ($) => [
-    // Attributes vs bare scalars
-    [$.attributes],
-    // Object body can be newline or comma separated
-    [$._newline_separated, $._comma_separated],
-  ],
-
   rules: {
     // Document is the root - a sequence of entries (implicit root object)
     // Allow leading newlines before content
     document: ($) =>
-      seq(repeat($._newline), repeat(seq(optional($.doc_comment), $.entry, repeat($._newline)))),
+      seq(repeat($._newline), repeat(seq(optional($.doc_comment), $.entry, repeat($._separator)))),
 
     // Entry: key followed by optional value
     // - key only = implicit unit value
@@ -72,16 +66,21 @@ module.exports = grammar({
     // IMPORTANT: Tag payloads must be IMMEDIATELY adjacent (no whitespace).
     // @tag{...} is one expr, but @tag {...} is two exprs (tag key, object value).
     expr: ($) =>
+      choice(
+        $._tagged_expr,
+        // Untagged expr: just a payload
+        field("payload", $._payload),
+        // Attributes are a special case
+        $.attributes,
+      ),
+
+    _tagged_expr: ($) =>
       choice(
         // Tagged expr with immediate payload (no whitespace between tag and payload)
         // Uses higher precedence to prefer this when payload is adjacent
         prec.right(2, seq(field("tag", $.tag), field("payload", $._immediate_payload))),
         // Tagged expr with no payload (unit) - lower precedence
         prec.right(1, field("tag", $.tag)),
-        // Untagged expr: just a payload
-        field("payload", $._payload),
-        // Attributes are a special case
-        $.attributes,
       ),
 
     // Tag: @name (just the tag itself, not including payload)
@@ -96,11 +95,11 @@ module.exports = grammar({
       choice(
         alias($._immediate_quoted_scalar, $.scalar),
         alias($._immediate_raw_scalar, $.scalar),
+        alias($._immediate_heredoc_scalar, $.scalar),
         alias($.immediate_sequence, $.sequence),
         alias($.immediate_object, $.object),
         alias($.immediate_unit, $.unit),
         // Note: bare_scalar cannot immediately follow a tag (they'd be part of the tag name)
-        // and heredocs cannot immediately follow a tag (they start with <<)
       ),
 
     // Immediate quoted scalar: "..." immediately following a tag
@@ -109,7 +108,11 @@ module.exports = grammar({
 
     // Inner rule for immediate quoted scalar (separate so we can alias the whole thing)
     immediate_quoted_scalar_inner: ($) =>
-      seq(token.immediate('"'), repeat(choice($.escape_sequence, /[^"\\]+/)), '"'),
+      seq(
+        token.immediate('"'),
+        repeat(choice($.escape_sequence, $._quoted_content)),
+        token.immediate('"'),
+      ),
 
     // Immediate raw scalar: r#"..."# immediately following a tag
     // Wraps content in raw_scalar to match normal scalar structure
@@ -119,6 +122,17 @@ module.exports = grammar({
         $.raw_scalar,
       ),
 
+    // Immediate heredoc: <<DELIM immediately following a tag
+    _immediate_heredoc_scalar: ($) => alias($._immediate_heredoc, $.heredoc),
+
+    _immediate_heredoc: ($) =>
+      seq(
+        $._immediate_heredoc_start,
+        optional(alias($._heredoc_lang, $.heredoc_lang)),
+        optional(alias($._heredoc_content, $.heredoc_content)),
+        $._heredoc_end,
+      ),
+
     immediate_sequence: ($) =>
       seq(token.immediate("("), repeat($._seq_ws), repeat(seq($.expr, repeat($._seq_ws))), ")"),
     immediate_object: ($) => seq(token.immediate("{"), optional($._object_body), "}"),
@@ -132,10 +146,14 @@ module.exports = grammar({
     bare_scalar: ($) => /[^{}\(\),"=@>\s][^{}\(\),">\s]*/,
 
     // Quoted scalar: "..." with escape sequences
-    quoted_scalar: ($) => seq('"', repeat(choice($.escape_sequence, /[^"\\]+/)), '"'),
+    quoted_scalar: ($) =>
+      seq('"', repeat(choice($.escape_sequence, $._quoted_content)), token.immediate('"')),
+
+    // Nothing inside quotes is whitespace to skip or a comment
+    _quoted_content: ($) => token.immediate(prec(3, /[^"\\]+/)),
 
     escape_sequence: ($) =>
-      token(choice(/\\[\\\"nrt]/, /\\u[0-9A-Fa-f]{4}/, /\\u\{[0-9A-Fa-f]{1,6}\}/)),
+      token.immediate(choice(/\\[\\\"nrt]/, /\\u[0-9A-Fa-f]{4}/, /\\u\{[0-9A-Fa-f]{1,6}\}/)),
 
     // Raw scalar: r#"..."# - handled by external scanner
     raw_scalar: ($) => seq($._raw_string_start, optional($._raw_string_content), $._raw_string_end),
@@ -160,43 +178,50 @@ module.exports = grammar({
     // Object: { entries }
     object: ($) => seq("{", optional($._object_body), "}"),
 
-    _object_body: ($) => choice($._newline_separated, $._comma_separated),
-
-    _newline_separated: ($) =>
-      seq(
-        optional($._newline),
-        optional($.doc_comment),
-        $.entry,
-        repeat(seq($._newline, optional($.doc_comment), $.entry)),
-        optional($._newline),
+    // Entries are separated by newlines or commas; blank lines may come before, between and after them
+    _object_body: ($) =>
+      choice(
+        repeat1($._newline),
+        seq(
+          repeat($._newline),
+          optional($.doc_comment),
+          $.entry,
+          repeat(seq(repeat1($._separator), optional($.doc_comment), $.entry)),
+          repeat($._separator),
+        ),
       ),
 
-    _comma_separated: ($) =>
-      seq(
-        $.entry,
-        repeat(seq(",", $.entry)),
-        optional(","), // trailing comma allowed
-      ),
+    _separator: ($) => choice($._newline, ","),
 
     // Attributes: key=value pairs that form an object expr
-    attributes: ($) => repeat1($.attribute),
+    attributes: ($) => prec.right(repeat1($.attribute)),
 
     attribute: ($) => seq(field("key", $.bare_scalar), ">", field("value", $._attribute_value)),
 
-    _attribute_value: ($) => choice($.bare_scalar, $.quoted_scalar, $.sequence, $.object),
+    _attribute_value: ($) =>
+      choice(
+        $.bare_scalar,
+        $.quoted_scalar,
+        $.raw_scalar,
+        $.heredoc,
+        $.sequence,
+        $.object,
+        $.unit,
+        alias($._tagged_expr, $.expr),
+      ),
 
     // Comments
-    // Line comment: // followed by space or non-/ char, then rest of line
+    // Line comment: // followed by nothing or a non-/ char, then rest of line
     // This ensures /// is NOT matched as line_comment
-    line_comment: ($) => token(seq("//", /[^\/]/, /[^\n\r]*/)),
+    line_comment: ($) => token(prec(1, seq("//", optional(seq(/[^\/\n\r]/, /[^\n\r]*/))))),
 
-    // Doc comment: /// lines (use prec to prefer over line_comment)
-    doc_comment: ($) => repeat1(seq("///", /[^\n\r]*/, $._newline)),
+    // Doc comment: /// lines, each one token (use prec to prefer over line_comment and bare_scalar)
+    doc_comment: ($) => repeat1(seq(token(prec(2, seq("///", /[^\n\r]*/))), $._newline)),
 
     // Whitespace helpers
     _ws: ($) => /[ \t]+/,
     _newline: ($) => /\r?\n/,
-    // Whitespace inside sequences (includes newlines and comments per spec)
-    _seq_ws: ($) => choice(/[ \t]+/, $._newline, $.line_comment),
+    // Newlines inside sequences (spaces and comments are extras)
+    _seq_ws: ($) => $._newline,
   },
 });
diff --git a/crates/tree-sitter-styx/src/grammar.json b/crates/tree-sitter-styx/src/grammar.json
index 0a005e1..cb2acd2 100644
--- a/crates/tree-sitter-styx/src/grammar.json
+++ b/crates/tree-sitter-styx/src/grammar.json
@@ -37,7 +37,7 @@
                 "type": "REPEAT",
                 "content": {
                   "type": "SYMBOL",
-                  "name": "_newline"
+                  "name": "_separator"
                 }
               }
             ]
@@ -84,6 +84,27 @@
       }
     },
     "expr": {
+      "type": "CHOICE",
+      "members": [
+        {
+          "type": "SYMBOL",
+          "name": "_tagged_expr"
+        },
+        {
+          "type": "FIELD",
+          "name": "payload",
+          "content": {
+            "type": "SYMBOL",
+            "name": "_payload"
+          }
+        },
+        {
+          "type": "SYMBOL",
+          "name": "attributes"
+        }
+      ]
+    },
+    "_tagged_expr": {
       "type": "CHOICE",
       "members": [
         {
@@ -122,18 +143,6 @@
               "name": "tag"
             }
           }
-        },
-        {
-          "type": "FIELD",
-          "name": "payload",
-          "content": {
-            "type": "SYMBOL",
-            "name": "_payload"
-          }
-        },
-        {
-          "type": "SYMBOL",
-          "name": "attributes"
         }
       ]
     },
@@ -183,6 +192,15 @@
           "named": true,
           "value": "scalar"
         },
+        {
+          "type": "ALIAS",
+          "content": {
+            "type": "SYMBOL",
+            "name": "_immediate_heredoc_scalar"
+          },
+          "named": true,
+          "value": "scalar"
+        },
         {
           "type": "ALIAS",
           "content": {
@@ -241,15 +259,18 @@
                 "name": "escape_sequence"
               },
               {
-                "type": "PATTERN",
-                "value": "[^\"\\\\]+"
+                "type": "SYMBOL",
+                "name": "_quoted_content"
               }
             ]
           }
         },
         {
-          "type": "STRING",
-          "value": "\""
+          "type": "IMMEDIATE_TOKEN",
+          "content": {
+            "type": "STRING",
+            "value": "\""
+          }
         }
       ]
     },
@@ -283,6 +304,62 @@
       "named": true,
       "value": "raw_scalar"
     },
+    "_immediate_heredoc_scalar": {
+      "type": "ALIAS",
+      "content": {
+        "type": "SYMBOL",
+        "name": "_immediate_heredoc"
+      },
+      "named": true,
+      "value": "heredoc"
+    },
+    "_immediate_heredoc": {
+      "type": "SEQ",
+      "members": [
+        {
+          "type": "SYMBOL",
+          "name": "_immediate_heredoc_start"
+        },
+        {
+          "type": "CHOICE",
+          "members": [
+            {
+              "type": "ALIAS",
+              "content": {
+                "type": "SYMBOL",
+                "name": "_heredoc_lang"
+              },
+              "named": true,
+              "value": "heredoc_lang"
+            },
+            {
+              "type": "BLANK"
+            }
+          ]
+        },
+        {
+          "type": "CHOICE",
+          "members": [
+            {
+              "type": "ALIAS",
+              "content": {
+                "type": "SYMBOL",
+                "name": "_heredoc_content"
+              },
+              "named": true,
+              "value": "heredoc_content"
+            },
+            {
+              "type": "BLANK"
+            }
+          ]
+        },
+        {
+          "type": "SYMBOL",
+          "name": "_heredoc_end"
+        }
+      ]
+    },
     "immediate_sequence": {
       "type": "SEQ",
       "members": [
@@ -399,20 +476,34 @@
                 "name": "escape_sequence"
               },
               {
-                "type": "PATTERN",
-                "value": "[^\"\\\\]+"
+                "type": "SYMBOL",
+                "name": "_quoted_content"
               }
             ]
           }
         },
         {
-          "type": "STRING",
-          "value": "\""
+          "type": "IMMEDIATE_TOKEN",
+          "content": {
+            "type": "STRING",
+            "value": "\""
+          }
         }
       ]
     },
+    "_quoted_content": {
+      "type": "IMMEDIATE_TOKEN",
+      "content": {
+        "type": "PREC",
+        "value": 3,
+        "content": {
+          "type": "PATTERN",
+          "value": "[^\"\\\\]+"
+        }
+      }
+    },
     "escape_sequence": {
-      "type": "TOKEN",
+      "type": "IMMEDIATE_TOKEN",
       "content": {
         "type": "CHOICE",
         "members": [
@@ -575,130 +666,102 @@
       "type": "CHOICE",
       "members": [
         {
-          "type": "SYMBOL",
-          "name": "_newline_separated"
+          "type": "REPEAT1",
+          "content": {
+            "type": "SYMBOL",
+            "name": "_newline"
+          }
         },
         {
-          "type": "SYMBOL",
-          "name": "_comma_separated"
-        }
-      ]
-    },
-    "_newline_separated": {
-      "type": "SEQ",
-      "members": [
-        {
-          "type": "CHOICE",
+          "type": "SEQ",
           "members": [
             {
-              "type": "SYMBOL",
-              "name": "_newline"
+              "type": "REPEAT",
+              "content": {
+                "type": "SYMBOL",
+                "name": "_newline"
+              }
             },
             {
-              "type": "BLANK"
-            }
-          ]
-        },
-        {
-          "type": "CHOICE",
-          "members": [
+              "type": "CHOICE",
+              "members": [
+                {
+                  "type": "SYMBOL",
+                  "name": "doc_comment"
+                },
+                {
+                  "type": "BLANK"
+                }
+              ]
+            },
             {
               "type": "SYMBOL",
-              "name": "doc_comment"
+              "name": "entry"
             },
             {
-              "type": "BLANK"
-            }
-          ]
-        },
-        {
-          "type": "SYMBOL",
-          "name": "entry"
-        },
-        {
-          "type": "REPEAT",
-          "content": {
-            "type": "SEQ",
-            "members": [
-              {
-                "type": "SYMBOL",
-                "name": "_newline"
-              },
-              {
-                "type": "CHOICE",
+              "type": "REPEAT",
+              "content": {
+                "type": "SEQ",
                 "members": [
                   {
-                    "type": "SYMBOL",
-                    "name": "doc_comment"
+                    "type": "REPEAT1",
+                    "content": {
+                      "type": "SYMBOL",
+                      "name": "_separator"
+                    }
                   },
                   {
-                    "type": "BLANK"
+                    "type": "CHOICE",
+                    "members": [
+                      {
+                        "type": "SYMBOL",
+                        "name": "doc_comment"
+                      },
+                      {
+                        "type": "BLANK"
+                      }
+                    ]
+                  },
+                  {
+                    "type": "SYMBOL",
+                    "name": "entry"
                   }
                 ]
-              },
-              {
-                "type": "SYMBOL",
-                "name": "entry"
               }
-            ]
-          }
-        },
-        {
-          "type": "CHOICE",
-          "members": [
-            {
-              "type": "SYMBOL",
-              "name": "_newline"
             },
             {
-              "type": "BLANK"
+              "type": "REPEAT",
+              "content": {
+                "type": "SYMBOL",
+                "name": "_separator"
+              }
             }
           ]
         }
       ]
     },
-    "_comma_separated": {
-      "type": "SEQ",
+    "_separator": {
+      "type": "CHOICE",
       "members": [
         {
           "type": "SYMBOL",
-          "name": "entry"
-        },
-        {
-          "type": "REPEAT",
-          "content": {
-            "type": "SEQ",
-            "members": [
-              {
-                "type": "STRING",
-                "value": ","
-              },
-              {
-                "type": "SYMBOL",
-                "name": "entry"
-              }
-            ]
-          }
+          "name": "_newline"
         },
         {
-          "type": "CHOICE",
-          "members": [
-            {
-              "type": "STRING",
-              "value": ","
-            },
-            {
-              "type": "BLANK"
-            }
-          ]
+          "type": "STRING",
+          "value": ","
         }
       ]
     },
     "attributes": {
-      "type": "REPEAT1",
+      "type": "PREC_RIGHT",
+      "value": 0,
       "content": {
-        "type": "SYMBOL",
-        "name": "attribute"
+        "type": "REPEAT1",
+        "content": {
+          "type": "SYMBOL",
+          "name": "attribute"
+        }
       }
     },
     "attribute": {
@@ -737,6 +800,14 @@
           "type": "SYMBOL",
           "name": "quoted_scalar"
         },
+        {
+          "type": "SYMBOL",
+          "name": "raw_scalar"
+        },
+        {
+          "type": "SYMBOL",
+          "name": "heredoc"
+        },
         {
           "type": "SYMBOL",
           "name": "sequence"
@@ -744,27 +815,57 @@
         {
           "type": "SYMBOL",
           "name": "object"
+        },
+        {
+          "type": "SYMBOL",
+          "name": "unit"
+        },
+        {
+          "type": "ALIAS",
+          "content": {
+            "type": "SYMBOL",
+            "name": "_tagged_expr"
+          },
+          "named": true,
+          "value": "expr"
         }
       ]
     },
     "line_comment": {
       "type": "TOKEN",
       "content": {
-        "type": "SEQ",
-        "members": [
-          {
-            "type": "STRING",
-            "value": "//"
-          },
-          {
-            "type": "PATTERN",
-            "value": "[^\\/]"
-          },
-          {
-            "type": "PATTERN",
-            "value": "[^\\n\\r]*"
-          }
-        ]
+        "type": "PREC",
+        "value": 1,
+        "content": {
+          "type": "SEQ",
+          "members": [
+            {
+              "type": "STRING",
+              "value": "//"
+            },
+            {
+              "type": "CHOICE",
+              "members": [
+                {
+                  "type": "SEQ",
+                  "members": [
+                    {
+                      "type": "PATTERN",
+                      "value": "[^\\/\\n\\r]"
+                    },
+                    {
+                      "type": "PATTERN",
+                      "value": "[^\\n\\r]*"
+                    }
+                  ]
+                },
+                {
+                  "type": "BLANK"
+                }
+              ]
+            }
+          ]
+        }
       }
     },
     "doc_comment": {
@@ -773,12 +874,24 @@
         "type": "SEQ",
         "members": [
           {
-            "type": "STRING",
-            "value": "///"
-          },
-          {
-            "type": "PATTERN",
-            "value": "[^\\n\\r]*"
+            "type": "TOKEN",
+            "content": {
+              "type": "PREC",
+              "value": 2,
+              "content": {
+                "type": "SEQ",
+                "members": [
+                  {
+                    "type": "STRING",
+                    "value": "///"
+                  },
+                  {
+                    "type": "PATTERN",
+                    "value": "[^\\n\\r]*"
+                  }
+                ]
+              }
+            }
           },
           {
             "type": "SYMBOL",
@@ -796,21 +909,8 @@
       "value": "\\r?\\n"
     },
     "_seq_ws": {
-      "type": "CHOICE",
-      "members": [
-        {
-          "type": "PATTERN",
-          "value": "[ \\t]+"
-        },
-        {
-          "type": "SYMBOL",
-          "name": "_newline"
-        },
-        {
-          "type": "SYMBOL",
-          "name": "line_comment"
-        }
-      ]
+      "type": "SYMBOL",
+      "name": "_newline"
     }
   },
   "extras": [
@@ -823,15 +923,7 @@
       "name": "line_comment"
     }
   ],
-  "conflicts": [
-    [
-      "attributes"
-    ],
-    [
-      "_newline_separated",
-      "_comma_separated"
-    ]
-  ],
+  "conflicts": [],
   "precedences": [],
   "externals": [
     {
@@ -877,6 +969,10 @@
     {
       "type": "SYMBOL",
       "name": "_immediate_unit_at"
+    },
+    {
+      "type": "SYMBOL",
+      "name": "_immediate_heredoc_start"
     }
   ],
   "inline": [],
diff --git a/crates/tree-sitter-styx/src/node-types.json b/crates/tree-sitter-styx/src/node-types.json
index be54fcd..7dd915b 100644
--- a/crates/tree-sitter-styx/src/node-types.json
+++ b/crates/tree-sitter-styx/src/node-types.json
@@ -21,6 +21,14 @@
             "type": "bare_scalar",
             "named": true
           },
+          {
+            "type": "expr",
+            "named": true
+          },
+          {
+            "type": "heredoc",
+            "named": true
+          },
           {
             "type": "object",
             "named": true
@@ -29,9 +37,17 @@
             "type": "quoted_scalar",
             "named": true
           },
+          {
+            "type": "raw_scalar",
+            "named": true
+          },
           {
             "type": "sequence",
             "named": true
+          },
+          {
+            "type": "unit",
+            "named": true
           }
         ]
       }
@@ -247,10 +263,6 @@
         {
           "type": "expr",
           "named": true
-        },
-        {
-          "type": "line_comment",
-          "named": true
         }
       ]
     }
@@ -281,10 +293,6 @@
     "type": ",",
     "named": false
   },
-  {
-    "type": "///",
-    "named": false
-  },
   {
     "type": ">",
     "named": false
diff --git a/crates/tree-sitter-styx/src/parser.c b/crates/tree-sitter-styx/src/parser.c
index 485f419..96b6114 100644
--- a/crates/tree-sitter-styx/src/parser.c
+++ b/crates/tree-sitter-styx/src/parser.c
@@ -7,106 +7,105 @@
 #endif
 
 #define LANGUAGE_VERSION 15
-#define STATE_COUNT 306
+#define STATE_COUNT 257
 #define LARGE_STATE_COUNT 2
-#define SYMBOL_COUNT 66
+#define SYMBOL_COUNT 67
 #define ALIAS_COUNT 0
-#define TOKEN_COUNT 30
-#define EXTERNAL_TOKEN_COUNT 11
+#define TOKEN_COUNT 29
+#define EXTERNAL_TOKEN_COUNT 12
 #define FIELD_COUNT 4
 #define MAX_ALIAS_SEQUENCE_LENGTH 5
 #define MAX_RESERVED_WORD_SET_SIZE 0
-#define PRODUCTION_ID_COUNT 9
+#define PRODUCTION_ID_COUNT 11
 #define SUPERTYPE_COUNT 0
 
 enum ts_symbol_identifiers {
   anon_sym_DQUOTE = 1,
-  aux_sym_immediate_quoted_scalar_inner_token1 = 2,
-  anon_sym_DQUOTE2 = 3,
-  anon_sym_LPAREN = 4,
-  anon_sym_RPAREN = 5,
-  anon_sym_LBRACE = 6,
-  anon_sym_RBRACE = 7,
-  sym_bare_scalar = 8,
+  anon_sym_LPAREN = 2,
+  anon_sym_RPAREN = 3,
+  anon_sym_LBRACE = 4,
+  anon_sym_RBRACE = 5,
+  sym_bare_scalar = 6,
+  anon_sym_DQUOTE2 = 7,
+  sym__quoted_content = 8,
   sym_escape_sequence = 9,
   anon_sym_LPAREN2 = 10,
   anon_sym_LBRACE2 = 11,
   anon_sym_COMMA = 12,
   anon_sym_GT = 13,
   sym_line_comment = 14,
-  anon_sym_SLASH_SLASH_SLASH = 15,
-  aux_sym_doc_comment_token1 = 16,
-  sym__newline = 17,
-  aux_sym__seq_ws_token1 = 18,
-  sym__heredoc_start = 19,
-  sym__heredoc_lang = 20,
-  sym__heredoc_content = 21,
-  sym__heredoc_end = 22,
-  sym__raw_string_start = 23,
-  sym__raw_string_content = 24,
-  sym__raw_string_end = 25,
-  sym__unit_at = 26,
-  sym__tag_start = 27,
-  sym__immediate_raw_string_start = 28,
-  sym__immediate_unit_at = 29,
-  sym_document = 30,
-  sym_entry = 31,
-  sym_expr = 32,
+  aux_sym_doc_comment_token1 = 15,
+  sym__newline = 16,
+  sym__heredoc_start = 17,
+  sym__heredoc_lang = 18,
+  sym__heredoc_content = 19,
+  sym__heredoc_end = 20,
+  sym__raw_string_start = 21,
+  sym__raw_string_content = 22,
+  sym__raw_string_end = 23,
+  sym__unit_at = 24,
+  sym__tag_start = 25,
+  sym__immediate_raw_string_start = 26,
+  sym__immediate_unit_at = 27,
+  sym__immediate_heredoc_start = 28,
+  sym_document = 29,
+  sym_entry = 30,
+  sym_expr = 31,
+  sym__tagged_expr = 32,
   sym_tag = 33,
   sym__payload = 34,
   sym__immediate_payload = 35,
   sym__immediate_quoted_scalar = 36,
   sym_immediate_quoted_scalar_inner = 37,
   sym__immediate_raw_scalar = 38,
-  sym_immediate_sequence = 39,
-  sym_immediate_object = 40,
-  sym_immediate_unit = 41,
-  sym_scalar = 42,
-  sym_quoted_scalar = 43,
-  sym_raw_scalar = 44,
-  sym_heredoc = 45,
-  sym_unit = 46,
-  sym_sequence = 47,
-  sym_object = 48,
-  sym__object_body = 49,
-  sym__newline_separated = 50,
-  sym__comma_separated = 51,
-  sym_attributes = 52,
-  sym_attribute = 53,
-  sym__attribute_value = 54,
-  sym_doc_comment = 55,
-  sym__seq_ws = 56,
-  aux_sym_document_repeat1 = 57,
-  aux_sym_document_repeat2 = 58,
-  aux_sym_immediate_quoted_scalar_inner_repeat1 = 59,
-  aux_sym_immediate_sequence_repeat1 = 60,
-  aux_sym_immediate_sequence_repeat2 = 61,
-  aux_sym__newline_separated_repeat1 = 62,
-  aux_sym__comma_separated_repeat1 = 63,
-  aux_sym_attributes_repeat1 = 64,
-  aux_sym_doc_comment_repeat1 = 65,
+  sym__immediate_heredoc_scalar = 39,
+  sym__immediate_heredoc = 40,
+  sym_immediate_sequence = 41,
+  sym_immediate_object = 42,
+  sym_immediate_unit = 43,
+  sym_scalar = 44,
+  sym_quoted_scalar = 45,
+  sym_raw_scalar = 46,
+  sym_heredoc = 47,
+  sym_unit = 48,
+  sym_sequence = 49,
+  sym_object = 50,
+  sym__object_body = 51,
+  sym__separator = 52,
+  sym_attributes = 53,
+  sym_attribute = 54,
+  sym__attribute_value = 55,
+  sym_doc_comment = 56,
+  sym__seq_ws = 57,
+  aux_sym_document_repeat1 = 58,
+  aux_sym_document_repeat2 = 59,
+  aux_sym_document_repeat3 = 60,
+  aux_sym_immediate_quoted_scalar_inner_repeat1 = 61,
+  aux_sym_immediate_sequence_repeat1 = 62,
+  aux_sym_immediate_sequence_repeat2 = 63,
+  aux_sym__object_body_repeat1 = 64,
+  aux_sym_attributes_repeat1 = 65,
+  aux_sym_doc_comment_repeat1 = 66,
 };
 
 static const char * const ts_symbol_names[] = {
   [ts_builtin_sym_end] = "end",
   [anon_sym_DQUOTE] = "\"",
-  [aux_sym_immediate_quoted_scalar_inner_token1] = "immediate_quoted_scalar_inner_token1",
-  [anon_sym_DQUOTE2] = "\"",
   [anon_sym_LPAREN] = "(",
   [anon_sym_RPAREN] = ")",
   [anon_sym_LBRACE] = "{",
   [anon_sym_RBRACE] = "}",
   [sym_bare_scalar] = "bare_scalar",
+  [anon_sym_DQUOTE2] = "\"",
+  [sym__quoted_content] = "_quoted_content",
   [sym_escape_sequence] = "escape_sequence",
   [anon_sym_LPAREN2] = "(",
   [anon_sym_LBRACE2] = "{",
   [anon_sym_COMMA] = ",",
   [anon_sym_GT] = ">",
   [sym_line_comment] = "line_comment",
-  [anon_sym_SLASH_SLASH_SLASH] = "///",
   [aux_sym_doc_comment_token1] = "doc_comment_token1",
   [sym__newline] = "_newline",
-  [aux_sym__seq_ws_token1] = "_seq_ws_token1",
   [sym__heredoc_start] = "_heredoc_start",
   [sym__heredoc_lang] = "heredoc_lang",
   [sym__heredoc_content] = "heredoc_content",
@@ -118,15 +117,19 @@ static const char * const ts_symbol_names[] = {
   [sym__tag_start] = "_tag_start",
   [sym__immediate_raw_string_start] = "raw_scalar",
   [sym__immediate_unit_at] = "_immediate_unit_at",
+  [sym__immediate_heredoc_start] = "_immediate_heredoc_start",
   [sym_document] = "document",
   [sym_entry] = "entry",
   [sym_expr] = "expr",
+  [sym__tagged_expr] = "_tagged_expr",
   [sym_tag] = "tag",
   [sym__payload] = "_payload",
   [sym__immediate_payload] = "_immediate_payload",
   [sym__immediate_quoted_scalar] = "scalar",
   [sym_immediate_quoted_scalar_inner] = "quoted_scalar",
   [sym__immediate_raw_scalar] = "scalar",
+  [sym__immediate_heredoc_scalar] = "scalar",
+  [sym__immediate_heredoc] = "heredoc",
   [sym_immediate_sequence] = "sequence",
   [sym_immediate_object] = "object",
   [sym_immediate_unit] = "unit",
@@ -138,8 +141,7 @@ static const char * const ts_symbol_names[] = {
   [sym_sequence] = "sequence",
   [sym_object] = "object",
   [sym__object_body] = "_object_body",
-  [sym__newline_separated] = "_newline_separated",
-  [sym__comma_separated] = "_comma_separated",
+  [sym__separator] = "_separator",
   [sym_attributes] = "attributes",
   [sym_attribute] = "attribute",
   [sym__attribute_value] = "_attribute_value",
@@ -147,11 +149,11 @@ static const char * const ts_symbol_names[] = {
   [sym__seq_ws] = "_seq_ws",
   [aux_sym_document_repeat1] = "document_repeat1",
   [aux_sym_document_repeat2] = "document_repeat2",
+  [aux_sym_document_repeat3] = "document_repeat3",
   [aux_sym_immediate_quoted_scalar_inner_repeat1] = "immediate_quoted_scalar_inner_repeat1",
   [aux_sym_immediate_sequence_repeat1] = "immediate_sequence_repeat1",
   [aux_sym_immediate_sequence_repeat2] = "immediate_sequence_repeat2",
-  [aux_sym__newline_separated_repeat1] = "_newline_separated_repeat1",
-  [aux_sym__comma_separated_repeat1] = "_comma_separated_repeat1",
+  [aux_sym__object_body_repeat1] = "_object_body_repeat1",
   [aux_sym_attributes_repeat1] = "attributes_repeat1",
   [aux_sym_doc_comment_repeat1] = "doc_comment_repeat1",
 };
@@ -159,23 +161,21 @@ static const char * const ts_symbol_names[] = {
 static const TSSymbol ts_symbol_map[] = {
   [ts_builtin_sym_end] = ts_builtin_sym_end,
   [anon_sym_DQUOTE] = anon_sym_DQUOTE,
-  [aux_sym_immediate_quoted_scalar_inner_token1] = aux_sym_immediate_quoted_scalar_inner_token1,
-  [anon_sym_DQUOTE2] = anon_sym_DQUOTE,
   [anon_sym_LPAREN] = anon_sym_LPAREN,
   [anon_sym_RPAREN] = anon_sym_RPAREN,
   [anon_sym_LBRACE] = anon_sym_LBRACE,
   [anon_sym_RBRACE] = anon_sym_RBRACE,
   [sym_bare_scalar] = sym_bare_scalar,
+  [anon_sym_DQUOTE2] = anon_sym_DQUOTE,
+  [sym__quoted_content] = sym__quoted_content,
   [sym_escape_sequence] = sym_escape_sequence,
   [anon_sym_LPAREN2] = anon_sym_LPAREN,
   [anon_sym_LBRACE2] = anon_sym_LBRACE,
   [anon_sym_COMMA] = anon_sym_COMMA,
   [anon_sym_GT] = anon_sym_GT,
   [sym_line_comment] = sym_line_comment,
-  [anon_sym_SLASH_SLASH_SLASH] = anon_sym_SLASH_SLASH_SLASH,
   [aux_sym_doc_comment_token1] = aux_sym_doc_comment_token1,
   [sym__newline] = sym__newline,
-  [aux_sym__seq_ws_token1] = aux_sym__seq_ws_token1,
   [sym__heredoc_start] = sym__heredoc_start,
   [sym__heredoc_lang] = sym__heredoc_lang,
   [sym__heredoc_content] = sym__heredoc_content,
@@ -187,15 +187,19 @@ static const TSSymbol ts_symbol_map[] = {
   [sym__tag_start] = sym__tag_start,
   [sym__immediate_raw_string_start] = sym_raw_scalar,
   [sym__immediate_unit_at] = sym__immediate_unit_at,
+  [sym__immediate_heredoc_start] = sym__immediate_heredoc_start,
   [sym_document] = sym_document,
   [sym_entry] = sym_entry,
   [sym_expr] = sym_expr,
+  [sym__tagged_expr] = sym__tagged_expr,
   [sym_tag] = sym_tag,
   [sym__payload] = sym__payload,
   [sym__immediate_payload] = sym__immediate_payload,
   [sym__immediate_quoted_scalar] = sym_scalar,
   [sym_immediate_quoted_scalar_inner] = sym_quoted_scalar,
   [sym__immediate_raw_scalar] = sym_scalar,
+  [sym__immediate_heredoc_scalar] = sym_scalar,
+  [sym__immediate_heredoc] = sym_heredoc,
   [sym_immediate_sequence] = sym_sequence,
   [sym_immediate_object] = sym_object,
   [sym_immediate_unit] = sym_unit,
@@ -207,8 +211,7 @@ static const TSSymbol ts_symbol_map[] = {
   [sym_sequence] = sym_sequence,
   [sym_object] = sym_object,
   [sym__object_body] = sym__object_body,
-  [sym__newline_separated] = sym__newline_separated,
-  [sym__comma_separated] = sym__comma_separated,
+  [sym__separator] = sym__separator,
   [sym_attributes] = sym_attributes,
   [sym_attribute] = sym_attribute,
   [sym__attribute_value] = sym__attribute_value,
@@ -216,11 +219,11 @@ static const TSSymbol ts_symbol_map[] = {
   [sym__seq_ws] = sym__seq_ws,
   [aux_sym_document_repeat1] = aux_sym_document_repeat1,
   [aux_sym_document_repeat2] = aux_sym_document_repeat2,
+  [aux_sym_document_repeat3] = aux_sym_document_repeat3,
   [aux_sym_immediate_quoted_scalar_inner_repeat1] = aux_sym_immediate_quoted_scalar_inner_repeat1,
   [aux_sym_immediate_sequence_repeat1] = aux_sym_immediate_sequence_repeat1,
   [aux_sym_immediate_sequence_repeat2] = aux_sym_immediate_sequence_repeat2,
-  [aux_sym__newline_separated_repeat1] = aux_sym__newline_separated_repeat1,
-  [aux_sym__comma_separated_repeat1] = aux_sym__comma_separated_repeat1,
+  [aux_sym__object_body_repeat1] = aux_sym__object_body_repeat1,
   [aux_sym_attributes_repeat1] = aux_sym_attributes_repeat1,
   [aux_sym_doc_comment_repeat1] = aux_sym_doc_comment_repeat1,
 };
@@ -234,14 +237,6 @@ static const TSSymbolMetadata ts_symbol_metadata[] = {
     .visible = true,
     .named = false,
   },
-  [aux_sym_immediate_quoted_scalar_inner_token1] = {
-    .visible = false,
-    .named = false,
-  },
-  [anon_sym_DQUOTE2] = {
-    .visible = true,
-    .named = false,
-  },
   [anon_sym_LPAREN] = {
     .visible = true,
     .named = false,
@@ -262,6 +257,14 @@ static const TSSymbolMetadata ts_symbol_metadata[] = {
     .visible = true,
     .named = true,
   },
+  [anon_sym_DQUOTE2] = {
+    .visible = true,
+    .named = false,
+  },
+  [sym__quoted_content] = {
+    .visible = false,
+    .named = true,
+  },
   [sym_escape_sequence] = {
     .visible = true,
     .named = true,
@@ -286,10 +289,6 @@ static const TSSymbolMetadata ts_symbol_metadata[] = {
     .visible = true,
     .named = true,
   },
-  [anon_sym_SLASH_SLASH_SLASH] = {
-    .visible = true,
-    .named = false,
-  },
   [aux_sym_doc_comment_token1] = {
     .visible = false,
     .named = false,
@@ -298,10 +297,6 @@ static const TSSymbolMetadata ts_symbol_metadata[] = {
     .visible = false,
     .named = true,
   },
-  [aux_sym__seq_ws_token1] = {
-    .visible = false,
-    .named = false,
-  },
   [sym__heredoc_start] = {
     .visible = false,
     .named = true,
@@ -346,6 +341,10 @@ static const TSSymbolMetadata ts_symbol_metadata[] = {
     .visible = false,
     .named = true,
   },
+  [sym__immediate_heredoc_start] = {
+    .visible = false,
+    .named = true,
+  },
   [sym_document] = {
     .visible = true,
     .named = true,
@@ -358,6 +357,10 @@ static const TSSymbolMetadata ts_symbol_metadata[] = {
     .visible = true,
     .named = true,
   },
+  [sym__tagged_expr] = {
+    .visible = false,
+    .named = true,
+  },
   [sym_tag] = {
     .visible = true,
     .named = true,
@@ -382,6 +385,14 @@ static const TSSymbolMetadata ts_symbol_metadata[] = {
     .visible = true,
     .named = true,
   },
+  [sym__immediate_heredoc_scalar] = {
+    .visible = true,
+    .named = true,
+  },
+  [sym__immediate_heredoc] = {
+    .visible = true,
+    .named = true,
+  },
   [sym_immediate_sequence] = {
     .visible = true,
     .named = true,
@@ -426,11 +437,7 @@ static const TSSymbolMetadata ts_symbol_metadata[] = {
     .visible = false,
     .named = true,
   },
-  [sym__newline_separated] = {
-    .visible = false,
-    .named = true,
-  },
-  [sym__comma_separated] = {
+  [sym__separator] = {
     .visible = false,
     .named = true,
   },
@@ -462,23 +469,23 @@ static const TSSymbolMetadata ts_symbol_metadata[] = {
     .visible = false,
     .named = false,
   },
-  [aux_sym_immediate_quoted_scalar_inner_repeat1] = {
+  [aux_sym_document_repeat3] = {
     .visible = false,
     .named = false,
   },
-  [aux_sym_immediate_sequence_repeat1] = {
+  [aux_sym_immediate_quoted_scalar_inner_repeat1] = {
     .visible = false,
     .named = false,
   },
-  [aux_sym_immediate_sequence_repeat2] = {
+  [aux_sym_immediate_sequence_repeat1] = {
     .visible = false,
     .named = false,
   },
-  [aux_sym__newline_separated_repeat1] = {
+  [aux_sym_immediate_sequence_repeat2] = {
     .visible = false,
     .named = false,
   },
-  [aux_sym__comma_separated_repeat1] = {
+  [aux_sym__object_body_repeat1] = {
     .visible = false,
     .named = false,
   },
@@ -509,27 +516,32 @@ static const char * const ts_field_names[] = {
 
 static const TSMapSlice ts_field_map_slices[PRODUCTION_ID_COUNT] = {
   [1] = {.index = 0, .length = 1},
-  [2] = {.index = 1, .length = 1},
-  [3] = {.index = 2, .length = 1},
-  [4] = {.index = 3, .length = 2},
+  [2] = {.index = 1, .length = 2},
+  [3] = {.index = 3, .length = 1},
+  [4] = {.index = 4, .length = 1},
   [5] = {.index = 5, .length = 2},
   [6] = {.index = 7, .length = 2},
+  [7] = {.index = 1, .length = 2},
+  [8] = {.index = 9, .length = 2},
 };
 
 static const TSFieldMapEntry ts_field_map_entries[] = {
   [0] =
     {field_key, 0},
   [1] =
+    {field_payload, 0, .inherited = true},
+    {field_tag, 0, .inherited = true},
+  [3] =
     {field_tag, 0},
-  [2] =
+  [4] =
     {field_payload, 0},
-  [3] =
+  [5] =
     {field_key, 0},
     {field_value, 1},
-  [5] =
+  [7] =
     {field_payload, 1},
     {field_tag, 0},
-  [7] =
+  [9] =
     {field_key, 0},
     {field_value, 2},
 };
@@ -537,15 +549,21 @@ static const TSFieldMapEntry ts_field_map_entries[] = {
 static const TSSymbol ts_alias_sequences[PRODUCTION_ID_COUNT][MAX_ALIAS_SEQUENCE_LENGTH] = {
   [0] = {0},
   [7] = {
+    [0] = sym_expr,
+  },
+  [9] = {
     [1] = sym_raw_scalar,
   },
-  [8] = {
+  [10] = {
     [1] = sym_raw_scalar,
     [2] = sym_raw_scalar,
   },
 };
 
 static const uint16_t ts_non_terminal_alias_map[] = {
+  sym__tagged_expr, 2,
+    sym__tagged_expr,
+    sym_expr,
   0,
 };
 
@@ -553,309 +571,260 @@ static const TSStateId ts_primary_state_ids[STATE_COUNT] = {
   [0] = 0,
   [1] = 1,
   [2] = 2,
-  [3] = 2,
-  [4] = 2,
+  [3] = 3,
+  [4] = 4,
   [5] = 5,
-  [6] = 2,
-  [7] = 5,
-  [8] = 2,
-  [9] = 5,
-  [10] = 5,
-  [11] = 11,
-  [12] = 12,
-  [13] = 13,
+  [6] = 6,
+  [7] = 7,
+  [8] = 7,
+  [9] = 9,
+  [10] = 10,
+  [11] = 7,
+  [12] = 6,
+  [13] = 6,
   [14] = 14,
-  [15] = 12,
+  [15] = 15,
   [16] = 16,
-  [17] = 16,
-  [18] = 12,
-  [19] = 14,
-  [20] = 16,
-  [21] = 13,
-  [22] = 12,
-  [23] = 13,
-  [24] = 24,
-  [25] = 14,
-  [26] = 16,
-  [27] = 27,
-  [28] = 12,
-  [29] = 13,
-  [30] = 30,
-  [31] = 14,
-  [32] = 16,
-  [33] = 33,
+  [17] = 17,
+  [18] = 18,
+  [19] = 19,
+  [20] = 20,
+  [21] = 21,
+  [22] = 22,
+  [23] = 19,
+  [24] = 22,
+  [25] = 18,
+  [26] = 21,
+  [27] = 20,
+  [28] = 22,
+  [29] = 18,
+  [30] = 21,
+  [31] = 20,
+  [32] = 32,
+  [33] = 32,
   [34] = 34,
   [35] = 35,
   [36] = 36,
-  [37] = 37,
-  [38] = 38,
+  [37] = 36,
+  [38] = 35,
   [39] = 39,
   [40] = 39,
-  [41] = 41,
-  [42] = 42,
-  [43] = 41,
-  [44] = 44,
-  [45] = 42,
-  [46] = 42,
+  [41] = 34,
+  [42] = 34,
+  [43] = 43,
+  [44] = 35,
+  [45] = 36,
+  [46] = 39,
   [47] = 47,
   [48] = 48,
   [49] = 49,
-  [50] = 44,
-  [51] = 44,
-  [52] = 42,
-  [53] = 47,
-  [54] = 47,
-  [55] = 48,
-  [56] = 44,
+  [50] = 50,
+  [51] = 19,
+  [52] = 52,
+  [53] = 52,
+  [54] = 54,
+  [55] = 54,
+  [56] = 54,
   [57] = 57,
-  [58] = 48,
-  [59] = 42,
-  [60] = 47,
-  [61] = 48,
-  [62] = 41,
-  [63] = 44,
+  [58] = 58,
+  [59] = 57,
+  [60] = 60,
+  [61] = 61,
+  [62] = 60,
+  [63] = 63,
   [64] = 64,
   [65] = 65,
-  [66] = 66,
+  [66] = 65,
   [67] = 67,
-  [68] = 68,
+  [68] = 67,
   [69] = 69,
   [70] = 70,
-  [71] = 70,
-  [72] = 70,
-  [73] = 41,
+  [71] = 71,
+  [72] = 72,
+  [73] = 73,
   [74] = 74,
   [75] = 75,
   [76] = 76,
   [77] = 77,
-  [78] = 75,
-  [79] = 76,
-  [80] = 75,
+  [78] = 78,
+  [79] = 79,
+  [80] = 80,
   [81] = 81,
-  [82] = 76,
+  [82] = 82,
   [83] = 83,
   [84] = 84,
-  [85] = 84,
+  [85] = 85,
   [86] = 86,
   [87] = 87,
-  [88] = 84,
-  [89] = 89,
+  [88] = 88,
+  [89] = 69,
   [90] = 90,
   [91] = 91,
   [92] = 92,
-  [93] = 93,
+  [93] = 88,
   [94] = 94,
   [95] = 95,
-  [96] = 96,
+  [96] = 83,
   [97] = 97,
-  [98] = 98,
-  [99] = 99,
-  [100] = 100,
+  [98] = 94,
+  [99] = 95,
+  [100] = 97,
   [101] = 101,
-  [102] = 102,
-  [103] = 103,
-  [104] = 104,
-  [105] = 105,
-  [106] = 106,
+  [102] = 75,
+  [103] = 72,
+  [104] = 77,
+  [105] = 79,
+  [106] = 90,
   [107] = 107,
   [108] = 108,
-  [109] = 99,
-  [110] = 103,
+  [109] = 109,
+  [110] = 110,
   [111] = 111,
-  [112] = 111,
+  [112] = 107,
   [113] = 113,
   [114] = 114,
   [115] = 115,
   [116] = 116,
   [117] = 117,
   [118] = 118,
-  [119] = 91,
-  [120] = 120,
-  [121] = 121,
+  [119] = 71,
+  [120] = 73,
+  [121] = 74,
   [122] = 122,
-  [123] = 123,
-  [124] = 124,
-  [125] = 92,
-  [126] = 93,
-  [127] = 94,
-  [128] = 95,
-  [129] = 97,
-  [130] = 98,
-  [131] = 100,
-  [132] = 101,
-  [133] = 102,
-  [134] = 104,
-  [135] = 105,
-  [136] = 106,
-  [137] = 107,
-  [138] = 108,
-  [139] = 99,
-  [140] = 103,
-  [141] = 111,
-  [142] = 113,
-  [143] = 114,
-  [144] = 115,
-  [145] = 116,
-  [146] = 117,
-  [147] = 118,
-  [148] = 104,
-  [149] = 120,
-  [150] = 121,
-  [151] = 122,
-  [152] = 123,
-  [153] = 124,
-  [154] = 92,
-  [155] = 93,
-  [156] = 94,
-  [157] = 95,
-  [158] = 97,
-  [159] = 113,
-  [160] = 114,
-  [161] = 115,
-  [162] = 116,
-  [163] = 117,
-  [164] = 105,
-  [165] = 106,
-  [166] = 107,
-  [167] = 118,
-  [168] = 91,
-  [169] = 120,
-  [170] = 121,
-  [171] = 98,
-  [172] = 100,
-  [173] = 122,
-  [174] = 108,
-  [175] = 123,
-  [176] = 124,
-  [177] = 101,
-  [178] = 102,
+  [123] = 76,
+  [124] = 78,
+  [125] = 80,
+  [126] = 81,
+  [127] = 84,
+  [128] = 85,
+  [129] = 86,
+  [130] = 87,
+  [131] = 91,
+  [132] = 92,
+  [133] = 108,
+  [134] = 109,
+  [135] = 110,
+  [136] = 111,
+  [137] = 113,
+  [138] = 114,
+  [139] = 115,
+  [140] = 116,
+  [141] = 117,
+  [142] = 142,
+  [143] = 118,
+  [144] = 122,
+  [145] = 52,
+  [146] = 146,
+  [147] = 147,
+  [148] = 148,
+  [149] = 149,
+  [150] = 150,
+  [151] = 65,
+  [152] = 152,
+  [153] = 153,
+  [154] = 57,
+  [155] = 155,
+  [156] = 156,
+  [157] = 157,
+  [158] = 85,
+  [159] = 114,
+  [160] = 115,
+  [161] = 116,
+  [162] = 117,
+  [163] = 118,
+  [164] = 71,
+  [165] = 73,
+  [166] = 74,
+  [167] = 122,
+  [168] = 76,
+  [169] = 78,
+  [170] = 80,
+  [171] = 81,
+  [172] = 84,
+  [173] = 72,
+  [174] = 86,
+  [175] = 87,
+  [176] = 69,
+  [177] = 91,
+  [178] = 77,
   [179] = 179,
-  [180] = 180,
-  [181] = 181,
+  [180] = 179,
+  [181] = 90,
   [182] = 182,
-  [183] = 182,
-  [184] = 70,
-  [185] = 182,
-  [186] = 182,
-  [187] = 76,
+  [183] = 67,
+  [184] = 184,
+  [185] = 107,
+  [186] = 108,
+  [187] = 187,
   [188] = 75,
-  [189] = 189,
-  [190] = 190,
-  [191] = 191,
-  [192] = 191,
-  [193] = 193,
-  [194] = 194,
-  [195] = 190,
-  [196] = 190,
-  [197] = 194,
-  [198] = 84,
-  [199] = 199,
-  [200] = 193,
-  [201] = 116,
-  [202] = 106,
-  [203] = 191,
-  [204] = 193,
-  [205] = 194,
-  [206] = 107,
-  [207] = 191,
-  [208] = 108,
-  [209] = 115,
-  [210] = 117,
-  [211] = 194,
-  [212] = 118,
-  [213] = 124,
-  [214] = 193,
-  [215] = 193,
-  [216] = 190,
-  [217] = 191,
-  [218] = 92,
-  [219] = 219,
+  [189] = 179,
+  [190] = 109,
+  [191] = 182,
+  [192] = 110,
+  [193] = 79,
+  [194] = 184,
+  [195] = 113,
+  [196] = 184,
+  [197] = 197,
+  [198] = 187,
+  [199] = 182,
+  [200] = 187,
+  [201] = 88,
+  [202] = 92,
+  [203] = 83,
+  [204] = 204,
+  [205] = 205,
+  [206] = 94,
+  [207] = 95,
+  [208] = 208,
+  [209] = 97,
+  [210] = 210,
+  [211] = 208,
+  [212] = 204,
+  [213] = 101,
+  [214] = 208,
+  [215] = 204,
+  [216] = 216,
+  [217] = 217,
+  [218] = 218,
+  [219] = 216,
   [220] = 220,
-  [221] = 98,
-  [222] = 222,
-  [223] = 100,
-  [224] = 101,
-  [225] = 102,
-  [226] = 104,
-  [227] = 105,
-  [228] = 106,
-  [229] = 107,
+  [221] = 220,
+  [222] = 218,
+  [223] = 216,
+  [224] = 217,
+  [225] = 217,
+  [226] = 220,
+  [227] = 218,
+  [228] = 228,
+  [229] = 229,
   [230] = 230,
-  [231] = 108,
-  [232] = 99,
+  [231] = 231,
+  [232] = 229,
   [233] = 233,
-  [234] = 103,
-  [235] = 111,
-  [236] = 113,
-  [237] = 114,
+  [234] = 234,
+  [235] = 235,
+  [236] = 230,
+  [237] = 237,
   [238] = 238,
-  [239] = 239,
-  [240] = 230,
-  [241] = 115,
+  [239] = 237,
+  [240] = 240,
+  [241] = 240,
   [242] = 242,
-  [243] = 117,
-  [244] = 230,
-  [245] = 118,
-  [246] = 91,
-  [247] = 120,
-  [248] = 121,
-  [249] = 122,
-  [250] = 123,
-  [251] = 124,
-  [252] = 93,
-  [253] = 94,
-  [254] = 95,
-  [255] = 97,
-  [256] = 96,
-  [257] = 257,
-  [258] = 230,
-  [259] = 259,
-  [260] = 260,
-  [261] = 259,
-  [262] = 260,
-  [263] = 263,
-  [264] = 259,
-  [265] = 265,
-  [266] = 259,
-  [267] = 265,
-  [268] = 265,
-  [269] = 269,
-  [270] = 265,
-  [271] = 260,
-  [272] = 260,
-  [273] = 273,
-  [274] = 274,
-  [275] = 275,
-  [276] = 276,
-  [277] = 277,
-  [278] = 278,
-  [279] = 279,
-  [280] = 280,
-  [281] = 278,
-  [282] = 278,
-  [283] = 277,
-  [284] = 277,
-  [285] = 285,
-  [286] = 276,
-  [287] = 285,
-  [288] = 276,
-  [289] = 285,
-  [290] = 276,
-  [291] = 279,
-  [292] = 274,
-  [293] = 274,
-  [294] = 280,
-  [295] = 295,
-  [296] = 280,
-  [297] = 278,
-  [298] = 298,
-  [299] = 280,
-  [300] = 285,
-  [301] = 274,
-  [302] = 279,
-  [303] = 279,
-  [304] = 277,
-  [305] = 277,
+  [243] = 235,
+  [244] = 240,
+  [245] = 242,
+  [246] = 229,
+  [247] = 233,
+  [248] = 233,
+  [249] = 238,
+  [250] = 237,
+  [251] = 230,
+  [252] = 231,
+  [253] = 235,
+  [254] = 238,
+  [255] = 231,
+  [256] = 242,
 };
 
 static const TSCharacterRange sym_bare_scalar_character_set_2[] = {
@@ -868,469 +837,474 @@ static bool ts_lex(TSLexer *lexer, TSStateId state) {
   eof = lexer->eof(lexer);
   switch (state) {
     case 0:
-      if (eof) ADVANCE(26);
+      if (eof) ADVANCE(22);
       ADVANCE_MAP(
-        '\n', 55,
+        '\n', 54,
         '\r', 1,
-        '"', 27,
-        '(', 34,
-        ')', 35,
-        ',', 47,
-        '/', 39,
-        '>', 48,
-        '{', 36,
-        '}', 37,
+        '"', 23,
+        '(', 24,
+        ')', 25,
+        ',', 46,
+        '/', 29,
+        '>', 47,
+        '\\', 28,
+        '{', 26,
+        '}', 27,
       );
       if (lookahead == '\t' ||
-          lookahead == ' ') SKIP(23);
+          lookahead == ' ') SKIP(18);
       if (lookahead != 0 &&
           (lookahead < '\t' || '\r' < lookahead) &&
           lookahead != '=' &&
           lookahead != '>' &&
-          lookahead != '@') ADVANCE(43);
+          lookahead != '@') ADVANCE(35);
       END_STATE();
     case 1:
-      if (lookahead == '\n') ADVANCE(55);
+      if (lookahead == '\n') ADVANCE(54);
       END_STATE();
     case 2:
       ADVANCE_MAP(
-        '\n', 55,
+        '\n', 54,
         '\r', 1,
-        '"', 27,
-        '(', 34,
-        ')', 35,
-        '/', 41,
-        '{', 36,
-        '\t', 56,
-        ' ', 56,
+        '"', 23,
+        '(', 24,
+        ')', 25,
+        ',', 46,
+        '/', 30,
+        '{', 26,
+        '}', 27,
       );
+      if (lookahead == '\t' ||
+          lookahead == ' ') SKIP(3);
       if (lookahead != 0 &&
           (lookahead < '\t' || '\r' < lookahead) &&
-          lookahead != ',' &&
           lookahead != '=' &&
           lookahead != '>' &&
-          lookahead != '@' &&
-          lookahead != '}') ADVANCE(43);
+          lookahead != '@') ADVANCE(35);
       END_STATE();
     case 3:
       ADVANCE_MAP(
-        '\n', 55,
+        '\n', 54,
         '\r', 1,
-        '"', 27,
-        '(', 34,
-        ',', 47,
-        '/', 41,
-        '{', 36,
-        '}', 37,
+        '"', 36,
+        '(', 44,
+        ')', 25,
+        ',', 46,
+        '/', 30,
+        '{', 45,
+        '}', 27,
       );
       if (lookahead == '\t' ||
-          lookahead == ' ') SKIP(6);
+          lookahead == ' ') SKIP(3);
       if (lookahead != 0 &&
           (lookahead < '\t' || '\r' < lookahead) &&
-          lookahead != '(' &&
-          lookahead != ')' &&
           lookahead != '=' &&
           lookahead != '>' &&
-          lookahead != '@') ADVANCE(43);
+          lookahead != '@') ADVANCE(35);
       END_STATE();
     case 4:
-      ADVANCE_MAP(
-        '\n', 55,
-        '\r', 1,
-        '"', 33,
-        '(', 45,
-        ')', 35,
-        ',', 47,
-        '/', 41,
-        '>', 48,
-        '{', 46,
-        '}', 37,
-      );
+      if (lookahead == '"') ADVANCE(23);
+      if (lookahead == '/') ADVANCE(38);
+      if (lookahead == '\\') ADVANCE(5);
       if (lookahead == '\t' ||
-          lookahead == ' ') SKIP(4);
-      if (lookahead != 0 &&
-          (lookahead < '\t' || '\r' < lookahead) &&
-          lookahead != '=' &&
-          lookahead != '>' &&
-          lookahead != '@') ADVANCE(43);
+          lookahead == ' ') ADVANCE(37);
+      if (lookahead != 0) ADVANCE(41);
       END_STATE();
     case 5:
-      ADVANCE_MAP(
-        '\n', 55,
-        '\r', 1,
-        '"', 33,
-        '(', 45,
-        ')', 35,
-        '/', 41,
-        '>', 48,
-        '{', 46,
-        '\t', 56,
-        ' ', 56,
-      );
-      if (lookahead != 0 &&
-          (lookahead < '\t' || '\r' < lookahead) &&
-          lookahead != ',' &&
-          lookahead != '=' &&
-          lookahead != '>' &&
-          lookahead != '@' &&
-          lookahead != '}') ADVANCE(43);
+      if (lookahead == 'u') ADVANCE(6);
+      if (lookahead == '"' ||
+          lookahead == '\\' ||
+          lookahead == 'n' ||
+          lookahead == 'r' ||
+          lookahead == 't') ADVANCE(42);
       END_STATE();
     case 6:
-      ADVANCE_MAP(
-        '\n', 55,
-        '\r', 1,
-        '"', 33,
-        '(', 45,
-        ',', 47,
-        '/', 41,
-        '{', 46,
-        '}', 37,
-      );
-      if (lookahead == '\t' ||
-          lookahead == ' ') SKIP(6);
-      if (lookahead != 0 &&
-          (lookahead < '\t' || '\r' < lookahead) &&
-          lookahead != '(' &&
-          lookahead != ')' &&
-          lookahead != '=' &&
-          lookahead != '>' &&
-          lookahead != '@') ADVANCE(43);
+      if (lookahead == '{') ADVANCE(14);
+      if (('0' <= lookahead && lookahead <= '9') ||
+          ('A' <= lookahead && lookahead <= 'F') ||
+          ('a' <= lookahead && lookahead <= 'f')) ADVANCE(16);
       END_STATE();
     case 7:
-      if (lookahead == '"') ADVANCE(33);
-      if (lookahead == '/') ADVANCE(30);
-      if (lookahead == '\\') ADVANCE(9);
-      if (lookahead == '\t' ||
-          lookahead == ' ') ADVANCE(28);
-      if (lookahead != 0) ADVANCE(32);
+      if (lookahead == '}') ADVANCE(42);
       END_STATE();
     case 8:
-      if (lookahead == '/') ADVANCE(21);
+      if (lookahead == '}') ADVANCE(42);
+      if (('0' <= lookahead && lookahead <= '9') ||
+          ('A' <= lookahead && lookahead <= 'F') ||
+          ('a' <= lookahead && lookahead <= 'f')) ADVANCE(7);
       END_STATE();
     case 9:
-      if (lookahead == 'u') ADVANCE(10);
-      if (lookahead == '"' ||
-          lookahead == '\\' ||
-          lookahead == 'n' ||
-          lookahead == 'r' ||
-          lookahead == 't') ADVANCE(44);
+      if (lookahead == '}') ADVANCE(42);
+      if (('0' <= lookahead && lookahead <= '9') ||
+          ('A' <= lookahead && lookahead <= 'F') ||
+          ('a' <= lookahead && lookahead <= 'f')) ADVANCE(8);
       END_STATE();
     case 10:
-      if (lookahead == '{') ADVANCE(18);
+      if (lookahead == '}') ADVANCE(42);
       if (('0' <= lookahead && lookahead <= '9') ||
           ('A' <= lookahead && lookahead <= 'F') ||
-          ('a' <= lookahead && lookahead <= 'f')) ADVANCE(20);
+          ('a' <= lookahead && lookahead <= 'f')) ADVANCE(9);
       END_STATE();
     case 11:
-      if (lookahead == '}') ADVANCE(44);
+      if (lookahead == '}') ADVANCE(42);
+      if (('0' <= lookahead && lookahead <= '9') ||
+          ('A' <= lookahead && lookahead <= 'F') ||
+          ('a' <= lookahead && lookahead <= 'f')) ADVANCE(10);
       END_STATE();
     case 12:
-      if (lookahead == '}') ADVANCE(44);
+      if (lookahead == '}') ADVANCE(42);
       if (('0' <= lookahead && lookahead <= '9') ||
           ('A' <= lookahead && lookahead <= 'F') ||
           ('a' <= lookahead && lookahead <= 'f')) ADVANCE(11);
       END_STATE();
     case 13:
-      if (lookahead == '}') ADVANCE(44);
       if (('0' <= lookahead && lookahead <= '9') ||
           ('A' <= lookahead && lookahead <= 'F') ||
-          ('a' <= lookahead && lookahead <= 'f')) ADVANCE(12);
+          ('a' <= lookahead && lookahead <= 'f')) ADVANCE(42);
       END_STATE();
     case 14:
-      if (lookahead == '}') ADVANCE(44);
       if (('0' <= lookahead && lookahead <= '9') ||
           ('A' <= lookahead && lookahead <= 'F') ||
-          ('a' <= lookahead && lookahead <= 'f')) ADVANCE(13);
+          ('a' <= lookahead && lookahead <= 'f')) ADVANCE(12);
       END_STATE();
     case 15:
-      if (lookahead == '}') ADVANCE(44);
       if (('0' <= lookahead && lookahead <= '9') ||
           ('A' <= lookahead && lookahead <= 'F') ||
-          ('a' <= lookahead && lookahead <= 'f')) ADVANCE(14);
+          ('a' <= lookahead && lookahead <= 'f')) ADVANCE(13);
       END_STATE();
     case 16:
-      if (lookahead == '}') ADVANCE(44);
       if (('0' <= lookahead && lookahead <= '9') ||
           ('A' <= lookahead && lookahead <= 'F') ||
           ('a' <= lookahead && lookahead <= 'f')) ADVANCE(15);
       END_STATE();
     case 17:
-      if (('0' <= lookahead && lookahead <= '9') ||
-          ('A' <= lookahead && lookahead <= 'F') ||
-          ('a' <= lookahead && lookahead <= 'f')) ADVANCE(44);
-      END_STATE();
-    case 18:
-      if (('0' <= lookahead && lookahead <= '9') ||
-          ('A' <= lookahead && lookahead <= 'F') ||
-          ('a' <= lookahead && lookahead <= 'f')) ADVANCE(16);
-      END_STATE();
-    case 19:
-      if (('0' <= lookahead && lookahead <= '9') ||
-          ('A' <= lookahead && lookahead <= 'F') ||
-          ('a' <= lookahead && lookahead <= 'f')) ADVANCE(17);
-      END_STATE();
-    case 20:
-      if (('0' <= lookahead && lookahead <= '9') ||
-          ('A' <= lookahead && lookahead <= 'F') ||
-          ('a' <= lookahead && lookahead <= 'f')) ADVANCE(19);
-      END_STATE();
-    case 21:
+      if (eof) ADVANCE(22);
+      if (lookahead == '\n') ADVANCE(54);
+      if (lookahead == '\r') ADVANCE(1);
+      if (lookahead == '"') ADVANCE(23);
+      if (lookahead == '(') ADVANCE(24);
+      if (lookahead == ',') ADVANCE(46);
+      if (lookahead == '/') ADVANCE(29);
+      if (lookahead == '{') ADVANCE(26);
+      if (lookahead == '\t' ||
+          lookahead == ' ') SKIP(21);
       if (lookahead != 0 &&
-          lookahead != '/') ADVANCE(49);
+          (lookahead < '\t' || '\r' < lookahead) &&
+          lookahead != '(' &&
+          lookahead != ')' &&
+          lookahead != '=' &&
+          lookahead != '>' &&
+          lookahead != '@' &&
+          lookahead != '}') ADVANCE(35);
       END_STATE();
-    case 22:
-      if (eof) ADVANCE(26);
+    case 18:
+      if (eof) ADVANCE(22);
       ADVANCE_MAP(
-        '\n', 55,
+        '\n', 54,
         '\r', 1,
-        '"', 27,
-        '(', 34,
-        ',', 47,
-        '/', 8,
-        '>', 48,
-        '{', 36,
-        '}', 37,
+        '"', 36,
+        '(', 44,
+        ')', 25,
+        ',', 46,
+        '/', 29,
+        '>', 47,
+        '{', 45,
+        '}', 27,
       );
       if (lookahead == '\t' ||
-          lookahead == ' ') SKIP(25);
+          lookahead == ' ') SKIP(18);
+      if (lookahead != 0 &&
+          (lookahead < '\t' || '\r' < lookahead) &&
+          lookahead != '=' &&
+          lookahead != '>' &&
+          lookahead != '@') ADVANCE(35);
       END_STATE();
-    case 23:
-      if (eof) ADVANCE(26);
+    case 19:
+      if (eof) ADVANCE(22);
       ADVANCE_MAP(
-        '\n', 55,
+        '\n', 54,
         '\r', 1,
-        '"', 33,
-        '(', 45,
-        ')', 35,
-        ',', 47,
-        '/', 39,
-        '>', 48,
-        '{', 46,
-        '}', 37,
+        '"', 36,
+        '(', 44,
+        ')', 25,
+        ',', 46,
+        '/', 30,
+        '>', 47,
+        '{', 45,
+        '}', 27,
       );
       if (lookahead == '\t' ||
-          lookahead == ' ') SKIP(23);
+          lookahead == ' ') SKIP(19);
       if (lookahead != 0 &&
           (lookahead < '\t' || '\r' < lookahead) &&
           lookahead != '=' &&
           lookahead != '>' &&
-          lookahead != '@') ADVANCE(43);
+          lookahead != '@') ADVANCE(35);
       END_STATE();
-    case 24:
-      if (eof) ADVANCE(26);
+    case 20:
+      if (eof) ADVANCE(22);
       ADVANCE_MAP(
-        '\n', 55,
+        '\n', 54,
         '\r', 1,
-        '"', 33,
-        '(', 45,
-        '/', 39,
-        '>', 48,
-        '{', 46,
-        '}', 37,
+        '"', 36,
+        '(', 44,
+        ',', 46,
+        '/', 29,
+        '>', 47,
+        '{', 45,
+        '}', 27,
       );
       if (lookahead == '\t' ||
-          lookahead == ' ') SKIP(24);
+          lookahead == ' ') SKIP(20);
       if (lookahead != 0 &&
           (lookahead < '\t' || '\r' < lookahead) &&
           lookahead != '(' &&
           lookahead != ')' &&
-          lookahead != ',' &&
           lookahead != '=' &&
           lookahead != '>' &&
-          lookahead != '@') ADVANCE(43);
+          lookahead != '@') ADVANCE(35);
       END_STATE();
-    case 25:
-      if (eof) ADVANCE(26);
-      if (lookahead == '\n') ADVANCE(55);
+    case 21:
+      if (eof) ADVANCE(22);
+      if (lookahead == '\n') ADVANCE(54);
       if (lookahead == '\r') ADVANCE(1);
-      if (lookahead == ',') ADVANCE(47);
-      if (lookahead == '/') ADVANCE(8);
-      if (lookahead == '>') ADVANCE(48);
-      if (lookahead == '}') ADVANCE(37);
+      if (lookahead == '"') ADVANCE(36);
+      if (lookahead == '(') ADVANCE(44);
+      if (lookahead == ',') ADVANCE(46);
+      if (lookahead == '/') ADVANCE(29);
+      if (lookahead == '{') ADVANCE(45);
       if (lookahead == '\t' ||
-          lookahead == ' ') SKIP(25);
+          lookahead == ' ') SKIP(21);
+      if (lookahead != 0 &&
+          (lookahead < '\t' || '\r' < lookahead) &&
+          lookahead != '(' &&
+          lookahead != ')' &&
+          lookahead != '=' &&
+          lookahead != '>' &&
+          lookahead != '@' &&
+          lookahead != '}') ADVANCE(35);
       END_STATE();
-    case 26:
+    case 22:
       ACCEPT_TOKEN(ts_builtin_sym_end);
       END_STATE();
-    case 27:
+    case 23:
       ACCEPT_TOKEN(anon_sym_DQUOTE);
       END_STATE();
+    case 24:
+      ACCEPT_TOKEN(anon_sym_LPAREN);
+      END_STATE();
+    case 25:
+      ACCEPT_TOKEN(anon_sym_RPAREN);
+      END_STATE();
+    case 26:
+      ACCEPT_TOKEN(anon_sym_LBRACE);
+      END_STATE();
+    case 27:
+      ACCEPT_TOKEN(anon_sym_RBRACE);
+      END_STATE();
     case 28:
-      ACCEPT_TOKEN(aux_sym_immediate_quoted_scalar_inner_token1);
-      if (lookahead == '/') ADVANCE(30);
-      if (lookahead == '\t' ||
-          lookahead == ' ') ADVANCE(28);
-      if (lookahead != 0 &&
-          lookahead != '"' &&
-          lookahead != '\\') ADVANCE(32);
+      ACCEPT_TOKEN(sym_bare_scalar);
+      if (lookahead == '"') ADVANCE(42);
+      if (lookahead == 'u') ADVANCE(31);
+      if (lookahead == '\\' ||
+          lookahead == 'n' ||
+          lookahead == 'r' ||
+          lookahead == 't') ADVANCE(43);
+      if ((!eof && set_contains(sym_bare_scalar_character_set_2, 9, lookahead))) ADVANCE(35);
       END_STATE();
     case 29:
-      ACCEPT_TOKEN(aux_sym_immediate_quoted_scalar_inner_token1);
-      if (lookahead == '/') ADVANCE(32);
-      if (lookahead == '"' ||
-          lookahead == '\\') ADVANCE(49);
-      if (lookahead != 0) ADVANCE(31);
+      ACCEPT_TOKEN(sym_bare_scalar);
+      if (lookahead == '/') ADVANCE(48);
+      if ((!eof && set_contains(sym_bare_scalar_character_set_2, 9, lookahead))) ADVANCE(35);
       END_STATE();
     case 30:
-      ACCEPT_TOKEN(aux_sym_immediate_quoted_scalar_inner_token1);
-      if (lookahead == '/') ADVANCE(29);
-      if (lookahead != 0 &&
-          lookahead != '"' &&
-          lookahead != '\\') ADVANCE(32);
+      ACCEPT_TOKEN(sym_bare_scalar);
+      if (lookahead == '/') ADVANCE(49);
+      if ((!eof && set_contains(sym_bare_scalar_character_set_2, 9, lookahead))) ADVANCE(35);
       END_STATE();
     case 31:
-      ACCEPT_TOKEN(aux_sym_immediate_quoted_scalar_inner_token1);
-      if (lookahead == '\n' ||
-          lookahead == '\r') ADVANCE(32);
-      if (lookahead == '"' ||
-          lookahead == '\\') ADVANCE(49);
-      if (lookahead != 0) ADVANCE(31);
+      ACCEPT_TOKEN(sym_bare_scalar);
+      if (lookahead == '{') ADVANCE(14);
+      if (('0' <= lookahead && lookahead <= '9') ||
+          ('A' <= lookahead && lookahead <= 'F') ||
+          ('a' <= lookahead && lookahead <= 'f')) ADVANCE(34);
+      if ((!eof && set_contains(sym_bare_scalar_character_set_2, 9, lookahead))) ADVANCE(35);
       END_STATE();
     case 32:
-      ACCEPT_TOKEN(aux_sym_immediate_quoted_scalar_inner_token1);
-      if (lookahead != 0 &&
-          lookahead != '"' &&
-          lookahead != '\\') ADVANCE(32);
+      ACCEPT_TOKEN(sym_bare_scalar);
+      if (('0' <= lookahead && lookahead <= '9') ||
+          ('A' <= lookahead && lookahead <= 'F') ||
+          ('a' <= lookahead && lookahead <= 'f')) ADVANCE(43);
+      if ((!eof && set_contains(sym_bare_scalar_character_set_2, 9, lookahead))) ADVANCE(35);
       END_STATE();
     case 33:
-      ACCEPT_TOKEN(anon_sym_DQUOTE2);
+      ACCEPT_TOKEN(sym_bare_scalar);
+      if (('0' <= lookahead && lookahead <= '9') ||
+          ('A' <= lookahead && lookahead <= 'F') ||
+          ('a' <= lookahead && lookahead <= 'f')) ADVANCE(32);
+      if ((!eof && set_contains(sym_bare_scalar_character_set_2, 9, lookahead))) ADVANCE(35);
       END_STATE();
     case 34:
-      ACCEPT_TOKEN(anon_sym_LPAREN);
+      ACCEPT_TOKEN(sym_bare_scalar);
+      if (('0' <= lookahead && lookahead <= '9') ||
+          ('A' <= lookahead && lookahead <= 'F') ||
+          ('a' <= lookahead && lookahead <= 'f')) ADVANCE(33);
+      if ((!eof && set_contains(sym_bare_scalar_character_set_2, 9, lookahead))) ADVANCE(35);
       END_STATE();
     case 35:
-      ACCEPT_TOKEN(anon_sym_RPAREN);
+      ACCEPT_TOKEN(sym_bare_scalar);
+      if ((!eof && set_contains(sym_bare_scalar_character_set_2, 9, lookahead))) ADVANCE(35);
       END_STATE();
     case 36:
-      ACCEPT_TOKEN(anon_sym_LBRACE);
+      ACCEPT_TOKEN(anon_sym_DQUOTE2);
       END_STATE();
     case 37:
-      ACCEPT_TOKEN(anon_sym_RBRACE);
+      ACCEPT_TOKEN(sym__quoted_content);
+      if (lookahead == '/') ADVANCE(38);
+      if (lookahead == '\t' ||
+          lookahead == ' ') ADVANCE(37);
+      if (lookahead != 0 &&
+          lookahead != '"' &&
+          lookahead != '\\') ADVANCE(41);
       END_STATE();
     case 38:
-      ACCEPT_TOKEN(sym_bare_scalar);
-      if (lookahead == '/') ADVANCE(43);
-      if (('\t' <= lookahead && lookahead <= '\r') ||
-          lookahead == ' ' ||
-          lookahead == '"' ||
-          lookahead == '(' ||
-          lookahead == ')' ||
-          lookahead == ',' ||
-          lookahead == '>' ||
-          lookahead == '{' ||
-          lookahead == '}') ADVANCE(49);
-      if (lookahead != 0) ADVANCE(42);
+      ACCEPT_TOKEN(sym__quoted_content);
+      if (lookahead == '/') ADVANCE(40);
+      if (lookahead != 0 &&
+          lookahead != '"' &&
+          lookahead != '\\') ADVANCE(41);
       END_STATE();
     case 39:
-      ACCEPT_TOKEN(sym_bare_scalar);
-      if (lookahead == '/') ADVANCE(40);
-      if ((!eof && set_contains(sym_bare_scalar_character_set_2, 9, lookahead))) ADVANCE(43);
+      ACCEPT_TOKEN(sym__quoted_content);
+      if (lookahead == '\n' ||
+          lookahead == '\r') ADVANCE(41);
+      if (lookahead != 0 &&
+          lookahead != '"' &&
+          lookahead != '\\') ADVANCE(39);
       END_STATE();
     case 40:
-      ACCEPT_TOKEN(sym_bare_scalar);
-      if (lookahead == '/') ADVANCE(50);
-      if (('\t' <= lookahead && lookahead <= '\r') ||
-          lookahead == ' ' ||
-          lookahead == '"' ||
-          lookahead == '(' ||
-          lookahead == ')' ||
-          lookahead == ',' ||
-          lookahead == '>' ||
-          lookahead == '{' ||
-          lookahead == '}') ADVANCE(49);
-      if (lookahead != 0) ADVANCE(42);
+      ACCEPT_TOKEN(sym__quoted_content);
+      if (lookahead == '\n' ||
+          lookahead == '\r' ||
+          lookahead == '/') ADVANCE(41);
+      if (lookahead != 0 &&
+          lookahead != '"' &&
+          lookahead != '\\') ADVANCE(39);
       END_STATE();
     case 41:
-      ACCEPT_TOKEN(sym_bare_scalar);
-      if (lookahead == '/') ADVANCE(38);
-      if ((!eof && set_contains(sym_bare_scalar_character_set_2, 9, lookahead))) ADVANCE(43);
+      ACCEPT_TOKEN(sym__quoted_content);
+      if (lookahead != 0 &&
+          lookahead != '"' &&
+          lookahead != '\\') ADVANCE(41);
       END_STATE();
     case 42:
-      ACCEPT_TOKEN(sym_bare_scalar);
-      ADVANCE_MAP(
-        '\t', 49,
-        0x0b, 49,
-        '\f', 49,
-        ' ', 49,
-        '"', 49,
-        '(', 49,
-        ')', 49,
-        ',', 49,
-        '>', 49,
-        '{', 49,
-        '}', 49,
-      );
-      if (lookahead != 0 &&
-          (lookahead < '\t' || '\r' < lookahead)) ADVANCE(42);
+      ACCEPT_TOKEN(sym_escape_sequence);
       END_STATE();
     case 43:
-      ACCEPT_TOKEN(sym_bare_scalar);
-      if ((!eof && set_contains(sym_bare_scalar_character_set_2, 9, lookahead))) ADVANCE(43);
+      ACCEPT_TOKEN(sym_escape_sequence);
+      if ((!eof && set_contains(sym_bare_scalar_character_set_2, 9, lookahead))) ADVANCE(35);
       END_STATE();
     case 44:
-      ACCEPT_TOKEN(sym_escape_sequence);
+      ACCEPT_TOKEN(anon_sym_LPAREN2);
       END_STATE();
     case 45:
-      ACCEPT_TOKEN(anon_sym_LPAREN2);
+      ACCEPT_TOKEN(anon_sym_LBRACE2);
       END_STATE();
     case 46:
-      ACCEPT_TOKEN(anon_sym_LBRACE2);
+      ACCEPT_TOKEN(anon_sym_COMMA);
       END_STATE();
     case 47:
-      ACCEPT_TOKEN(anon_sym_COMMA);
+      ACCEPT_TOKEN(anon_sym_GT);
       END_STATE();
     case 48:
-      ACCEPT_TOKEN(anon_sym_GT);
+      ACCEPT_TOKEN(sym_line_comment);
+      ADVANCE_MAP(
+        '/', 52,
+        '\t', 51,
+        0x0b, 51,
+        '\f', 51,
+        ' ', 51,
+        '"', 51,
+        '(', 51,
+        ')', 51,
+        ',', 51,
+        '>', 51,
+        '{', 51,
+        '}', 51,
+      );
+      if (lookahead != 0 &&
+          (lookahead < '\t' || '\r' < lookahead)) ADVANCE(50);
       END_STATE();
     case 49:
       ACCEPT_TOKEN(sym_line_comment);
+      ADVANCE_MAP(
+        '\t', 51,
+        0x0b, 51,
+        '\f', 51,
+        ' ', 51,
+        '"', 51,
+        '(', 51,
+        ')', 51,
+        ',', 51,
+        '>', 51,
+        '{', 51,
+        '}', 51,
+      );
       if (lookahead != 0 &&
-          lookahead != '\n' &&
-          lookahead != '\r') ADVANCE(49);
+          (lookahead < '\t' || '\r' < lookahead) &&
+          lookahead != '/') ADVANCE(50);
       END_STATE();
     case 50:
-      ACCEPT_TOKEN(anon_sym_SLASH_SLASH_SLASH);
-      if ((!eof && set_contains(sym_bare_scalar_character_set_2, 9, lookahead))) ADVANCE(43);
+      ACCEPT_TOKEN(sym_line_comment);
+      ADVANCE_MAP(
+        '\t', 51,
+        0x0b, 51,
+        '\f', 51,
+        ' ', 51,
+        '"', 51,
+        '(', 51,
+        ')', 51,
+        ',', 51,
+        '>', 51,
+        '{', 51,
+        '}', 51,
+      );
+      if (lookahead != 0 &&
+          (lookahead < '\t' || '\r' < lookahead)) ADVANCE(50);
       END_STATE();
     case 51:
-      ACCEPT_TOKEN(aux_sym_doc_comment_token1);
-      if (lookahead == '/') ADVANCE(53);
-      if (lookahead == '\t' ||
-          lookahead == ' ') ADVANCE(51);
+      ACCEPT_TOKEN(sym_line_comment);
       if (lookahead != 0 &&
-          lookahead != '\t' &&
           lookahead != '\n' &&
-          lookahead != '\r') ADVANCE(54);
+          lookahead != '\r') ADVANCE(51);
       END_STATE();
     case 52:
       ACCEPT_TOKEN(aux_sym_doc_comment_token1);
-      if (lookahead == '/') ADVANCE(54);
-      if (lookahead == '\n' ||
-          lookahead == '\r') ADVANCE(49);
-      if (lookahead != 0) ADVANCE(49);
+      ADVANCE_MAP(
+        '\t', 53,
+        0x0b, 53,
+        '\f', 53,
+        ' ', 53,
+        '"', 53,
+        '(', 53,
+        ')', 53,
+        ',', 53,
+        '>', 53,
+        '{', 53,
+        '}', 53,
+      );
+      if (lookahead != 0 &&
+          (lookahead < '\t' || '\r' < lookahead)) ADVANCE(52);
       END_STATE();
     case 53:
       ACCEPT_TOKEN(aux_sym_doc_comment_token1);
-      if (lookahead == '/') ADVANCE(52);
       if (lookahead != 0 &&
           lookahead != '\n' &&
-          lookahead != '\r') ADVANCE(54);
+          lookahead != '\r') ADVANCE(53);
       END_STATE();
     case 54:
-      ACCEPT_TOKEN(aux_sym_doc_comment_token1);
-      if (lookahead != 0 &&
-          lookahead != '\n' &&
-          lookahead != '\r') ADVANCE(54);
-      END_STATE();
-    case 55:
       ACCEPT_TOKEN(sym__newline);
       END_STATE();
-    case 56:
-      ACCEPT_TOKEN(aux_sym__seq_ws_token1);
-      if (lookahead == '\t' ||
-          lookahead == ' ') ADVANCE(56);
-      END_STATE();
     default:
       return false;
   }
@@ -1338,329 +1312,281 @@ static bool ts_lex(TSLexer *lexer, TSStateId state) {
 
 static const TSLexerMode ts_lex_modes[STATE_COUNT] = {
   [0] = {.lex_state = 0, .external_lex_state = 1},
-  [1] = {.lex_state = 24, .external_lex_state = 2},
-  [2] = {.lex_state = 24, .external_lex_state = 2},
-  [3] = {.lex_state = 24, .external_lex_state = 2},
-  [4] = {.lex_state = 24, .external_lex_state = 2},
-  [5] = {.lex_state = 24, .external_lex_state = 2},
-  [6] = {.lex_state = 24, .external_lex_state = 2},
-  [7] = {.lex_state = 24, .external_lex_state = 2},
-  [8] = {.lex_state = 24, .external_lex_state = 2},
-  [9] = {.lex_state = 24, .external_lex_state = 2},
-  [10] = {.lex_state = 24, .external_lex_state = 2},
-  [11] = {.lex_state = 24, .external_lex_state = 2},
-  [12] = {.lex_state = 5, .external_lex_state = 2},
-  [13] = {.lex_state = 5, .external_lex_state = 2},
-  [14] = {.lex_state = 5, .external_lex_state = 2},
-  [15] = {.lex_state = 5, .external_lex_state = 2},
-  [16] = {.lex_state = 5, .external_lex_state = 2},
-  [17] = {.lex_state = 5, .external_lex_state = 2},
-  [18] = {.lex_state = 5, .external_lex_state = 2},
-  [19] = {.lex_state = 5, .external_lex_state = 2},
-  [20] = {.lex_state = 5, .external_lex_state = 2},
-  [21] = {.lex_state = 5, .external_lex_state = 2},
-  [22] = {.lex_state = 5, .external_lex_state = 2},
-  [23] = {.lex_state = 5, .external_lex_state = 2},
-  [24] = {.lex_state = 24, .external_lex_state = 2},
-  [25] = {.lex_state = 5, .external_lex_state = 2},
-  [26] = {.lex_state = 5, .external_lex_state = 2},
-  [27] = {.lex_state = 24, .external_lex_state = 2},
-  [28] = {.lex_state = 5, .external_lex_state = 2},
-  [29] = {.lex_state = 5, .external_lex_state = 2},
-  [30] = {.lex_state = 24, .external_lex_state = 2},
-  [31] = {.lex_state = 5, .external_lex_state = 2},
-  [32] = {.lex_state = 5, .external_lex_state = 2},
-  [33] = {.lex_state = 24, .external_lex_state = 2},
-  [34] = {.lex_state = 24, .external_lex_state = 2},
-  [35] = {.lex_state = 24, .external_lex_state = 2},
-  [36] = {.lex_state = 24, .external_lex_state = 2},
-  [37] = {.lex_state = 24, .external_lex_state = 2},
-  [38] = {.lex_state = 24, .external_lex_state = 2},
-  [39] = {.lex_state = 4, .external_lex_state = 2},
-  [40] = {.lex_state = 24, .external_lex_state = 2},
-  [41] = {.lex_state = 3, .external_lex_state = 3},
-  [42] = {.lex_state = 4, .external_lex_state = 2},
-  [43] = {.lex_state = 2, .external_lex_state = 3},
-  [44] = {.lex_state = 4, .external_lex_state = 2},
-  [45] = {.lex_state = 4, .external_lex_state = 2},
-  [46] = {.lex_state = 4, .external_lex_state = 2},
-  [47] = {.lex_state = 4, .external_lex_state = 2},
-  [48] = {.lex_state = 4, .external_lex_state = 2},
-  [49] = {.lex_state = 4, .external_lex_state = 2},
-  [50] = {.lex_state = 4, .external_lex_state = 2},
-  [51] = {.lex_state = 4, .external_lex_state = 2},
-  [52] = {.lex_state = 4, .external_lex_state = 2},
-  [53] = {.lex_state = 4, .external_lex_state = 2},
-  [54] = {.lex_state = 4, .external_lex_state = 2},
-  [55] = {.lex_state = 4, .external_lex_state = 2},
-  [56] = {.lex_state = 4, .external_lex_state = 2},
-  [57] = {.lex_state = 4, .external_lex_state = 2},
-  [58] = {.lex_state = 4, .external_lex_state = 2},
-  [59] = {.lex_state = 4, .external_lex_state = 2},
-  [60] = {.lex_state = 4, .external_lex_state = 2},
-  [61] = {.lex_state = 4, .external_lex_state = 2},
-  [62] = {.lex_state = 0, .external_lex_state = 3},
-  [63] = {.lex_state = 4, .external_lex_state = 2},
-  [64] = {.lex_state = 4, .external_lex_state = 2},
-  [65] = {.lex_state = 4, .external_lex_state = 2},
-  [66] = {.lex_state = 4, .external_lex_state = 2},
-  [67] = {.lex_state = 4, .external_lex_state = 2},
-  [68] = {.lex_state = 4, .external_lex_state = 2},
-  [69] = {.lex_state = 4, .external_lex_state = 2},
-  [70] = {.lex_state = 0, .external_lex_state = 3},
-  [71] = {.lex_state = 2, .external_lex_state = 3},
-  [72] = {.lex_state = 3, .external_lex_state = 3},
-  [73] = {.lex_state = 22, .external_lex_state = 4},
-  [74] = {.lex_state = 5, .external_lex_state = 2},
-  [75] = {.lex_state = 4, .external_lex_state = 2},
-  [76] = {.lex_state = 4, .external_lex_state = 2},
-  [77] = {.lex_state = 5, .external_lex_state = 2},
-  [78] = {.lex_state = 5, .external_lex_state = 2},
-  [79] = {.lex_state = 5, .external_lex_state = 2},
-  [80] = {.lex_state = 24, .external_lex_state = 2},
-  [81] = {.lex_state = 5, .external_lex_state = 2},
-  [82] = {.lex_state = 24, .external_lex_state = 2},
-  [83] = {.lex_state = 24, .external_lex_state = 2},
-  [84] = {.lex_state = 4, .external_lex_state = 2},
-  [85] = {.lex_state = 24, .external_lex_state = 2},
-  [86] = {.lex_state = 24, .external_lex_state = 2},
-  [87] = {.lex_state = 24, .external_lex_state = 2},
-  [88] = {.lex_state = 5, .external_lex_state = 2},
-  [89] = {.lex_state = 24, .external_lex_state = 2},
-  [90] = {.lex_state = 24, .external_lex_state = 2},
-  [91] = {.lex_state = 4, .external_lex_state = 2},
-  [92] = {.lex_state = 24, .external_lex_state = 2},
-  [93] = {.lex_state = 24, .external_lex_state = 2},
-  [94] = {.lex_state = 24, .external_lex_state = 2},
-  [95] = {.lex_state = 24, .external_lex_state = 2},
-  [96] = {.lex_state = 24, .external_lex_state = 2},
-  [97] = {.lex_state = 24, .external_lex_state = 2},
-  [98] = {.lex_state = 5, .external_lex_state = 2},
-  [99] = {.lex_state = 24, .external_lex_state = 2},
-  [100] = {.lex_state = 5, .external_lex_state = 2},
-  [101] = {.lex_state = 5, .external_lex_state = 2},
-  [102] = {.lex_state = 5, .external_lex_state = 2},
-  [103] = {.lex_state = 24, .external_lex_state = 2},
-  [104] = {.lex_state = 5, .external_lex_state = 2},
-  [105] = {.lex_state = 5, .external_lex_state = 2},
-  [106] = {.lex_state = 5, .external_lex_state = 2},
-  [107] = {.lex_state = 5, .external_lex_state = 2},
-  [108] = {.lex_state = 5, .external_lex_state = 2},
-  [109] = {.lex_state = 5, .external_lex_state = 2},
-  [110] = {.lex_state = 5, .external_lex_state = 2},
-  [111] = {.lex_state = 5, .external_lex_state = 2},
-  [112] = {.lex_state = 24, .external_lex_state = 2},
-  [113] = {.lex_state = 5, .external_lex_state = 2},
-  [114] = {.lex_state = 5, .external_lex_state = 2},
-  [115] = {.lex_state = 5, .external_lex_state = 2},
-  [116] = {.lex_state = 5, .external_lex_state = 2},
-  [117] = {.lex_state = 5, .external_lex_state = 2},
-  [118] = {.lex_state = 5, .external_lex_state = 2},
-  [119] = {.lex_state = 5, .external_lex_state = 2},
-  [120] = {.lex_state = 5, .external_lex_state = 2},
-  [121] = {.lex_state = 5, .external_lex_state = 2},
-  [122] = {.lex_state = 5, .external_lex_state = 2},
-  [123] = {.lex_state = 5, .external_lex_state = 2},
-  [124] = {.lex_state = 5, .external_lex_state = 2},
-  [125] = {.lex_state = 5, .external_lex_state = 2},
-  [126] = {.lex_state = 5, .external_lex_state = 2},
-  [127] = {.lex_state = 5, .external_lex_state = 2},
-  [128] = {.lex_state = 5, .external_lex_state = 2},
-  [129] = {.lex_state = 5, .external_lex_state = 2},
-  [130] = {.lex_state = 4, .external_lex_state = 2},
-  [131] = {.lex_state = 4, .external_lex_state = 2},
-  [132] = {.lex_state = 4, .external_lex_state = 2},
-  [133] = {.lex_state = 4, .external_lex_state = 2},
-  [134] = {.lex_state = 4, .external_lex_state = 2},
-  [135] = {.lex_state = 4, .external_lex_state = 2},
-  [136] = {.lex_state = 4, .external_lex_state = 2},
-  [137] = {.lex_state = 4, .external_lex_state = 2},
-  [138] = {.lex_state = 4, .external_lex_state = 2},
-  [139] = {.lex_state = 4, .external_lex_state = 2},
-  [140] = {.lex_state = 4, .external_lex_state = 2},
-  [141] = {.lex_state = 4, .external_lex_state = 2},
-  [142] = {.lex_state = 4, .external_lex_state = 2},
-  [143] = {.lex_state = 4, .external_lex_state = 2},
-  [144] = {.lex_state = 4, .external_lex_state = 2},
-  [145] = {.lex_state = 4, .external_lex_state = 2},
-  [146] = {.lex_state = 4, .external_lex_state = 2},
-  [147] = {.lex_state = 4, .external_lex_state = 2},
-  [148] = {.lex_state = 24, .external_lex_state = 2},
-  [149] = {.lex_state = 4, .external_lex_state = 2},
-  [150] = {.lex_state = 4, .external_lex_state = 2},
-  [151] = {.lex_state = 4, .external_lex_state = 2},
-  [152] = {.lex_state = 4, .external_lex_state = 2},
-  [153] = {.lex_state = 4, .external_lex_state = 2},
-  [154] = {.lex_state = 4, .external_lex_state = 2},
-  [155] = {.lex_state = 4, .external_lex_state = 2},
-  [156] = {.lex_state = 4, .external_lex_state = 2},
-  [157] = {.lex_state = 4, .external_lex_state = 2},
-  [158] = {.lex_state = 4, .external_lex_state = 2},
-  [159] = {.lex_state = 24, .external_lex_state = 2},
-  [160] = {.lex_state = 24, .external_lex_state = 2},
-  [161] = {.lex_state = 24, .external_lex_state = 2},
-  [162] = {.lex_state = 24, .external_lex_state = 2},
-  [163] = {.lex_state = 24, .external_lex_state = 2},
-  [164] = {.lex_state = 24, .external_lex_state = 2},
-  [165] = {.lex_state = 24, .external_lex_state = 2},
-  [166] = {.lex_state = 24, .external_lex_state = 2},
-  [167] = {.lex_state = 24, .external_lex_state = 2},
-  [168] = {.lex_state = 24, .external_lex_state = 2},
-  [169] = {.lex_state = 24, .external_lex_state = 2},
-  [170] = {.lex_state = 24, .external_lex_state = 2},
-  [171] = {.lex_state = 24, .external_lex_state = 2},
-  [172] = {.lex_state = 24, .external_lex_state = 2},
-  [173] = {.lex_state = 24, .external_lex_state = 2},
-  [174] = {.lex_state = 24, .external_lex_state = 2},
-  [175] = {.lex_state = 24, .external_lex_state = 2},
-  [176] = {.lex_state = 24, .external_lex_state = 2},
-  [177] = {.lex_state = 24, .external_lex_state = 2},
-  [178] = {.lex_state = 24, .external_lex_state = 2},
-  [179] = {.lex_state = 24, .external_lex_state = 2},
-  [180] = {.lex_state = 24, .external_lex_state = 2},
-  [181] = {.lex_state = 24, .external_lex_state = 2},
+  [1] = {.lex_state = 20, .external_lex_state = 2},
+  [2] = {.lex_state = 20, .external_lex_state = 2},
+  [3] = {.lex_state = 20, .external_lex_state = 2},
+  [4] = {.lex_state = 20, .external_lex_state = 2},
+  [5] = {.lex_state = 20, .external_lex_state = 2},
+  [6] = {.lex_state = 20, .external_lex_state = 2},
+  [7] = {.lex_state = 20, .external_lex_state = 2},
+  [8] = {.lex_state = 20, .external_lex_state = 2},
+  [9] = {.lex_state = 20, .external_lex_state = 2},
+  [10] = {.lex_state = 20, .external_lex_state = 2},
+  [11] = {.lex_state = 20, .external_lex_state = 2},
+  [12] = {.lex_state = 20, .external_lex_state = 2},
+  [13] = {.lex_state = 20, .external_lex_state = 2},
+  [14] = {.lex_state = 20, .external_lex_state = 2},
+  [15] = {.lex_state = 20, .external_lex_state = 2},
+  [16] = {.lex_state = 20, .external_lex_state = 2},
+  [17] = {.lex_state = 20, .external_lex_state = 2},
+  [18] = {.lex_state = 19, .external_lex_state = 2},
+  [19] = {.lex_state = 17, .external_lex_state = 3},
+  [20] = {.lex_state = 19, .external_lex_state = 2},
+  [21] = {.lex_state = 19, .external_lex_state = 2},
+  [22] = {.lex_state = 19, .external_lex_state = 2},
+  [23] = {.lex_state = 2, .external_lex_state = 3},
+  [24] = {.lex_state = 19, .external_lex_state = 2},
+  [25] = {.lex_state = 19, .external_lex_state = 2},
+  [26] = {.lex_state = 19, .external_lex_state = 2},
+  [27] = {.lex_state = 19, .external_lex_state = 2},
+  [28] = {.lex_state = 19, .external_lex_state = 2},
+  [29] = {.lex_state = 19, .external_lex_state = 2},
+  [30] = {.lex_state = 19, .external_lex_state = 2},
+  [31] = {.lex_state = 19, .external_lex_state = 2},
+  [32] = {.lex_state = 20, .external_lex_state = 2},
+  [33] = {.lex_state = 19, .external_lex_state = 2},
+  [34] = {.lex_state = 19, .external_lex_state = 2},
+  [35] = {.lex_state = 19, .external_lex_state = 2},
+  [36] = {.lex_state = 19, .external_lex_state = 2},
+  [37] = {.lex_state = 19, .external_lex_state = 2},
+  [38] = {.lex_state = 19, .external_lex_state = 2},
+  [39] = {.lex_state = 19, .external_lex_state = 2},
+  [40] = {.lex_state = 19, .external_lex_state = 2},
+  [41] = {.lex_state = 19, .external_lex_state = 2},
+  [42] = {.lex_state = 19, .external_lex_state = 2},
+  [43] = {.lex_state = 19, .external_lex_state = 2},
+  [44] = {.lex_state = 19, .external_lex_state = 2},
+  [45] = {.lex_state = 19, .external_lex_state = 2},
+  [46] = {.lex_state = 19, .external_lex_state = 2},
+  [47] = {.lex_state = 19, .external_lex_state = 2},
+  [48] = {.lex_state = 19, .external_lex_state = 2},
+  [49] = {.lex_state = 19, .external_lex_state = 2},
+  [50] = {.lex_state = 19, .external_lex_state = 2},
+  [51] = {.lex_state = 2, .external_lex_state = 4},
+  [52] = {.lex_state = 17, .external_lex_state = 3},
+  [53] = {.lex_state = 2, .external_lex_state = 3},
+  [54] = {.lex_state = 19, .external_lex_state = 2},
+  [55] = {.lex_state = 19, .external_lex_state = 2},
+  [56] = {.lex_state = 19, .external_lex_state = 2},
+  [57] = {.lex_state = 19, .external_lex_state = 2},
+  [58] = {.lex_state = 20, .external_lex_state = 2},
+  [59] = {.lex_state = 20, .external_lex_state = 2},
+  [60] = {.lex_state = 20, .external_lex_state = 2},
+  [61] = {.lex_state = 20, .external_lex_state = 2},
+  [62] = {.lex_state = 20, .external_lex_state = 2},
+  [63] = {.lex_state = 20, .external_lex_state = 2},
+  [64] = {.lex_state = 20, .external_lex_state = 2},
+  [65] = {.lex_state = 19, .external_lex_state = 2},
+  [66] = {.lex_state = 20, .external_lex_state = 2},
+  [67] = {.lex_state = 20, .external_lex_state = 2},
+  [68] = {.lex_state = 19, .external_lex_state = 2},
+  [69] = {.lex_state = 19, .external_lex_state = 2},
+  [70] = {.lex_state = 19, .external_lex_state = 2},
+  [71] = {.lex_state = 20, .external_lex_state = 2},
+  [72] = {.lex_state = 20, .external_lex_state = 2},
+  [73] = {.lex_state = 20, .external_lex_state = 2},
+  [74] = {.lex_state = 20, .external_lex_state = 2},
+  [75] = {.lex_state = 20, .external_lex_state = 2},
+  [76] = {.lex_state = 20, .external_lex_state = 2},
+  [77] = {.lex_state = 20, .external_lex_state = 2},
+  [78] = {.lex_state = 20, .external_lex_state = 2},
+  [79] = {.lex_state = 20, .external_lex_state = 2},
+  [80] = {.lex_state = 20, .external_lex_state = 2},
+  [81] = {.lex_state = 20, .external_lex_state = 2},
+  [82] = {.lex_state = 19, .external_lex_state = 2},
+  [83] = {.lex_state = 20, .external_lex_state = 2},
+  [84] = {.lex_state = 20, .external_lex_state = 2},
+  [85] = {.lex_state = 20, .external_lex_state = 2},
+  [86] = {.lex_state = 20, .external_lex_state = 2},
+  [87] = {.lex_state = 20, .external_lex_state = 2},
+  [88] = {.lex_state = 20, .external_lex_state = 2},
+  [89] = {.lex_state = 20, .external_lex_state = 2},
+  [90] = {.lex_state = 20, .external_lex_state = 2},
+  [91] = {.lex_state = 20, .external_lex_state = 2},
+  [92] = {.lex_state = 20, .external_lex_state = 2},
+  [93] = {.lex_state = 19, .external_lex_state = 2},
+  [94] = {.lex_state = 20, .external_lex_state = 2},
+  [95] = {.lex_state = 20, .external_lex_state = 2},
+  [96] = {.lex_state = 19, .external_lex_state = 2},
+  [97] = {.lex_state = 20, .external_lex_state = 2},
+  [98] = {.lex_state = 19, .external_lex_state = 2},
+  [99] = {.lex_state = 19, .external_lex_state = 2},
+  [100] = {.lex_state = 19, .external_lex_state = 2},
+  [101] = {.lex_state = 20, .external_lex_state = 2},
+  [102] = {.lex_state = 19, .external_lex_state = 2},
+  [103] = {.lex_state = 19, .external_lex_state = 2},
+  [104] = {.lex_state = 19, .external_lex_state = 2},
+  [105] = {.lex_state = 19, .external_lex_state = 2},
+  [106] = {.lex_state = 19, .external_lex_state = 2},
+  [107] = {.lex_state = 19, .external_lex_state = 2},
+  [108] = {.lex_state = 19, .external_lex_state = 2},
+  [109] = {.lex_state = 19, .external_lex_state = 2},
+  [110] = {.lex_state = 19, .external_lex_state = 2},
+  [111] = {.lex_state = 20, .external_lex_state = 2},
+  [112] = {.lex_state = 20, .external_lex_state = 2},
+  [113] = {.lex_state = 19, .external_lex_state = 2},
+  [114] = {.lex_state = 19, .external_lex_state = 2},
+  [115] = {.lex_state = 19, .external_lex_state = 2},
+  [116] = {.lex_state = 19, .external_lex_state = 2},
+  [117] = {.lex_state = 19, .external_lex_state = 2},
+  [118] = {.lex_state = 19, .external_lex_state = 2},
+  [119] = {.lex_state = 19, .external_lex_state = 2},
+  [120] = {.lex_state = 19, .external_lex_state = 2},
+  [121] = {.lex_state = 19, .external_lex_state = 2},
+  [122] = {.lex_state = 19, .external_lex_state = 2},
+  [123] = {.lex_state = 19, .external_lex_state = 2},
+  [124] = {.lex_state = 19, .external_lex_state = 2},
+  [125] = {.lex_state = 19, .external_lex_state = 2},
+  [126] = {.lex_state = 19, .external_lex_state = 2},
+  [127] = {.lex_state = 19, .external_lex_state = 2},
+  [128] = {.lex_state = 19, .external_lex_state = 2},
+  [129] = {.lex_state = 19, .external_lex_state = 2},
+  [130] = {.lex_state = 19, .external_lex_state = 2},
+  [131] = {.lex_state = 19, .external_lex_state = 2},
+  [132] = {.lex_state = 19, .external_lex_state = 2},
+  [133] = {.lex_state = 20, .external_lex_state = 2},
+  [134] = {.lex_state = 20, .external_lex_state = 2},
+  [135] = {.lex_state = 20, .external_lex_state = 2},
+  [136] = {.lex_state = 20, .external_lex_state = 2},
+  [137] = {.lex_state = 20, .external_lex_state = 2},
+  [138] = {.lex_state = 20, .external_lex_state = 2},
+  [139] = {.lex_state = 20, .external_lex_state = 2},
+  [140] = {.lex_state = 20, .external_lex_state = 2},
+  [141] = {.lex_state = 20, .external_lex_state = 2},
+  [142] = {.lex_state = 19, .external_lex_state = 2},
+  [143] = {.lex_state = 20, .external_lex_state = 2},
+  [144] = {.lex_state = 20, .external_lex_state = 2},
+  [145] = {.lex_state = 2, .external_lex_state = 4},
+  [146] = {.lex_state = 20, .external_lex_state = 2},
+  [147] = {.lex_state = 20, .external_lex_state = 2},
+  [148] = {.lex_state = 20, .external_lex_state = 2},
+  [149] = {.lex_state = 19},
+  [150] = {.lex_state = 19},
+  [151] = {.lex_state = 19},
+  [152] = {.lex_state = 19},
+  [153] = {.lex_state = 19},
+  [154] = {.lex_state = 19},
+  [155] = {.lex_state = 19},
+  [156] = {.lex_state = 19},
+  [157] = {.lex_state = 19},
+  [158] = {.lex_state = 19},
+  [159] = {.lex_state = 19},
+  [160] = {.lex_state = 19},
+  [161] = {.lex_state = 19},
+  [162] = {.lex_state = 19},
+  [163] = {.lex_state = 19},
+  [164] = {.lex_state = 19},
+  [165] = {.lex_state = 19},
+  [166] = {.lex_state = 19},
+  [167] = {.lex_state = 19},
+  [168] = {.lex_state = 19},
+  [169] = {.lex_state = 19},
+  [170] = {.lex_state = 19},
+  [171] = {.lex_state = 19},
+  [172] = {.lex_state = 19},
+  [173] = {.lex_state = 19},
+  [174] = {.lex_state = 19},
+  [175] = {.lex_state = 19},
+  [176] = {.lex_state = 19},
+  [177] = {.lex_state = 19},
+  [178] = {.lex_state = 19},
+  [179] = {.lex_state = 4},
+  [180] = {.lex_state = 4},
+  [181] = {.lex_state = 19},
   [182] = {.lex_state = 4},
-  [183] = {.lex_state = 4},
-  [184] = {.lex_state = 22, .external_lex_state = 4},
-  [185] = {.lex_state = 4},
-  [186] = {.lex_state = 4},
+  [183] = {.lex_state = 19},
+  [184] = {.lex_state = 4},
+  [185] = {.lex_state = 19},
+  [186] = {.lex_state = 19},
   [187] = {.lex_state = 4},
-  [188] = {.lex_state = 4},
-  [189] = {.lex_state = 22},
-  [190] = {.lex_state = 7},
-  [191] = {.lex_state = 7},
-  [192] = {.lex_state = 7},
-  [193] = {.lex_state = 7},
-  [194] = {.lex_state = 7},
-  [195] = {.lex_state = 7},
-  [196] = {.lex_state = 7},
-  [197] = {.lex_state = 7},
-  [198] = {.lex_state = 22},
-  [199] = {.lex_state = 7},
-  [200] = {.lex_state = 7},
-  [201] = {.lex_state = 4},
-  [202] = {.lex_state = 4},
-  [203] = {.lex_state = 7},
-  [204] = {.lex_state = 7},
-  [205] = {.lex_state = 7},
-  [206] = {.lex_state = 4},
-  [207] = {.lex_state = 7},
-  [208] = {.lex_state = 4},
-  [209] = {.lex_state = 4},
-  [210] = {.lex_state = 4},
-  [211] = {.lex_state = 7},
-  [212] = {.lex_state = 4},
-  [213] = {.lex_state = 4},
-  [214] = {.lex_state = 7},
-  [215] = {.lex_state = 7},
-  [216] = {.lex_state = 7},
-  [217] = {.lex_state = 7},
-  [218] = {.lex_state = 22},
-  [219] = {.lex_state = 22},
-  [220] = {.lex_state = 22},
-  [221] = {.lex_state = 22},
-  [222] = {.lex_state = 22},
-  [223] = {.lex_state = 22},
-  [224] = {.lex_state = 22},
-  [225] = {.lex_state = 22},
-  [226] = {.lex_state = 22},
-  [227] = {.lex_state = 22},
-  [228] = {.lex_state = 22},
-  [229] = {.lex_state = 22},
-  [230] = {.lex_state = 22, .external_lex_state = 5},
-  [231] = {.lex_state = 22},
-  [232] = {.lex_state = 22},
-  [233] = {.lex_state = 22},
-  [234] = {.lex_state = 22},
-  [235] = {.lex_state = 22},
-  [236] = {.lex_state = 22},
-  [237] = {.lex_state = 22},
-  [238] = {.lex_state = 22},
-  [239] = {.lex_state = 22},
-  [240] = {.lex_state = 22, .external_lex_state = 5},
-  [241] = {.lex_state = 22},
-  [242] = {.lex_state = 22},
-  [243] = {.lex_state = 22},
-  [244] = {.lex_state = 22, .external_lex_state = 5},
-  [245] = {.lex_state = 22},
-  [246] = {.lex_state = 22},
-  [247] = {.lex_state = 22},
-  [248] = {.lex_state = 22},
-  [249] = {.lex_state = 22},
-  [250] = {.lex_state = 22},
-  [251] = {.lex_state = 22},
-  [252] = {.lex_state = 22},
-  [253] = {.lex_state = 22},
-  [254] = {.lex_state = 22},
-  [255] = {.lex_state = 22},
-  [256] = {.lex_state = 22},
-  [257] = {.lex_state = 22},
-  [258] = {.lex_state = 22, .external_lex_state = 5},
-  [259] = {.lex_state = 22, .external_lex_state = 6},
-  [260] = {.lex_state = 22, .external_lex_state = 6},
-  [261] = {.lex_state = 22, .external_lex_state = 6},
-  [262] = {.lex_state = 22, .external_lex_state = 6},
-  [263] = {.lex_state = 22},
-  [264] = {.lex_state = 22, .external_lex_state = 6},
-  [265] = {.lex_state = 22, .external_lex_state = 7},
-  [266] = {.lex_state = 22, .external_lex_state = 6},
-  [267] = {.lex_state = 22, .external_lex_state = 7},
-  [268] = {.lex_state = 22, .external_lex_state = 7},
-  [269] = {.lex_state = 22},
-  [270] = {.lex_state = 22, .external_lex_state = 7},
-  [271] = {.lex_state = 22, .external_lex_state = 6},
-  [272] = {.lex_state = 22, .external_lex_state = 6},
-  [273] = {.lex_state = 22},
-  [274] = {.lex_state = 22, .external_lex_state = 8},
-  [275] = {.lex_state = 22},
-  [276] = {.lex_state = 22, .external_lex_state = 9},
-  [277] = {.lex_state = 22},
-  [278] = {.lex_state = 22, .external_lex_state = 9},
-  [279] = {.lex_state = 22, .external_lex_state = 8},
-  [280] = {.lex_state = 22},
-  [281] = {.lex_state = 22, .external_lex_state = 9},
-  [282] = {.lex_state = 22, .external_lex_state = 9},
-  [283] = {.lex_state = 22},
-  [284] = {.lex_state = 22},
-  [285] = {.lex_state = 22},
-  [286] = {.lex_state = 22, .external_lex_state = 9},
-  [287] = {.lex_state = 22},
-  [288] = {.lex_state = 22, .external_lex_state = 9},
-  [289] = {.lex_state = 22},
-  [290] = {.lex_state = 22, .external_lex_state = 9},
-  [291] = {.lex_state = 22, .external_lex_state = 8},
-  [292] = {.lex_state = 22, .external_lex_state = 8},
-  [293] = {.lex_state = 22, .external_lex_state = 8},
-  [294] = {.lex_state = 22},
-  [295] = {.lex_state = 51},
-  [296] = {.lex_state = 22},
-  [297] = {.lex_state = 22, .external_lex_state = 9},
-  [298] = {.lex_state = 22},
-  [299] = {.lex_state = 22},
-  [300] = {.lex_state = 22},
-  [301] = {.lex_state = 22, .external_lex_state = 8},
-  [302] = {.lex_state = 22, .external_lex_state = 8},
-  [303] = {.lex_state = 22, .external_lex_state = 8},
-  [304] = {.lex_state = 22},
-  [305] = {.lex_state = 22},
+  [188] = {.lex_state = 19},
+  [189] = {.lex_state = 4},
+  [190] = {.lex_state = 19},
+  [191] = {.lex_state = 4},
+  [192] = {.lex_state = 19},
+  [193] = {.lex_state = 19},
+  [194] = {.lex_state = 4},
+  [195] = {.lex_state = 19},
+  [196] = {.lex_state = 4},
+  [197] = {.lex_state = 4},
+  [198] = {.lex_state = 4},
+  [199] = {.lex_state = 4},
+  [200] = {.lex_state = 4},
+  [201] = {.lex_state = 19},
+  [202] = {.lex_state = 19},
+  [203] = {.lex_state = 19},
+  [204] = {.lex_state = 19, .external_lex_state = 5},
+  [205] = {.lex_state = 19},
+  [206] = {.lex_state = 19},
+  [207] = {.lex_state = 19},
+  [208] = {.lex_state = 19, .external_lex_state = 5},
+  [209] = {.lex_state = 19},
+  [210] = {.lex_state = 19},
+  [211] = {.lex_state = 19, .external_lex_state = 5},
+  [212] = {.lex_state = 19, .external_lex_state = 5},
+  [213] = {.lex_state = 19},
+  [214] = {.lex_state = 19, .external_lex_state = 5},
+  [215] = {.lex_state = 19, .external_lex_state = 5},
+  [216] = {.lex_state = 19, .external_lex_state = 6},
+  [217] = {.lex_state = 19, .external_lex_state = 7},
+  [218] = {.lex_state = 19, .external_lex_state = 6},
+  [219] = {.lex_state = 19, .external_lex_state = 6},
+  [220] = {.lex_state = 19, .external_lex_state = 7},
+  [221] = {.lex_state = 19, .external_lex_state = 7},
+  [222] = {.lex_state = 19, .external_lex_state = 6},
+  [223] = {.lex_state = 19, .external_lex_state = 6},
+  [224] = {.lex_state = 19, .external_lex_state = 7},
+  [225] = {.lex_state = 19, .external_lex_state = 7},
+  [226] = {.lex_state = 19, .external_lex_state = 7},
+  [227] = {.lex_state = 19, .external_lex_state = 6},
+  [228] = {.lex_state = 19},
+  [229] = {.lex_state = 19, .external_lex_state = 8},
+  [230] = {.lex_state = 19, .external_lex_state = 9},
+  [231] = {.lex_state = 19, .external_lex_state = 8},
+  [232] = {.lex_state = 19, .external_lex_state = 8},
+  [233] = {.lex_state = 19, .external_lex_state = 9},
+  [234] = {.lex_state = 19},
+  [235] = {.lex_state = 19, .external_lex_state = 8},
+  [236] = {.lex_state = 19, .external_lex_state = 9},
+  [237] = {.lex_state = 19, .external_lex_state = 8},
+  [238] = {.lex_state = 19},
+  [239] = {.lex_state = 19, .external_lex_state = 8},
+  [240] = {.lex_state = 19},
+  [241] = {.lex_state = 19},
+  [242] = {.lex_state = 19},
+  [243] = {.lex_state = 19, .external_lex_state = 8},
+  [244] = {.lex_state = 19},
+  [245] = {.lex_state = 19},
+  [246] = {.lex_state = 19, .external_lex_state = 8},
+  [247] = {.lex_state = 19, .external_lex_state = 9},
+  [248] = {.lex_state = 19, .external_lex_state = 9},
+  [249] = {.lex_state = 19},
+  [250] = {.lex_state = 19, .external_lex_state = 8},
+  [251] = {.lex_state = 19, .external_lex_state = 9},
+  [252] = {.lex_state = 19, .external_lex_state = 8},
+  [253] = {.lex_state = 19, .external_lex_state = 8},
+  [254] = {.lex_state = 19},
+  [255] = {.lex_state = 19, .external_lex_state = 8},
+  [256] = {.lex_state = 19},
 };
 
 static const uint16_t ts_parse_table[LARGE_STATE_COUNT][SYMBOL_COUNT] = {
   [STATE(0)] = {
     [ts_builtin_sym_end] = ACTIONS(1),
     [anon_sym_DQUOTE] = ACTIONS(1),
-    [anon_sym_DQUOTE2] = ACTIONS(1),
     [anon_sym_LPAREN] = ACTIONS(1),
     [anon_sym_RPAREN] = ACTIONS(1),
     [anon_sym_LBRACE] = ACTIONS(1),
     [anon_sym_RBRACE] = ACTIONS(1),
     [sym_bare_scalar] = ACTIONS(1),
+    [anon_sym_DQUOTE2] = ACTIONS(1),
+    [sym_escape_sequence] = ACTIONS(1),
     [anon_sym_LPAREN2] = ACTIONS(1),
     [anon_sym_LBRACE2] = ACTIONS(1),
     [anon_sym_COMMA] = ACTIONS(1),
     [anon_sym_GT] = ACTIONS(1),
     [sym_line_comment] = ACTIONS(3),
-    [anon_sym_SLASH_SLASH_SLASH] = ACTIONS(1),
+    [aux_sym_doc_comment_token1] = ACTIONS(1),
     [sym__newline] = ACTIONS(1),
     [sym__heredoc_start] = ACTIONS(1),
     [sym__heredoc_lang] = ACTIONS(1),
@@ -1673,34 +1599,36 @@ static const uint16_t ts_parse_table[LARGE_STATE_COUNT][SYMBOL_COUNT] = {
     [sym__tag_start] = ACTIONS(1),
     [sym__immediate_raw_string_start] = ACTIONS(1),
     [sym__immediate_unit_at] = ACTIONS(1),
+    [sym__immediate_heredoc_start] = ACTIONS(1),
   },
   [STATE(1)] = {
-    [sym_document] = STATE(298),
-    [sym_entry] = STATE(83),
-    [sym_expr] = STATE(40),
-    [sym_tag] = STATE(62),
-    [sym__payload] = STATE(172),
-    [sym_scalar] = STATE(172),
-    [sym_quoted_scalar] = STATE(177),
-    [sym_raw_scalar] = STATE(177),
-    [sym_heredoc] = STATE(177),
-    [sym_unit] = STATE(172),
-    [sym_sequence] = STATE(172),
-    [sym_object] = STATE(172),
-    [sym_attributes] = STATE(178),
-    [sym_attribute] = STATE(82),
-    [sym_doc_comment] = STATE(68),
-    [aux_sym_document_repeat1] = STATE(11),
-    [aux_sym_document_repeat2] = STATE(24),
-    [aux_sym_attributes_repeat1] = STATE(82),
-    [aux_sym_doc_comment_repeat1] = STATE(179),
+    [sym_document] = STATE(234),
+    [sym_entry] = STATE(63),
+    [sym_expr] = STATE(32),
+    [sym__tagged_expr] = STATE(83),
+    [sym_tag] = STATE(19),
+    [sym__payload] = STATE(94),
+    [sym_scalar] = STATE(94),
+    [sym_quoted_scalar] = STATE(95),
+    [sym_raw_scalar] = STATE(95),
+    [sym_heredoc] = STATE(95),
+    [sym_unit] = STATE(94),
+    [sym_sequence] = STATE(94),
+    [sym_object] = STATE(94),
+    [sym_attributes] = STATE(97),
+    [sym_attribute] = STATE(59),
+    [sym_doc_comment] = STATE(47),
+    [aux_sym_document_repeat1] = STATE(9),
+    [aux_sym_document_repeat3] = STATE(17),
+    [aux_sym_attributes_repeat1] = STATE(59),
+    [aux_sym_doc_comment_repeat1] = STATE(146),
     [ts_builtin_sym_end] = ACTIONS(5),
-    [anon_sym_DQUOTE2] = ACTIONS(7),
-    [sym_bare_scalar] = ACTIONS(9),
+    [sym_bare_scalar] = ACTIONS(7),
+    [anon_sym_DQUOTE2] = ACTIONS(9),
     [anon_sym_LPAREN2] = ACTIONS(11),
     [anon_sym_LBRACE2] = ACTIONS(13),
     [sym_line_comment] = ACTIONS(3),
-    [anon_sym_SLASH_SLASH_SLASH] = ACTIONS(15),
+    [aux_sym_doc_comment_token1] = ACTIONS(15),
     [sym__newline] = ACTIONS(17),
     [sym__heredoc_start] = ACTIONS(19),
     [sym__raw_string_start] = ACTIONS(21),
@@ -1710,23 +1638,21 @@ static const uint16_t ts_parse_table[LARGE_STATE_COUNT][SYMBOL_COUNT] = {
 };
 
 static const uint16_t ts_small_parse_table[] = {
-  [0] = 22,
+  [0] = 23,
     ACTIONS(3), 1,
       sym_line_comment,
     ACTIONS(15), 1,
-      anon_sym_SLASH_SLASH_SLASH,
+      aux_sym_doc_comment_token1,
     ACTIONS(27), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(29), 1,
       anon_sym_RBRACE,
-    ACTIONS(31), 1,
+    ACTIONS(29), 1,
       sym_bare_scalar,
+    ACTIONS(31), 1,
+      anon_sym_DQUOTE2,
     ACTIONS(33), 1,
       anon_sym_LPAREN2,
     ACTIONS(35), 1,
       anon_sym_LBRACE2,
-    ACTIONS(37), 1,
-      sym__newline,
     ACTIONS(39), 1,
       sym__heredoc_start,
     ACTIONS(41), 1,
@@ -1735,50 +1661,52 @@ static const uint16_t ts_small_parse_table[] = {
       sym__unit_at,
     ACTIONS(45), 1,
       sym__tag_start,
-    STATE(39), 1,
-      sym_expr,
-    STATE(41), 1,
+    STATE(23), 1,
       sym_tag,
-    STATE(65), 1,
+    STATE(33), 1,
+      sym_expr,
+    STATE(50), 1,
       sym_doc_comment,
-    STATE(133), 1,
+    STATE(96), 1,
+      sym__tagged_expr,
+    STATE(100), 1,
       sym_attributes,
-    STATE(179), 1,
+    STATE(146), 1,
       aux_sym_doc_comment_repeat1,
-    STATE(189), 1,
+    STATE(210), 1,
       sym_entry,
-    STATE(76), 2,
+    ACTIONS(37), 2,
+      anon_sym_COMMA,
+      sym__newline,
+    STATE(57), 2,
       sym_attribute,
       aux_sym_attributes_repeat1,
-    STATE(132), 3,
+    STATE(60), 2,
+      sym__separator,
+      aux_sym_document_repeat2,
+    STATE(99), 3,
       sym_quoted_scalar,
       sym_raw_scalar,
       sym_heredoc,
-    STATE(283), 3,
-      sym__object_body,
-      sym__newline_separated,
-      sym__comma_separated,
-    STATE(131), 5,
+    STATE(98), 5,
       sym__payload,
       sym_scalar,
       sym_unit,
       sym_sequence,
       sym_object,
-  [76] = 22,
+  [79] = 23,
     ACTIONS(3), 1,
       sym_line_comment,
     ACTIONS(15), 1,
-      anon_sym_SLASH_SLASH_SLASH,
-    ACTIONS(27), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(31), 1,
+      aux_sym_doc_comment_token1,
+    ACTIONS(29), 1,
       sym_bare_scalar,
+    ACTIONS(31), 1,
+      anon_sym_DQUOTE2,
     ACTIONS(33), 1,
       anon_sym_LPAREN2,
     ACTIONS(35), 1,
       anon_sym_LBRACE2,
-    ACTIONS(37), 1,
-      sym__newline,
     ACTIONS(39), 1,
       sym__heredoc_start,
     ACTIONS(41), 1,
@@ -1789,50 +1717,52 @@ static const uint16_t ts_small_parse_table[] = {
       sym__tag_start,
     ACTIONS(47), 1,
       anon_sym_RBRACE,
-    STATE(39), 1,
-      sym_expr,
-    STATE(41), 1,
+    STATE(23), 1,
       sym_tag,
-    STATE(65), 1,
+    STATE(33), 1,
+      sym_expr,
+    STATE(50), 1,
       sym_doc_comment,
-    STATE(133), 1,
+    STATE(96), 1,
+      sym__tagged_expr,
+    STATE(100), 1,
       sym_attributes,
-    STATE(179), 1,
+    STATE(146), 1,
       aux_sym_doc_comment_repeat1,
-    STATE(189), 1,
+    STATE(210), 1,
       sym_entry,
-    STATE(76), 2,
+    ACTIONS(37), 2,
+      anon_sym_COMMA,
+      sym__newline,
+    STATE(57), 2,
       sym_attribute,
       aux_sym_attributes_repeat1,
-    STATE(132), 3,
+    STATE(60), 2,
+      sym__separator,
+      aux_sym_document_repeat2,
+    STATE(99), 3,
       sym_quoted_scalar,
       sym_raw_scalar,
       sym_heredoc,
-    STATE(304), 3,
-      sym__object_body,
-      sym__newline_separated,
-      sym__comma_separated,
-    STATE(131), 5,
+    STATE(98), 5,
       sym__payload,
       sym_scalar,
       sym_unit,
       sym_sequence,
       sym_object,
-  [152] = 22,
+  [158] = 23,
     ACTIONS(3), 1,
       sym_line_comment,
     ACTIONS(15), 1,
-      anon_sym_SLASH_SLASH_SLASH,
-    ACTIONS(27), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(31), 1,
+      aux_sym_doc_comment_token1,
+    ACTIONS(29), 1,
       sym_bare_scalar,
+    ACTIONS(31), 1,
+      anon_sym_DQUOTE2,
     ACTIONS(33), 1,
       anon_sym_LPAREN2,
     ACTIONS(35), 1,
       anon_sym_LBRACE2,
-    ACTIONS(37), 1,
-      sym__newline,
     ACTIONS(39), 1,
       sym__heredoc_start,
     ACTIONS(41), 1,
@@ -1843,50 +1773,52 @@ static const uint16_t ts_small_parse_table[] = {
       sym__tag_start,
     ACTIONS(49), 1,
       anon_sym_RBRACE,
-    STATE(39), 1,
-      sym_expr,
-    STATE(41), 1,
+    STATE(23), 1,
       sym_tag,
-    STATE(65), 1,
+    STATE(33), 1,
+      sym_expr,
+    STATE(50), 1,
       sym_doc_comment,
-    STATE(133), 1,
+    STATE(96), 1,
+      sym__tagged_expr,
+    STATE(100), 1,
       sym_attributes,
-    STATE(179), 1,
+    STATE(146), 1,
       aux_sym_doc_comment_repeat1,
-    STATE(189), 1,
+    STATE(210), 1,
       sym_entry,
-    STATE(76), 2,
+    ACTIONS(37), 2,
+      anon_sym_COMMA,
+      sym__newline,
+    STATE(57), 2,
       sym_attribute,
       aux_sym_attributes_repeat1,
-    STATE(132), 3,
+    STATE(60), 2,
+      sym__separator,
+      aux_sym_document_repeat2,
+    STATE(99), 3,
       sym_quoted_scalar,
       sym_raw_scalar,
       sym_heredoc,
-    STATE(284), 3,
-      sym__object_body,
-      sym__newline_separated,
-      sym__comma_separated,
-    STATE(131), 5,
+    STATE(98), 5,
       sym__payload,
       sym_scalar,
       sym_unit,
       sym_sequence,
       sym_object,
-  [228] = 22,
+  [237] = 23,
     ACTIONS(3), 1,
       sym_line_comment,
     ACTIONS(15), 1,
-      anon_sym_SLASH_SLASH_SLASH,
-    ACTIONS(27), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(31), 1,
+      aux_sym_doc_comment_token1,
+    ACTIONS(29), 1,
       sym_bare_scalar,
+    ACTIONS(31), 1,
+      anon_sym_DQUOTE2,
     ACTIONS(33), 1,
       anon_sym_LPAREN2,
     ACTIONS(35), 1,
       anon_sym_LBRACE2,
-    ACTIONS(37), 1,
-      sym__newline,
     ACTIONS(39), 1,
       sym__heredoc_start,
     ACTIONS(41), 1,
@@ -1897,50 +1829,52 @@ static const uint16_t ts_small_parse_table[] = {
       sym__tag_start,
     ACTIONS(51), 1,
       anon_sym_RBRACE,
-    STATE(39), 1,
-      sym_expr,
-    STATE(41), 1,
+    STATE(23), 1,
       sym_tag,
-    STATE(65), 1,
+    STATE(33), 1,
+      sym_expr,
+    STATE(50), 1,
       sym_doc_comment,
-    STATE(133), 1,
+    STATE(96), 1,
+      sym__tagged_expr,
+    STATE(100), 1,
       sym_attributes,
-    STATE(179), 1,
+    STATE(146), 1,
       aux_sym_doc_comment_repeat1,
-    STATE(189), 1,
+    STATE(210), 1,
       sym_entry,
-    STATE(76), 2,
+    ACTIONS(37), 2,
+      anon_sym_COMMA,
+      sym__newline,
+    STATE(57), 2,
       sym_attribute,
       aux_sym_attributes_repeat1,
-    STATE(132), 3,
+    STATE(60), 2,
+      sym__separator,
+      aux_sym_document_repeat2,
+    STATE(99), 3,
       sym_quoted_scalar,
       sym_raw_scalar,
       sym_heredoc,
-    STATE(294), 3,
-      sym__object_body,
-      sym__newline_separated,
-      sym__comma_separated,
-    STATE(131), 5,
+    STATE(98), 5,
       sym__payload,
       sym_scalar,
       sym_unit,
       sym_sequence,
       sym_object,
-  [304] = 22,
+  [316] = 24,
     ACTIONS(3), 1,
       sym_line_comment,
     ACTIONS(15), 1,
-      anon_sym_SLASH_SLASH_SLASH,
-    ACTIONS(27), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(31), 1,
+      aux_sym_doc_comment_token1,
+    ACTIONS(29), 1,
       sym_bare_scalar,
+    ACTIONS(31), 1,
+      anon_sym_DQUOTE2,
     ACTIONS(33), 1,
       anon_sym_LPAREN2,
     ACTIONS(35), 1,
       anon_sym_LBRACE2,
-    ACTIONS(37), 1,
-      sym__newline,
     ACTIONS(39), 1,
       sym__heredoc_start,
     ACTIONS(41), 1,
@@ -1951,50 +1885,52 @@ static const uint16_t ts_small_parse_table[] = {
       sym__tag_start,
     ACTIONS(53), 1,
       anon_sym_RBRACE,
-    STATE(39), 1,
-      sym_expr,
-    STATE(41), 1,
+    ACTIONS(55), 1,
+      sym__newline,
+    STATE(14), 1,
+      aux_sym_document_repeat1,
+    STATE(23), 1,
       sym_tag,
-    STATE(65), 1,
+    STATE(33), 1,
+      sym_expr,
+    STATE(48), 1,
       sym_doc_comment,
-    STATE(133), 1,
+    STATE(96), 1,
+      sym__tagged_expr,
+    STATE(100), 1,
       sym_attributes,
-    STATE(179), 1,
+    STATE(146), 1,
       aux_sym_doc_comment_repeat1,
-    STATE(189), 1,
+    STATE(156), 1,
       sym_entry,
-    STATE(76), 2,
+    STATE(244), 1,
+      sym__object_body,
+    STATE(57), 2,
       sym_attribute,
       aux_sym_attributes_repeat1,
-    STATE(132), 3,
+    STATE(99), 3,
       sym_quoted_scalar,
       sym_raw_scalar,
       sym_heredoc,
-    STATE(305), 3,
-      sym__object_body,
-      sym__newline_separated,
-      sym__comma_separated,
-    STATE(131), 5,
+    STATE(98), 5,
       sym__payload,
       sym_scalar,
       sym_unit,
       sym_sequence,
       sym_object,
-  [380] = 22,
+  [396] = 24,
     ACTIONS(3), 1,
       sym_line_comment,
     ACTIONS(15), 1,
-      anon_sym_SLASH_SLASH_SLASH,
-    ACTIONS(27), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(31), 1,
+      aux_sym_doc_comment_token1,
+    ACTIONS(29), 1,
       sym_bare_scalar,
+    ACTIONS(31), 1,
+      anon_sym_DQUOTE2,
     ACTIONS(33), 1,
       anon_sym_LPAREN2,
     ACTIONS(35), 1,
       anon_sym_LBRACE2,
-    ACTIONS(37), 1,
-      sym__newline,
     ACTIONS(39), 1,
       sym__heredoc_start,
     ACTIONS(41), 1,
@@ -2004,51 +1940,53 @@ static const uint16_t ts_small_parse_table[] = {
     ACTIONS(45), 1,
       sym__tag_start,
     ACTIONS(55), 1,
+      sym__newline,
+    ACTIONS(57), 1,
       anon_sym_RBRACE,
-    STATE(39), 1,
-      sym_expr,
-    STATE(41), 1,
+    STATE(14), 1,
+      aux_sym_document_repeat1,
+    STATE(23), 1,
       sym_tag,
-    STATE(65), 1,
+    STATE(33), 1,
+      sym_expr,
+    STATE(48), 1,
       sym_doc_comment,
-    STATE(133), 1,
+    STATE(96), 1,
+      sym__tagged_expr,
+    STATE(100), 1,
       sym_attributes,
-    STATE(179), 1,
+    STATE(146), 1,
       aux_sym_doc_comment_repeat1,
-    STATE(189), 1,
+    STATE(156), 1,
       sym_entry,
-    STATE(76), 2,
+    STATE(254), 1,
+      sym__object_body,
+    STATE(57), 2,
       sym_attribute,
       aux_sym_attributes_repeat1,
-    STATE(132), 3,
+    STATE(99), 3,
       sym_quoted_scalar,
       sym_raw_scalar,
       sym_heredoc,
-    STATE(280), 3,
-      sym__object_body,
-      sym__newline_separated,
-      sym__comma_separated,
-    STATE(131), 5,
+    STATE(98), 5,
       sym__payload,
       sym_scalar,
       sym_unit,
       sym_sequence,
       sym_object,
-  [456] = 22,
+  [476] = 24,
     ACTIONS(3), 1,
       sym_line_comment,
     ACTIONS(15), 1,
-      anon_sym_SLASH_SLASH_SLASH,
-    ACTIONS(27), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(31), 1,
+      aux_sym_doc_comment_token1,
+    ACTIONS(29), 1,
       sym_bare_scalar,
+    ACTIONS(31), 1,
+      anon_sym_DQUOTE2,
     ACTIONS(33), 1,
       anon_sym_LPAREN2,
     ACTIONS(35), 1,
       anon_sym_LBRACE2,
-    ACTIONS(37), 1,
-      sym__newline,
     ACTIONS(39), 1,
       sym__heredoc_start,
     ACTIONS(41), 1,
@@ -2057,106 +1995,110 @@ static const uint16_t ts_small_parse_table[] = {
       sym__unit_at,
     ACTIONS(45), 1,
       sym__tag_start,
-    ACTIONS(57), 1,
+    ACTIONS(55), 1,
+      sym__newline,
+    ACTIONS(59), 1,
       anon_sym_RBRACE,
-    STATE(39), 1,
-      sym_expr,
-    STATE(41), 1,
+    STATE(14), 1,
+      aux_sym_document_repeat1,
+    STATE(23), 1,
       sym_tag,
-    STATE(65), 1,
+    STATE(33), 1,
+      sym_expr,
+    STATE(48), 1,
       sym_doc_comment,
-    STATE(133), 1,
+    STATE(96), 1,
+      sym__tagged_expr,
+    STATE(100), 1,
       sym_attributes,
-    STATE(179), 1,
+    STATE(146), 1,
       aux_sym_doc_comment_repeat1,
-    STATE(189), 1,
+    STATE(156), 1,
       sym_entry,
-    STATE(76), 2,
+    STATE(238), 1,
+      sym__object_body,
+    STATE(57), 2,
       sym_attribute,
       aux_sym_attributes_repeat1,
-    STATE(132), 3,
+    STATE(99), 3,
       sym_quoted_scalar,
       sym_raw_scalar,
       sym_heredoc,
-    STATE(277), 3,
-      sym__object_body,
-      sym__newline_separated,
-      sym__comma_separated,
-    STATE(131), 5,
+    STATE(98), 5,
       sym__payload,
       sym_scalar,
       sym_unit,
       sym_sequence,
       sym_object,
-  [532] = 22,
+  [556] = 24,
     ACTIONS(3), 1,
       sym_line_comment,
-    ACTIONS(15), 1,
-      anon_sym_SLASH_SLASH_SLASH,
-    ACTIONS(27), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(31), 1,
+    ACTIONS(7), 1,
       sym_bare_scalar,
-    ACTIONS(33), 1,
+    ACTIONS(9), 1,
+      anon_sym_DQUOTE2,
+    ACTIONS(11), 1,
       anon_sym_LPAREN2,
-    ACTIONS(35), 1,
+    ACTIONS(13), 1,
       anon_sym_LBRACE2,
-    ACTIONS(37), 1,
-      sym__newline,
-    ACTIONS(39), 1,
+    ACTIONS(15), 1,
+      aux_sym_doc_comment_token1,
+    ACTIONS(19), 1,
       sym__heredoc_start,
-    ACTIONS(41), 1,
+    ACTIONS(21), 1,
       sym__raw_string_start,
-    ACTIONS(43), 1,
+    ACTIONS(23), 1,
       sym__unit_at,
-    ACTIONS(45), 1,
+    ACTIONS(25), 1,
       sym__tag_start,
-    ACTIONS(59), 1,
-      anon_sym_RBRACE,
-    STATE(39), 1,
-      sym_expr,
-    STATE(41), 1,
+    ACTIONS(61), 1,
+      ts_builtin_sym_end,
+    ACTIONS(63), 1,
+      sym__newline,
+    STATE(15), 1,
+      aux_sym_document_repeat3,
+    STATE(19), 1,
       sym_tag,
-    STATE(65), 1,
+    STATE(32), 1,
+      sym_expr,
+    STATE(47), 1,
       sym_doc_comment,
-    STATE(133), 1,
+    STATE(63), 1,
+      sym_entry,
+    STATE(83), 1,
+      sym__tagged_expr,
+    STATE(97), 1,
       sym_attributes,
-    STATE(179), 1,
+    STATE(136), 1,
+      aux_sym_document_repeat1,
+    STATE(146), 1,
       aux_sym_doc_comment_repeat1,
-    STATE(189), 1,
-      sym_entry,
-    STATE(76), 2,
+    STATE(59), 2,
       sym_attribute,
       aux_sym_attributes_repeat1,
-    STATE(132), 3,
+    STATE(95), 3,
       sym_quoted_scalar,
       sym_raw_scalar,
       sym_heredoc,
-    STATE(299), 3,
-      sym__object_body,
-      sym__newline_separated,
-      sym__comma_separated,
-    STATE(131), 5,
+    STATE(94), 5,
       sym__payload,
       sym_scalar,
       sym_unit,
       sym_sequence,
       sym_object,
-  [608] = 22,
+  [636] = 22,
     ACTIONS(3), 1,
       sym_line_comment,
     ACTIONS(15), 1,
-      anon_sym_SLASH_SLASH_SLASH,
-    ACTIONS(27), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(31), 1,
+      aux_sym_doc_comment_token1,
+    ACTIONS(29), 1,
       sym_bare_scalar,
+    ACTIONS(31), 1,
+      anon_sym_DQUOTE2,
     ACTIONS(33), 1,
       anon_sym_LPAREN2,
     ACTIONS(35), 1,
       anon_sym_LBRACE2,
-    ACTIONS(37), 1,
-      sym__newline,
     ACTIONS(39), 1,
       sym__heredoc_start,
     ACTIONS(41), 1,
@@ -2165,1114 +2107,1181 @@ static const uint16_t ts_small_parse_table[] = {
       sym__unit_at,
     ACTIONS(45), 1,
       sym__tag_start,
-    ACTIONS(61), 1,
-      anon_sym_RBRACE,
-    STATE(39), 1,
-      sym_expr,
-    STATE(41), 1,
+    STATE(23), 1,
       sym_tag,
-    STATE(65), 1,
+    STATE(33), 1,
+      sym_expr,
+    STATE(50), 1,
       sym_doc_comment,
-    STATE(133), 1,
+    STATE(96), 1,
+      sym__tagged_expr,
+    STATE(100), 1,
       sym_attributes,
-    STATE(179), 1,
+    STATE(146), 1,
       aux_sym_doc_comment_repeat1,
-    STATE(189), 1,
+    STATE(210), 1,
       sym_entry,
-    STATE(76), 2,
+    ACTIONS(37), 2,
+      anon_sym_COMMA,
+      sym__newline,
+    STATE(57), 2,
       sym_attribute,
       aux_sym_attributes_repeat1,
-    STATE(132), 3,
+    STATE(60), 2,
+      sym__separator,
+      aux_sym_document_repeat2,
+    STATE(99), 3,
       sym_quoted_scalar,
       sym_raw_scalar,
       sym_heredoc,
-    STATE(296), 3,
-      sym__object_body,
-      sym__newline_separated,
-      sym__comma_separated,
-    STATE(131), 5,
+    STATE(98), 5,
       sym__payload,
       sym_scalar,
       sym_unit,
       sym_sequence,
       sym_object,
-  [684] = 23,
+  [712] = 24,
     ACTIONS(3), 1,
       sym_line_comment,
-    ACTIONS(7), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(9), 1,
+    ACTIONS(15), 1,
+      aux_sym_doc_comment_token1,
+    ACTIONS(29), 1,
       sym_bare_scalar,
-    ACTIONS(11), 1,
+    ACTIONS(31), 1,
+      anon_sym_DQUOTE2,
+    ACTIONS(33), 1,
       anon_sym_LPAREN2,
-    ACTIONS(13), 1,
+    ACTIONS(35), 1,
       anon_sym_LBRACE2,
-    ACTIONS(15), 1,
-      anon_sym_SLASH_SLASH_SLASH,
-    ACTIONS(19), 1,
+    ACTIONS(39), 1,
       sym__heredoc_start,
-    ACTIONS(21), 1,
+    ACTIONS(41), 1,
       sym__raw_string_start,
-    ACTIONS(23), 1,
+    ACTIONS(43), 1,
       sym__unit_at,
-    ACTIONS(25), 1,
+    ACTIONS(45), 1,
       sym__tag_start,
-    ACTIONS(63), 1,
-      ts_builtin_sym_end,
-    ACTIONS(65), 1,
+    ACTIONS(55), 1,
       sym__newline,
-    STATE(27), 1,
-      aux_sym_document_repeat2,
-    STATE(40), 1,
-      sym_expr,
-    STATE(62), 1,
+    ACTIONS(65), 1,
+      anon_sym_RBRACE,
+    STATE(14), 1,
+      aux_sym_document_repeat1,
+    STATE(23), 1,
       sym_tag,
-    STATE(68), 1,
+    STATE(33), 1,
+      sym_expr,
+    STATE(48), 1,
       sym_doc_comment,
-    STATE(83), 1,
-      sym_entry,
-    STATE(86), 1,
-      aux_sym_document_repeat1,
-    STATE(178), 1,
+    STATE(96), 1,
+      sym__tagged_expr,
+    STATE(100), 1,
       sym_attributes,
-    STATE(179), 1,
+    STATE(146), 1,
       aux_sym_doc_comment_repeat1,
-    STATE(82), 2,
+    STATE(156), 1,
+      sym_entry,
+    STATE(249), 1,
+      sym__object_body,
+    STATE(57), 2,
       sym_attribute,
       aux_sym_attributes_repeat1,
-    STATE(177), 3,
+    STATE(99), 3,
       sym_quoted_scalar,
       sym_raw_scalar,
       sym_heredoc,
-    STATE(172), 5,
+    STATE(98), 5,
       sym__payload,
       sym_scalar,
       sym_unit,
       sym_sequence,
       sym_object,
-  [761] = 19,
-    ACTIONS(67), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(69), 1,
-      anon_sym_RPAREN,
-    ACTIONS(71), 1,
+  [792] = 24,
+    ACTIONS(3), 1,
+      sym_line_comment,
+    ACTIONS(15), 1,
+      aux_sym_doc_comment_token1,
+    ACTIONS(29), 1,
       sym_bare_scalar,
-    ACTIONS(73), 1,
+    ACTIONS(31), 1,
+      anon_sym_DQUOTE2,
+    ACTIONS(33), 1,
       anon_sym_LPAREN2,
-    ACTIONS(75), 1,
+    ACTIONS(35), 1,
       anon_sym_LBRACE2,
-    ACTIONS(79), 1,
-      aux_sym__seq_ws_token1,
-    ACTIONS(81), 1,
+    ACTIONS(39), 1,
       sym__heredoc_start,
-    ACTIONS(83), 1,
+    ACTIONS(41), 1,
       sym__raw_string_start,
-    ACTIONS(85), 1,
+    ACTIONS(43), 1,
       sym__unit_at,
-    ACTIONS(87), 1,
+    ACTIONS(45), 1,
       sym__tag_start,
-    STATE(42), 1,
-      aux_sym_immediate_sequence_repeat2,
-    STATE(43), 1,
+    ACTIONS(55), 1,
+      sym__newline,
+    ACTIONS(67), 1,
+      anon_sym_RBRACE,
+    STATE(14), 1,
+      aux_sym_document_repeat1,
+    STATE(23), 1,
       sym_tag,
-    STATE(74), 1,
+    STATE(33), 1,
       sym_expr,
-    STATE(102), 1,
+    STATE(48), 1,
+      sym_doc_comment,
+    STATE(96), 1,
+      sym__tagged_expr,
+    STATE(100), 1,
       sym_attributes,
-    ACTIONS(77), 2,
-      sym_line_comment,
-      sym__newline,
-    STATE(79), 2,
+    STATE(146), 1,
+      aux_sym_doc_comment_repeat1,
+    STATE(156), 1,
+      sym_entry,
+    STATE(241), 1,
+      sym__object_body,
+    STATE(57), 2,
       sym_attribute,
       aux_sym_attributes_repeat1,
-    STATE(81), 2,
-      sym__seq_ws,
-      aux_sym_immediate_sequence_repeat1,
-    STATE(101), 3,
+    STATE(99), 3,
       sym_quoted_scalar,
       sym_raw_scalar,
       sym_heredoc,
-    STATE(100), 5,
+    STATE(98), 5,
       sym__payload,
       sym_scalar,
       sym_unit,
       sym_sequence,
       sym_object,
-  [828] = 19,
-    ACTIONS(67), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(71), 1,
+  [872] = 24,
+    ACTIONS(3), 1,
+      sym_line_comment,
+    ACTIONS(15), 1,
+      aux_sym_doc_comment_token1,
+    ACTIONS(29), 1,
       sym_bare_scalar,
-    ACTIONS(73), 1,
+    ACTIONS(31), 1,
+      anon_sym_DQUOTE2,
+    ACTIONS(33), 1,
       anon_sym_LPAREN2,
-    ACTIONS(75), 1,
+    ACTIONS(35), 1,
       anon_sym_LBRACE2,
-    ACTIONS(81), 1,
+    ACTIONS(39), 1,
       sym__heredoc_start,
-    ACTIONS(83), 1,
+    ACTIONS(41), 1,
       sym__raw_string_start,
-    ACTIONS(85), 1,
+    ACTIONS(43), 1,
       sym__unit_at,
-    ACTIONS(87), 1,
+    ACTIONS(45), 1,
       sym__tag_start,
-    ACTIONS(89), 1,
-      anon_sym_RPAREN,
-    ACTIONS(93), 1,
-      aux_sym__seq_ws_token1,
-    STATE(43), 1,
+    ACTIONS(55), 1,
+      sym__newline,
+    ACTIONS(69), 1,
+      anon_sym_RBRACE,
+    STATE(14), 1,
+      aux_sym_document_repeat1,
+    STATE(23), 1,
       sym_tag,
-    STATE(47), 1,
-      aux_sym_immediate_sequence_repeat2,
-    STATE(74), 1,
+    STATE(33), 1,
       sym_expr,
-    STATE(102), 1,
+    STATE(48), 1,
+      sym_doc_comment,
+    STATE(96), 1,
+      sym__tagged_expr,
+    STATE(100), 1,
       sym_attributes,
-    ACTIONS(91), 2,
-      sym_line_comment,
-      sym__newline,
-    STATE(19), 2,
-      sym__seq_ws,
-      aux_sym_immediate_sequence_repeat1,
-    STATE(79), 2,
+    STATE(146), 1,
+      aux_sym_doc_comment_repeat1,
+    STATE(156), 1,
+      sym_entry,
+    STATE(240), 1,
+      sym__object_body,
+    STATE(57), 2,
       sym_attribute,
       aux_sym_attributes_repeat1,
-    STATE(101), 3,
+    STATE(99), 3,
       sym_quoted_scalar,
       sym_raw_scalar,
       sym_heredoc,
-    STATE(100), 5,
+    STATE(98), 5,
       sym__payload,
       sym_scalar,
       sym_unit,
       sym_sequence,
       sym_object,
-  [895] = 19,
-    ACTIONS(67), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(71), 1,
+  [952] = 23,
+    ACTIONS(3), 1,
+      sym_line_comment,
+    ACTIONS(15), 1,
+      aux_sym_doc_comment_token1,
+    ACTIONS(29), 1,
       sym_bare_scalar,
-    ACTIONS(73), 1,
+    ACTIONS(31), 1,
+      anon_sym_DQUOTE2,
+    ACTIONS(33), 1,
       anon_sym_LPAREN2,
-    ACTIONS(75), 1,
+    ACTIONS(35), 1,
       anon_sym_LBRACE2,
-    ACTIONS(79), 1,
-      aux_sym__seq_ws_token1,
-    ACTIONS(81), 1,
+    ACTIONS(39), 1,
       sym__heredoc_start,
-    ACTIONS(83), 1,
+    ACTIONS(41), 1,
       sym__raw_string_start,
-    ACTIONS(85), 1,
+    ACTIONS(43), 1,
       sym__unit_at,
-    ACTIONS(87), 1,
+    ACTIONS(45), 1,
       sym__tag_start,
-    ACTIONS(95), 1,
-      anon_sym_RPAREN,
-    STATE(43), 1,
+    ACTIONS(71), 1,
+      anon_sym_RBRACE,
+    ACTIONS(73), 1,
+      sym__newline,
+    STATE(23), 1,
       sym_tag,
-    STATE(58), 1,
-      aux_sym_immediate_sequence_repeat2,
-    STATE(74), 1,
+    STATE(33), 1,
       sym_expr,
-    STATE(102), 1,
+    STATE(49), 1,
+      sym_doc_comment,
+    STATE(96), 1,
+      sym__tagged_expr,
+    STATE(100), 1,
       sym_attributes,
-    ACTIONS(77), 2,
-      sym_line_comment,
-      sym__newline,
-    STATE(79), 2,
+    STATE(111), 1,
+      aux_sym_document_repeat1,
+    STATE(146), 1,
+      aux_sym_doc_comment_repeat1,
+    STATE(150), 1,
+      sym_entry,
+    STATE(57), 2,
       sym_attribute,
       aux_sym_attributes_repeat1,
-    STATE(81), 2,
-      sym__seq_ws,
-      aux_sym_immediate_sequence_repeat1,
-    STATE(101), 3,
+    STATE(99), 3,
       sym_quoted_scalar,
       sym_raw_scalar,
       sym_heredoc,
-    STATE(100), 5,
+    STATE(98), 5,
       sym__payload,
       sym_scalar,
       sym_unit,
       sym_sequence,
       sym_object,
-  [962] = 19,
-    ACTIONS(67), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(71), 1,
+  [1029] = 22,
+    ACTIONS(3), 1,
+      sym_line_comment,
+    ACTIONS(7), 1,
       sym_bare_scalar,
-    ACTIONS(73), 1,
+    ACTIONS(9), 1,
+      anon_sym_DQUOTE2,
+    ACTIONS(11), 1,
       anon_sym_LPAREN2,
-    ACTIONS(75), 1,
+    ACTIONS(13), 1,
       anon_sym_LBRACE2,
-    ACTIONS(79), 1,
-      aux_sym__seq_ws_token1,
-    ACTIONS(81), 1,
+    ACTIONS(15), 1,
+      aux_sym_doc_comment_token1,
+    ACTIONS(19), 1,
       sym__heredoc_start,
-    ACTIONS(83), 1,
+    ACTIONS(21), 1,
       sym__raw_string_start,
-    ACTIONS(85), 1,
+    ACTIONS(23), 1,
       sym__unit_at,
-    ACTIONS(87), 1,
+    ACTIONS(25), 1,
       sym__tag_start,
-    ACTIONS(97), 1,
-      anon_sym_RPAREN,
-    STATE(43), 1,
+    ACTIONS(75), 1,
+      ts_builtin_sym_end,
+    STATE(16), 1,
+      aux_sym_document_repeat3,
+    STATE(19), 1,
       sym_tag,
-    STATE(46), 1,
-      aux_sym_immediate_sequence_repeat2,
-    STATE(74), 1,
+    STATE(32), 1,
       sym_expr,
-    STATE(102), 1,
+    STATE(47), 1,
+      sym_doc_comment,
+    STATE(63), 1,
+      sym_entry,
+    STATE(83), 1,
+      sym__tagged_expr,
+    STATE(97), 1,
       sym_attributes,
-    ACTIONS(77), 2,
-      sym_line_comment,
-      sym__newline,
-    STATE(79), 2,
+    STATE(146), 1,
+      aux_sym_doc_comment_repeat1,
+    STATE(59), 2,
       sym_attribute,
       aux_sym_attributes_repeat1,
-    STATE(81), 2,
-      sym__seq_ws,
-      aux_sym_immediate_sequence_repeat1,
-    STATE(101), 3,
+    STATE(95), 3,
       sym_quoted_scalar,
       sym_raw_scalar,
       sym_heredoc,
-    STATE(100), 5,
+    STATE(94), 5,
       sym__payload,
       sym_scalar,
       sym_unit,
       sym_sequence,
       sym_object,
-  [1029] = 19,
-    ACTIONS(67), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(71), 1,
+  [1103] = 22,
+    ACTIONS(3), 1,
+      sym_line_comment,
+    ACTIONS(77), 1,
+      ts_builtin_sym_end,
+    ACTIONS(79), 1,
       sym_bare_scalar,
-    ACTIONS(73), 1,
+    ACTIONS(82), 1,
+      anon_sym_DQUOTE2,
+    ACTIONS(85), 1,
       anon_sym_LPAREN2,
-    ACTIONS(75), 1,
+    ACTIONS(88), 1,
       anon_sym_LBRACE2,
-    ACTIONS(81), 1,
+    ACTIONS(91), 1,
+      aux_sym_doc_comment_token1,
+    ACTIONS(94), 1,
       sym__heredoc_start,
-    ACTIONS(83), 1,
+    ACTIONS(97), 1,
       sym__raw_string_start,
-    ACTIONS(85), 1,
+    ACTIONS(100), 1,
       sym__unit_at,
-    ACTIONS(87), 1,
-      sym__tag_start,
-    ACTIONS(99), 1,
-      anon_sym_RPAREN,
     ACTIONS(103), 1,
-      aux_sym__seq_ws_token1,
-    STATE(43), 1,
+      sym__tag_start,
+    STATE(16), 1,
+      aux_sym_document_repeat3,
+    STATE(19), 1,
       sym_tag,
-    STATE(51), 1,
-      aux_sym_immediate_sequence_repeat2,
-    STATE(74), 1,
+    STATE(32), 1,
       sym_expr,
-    STATE(102), 1,
+    STATE(47), 1,
+      sym_doc_comment,
+    STATE(63), 1,
+      sym_entry,
+    STATE(83), 1,
+      sym__tagged_expr,
+    STATE(97), 1,
       sym_attributes,
-    ACTIONS(101), 2,
-      sym_line_comment,
-      sym__newline,
-    STATE(15), 2,
-      sym__seq_ws,
-      aux_sym_immediate_sequence_repeat1,
-    STATE(79), 2,
+    STATE(146), 1,
+      aux_sym_doc_comment_repeat1,
+    STATE(59), 2,
       sym_attribute,
       aux_sym_attributes_repeat1,
-    STATE(101), 3,
+    STATE(95), 3,
       sym_quoted_scalar,
       sym_raw_scalar,
       sym_heredoc,
-    STATE(100), 5,
+    STATE(94), 5,
       sym__payload,
       sym_scalar,
       sym_unit,
       sym_sequence,
       sym_object,
-  [1096] = 19,
-    ACTIONS(67), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(71), 1,
+  [1177] = 22,
+    ACTIONS(3), 1,
+      sym_line_comment,
+    ACTIONS(7), 1,
       sym_bare_scalar,
-    ACTIONS(73), 1,
+    ACTIONS(9), 1,
+      anon_sym_DQUOTE2,
+    ACTIONS(11), 1,
       anon_sym_LPAREN2,
-    ACTIONS(75), 1,
+    ACTIONS(13), 1,
       anon_sym_LBRACE2,
-    ACTIONS(81), 1,
+    ACTIONS(15), 1,
+      aux_sym_doc_comment_token1,
+    ACTIONS(19), 1,
       sym__heredoc_start,
-    ACTIONS(83), 1,
+    ACTIONS(21), 1,
       sym__raw_string_start,
-    ACTIONS(85), 1,
+    ACTIONS(23), 1,
       sym__unit_at,
-    ACTIONS(87), 1,
+    ACTIONS(25), 1,
       sym__tag_start,
-    ACTIONS(105), 1,
-      anon_sym_RPAREN,
-    ACTIONS(109), 1,
-      aux_sym__seq_ws_token1,
-    STATE(43), 1,
+    ACTIONS(61), 1,
+      ts_builtin_sym_end,
+    STATE(16), 1,
+      aux_sym_document_repeat3,
+    STATE(19), 1,
       sym_tag,
-    STATE(44), 1,
-      aux_sym_immediate_sequence_repeat2,
-    STATE(74), 1,
+    STATE(32), 1,
       sym_expr,
-    STATE(102), 1,
+    STATE(47), 1,
+      sym_doc_comment,
+    STATE(63), 1,
+      sym_entry,
+    STATE(83), 1,
+      sym__tagged_expr,
+    STATE(97), 1,
       sym_attributes,
-    ACTIONS(107), 2,
-      sym_line_comment,
-      sym__newline,
-    STATE(18), 2,
-      sym__seq_ws,
-      aux_sym_immediate_sequence_repeat1,
-    STATE(79), 2,
+    STATE(146), 1,
+      aux_sym_doc_comment_repeat1,
+    STATE(59), 2,
       sym_attribute,
       aux_sym_attributes_repeat1,
-    STATE(101), 3,
+    STATE(95), 3,
       sym_quoted_scalar,
       sym_raw_scalar,
       sym_heredoc,
-    STATE(100), 5,
+    STATE(94), 5,
       sym__payload,
       sym_scalar,
       sym_unit,
       sym_sequence,
       sym_object,
-  [1163] = 19,
-    ACTIONS(67), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(71), 1,
+  [1251] = 20,
+    ACTIONS(29), 1,
       sym_bare_scalar,
-    ACTIONS(73), 1,
+    ACTIONS(31), 1,
+      anon_sym_DQUOTE2,
+    ACTIONS(33), 1,
       anon_sym_LPAREN2,
-    ACTIONS(75), 1,
+    ACTIONS(35), 1,
       anon_sym_LBRACE2,
-    ACTIONS(79), 1,
-      aux_sym__seq_ws_token1,
-    ACTIONS(81), 1,
+    ACTIONS(39), 1,
       sym__heredoc_start,
-    ACTIONS(83), 1,
+    ACTIONS(41), 1,
       sym__raw_string_start,
-    ACTIONS(85), 1,
+    ACTIONS(43), 1,
       sym__unit_at,
-    ACTIONS(87), 1,
+    ACTIONS(45), 1,
       sym__tag_start,
-    ACTIONS(111), 1,
+    ACTIONS(106), 1,
       anon_sym_RPAREN,
-    STATE(43), 1,
+    ACTIONS(108), 1,
+      sym_line_comment,
+    ACTIONS(110), 1,
+      sym__newline,
+    STATE(23), 1,
       sym_tag,
-    STATE(45), 1,
+    STATE(46), 1,
       aux_sym_immediate_sequence_repeat2,
-    STATE(74), 1,
+    STATE(82), 1,
       sym_expr,
-    STATE(102), 1,
+    STATE(96), 1,
+      sym__tagged_expr,
+    STATE(100), 1,
       sym_attributes,
-    ACTIONS(77), 2,
-      sym_line_comment,
-      sym__newline,
-    STATE(79), 2,
-      sym_attribute,
-      aux_sym_attributes_repeat1,
-    STATE(81), 2,
+    STATE(30), 2,
       sym__seq_ws,
       aux_sym_immediate_sequence_repeat1,
-    STATE(101), 3,
+    STATE(57), 2,
+      sym_attribute,
+      aux_sym_attributes_repeat1,
+    STATE(99), 3,
       sym_quoted_scalar,
       sym_raw_scalar,
       sym_heredoc,
-    STATE(100), 5,
+    STATE(98), 5,
       sym__payload,
       sym_scalar,
       sym_unit,
       sym_sequence,
       sym_object,
-  [1230] = 19,
-    ACTIONS(67), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(71), 1,
+  [1320] = 12,
+    ACTIONS(3), 1,
+      sym_line_comment,
+    ACTIONS(114), 1,
+      anon_sym_DQUOTE,
+    ACTIONS(116), 1,
+      anon_sym_LPAREN,
+    ACTIONS(118), 1,
+      anon_sym_LBRACE,
+    ACTIONS(122), 1,
+      sym__immediate_raw_string_start,
+    ACTIONS(124), 1,
+      sym__immediate_unit_at,
+    ACTIONS(126), 1,
+      sym__immediate_heredoc_start,
+    STATE(134), 1,
+      sym_immediate_quoted_scalar_inner,
+    STATE(135), 1,
+      sym__immediate_heredoc,
+    ACTIONS(120), 4,
       sym_bare_scalar,
-    ACTIONS(73), 1,
+      anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
-    ACTIONS(75), 1,
       anon_sym_LBRACE2,
-    ACTIONS(79), 1,
-      aux_sym__seq_ws_token1,
-    ACTIONS(81), 1,
+    STATE(133), 7,
+      sym__immediate_payload,
+      sym__immediate_quoted_scalar,
+      sym__immediate_raw_scalar,
+      sym__immediate_heredoc_scalar,
+      sym_immediate_sequence,
+      sym_immediate_object,
+      sym_immediate_unit,
+    ACTIONS(112), 8,
       sym__heredoc_start,
-    ACTIONS(83), 1,
       sym__raw_string_start,
-    ACTIONS(85), 1,
       sym__unit_at,
-    ACTIONS(87), 1,
       sym__tag_start,
-    ACTIONS(113), 1,
-      anon_sym_RPAREN,
-    STATE(43), 1,
-      sym_tag,
-    STATE(48), 1,
-      aux_sym_immediate_sequence_repeat2,
-    STATE(74), 1,
-      sym_expr,
-    STATE(102), 1,
-      sym_attributes,
-    ACTIONS(77), 2,
-      sym_line_comment,
+      ts_builtin_sym_end,
+      anon_sym_COMMA,
+      aux_sym_doc_comment_token1,
       sym__newline,
-    STATE(79), 2,
-      sym_attribute,
-      aux_sym_attributes_repeat1,
-    STATE(81), 2,
-      sym__seq_ws,
-      aux_sym_immediate_sequence_repeat1,
-    STATE(101), 3,
-      sym_quoted_scalar,
-      sym_raw_scalar,
-      sym_heredoc,
-    STATE(100), 5,
-      sym__payload,
-      sym_scalar,
-      sym_unit,
-      sym_sequence,
-      sym_object,
-  [1297] = 19,
-    ACTIONS(67), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(71), 1,
+  [1373] = 20,
+    ACTIONS(29), 1,
       sym_bare_scalar,
-    ACTIONS(73), 1,
+    ACTIONS(31), 1,
+      anon_sym_DQUOTE2,
+    ACTIONS(33), 1,
       anon_sym_LPAREN2,
-    ACTIONS(75), 1,
+    ACTIONS(35), 1,
       anon_sym_LBRACE2,
-    ACTIONS(81), 1,
+    ACTIONS(39), 1,
       sym__heredoc_start,
-    ACTIONS(83), 1,
+    ACTIONS(41), 1,
       sym__raw_string_start,
-    ACTIONS(85), 1,
+    ACTIONS(43), 1,
       sym__unit_at,
-    ACTIONS(87), 1,
+    ACTIONS(45), 1,
       sym__tag_start,
-    ACTIONS(115), 1,
+    ACTIONS(108), 1,
+      sym_line_comment,
+    ACTIONS(128), 1,
       anon_sym_RPAREN,
-    ACTIONS(119), 1,
-      aux_sym__seq_ws_token1,
-    STATE(43), 1,
+    ACTIONS(130), 1,
+      sym__newline,
+    STATE(23), 1,
       sym_tag,
-    STATE(50), 1,
+    STATE(35), 1,
       aux_sym_immediate_sequence_repeat2,
-    STATE(74), 1,
+    STATE(82), 1,
       sym_expr,
-    STATE(102), 1,
+    STATE(96), 1,
+      sym__tagged_expr,
+    STATE(100), 1,
       sym_attributes,
-    ACTIONS(117), 2,
-      sym_line_comment,
-      sym__newline,
     STATE(22), 2,
       sym__seq_ws,
       aux_sym_immediate_sequence_repeat1,
-    STATE(79), 2,
+    STATE(57), 2,
       sym_attribute,
       aux_sym_attributes_repeat1,
-    STATE(101), 3,
+    STATE(99), 3,
       sym_quoted_scalar,
       sym_raw_scalar,
       sym_heredoc,
-    STATE(100), 5,
+    STATE(98), 5,
       sym__payload,
       sym_scalar,
       sym_unit,
       sym_sequence,
       sym_object,
-  [1364] = 19,
-    ACTIONS(67), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(71), 1,
+  [1442] = 20,
+    ACTIONS(29), 1,
       sym_bare_scalar,
-    ACTIONS(73), 1,
+    ACTIONS(31), 1,
+      anon_sym_DQUOTE2,
+    ACTIONS(33), 1,
       anon_sym_LPAREN2,
-    ACTIONS(75), 1,
+    ACTIONS(35), 1,
       anon_sym_LBRACE2,
-    ACTIONS(81), 1,
+    ACTIONS(39), 1,
       sym__heredoc_start,
-    ACTIONS(83), 1,
+    ACTIONS(41), 1,
       sym__raw_string_start,
-    ACTIONS(85), 1,
+    ACTIONS(43), 1,
       sym__unit_at,
-    ACTIONS(87), 1,
+    ACTIONS(45), 1,
       sym__tag_start,
-    ACTIONS(121), 1,
+    ACTIONS(108), 1,
+      sym_line_comment,
+    ACTIONS(132), 1,
       anon_sym_RPAREN,
-    ACTIONS(125), 1,
-      aux_sym__seq_ws_token1,
-    STATE(43), 1,
+    ACTIONS(134), 1,
+      sym__newline,
+    STATE(23), 1,
       sym_tag,
-    STATE(53), 1,
+    STATE(41), 1,
       aux_sym_immediate_sequence_repeat2,
-    STATE(74), 1,
+    STATE(82), 1,
       sym_expr,
-    STATE(102), 1,
+    STATE(96), 1,
+      sym__tagged_expr,
+    STATE(100), 1,
       sym_attributes,
-    ACTIONS(123), 2,
-      sym_line_comment,
-      sym__newline,
-    STATE(14), 2,
-      sym__seq_ws,
-      aux_sym_immediate_sequence_repeat1,
-    STATE(79), 2,
+    STATE(57), 2,
       sym_attribute,
       aux_sym_attributes_repeat1,
-    STATE(101), 3,
+    STATE(70), 2,
+      sym__seq_ws,
+      aux_sym_immediate_sequence_repeat1,
+    STATE(99), 3,
       sym_quoted_scalar,
       sym_raw_scalar,
       sym_heredoc,
-    STATE(100), 5,
+    STATE(98), 5,
       sym__payload,
       sym_scalar,
       sym_unit,
       sym_sequence,
       sym_object,
-  [1431] = 19,
-    ACTIONS(67), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(71), 1,
+  [1511] = 20,
+    ACTIONS(29), 1,
       sym_bare_scalar,
-    ACTIONS(73), 1,
+    ACTIONS(31), 1,
+      anon_sym_DQUOTE2,
+    ACTIONS(33), 1,
       anon_sym_LPAREN2,
-    ACTIONS(75), 1,
+    ACTIONS(35), 1,
       anon_sym_LBRACE2,
-    ACTIONS(79), 1,
-      aux_sym__seq_ws_token1,
-    ACTIONS(81), 1,
+    ACTIONS(39), 1,
       sym__heredoc_start,
-    ACTIONS(83), 1,
+    ACTIONS(41), 1,
       sym__raw_string_start,
-    ACTIONS(85), 1,
+    ACTIONS(43), 1,
       sym__unit_at,
-    ACTIONS(87), 1,
+    ACTIONS(45), 1,
       sym__tag_start,
-    ACTIONS(127), 1,
+    ACTIONS(108), 1,
+      sym_line_comment,
+    ACTIONS(134), 1,
+      sym__newline,
+    ACTIONS(136), 1,
       anon_sym_RPAREN,
-    STATE(43), 1,
+    STATE(23), 1,
       sym_tag,
-    STATE(52), 1,
+    STATE(37), 1,
       aux_sym_immediate_sequence_repeat2,
-    STATE(74), 1,
+    STATE(82), 1,
       sym_expr,
-    STATE(102), 1,
+    STATE(96), 1,
+      sym__tagged_expr,
+    STATE(100), 1,
       sym_attributes,
-    ACTIONS(77), 2,
-      sym_line_comment,
-      sym__newline,
-    STATE(79), 2,
+    STATE(57), 2,
       sym_attribute,
       aux_sym_attributes_repeat1,
-    STATE(81), 2,
+    STATE(70), 2,
       sym__seq_ws,
       aux_sym_immediate_sequence_repeat1,
-    STATE(101), 3,
+    STATE(99), 3,
       sym_quoted_scalar,
       sym_raw_scalar,
       sym_heredoc,
-    STATE(100), 5,
+    STATE(98), 5,
       sym__payload,
       sym_scalar,
       sym_unit,
       sym_sequence,
       sym_object,
-  [1498] = 19,
-    ACTIONS(67), 1,
+  [1580] = 12,
+    ACTIONS(108), 1,
+      sym_line_comment,
+    ACTIONS(138), 1,
+      anon_sym_DQUOTE,
+    ACTIONS(140), 1,
+      anon_sym_LPAREN,
+    ACTIONS(142), 1,
+      anon_sym_LBRACE,
+    ACTIONS(144), 1,
+      sym__immediate_raw_string_start,
+    ACTIONS(146), 1,
+      sym__immediate_unit_at,
+    ACTIONS(148), 1,
+      sym__immediate_heredoc_start,
+    STATE(109), 1,
+      sym_immediate_quoted_scalar_inner,
+    STATE(110), 1,
+      sym__immediate_heredoc,
+    ACTIONS(120), 4,
+      sym_bare_scalar,
       anon_sym_DQUOTE2,
-    ACTIONS(71), 1,
+      anon_sym_LPAREN2,
+      anon_sym_LBRACE2,
+    STATE(108), 7,
+      sym__immediate_payload,
+      sym__immediate_quoted_scalar,
+      sym__immediate_raw_scalar,
+      sym__immediate_heredoc_scalar,
+      sym_immediate_sequence,
+      sym_immediate_object,
+      sym_immediate_unit,
+    ACTIONS(112), 8,
+      sym__heredoc_start,
+      sym__raw_string_start,
+      sym__unit_at,
+      sym__tag_start,
+      anon_sym_RPAREN,
+      anon_sym_RBRACE,
+      anon_sym_COMMA,
+      sym__newline,
+  [1633] = 20,
+    ACTIONS(29), 1,
       sym_bare_scalar,
-    ACTIONS(73), 1,
+    ACTIONS(31), 1,
+      anon_sym_DQUOTE2,
+    ACTIONS(33), 1,
       anon_sym_LPAREN2,
-    ACTIONS(75), 1,
+    ACTIONS(35), 1,
       anon_sym_LBRACE2,
-    ACTIONS(81), 1,
+    ACTIONS(39), 1,
       sym__heredoc_start,
-    ACTIONS(83), 1,
+    ACTIONS(41), 1,
       sym__raw_string_start,
-    ACTIONS(85), 1,
+    ACTIONS(43), 1,
       sym__unit_at,
-    ACTIONS(87), 1,
+    ACTIONS(45), 1,
       sym__tag_start,
-    ACTIONS(129), 1,
+    ACTIONS(108), 1,
+      sym_line_comment,
+    ACTIONS(134), 1,
+      sym__newline,
+    ACTIONS(150), 1,
       anon_sym_RPAREN,
-    ACTIONS(133), 1,
-      aux_sym__seq_ws_token1,
-    STATE(43), 1,
+    STATE(23), 1,
       sym_tag,
-    STATE(54), 1,
+    STATE(36), 1,
       aux_sym_immediate_sequence_repeat2,
-    STATE(74), 1,
+    STATE(82), 1,
       sym_expr,
-    STATE(102), 1,
+    STATE(96), 1,
+      sym__tagged_expr,
+    STATE(100), 1,
       sym_attributes,
-    ACTIONS(131), 2,
-      sym_line_comment,
-      sym__newline,
-    STATE(25), 2,
-      sym__seq_ws,
-      aux_sym_immediate_sequence_repeat1,
-    STATE(79), 2,
+    STATE(57), 2,
       sym_attribute,
       aux_sym_attributes_repeat1,
-    STATE(101), 3,
+    STATE(70), 2,
+      sym__seq_ws,
+      aux_sym_immediate_sequence_repeat1,
+    STATE(99), 3,
       sym_quoted_scalar,
       sym_raw_scalar,
       sym_heredoc,
-    STATE(100), 5,
+    STATE(98), 5,
       sym__payload,
       sym_scalar,
       sym_unit,
       sym_sequence,
       sym_object,
-  [1565] = 21,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(7), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(9), 1,
+  [1702] = 20,
+    ACTIONS(29), 1,
       sym_bare_scalar,
-    ACTIONS(11), 1,
+    ACTIONS(31), 1,
+      anon_sym_DQUOTE2,
+    ACTIONS(33), 1,
       anon_sym_LPAREN2,
-    ACTIONS(13), 1,
+    ACTIONS(35), 1,
       anon_sym_LBRACE2,
-    ACTIONS(15), 1,
-      anon_sym_SLASH_SLASH_SLASH,
-    ACTIONS(19), 1,
+    ACTIONS(39), 1,
       sym__heredoc_start,
-    ACTIONS(21), 1,
+    ACTIONS(41), 1,
       sym__raw_string_start,
-    ACTIONS(23), 1,
+    ACTIONS(43), 1,
       sym__unit_at,
-    ACTIONS(25), 1,
+    ACTIONS(45), 1,
       sym__tag_start,
-    ACTIONS(63), 1,
-      ts_builtin_sym_end,
-    STATE(30), 1,
-      aux_sym_document_repeat2,
+    ACTIONS(108), 1,
+      sym_line_comment,
+    ACTIONS(152), 1,
+      anon_sym_RPAREN,
+    ACTIONS(154), 1,
+      sym__newline,
+    STATE(23), 1,
+      sym_tag,
     STATE(40), 1,
+      aux_sym_immediate_sequence_repeat2,
+    STATE(82), 1,
       sym_expr,
-    STATE(62), 1,
-      sym_tag,
-    STATE(68), 1,
-      sym_doc_comment,
-    STATE(83), 1,
-      sym_entry,
-    STATE(178), 1,
+    STATE(96), 1,
+      sym__tagged_expr,
+    STATE(100), 1,
       sym_attributes,
-    STATE(179), 1,
-      aux_sym_doc_comment_repeat1,
-    STATE(82), 2,
+    STATE(26), 2,
+      sym__seq_ws,
+      aux_sym_immediate_sequence_repeat1,
+    STATE(57), 2,
       sym_attribute,
       aux_sym_attributes_repeat1,
-    STATE(177), 3,
+    STATE(99), 3,
       sym_quoted_scalar,
       sym_raw_scalar,
       sym_heredoc,
-    STATE(172), 5,
+    STATE(98), 5,
       sym__payload,
       sym_scalar,
       sym_unit,
       sym_sequence,
       sym_object,
-  [1636] = 19,
-    ACTIONS(67), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(71), 1,
+  [1771] = 20,
+    ACTIONS(29), 1,
       sym_bare_scalar,
-    ACTIONS(73), 1,
+    ACTIONS(31), 1,
+      anon_sym_DQUOTE2,
+    ACTIONS(33), 1,
       anon_sym_LPAREN2,
-    ACTIONS(75), 1,
+    ACTIONS(35), 1,
       anon_sym_LBRACE2,
-    ACTIONS(79), 1,
-      aux_sym__seq_ws_token1,
-    ACTIONS(81), 1,
+    ACTIONS(39), 1,
       sym__heredoc_start,
-    ACTIONS(83), 1,
+    ACTIONS(41), 1,
       sym__raw_string_start,
-    ACTIONS(85), 1,
+    ACTIONS(43), 1,
       sym__unit_at,
-    ACTIONS(87), 1,
+    ACTIONS(45), 1,
       sym__tag_start,
-    ACTIONS(135), 1,
+    ACTIONS(108), 1,
+      sym_line_comment,
+    ACTIONS(134), 1,
+      sym__newline,
+    ACTIONS(156), 1,
       anon_sym_RPAREN,
-    STATE(43), 1,
+    STATE(23), 1,
       sym_tag,
-    STATE(55), 1,
+    STATE(42), 1,
       aux_sym_immediate_sequence_repeat2,
-    STATE(74), 1,
+    STATE(82), 1,
       sym_expr,
-    STATE(102), 1,
+    STATE(96), 1,
+      sym__tagged_expr,
+    STATE(100), 1,
       sym_attributes,
-    ACTIONS(77), 2,
-      sym_line_comment,
-      sym__newline,
-    STATE(79), 2,
+    STATE(57), 2,
       sym_attribute,
       aux_sym_attributes_repeat1,
-    STATE(81), 2,
+    STATE(70), 2,
       sym__seq_ws,
       aux_sym_immediate_sequence_repeat1,
-    STATE(101), 3,
+    STATE(99), 3,
       sym_quoted_scalar,
       sym_raw_scalar,
       sym_heredoc,
-    STATE(100), 5,
+    STATE(98), 5,
       sym__payload,
       sym_scalar,
       sym_unit,
       sym_sequence,
       sym_object,
-  [1703] = 19,
-    ACTIONS(67), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(71), 1,
+  [1840] = 20,
+    ACTIONS(29), 1,
       sym_bare_scalar,
-    ACTIONS(73), 1,
+    ACTIONS(31), 1,
+      anon_sym_DQUOTE2,
+    ACTIONS(33), 1,
       anon_sym_LPAREN2,
-    ACTIONS(75), 1,
+    ACTIONS(35), 1,
       anon_sym_LBRACE2,
-    ACTIONS(81), 1,
+    ACTIONS(39), 1,
       sym__heredoc_start,
-    ACTIONS(83), 1,
+    ACTIONS(41), 1,
       sym__raw_string_start,
-    ACTIONS(85), 1,
+    ACTIONS(43), 1,
       sym__unit_at,
-    ACTIONS(87), 1,
+    ACTIONS(45), 1,
       sym__tag_start,
-    ACTIONS(137), 1,
+    ACTIONS(108), 1,
+      sym_line_comment,
+    ACTIONS(158), 1,
       anon_sym_RPAREN,
-    ACTIONS(141), 1,
-      aux_sym__seq_ws_token1,
-    STATE(43), 1,
+    ACTIONS(160), 1,
+      sym__newline,
+    STATE(23), 1,
       sym_tag,
-    STATE(56), 1,
+    STATE(44), 1,
       aux_sym_immediate_sequence_repeat2,
-    STATE(74), 1,
+    STATE(82), 1,
       sym_expr,
-    STATE(102), 1,
+    STATE(96), 1,
+      sym__tagged_expr,
+    STATE(100), 1,
       sym_attributes,
-    ACTIONS(139), 2,
-      sym_line_comment,
-      sym__newline,
     STATE(28), 2,
       sym__seq_ws,
       aux_sym_immediate_sequence_repeat1,
-    STATE(79), 2,
+    STATE(57), 2,
       sym_attribute,
       aux_sym_attributes_repeat1,
-    STATE(101), 3,
+    STATE(99), 3,
       sym_quoted_scalar,
       sym_raw_scalar,
       sym_heredoc,
-    STATE(100), 5,
+    STATE(98), 5,
       sym__payload,
       sym_scalar,
       sym_unit,
       sym_sequence,
       sym_object,
-  [1770] = 21,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(7), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(9), 1,
+  [1909] = 20,
+    ACTIONS(29), 1,
       sym_bare_scalar,
-    ACTIONS(11), 1,
+    ACTIONS(31), 1,
+      anon_sym_DQUOTE2,
+    ACTIONS(33), 1,
       anon_sym_LPAREN2,
-    ACTIONS(13), 1,
+    ACTIONS(35), 1,
       anon_sym_LBRACE2,
-    ACTIONS(15), 1,
-      anon_sym_SLASH_SLASH_SLASH,
-    ACTIONS(19), 1,
+    ACTIONS(39), 1,
       sym__heredoc_start,
-    ACTIONS(21), 1,
+    ACTIONS(41), 1,
       sym__raw_string_start,
-    ACTIONS(23), 1,
+    ACTIONS(43), 1,
       sym__unit_at,
-    ACTIONS(25), 1,
+    ACTIONS(45), 1,
       sym__tag_start,
-    ACTIONS(143), 1,
-      ts_builtin_sym_end,
-    STATE(30), 1,
-      aux_sym_document_repeat2,
-    STATE(40), 1,
-      sym_expr,
-    STATE(62), 1,
+    ACTIONS(108), 1,
+      sym_line_comment,
+    ACTIONS(134), 1,
+      sym__newline,
+    ACTIONS(162), 1,
+      anon_sym_RPAREN,
+    STATE(23), 1,
       sym_tag,
-    STATE(68), 1,
-      sym_doc_comment,
-    STATE(83), 1,
-      sym_entry,
-    STATE(178), 1,
+    STATE(45), 1,
+      aux_sym_immediate_sequence_repeat2,
+    STATE(82), 1,
+      sym_expr,
+    STATE(96), 1,
+      sym__tagged_expr,
+    STATE(100), 1,
       sym_attributes,
-    STATE(179), 1,
-      aux_sym_doc_comment_repeat1,
-    STATE(82), 2,
+    STATE(57), 2,
       sym_attribute,
       aux_sym_attributes_repeat1,
-    STATE(177), 3,
+    STATE(70), 2,
+      sym__seq_ws,
+      aux_sym_immediate_sequence_repeat1,
+    STATE(99), 3,
       sym_quoted_scalar,
       sym_raw_scalar,
       sym_heredoc,
-    STATE(172), 5,
+    STATE(98), 5,
       sym__payload,
       sym_scalar,
       sym_unit,
       sym_sequence,
       sym_object,
-  [1841] = 19,
-    ACTIONS(67), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(71), 1,
+  [1978] = 20,
+    ACTIONS(29), 1,
       sym_bare_scalar,
-    ACTIONS(73), 1,
+    ACTIONS(31), 1,
+      anon_sym_DQUOTE2,
+    ACTIONS(33), 1,
       anon_sym_LPAREN2,
-    ACTIONS(75), 1,
+    ACTIONS(35), 1,
       anon_sym_LBRACE2,
-    ACTIONS(79), 1,
-      aux_sym__seq_ws_token1,
-    ACTIONS(81), 1,
+    ACTIONS(39), 1,
       sym__heredoc_start,
-    ACTIONS(83), 1,
+    ACTIONS(41), 1,
       sym__raw_string_start,
-    ACTIONS(85), 1,
+    ACTIONS(43), 1,
       sym__unit_at,
-    ACTIONS(87), 1,
+    ACTIONS(45), 1,
       sym__tag_start,
-    ACTIONS(145), 1,
+    ACTIONS(108), 1,
+      sym_line_comment,
+    ACTIONS(164), 1,
       anon_sym_RPAREN,
-    STATE(43), 1,
+    ACTIONS(166), 1,
+      sym__newline,
+    STATE(23), 1,
       sym_tag,
-    STATE(59), 1,
+    STATE(39), 1,
       aux_sym_immediate_sequence_repeat2,
-    STATE(74), 1,
+    STATE(82), 1,
       sym_expr,
-    STATE(102), 1,
+    STATE(96), 1,
+      sym__tagged_expr,
+    STATE(100), 1,
       sym_attributes,
-    ACTIONS(77), 2,
-      sym_line_comment,
-      sym__newline,
-    STATE(79), 2,
-      sym_attribute,
-      aux_sym_attributes_repeat1,
-    STATE(81), 2,
+    STATE(21), 2,
       sym__seq_ws,
       aux_sym_immediate_sequence_repeat1,
-    STATE(101), 3,
+    STATE(57), 2,
+      sym_attribute,
+      aux_sym_attributes_repeat1,
+    STATE(99), 3,
       sym_quoted_scalar,
       sym_raw_scalar,
       sym_heredoc,
-    STATE(100), 5,
+    STATE(98), 5,
       sym__payload,
       sym_scalar,
       sym_unit,
       sym_sequence,
       sym_object,
-  [1908] = 19,
-    ACTIONS(67), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(71), 1,
+  [2047] = 20,
+    ACTIONS(29), 1,
       sym_bare_scalar,
-    ACTIONS(73), 1,
+    ACTIONS(31), 1,
+      anon_sym_DQUOTE2,
+    ACTIONS(33), 1,
       anon_sym_LPAREN2,
-    ACTIONS(75), 1,
+    ACTIONS(35), 1,
       anon_sym_LBRACE2,
-    ACTIONS(81), 1,
+    ACTIONS(39), 1,
       sym__heredoc_start,
-    ACTIONS(83), 1,
+    ACTIONS(41), 1,
       sym__raw_string_start,
-    ACTIONS(85), 1,
+    ACTIONS(43), 1,
       sym__unit_at,
-    ACTIONS(87), 1,
+    ACTIONS(45), 1,
       sym__tag_start,
-    ACTIONS(147), 1,
+    ACTIONS(108), 1,
+      sym_line_comment,
+    ACTIONS(134), 1,
+      sym__newline,
+    ACTIONS(168), 1,
       anon_sym_RPAREN,
-    ACTIONS(151), 1,
-      aux_sym__seq_ws_token1,
-    STATE(43), 1,
+    STATE(23), 1,
       sym_tag,
-    STATE(60), 1,
+    STATE(34), 1,
       aux_sym_immediate_sequence_repeat2,
-    STATE(74), 1,
+    STATE(82), 1,
       sym_expr,
-    STATE(102), 1,
+    STATE(96), 1,
+      sym__tagged_expr,
+    STATE(100), 1,
       sym_attributes,
-    ACTIONS(149), 2,
-      sym_line_comment,
-      sym__newline,
-    STATE(31), 2,
-      sym__seq_ws,
-      aux_sym_immediate_sequence_repeat1,
-    STATE(79), 2,
+    STATE(57), 2,
       sym_attribute,
       aux_sym_attributes_repeat1,
-    STATE(101), 3,
+    STATE(70), 2,
+      sym__seq_ws,
+      aux_sym_immediate_sequence_repeat1,
+    STATE(99), 3,
       sym_quoted_scalar,
       sym_raw_scalar,
       sym_heredoc,
-    STATE(100), 5,
+    STATE(98), 5,
       sym__payload,
       sym_scalar,
       sym_unit,
       sym_sequence,
       sym_object,
-  [1975] = 21,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(153), 1,
-      ts_builtin_sym_end,
-    ACTIONS(155), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(158), 1,
+  [2116] = 20,
+    ACTIONS(29), 1,
       sym_bare_scalar,
-    ACTIONS(161), 1,
+    ACTIONS(31), 1,
+      anon_sym_DQUOTE2,
+    ACTIONS(33), 1,
       anon_sym_LPAREN2,
-    ACTIONS(164), 1,
+    ACTIONS(35), 1,
       anon_sym_LBRACE2,
-    ACTIONS(167), 1,
-      anon_sym_SLASH_SLASH_SLASH,
-    ACTIONS(170), 1,
+    ACTIONS(39), 1,
       sym__heredoc_start,
-    ACTIONS(173), 1,
+    ACTIONS(41), 1,
       sym__raw_string_start,
-    ACTIONS(176), 1,
+    ACTIONS(43), 1,
       sym__unit_at,
-    ACTIONS(179), 1,
+    ACTIONS(45), 1,
       sym__tag_start,
-    STATE(30), 1,
-      aux_sym_document_repeat2,
-    STATE(40), 1,
-      sym_expr,
-    STATE(62), 1,
+    ACTIONS(108), 1,
+      sym_line_comment,
+    ACTIONS(170), 1,
+      anon_sym_RPAREN,
+    ACTIONS(172), 1,
+      sym__newline,
+    STATE(23), 1,
       sym_tag,
-    STATE(68), 1,
-      sym_doc_comment,
-    STATE(83), 1,
-      sym_entry,
-    STATE(178), 1,
+    STATE(38), 1,
+      aux_sym_immediate_sequence_repeat2,
+    STATE(82), 1,
+      sym_expr,
+    STATE(96), 1,
+      sym__tagged_expr,
+    STATE(100), 1,
       sym_attributes,
-    STATE(179), 1,
-      aux_sym_doc_comment_repeat1,
-    STATE(82), 2,
+    STATE(24), 2,
+      sym__seq_ws,
+      aux_sym_immediate_sequence_repeat1,
+    STATE(57), 2,
       sym_attribute,
       aux_sym_attributes_repeat1,
-    STATE(177), 3,
+    STATE(99), 3,
       sym_quoted_scalar,
       sym_raw_scalar,
       sym_heredoc,
-    STATE(172), 5,
+    STATE(98), 5,
       sym__payload,
       sym_scalar,
       sym_unit,
       sym_sequence,
       sym_object,
-  [2046] = 19,
-    ACTIONS(67), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(71), 1,
+  [2185] = 17,
+    ACTIONS(3), 1,
+      sym_line_comment,
+    ACTIONS(7), 1,
       sym_bare_scalar,
-    ACTIONS(73), 1,
+    ACTIONS(9), 1,
+      anon_sym_DQUOTE2,
+    ACTIONS(11), 1,
       anon_sym_LPAREN2,
-    ACTIONS(75), 1,
+    ACTIONS(13), 1,
       anon_sym_LBRACE2,
-    ACTIONS(79), 1,
-      aux_sym__seq_ws_token1,
-    ACTIONS(81), 1,
+    ACTIONS(19), 1,
       sym__heredoc_start,
-    ACTIONS(83), 1,
+    ACTIONS(21), 1,
       sym__raw_string_start,
-    ACTIONS(85), 1,
+    ACTIONS(23), 1,
       sym__unit_at,
-    ACTIONS(87), 1,
+    ACTIONS(25), 1,
       sym__tag_start,
-    ACTIONS(182), 1,
-      anon_sym_RPAREN,
-    STATE(43), 1,
+    STATE(19), 1,
       sym_tag,
-    STATE(61), 1,
-      aux_sym_immediate_sequence_repeat2,
-    STATE(74), 1,
-      sym_expr,
-    STATE(102), 1,
+    STATE(83), 1,
+      sym__tagged_expr,
+    STATE(97), 1,
       sym_attributes,
-    ACTIONS(77), 2,
-      sym_line_comment,
-      sym__newline,
-    STATE(79), 2,
+    STATE(101), 1,
+      sym_expr,
+    STATE(59), 2,
       sym_attribute,
       aux_sym_attributes_repeat1,
-    STATE(81), 2,
-      sym__seq_ws,
-      aux_sym_immediate_sequence_repeat1,
-    STATE(101), 3,
+    STATE(95), 3,
       sym_quoted_scalar,
       sym_raw_scalar,
       sym_heredoc,
-    STATE(100), 5,
+    ACTIONS(174), 4,
+      ts_builtin_sym_end,
+      anon_sym_COMMA,
+      aux_sym_doc_comment_token1,
+      sym__newline,
+    STATE(94), 5,
       sym__payload,
       sym_scalar,
       sym_unit,
       sym_sequence,
       sym_object,
-  [2113] = 19,
-    ACTIONS(67), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(71), 1,
+  [2247] = 17,
+    ACTIONS(108), 1,
+      sym_line_comment,
+    ACTIONS(176), 1,
       sym_bare_scalar,
-    ACTIONS(73), 1,
+    ACTIONS(178), 1,
+      anon_sym_DQUOTE2,
+    ACTIONS(180), 1,
       anon_sym_LPAREN2,
-    ACTIONS(75), 1,
+    ACTIONS(182), 1,
       anon_sym_LBRACE2,
-    ACTIONS(81), 1,
+    ACTIONS(184), 1,
       sym__heredoc_start,
-    ACTIONS(83), 1,
+    ACTIONS(186), 1,
       sym__raw_string_start,
-    ACTIONS(85), 1,
+    ACTIONS(188), 1,
       sym__unit_at,
-    ACTIONS(87), 1,
+    ACTIONS(190), 1,
       sym__tag_start,
-    ACTIONS(184), 1,
-      anon_sym_RPAREN,
-    ACTIONS(188), 1,
-      aux_sym__seq_ws_token1,
-    STATE(43), 1,
+    STATE(51), 1,
       sym_tag,
-    STATE(63), 1,
-      aux_sym_immediate_sequence_repeat2,
-    STATE(74), 1,
-      sym_expr,
-    STATE(102), 1,
+    STATE(203), 1,
+      sym__tagged_expr,
+    STATE(209), 1,
       sym_attributes,
-    ACTIONS(186), 2,
-      sym_line_comment,
-      sym__newline,
-    STATE(12), 2,
-      sym__seq_ws,
-      aux_sym_immediate_sequence_repeat1,
-    STATE(79), 2,
+    STATE(213), 1,
+      sym_expr,
+    STATE(154), 2,
       sym_attribute,
       aux_sym_attributes_repeat1,
-    STATE(101), 3,
+    ACTIONS(174), 3,
+      anon_sym_RBRACE,
+      anon_sym_COMMA,
+      sym__newline,
+    STATE(207), 3,
       sym_quoted_scalar,
       sym_raw_scalar,
       sym_heredoc,
-    STATE(100), 5,
+    STATE(206), 5,
       sym__payload,
       sym_scalar,
       sym_unit,
       sym_sequence,
       sym_object,
-  [2180] = 20,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(15), 1,
-      anon_sym_SLASH_SLASH_SLASH,
-    ACTIONS(27), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(31), 1,
+  [2308] = 18,
+    ACTIONS(29), 1,
       sym_bare_scalar,
+    ACTIONS(31), 1,
+      anon_sym_DQUOTE2,
     ACTIONS(33), 1,
       anon_sym_LPAREN2,
     ACTIONS(35), 1,
@@ -3285,42 +3294,38 @@ static const uint16_t ts_small_parse_table[] = {
       sym__unit_at,
     ACTIONS(45), 1,
       sym__tag_start,
-    ACTIONS(190), 1,
-      anon_sym_RBRACE,
-    STATE(39), 1,
-      sym_expr,
-    STATE(41), 1,
+    ACTIONS(108), 1,
+      sym_line_comment,
+    ACTIONS(192), 1,
+      anon_sym_RPAREN,
+    STATE(23), 1,
       sym_tag,
-    STATE(67), 1,
-      sym_doc_comment,
-    STATE(133), 1,
+    STATE(43), 1,
+      aux_sym_immediate_sequence_repeat2,
+    STATE(82), 1,
+      sym_expr,
+    STATE(96), 1,
+      sym__tagged_expr,
+    STATE(100), 1,
       sym_attributes,
-    STATE(179), 1,
-      aux_sym_doc_comment_repeat1,
-    STATE(263), 1,
-      sym_entry,
-    STATE(76), 2,
+    STATE(57), 2,
       sym_attribute,
       aux_sym_attributes_repeat1,
-    STATE(132), 3,
+    STATE(99), 3,
       sym_quoted_scalar,
       sym_raw_scalar,
       sym_heredoc,
-    STATE(131), 5,
+    STATE(98), 5,
       sym__payload,
       sym_scalar,
       sym_unit,
       sym_sequence,
       sym_object,
-  [2248] = 20,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(15), 1,
-      anon_sym_SLASH_SLASH_SLASH,
-    ACTIONS(27), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(31), 1,
+  [2370] = 18,
+    ACTIONS(29), 1,
       sym_bare_scalar,
+    ACTIONS(31), 1,
+      anon_sym_DQUOTE2,
     ACTIONS(33), 1,
       anon_sym_LPAREN2,
     ACTIONS(35), 1,
@@ -3333,42 +3338,38 @@ static const uint16_t ts_small_parse_table[] = {
       sym__unit_at,
     ACTIONS(45), 1,
       sym__tag_start,
-    ACTIONS(192), 1,
-      anon_sym_RBRACE,
-    STATE(39), 1,
-      sym_expr,
-    STATE(41), 1,
+    ACTIONS(108), 1,
+      sym_line_comment,
+    ACTIONS(136), 1,
+      anon_sym_RPAREN,
+    STATE(23), 1,
       sym_tag,
-    STATE(67), 1,
-      sym_doc_comment,
-    STATE(133), 1,
+    STATE(43), 1,
+      aux_sym_immediate_sequence_repeat2,
+    STATE(82), 1,
+      sym_expr,
+    STATE(96), 1,
+      sym__tagged_expr,
+    STATE(100), 1,
       sym_attributes,
-    STATE(179), 1,
-      aux_sym_doc_comment_repeat1,
-    STATE(263), 1,
-      sym_entry,
-    STATE(76), 2,
+    STATE(57), 2,
       sym_attribute,
       aux_sym_attributes_repeat1,
-    STATE(132), 3,
+    STATE(99), 3,
       sym_quoted_scalar,
       sym_raw_scalar,
       sym_heredoc,
-    STATE(131), 5,
+    STATE(98), 5,
       sym__payload,
       sym_scalar,
       sym_unit,
       sym_sequence,
       sym_object,
-  [2316] = 20,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(15), 1,
-      anon_sym_SLASH_SLASH_SLASH,
-    ACTIONS(27), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(31), 1,
+  [2432] = 18,
+    ACTIONS(29), 1,
       sym_bare_scalar,
+    ACTIONS(31), 1,
+      anon_sym_DQUOTE2,
     ACTIONS(33), 1,
       anon_sym_LPAREN2,
     ACTIONS(35), 1,
@@ -3381,42 +3382,38 @@ static const uint16_t ts_small_parse_table[] = {
       sym__unit_at,
     ACTIONS(45), 1,
       sym__tag_start,
+    ACTIONS(108), 1,
+      sym_line_comment,
     ACTIONS(194), 1,
-      anon_sym_RBRACE,
-    STATE(39), 1,
-      sym_expr,
-    STATE(41), 1,
+      anon_sym_RPAREN,
+    STATE(23), 1,
       sym_tag,
-    STATE(67), 1,
-      sym_doc_comment,
-    STATE(133), 1,
+    STATE(43), 1,
+      aux_sym_immediate_sequence_repeat2,
+    STATE(82), 1,
+      sym_expr,
+    STATE(96), 1,
+      sym__tagged_expr,
+    STATE(100), 1,
       sym_attributes,
-    STATE(179), 1,
-      aux_sym_doc_comment_repeat1,
-    STATE(263), 1,
-      sym_entry,
-    STATE(76), 2,
+    STATE(57), 2,
       sym_attribute,
       aux_sym_attributes_repeat1,
-    STATE(132), 3,
+    STATE(99), 3,
       sym_quoted_scalar,
       sym_raw_scalar,
       sym_heredoc,
-    STATE(131), 5,
+    STATE(98), 5,
       sym__payload,
       sym_scalar,
       sym_unit,
       sym_sequence,
       sym_object,
-  [2384] = 20,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(15), 1,
-      anon_sym_SLASH_SLASH_SLASH,
-    ACTIONS(27), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(31), 1,
+  [2494] = 18,
+    ACTIONS(29), 1,
       sym_bare_scalar,
+    ACTIONS(31), 1,
+      anon_sym_DQUOTE2,
     ACTIONS(33), 1,
       anon_sym_LPAREN2,
     ACTIONS(35), 1,
@@ -3429,42 +3426,38 @@ static const uint16_t ts_small_parse_table[] = {
       sym__unit_at,
     ACTIONS(45), 1,
       sym__tag_start,
+    ACTIONS(108), 1,
+      sym_line_comment,
     ACTIONS(196), 1,
-      anon_sym_RBRACE,
-    STATE(39), 1,
-      sym_expr,
-    STATE(41), 1,
+      anon_sym_RPAREN,
+    STATE(23), 1,
       sym_tag,
-    STATE(67), 1,
-      sym_doc_comment,
-    STATE(133), 1,
+    STATE(43), 1,
+      aux_sym_immediate_sequence_repeat2,
+    STATE(82), 1,
+      sym_expr,
+    STATE(96), 1,
+      sym__tagged_expr,
+    STATE(100), 1,
       sym_attributes,
-    STATE(179), 1,
-      aux_sym_doc_comment_repeat1,
-    STATE(263), 1,
-      sym_entry,
-    STATE(76), 2,
+    STATE(57), 2,
       sym_attribute,
       aux_sym_attributes_repeat1,
-    STATE(132), 3,
+    STATE(99), 3,
       sym_quoted_scalar,
       sym_raw_scalar,
       sym_heredoc,
-    STATE(131), 5,
+    STATE(98), 5,
       sym__payload,
       sym_scalar,
       sym_unit,
       sym_sequence,
       sym_object,
-  [2452] = 19,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(15), 1,
-      anon_sym_SLASH_SLASH_SLASH,
-    ACTIONS(27), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(31), 1,
+  [2556] = 18,
+    ACTIONS(29), 1,
       sym_bare_scalar,
+    ACTIONS(31), 1,
+      anon_sym_DQUOTE2,
     ACTIONS(33), 1,
       anon_sym_LPAREN2,
     ACTIONS(35), 1,
@@ -3477,40 +3470,38 @@ static const uint16_t ts_small_parse_table[] = {
       sym__unit_at,
     ACTIONS(45), 1,
       sym__tag_start,
-    STATE(39), 1,
-      sym_expr,
-    STATE(41), 1,
-      sym_tag,
-    STATE(66), 1,
-      sym_doc_comment,
-    STATE(133), 1,
+    ACTIONS(108), 1,
+      sym_line_comment,
+    ACTIONS(150), 1,
+      anon_sym_RPAREN,
+    STATE(23), 1,
+      sym_tag,
+    STATE(43), 1,
+      aux_sym_immediate_sequence_repeat2,
+    STATE(82), 1,
+      sym_expr,
+    STATE(96), 1,
+      sym__tagged_expr,
+    STATE(100), 1,
       sym_attributes,
-    STATE(179), 1,
-      aux_sym_doc_comment_repeat1,
-    STATE(233), 1,
-      sym_entry,
-    STATE(76), 2,
+    STATE(57), 2,
       sym_attribute,
       aux_sym_attributes_repeat1,
-    STATE(132), 3,
+    STATE(99), 3,
       sym_quoted_scalar,
       sym_raw_scalar,
       sym_heredoc,
-    STATE(131), 5,
+    STATE(98), 5,
       sym__payload,
       sym_scalar,
       sym_unit,
       sym_sequence,
       sym_object,
-  [2517] = 19,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(15), 1,
-      anon_sym_SLASH_SLASH_SLASH,
-    ACTIONS(27), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(31), 1,
+  [2618] = 18,
+    ACTIONS(29), 1,
       sym_bare_scalar,
+    ACTIONS(31), 1,
+      anon_sym_DQUOTE2,
     ACTIONS(33), 1,
       anon_sym_LPAREN2,
     ACTIONS(35), 1,
@@ -3523,444 +3514,388 @@ static const uint16_t ts_small_parse_table[] = {
       sym__unit_at,
     ACTIONS(45), 1,
       sym__tag_start,
-    STATE(39), 1,
-      sym_expr,
-    STATE(41), 1,
+    ACTIONS(108), 1,
+      sym_line_comment,
+    ACTIONS(132), 1,
+      anon_sym_RPAREN,
+    STATE(23), 1,
       sym_tag,
-    STATE(67), 1,
-      sym_doc_comment,
-    STATE(133), 1,
+    STATE(43), 1,
+      aux_sym_immediate_sequence_repeat2,
+    STATE(82), 1,
+      sym_expr,
+    STATE(96), 1,
+      sym__tagged_expr,
+    STATE(100), 1,
       sym_attributes,
-    STATE(179), 1,
-      aux_sym_doc_comment_repeat1,
-    STATE(263), 1,
-      sym_entry,
-    STATE(76), 2,
+    STATE(57), 2,
       sym_attribute,
       aux_sym_attributes_repeat1,
-    STATE(132), 3,
+    STATE(99), 3,
       sym_quoted_scalar,
       sym_raw_scalar,
       sym_heredoc,
-    STATE(131), 5,
+    STATE(98), 5,
       sym__payload,
       sym_scalar,
       sym_unit,
       sym_sequence,
       sym_object,
-  [2582] = 16,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(198), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(202), 1,
+  [2680] = 18,
+    ACTIONS(29), 1,
       sym_bare_scalar,
-    ACTIONS(204), 1,
+    ACTIONS(31), 1,
+      anon_sym_DQUOTE2,
+    ACTIONS(33), 1,
       anon_sym_LPAREN2,
-    ACTIONS(206), 1,
+    ACTIONS(35), 1,
       anon_sym_LBRACE2,
-    ACTIONS(208), 1,
+    ACTIONS(39), 1,
       sym__heredoc_start,
-    ACTIONS(210), 1,
+    ACTIONS(41), 1,
       sym__raw_string_start,
-    ACTIONS(212), 1,
+    ACTIONS(43), 1,
       sym__unit_at,
-    ACTIONS(214), 1,
+    ACTIONS(45), 1,
       sym__tag_start,
-    STATE(73), 1,
+    ACTIONS(108), 1,
+      sym_line_comment,
+    ACTIONS(156), 1,
+      anon_sym_RPAREN,
+    STATE(23), 1,
       sym_tag,
-    STATE(225), 1,
-      sym_attributes,
-    STATE(256), 1,
+    STATE(43), 1,
+      aux_sym_immediate_sequence_repeat2,
+    STATE(82), 1,
       sym_expr,
-    STATE(187), 2,
+    STATE(96), 1,
+      sym__tagged_expr,
+    STATE(100), 1,
+      sym_attributes,
+    STATE(57), 2,
       sym_attribute,
       aux_sym_attributes_repeat1,
-    ACTIONS(200), 3,
-      anon_sym_RBRACE,
-      anon_sym_COMMA,
-      sym__newline,
-    STATE(224), 3,
+    STATE(99), 3,
       sym_quoted_scalar,
       sym_raw_scalar,
       sym_heredoc,
-    STATE(223), 5,
+    STATE(98), 5,
       sym__payload,
       sym_scalar,
       sym_unit,
       sym_sequence,
       sym_object,
-  [2640] = 17,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(7), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(9), 1,
+  [2742] = 18,
+    ACTIONS(29), 1,
       sym_bare_scalar,
-    ACTIONS(11), 1,
+    ACTIONS(31), 1,
+      anon_sym_DQUOTE2,
+    ACTIONS(33), 1,
       anon_sym_LPAREN2,
-    ACTIONS(13), 1,
+    ACTIONS(35), 1,
       anon_sym_LBRACE2,
-    ACTIONS(19), 1,
+    ACTIONS(39), 1,
       sym__heredoc_start,
-    ACTIONS(21), 1,
+    ACTIONS(41), 1,
       sym__raw_string_start,
-    ACTIONS(23), 1,
+    ACTIONS(43), 1,
       sym__unit_at,
-    ACTIONS(25), 1,
+    ACTIONS(45), 1,
       sym__tag_start,
-    ACTIONS(216), 1,
-      anon_sym_SLASH_SLASH_SLASH,
-    STATE(62), 1,
+    ACTIONS(108), 1,
+      sym_line_comment,
+    ACTIONS(198), 1,
+      anon_sym_RPAREN,
+    STATE(23), 1,
       sym_tag,
-    STATE(96), 1,
+    STATE(43), 1,
+      aux_sym_immediate_sequence_repeat2,
+    STATE(82), 1,
       sym_expr,
-    STATE(178), 1,
+    STATE(96), 1,
+      sym__tagged_expr,
+    STATE(100), 1,
       sym_attributes,
-    ACTIONS(200), 2,
-      ts_builtin_sym_end,
-      sym__newline,
-    STATE(82), 2,
+    STATE(57), 2,
       sym_attribute,
       aux_sym_attributes_repeat1,
-    STATE(177), 3,
+    STATE(99), 3,
       sym_quoted_scalar,
       sym_raw_scalar,
       sym_heredoc,
-    STATE(172), 5,
+    STATE(98), 5,
       sym__payload,
       sym_scalar,
       sym_unit,
       sym_sequence,
       sym_object,
-  [2700] = 10,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(218), 1,
-      anon_sym_DQUOTE,
-    ACTIONS(222), 1,
-      anon_sym_LPAREN,
-    ACTIONS(224), 1,
-      anon_sym_LBRACE,
-    ACTIONS(228), 1,
-      sym__immediate_raw_string_start,
-    ACTIONS(230), 1,
-      sym__immediate_unit_at,
-    STATE(141), 1,
-      sym_immediate_quoted_scalar_inner,
-    ACTIONS(220), 4,
-      anon_sym_DQUOTE2,
+  [2804] = 18,
+    ACTIONS(29), 1,
       sym_bare_scalar,
+    ACTIONS(31), 1,
+      anon_sym_DQUOTE2,
+    ACTIONS(33), 1,
       anon_sym_LPAREN2,
+    ACTIONS(35), 1,
       anon_sym_LBRACE2,
-    STATE(140), 6,
-      sym__immediate_payload,
-      sym__immediate_quoted_scalar,
-      sym__immediate_raw_scalar,
-      sym_immediate_sequence,
-      sym_immediate_object,
-      sym_immediate_unit,
-    ACTIONS(226), 7,
+    ACTIONS(39), 1,
       sym__heredoc_start,
+    ACTIONS(41), 1,
       sym__raw_string_start,
+    ACTIONS(43), 1,
       sym__unit_at,
+    ACTIONS(45), 1,
       sym__tag_start,
-      anon_sym_RBRACE,
-      anon_sym_COMMA,
-      sym__newline,
-  [2745] = 17,
-    ACTIONS(3), 1,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(71), 1,
-      sym_bare_scalar,
-    ACTIONS(81), 1,
-      sym__heredoc_start,
-    ACTIONS(83), 1,
-      sym__raw_string_start,
-    ACTIONS(85), 1,
-      sym__unit_at,
-    ACTIONS(87), 1,
-      sym__tag_start,
-    ACTIONS(232), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(234), 1,
+    ACTIONS(200), 1,
       anon_sym_RPAREN,
-    ACTIONS(236), 1,
-      anon_sym_LPAREN2,
-    ACTIONS(238), 1,
-      anon_sym_LBRACE2,
-    STATE(43), 1,
+    STATE(23), 1,
       sym_tag,
-    STATE(64), 1,
+    STATE(43), 1,
       aux_sym_immediate_sequence_repeat2,
-    STATE(74), 1,
+    STATE(82), 1,
       sym_expr,
-    STATE(102), 1,
+    STATE(96), 1,
+      sym__tagged_expr,
+    STATE(100), 1,
       sym_attributes,
-    STATE(79), 2,
+    STATE(57), 2,
       sym_attribute,
       aux_sym_attributes_repeat1,
-    STATE(101), 3,
+    STATE(99), 3,
       sym_quoted_scalar,
       sym_raw_scalar,
       sym_heredoc,
-    STATE(100), 5,
+    STATE(98), 5,
       sym__payload,
       sym_scalar,
       sym_unit,
       sym_sequence,
       sym_object,
-  [2804] = 9,
-    ACTIONS(240), 1,
-      anon_sym_DQUOTE,
-    ACTIONS(242), 1,
-      anon_sym_LPAREN,
-    ACTIONS(244), 1,
-      anon_sym_LBRACE,
-    ACTIONS(246), 1,
-      sym__immediate_raw_string_start,
-    ACTIONS(248), 1,
-      sym__immediate_unit_at,
-    STATE(111), 1,
-      sym_immediate_quoted_scalar_inner,
-    ACTIONS(226), 5,
-      sym__heredoc_start,
-      sym__raw_string_start,
-      sym__unit_at,
-      sym__tag_start,
-      aux_sym__seq_ws_token1,
-    STATE(110), 6,
-      sym__immediate_payload,
-      sym__immediate_quoted_scalar,
-      sym__immediate_raw_scalar,
-      sym_immediate_sequence,
-      sym_immediate_object,
-      sym_immediate_unit,
-    ACTIONS(220), 7,
-      anon_sym_DQUOTE2,
+  [2866] = 18,
+    ACTIONS(108), 1,
+      sym_line_comment,
+    ACTIONS(202), 1,
       anon_sym_RPAREN,
+    ACTIONS(204), 1,
       sym_bare_scalar,
+    ACTIONS(207), 1,
+      anon_sym_DQUOTE2,
+    ACTIONS(210), 1,
       anon_sym_LPAREN2,
+    ACTIONS(213), 1,
       anon_sym_LBRACE2,
-      sym_line_comment,
-      sym__newline,
-  [2847] = 17,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(71), 1,
-      sym_bare_scalar,
-    ACTIONS(81), 1,
+    ACTIONS(216), 1,
       sym__heredoc_start,
-    ACTIONS(83), 1,
+    ACTIONS(219), 1,
       sym__raw_string_start,
-    ACTIONS(85), 1,
+    ACTIONS(222), 1,
       sym__unit_at,
-    ACTIONS(87), 1,
+    ACTIONS(225), 1,
       sym__tag_start,
-    ACTIONS(232), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(236), 1,
-      anon_sym_LPAREN2,
-    ACTIONS(238), 1,
-      anon_sym_LBRACE2,
-    ACTIONS(250), 1,
-      anon_sym_RPAREN,
-    STATE(43), 1,
+    STATE(23), 1,
       sym_tag,
-    STATE(64), 1,
+    STATE(43), 1,
       aux_sym_immediate_sequence_repeat2,
-    STATE(74), 1,
+    STATE(82), 1,
       sym_expr,
-    STATE(102), 1,
+    STATE(96), 1,
+      sym__tagged_expr,
+    STATE(100), 1,
       sym_attributes,
-    STATE(79), 2,
+    STATE(57), 2,
       sym_attribute,
       aux_sym_attributes_repeat1,
-    STATE(101), 3,
+    STATE(99), 3,
       sym_quoted_scalar,
       sym_raw_scalar,
       sym_heredoc,
-    STATE(100), 5,
+    STATE(98), 5,
       sym__payload,
       sym_scalar,
       sym_unit,
       sym_sequence,
       sym_object,
-  [2906] = 17,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(71), 1,
+  [2928] = 18,
+    ACTIONS(29), 1,
       sym_bare_scalar,
-    ACTIONS(81), 1,
+    ACTIONS(31), 1,
+      anon_sym_DQUOTE2,
+    ACTIONS(33), 1,
+      anon_sym_LPAREN2,
+    ACTIONS(35), 1,
+      anon_sym_LBRACE2,
+    ACTIONS(39), 1,
       sym__heredoc_start,
-    ACTIONS(83), 1,
+    ACTIONS(41), 1,
       sym__raw_string_start,
-    ACTIONS(85), 1,
+    ACTIONS(43), 1,
       sym__unit_at,
-    ACTIONS(87), 1,
+    ACTIONS(45), 1,
       sym__tag_start,
-    ACTIONS(232), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(236), 1,
-      anon_sym_LPAREN2,
-    ACTIONS(238), 1,
-      anon_sym_LBRACE2,
-    ACTIONS(252), 1,
+    ACTIONS(108), 1,
+      sym_line_comment,
+    ACTIONS(162), 1,
       anon_sym_RPAREN,
-    STATE(43), 1,
+    STATE(23), 1,
       sym_tag,
-    STATE(64), 1,
+    STATE(43), 1,
       aux_sym_immediate_sequence_repeat2,
-    STATE(74), 1,
+    STATE(82), 1,
       sym_expr,
-    STATE(102), 1,
+    STATE(96), 1,
+      sym__tagged_expr,
+    STATE(100), 1,
       sym_attributes,
-    STATE(79), 2,
+    STATE(57), 2,
       sym_attribute,
       aux_sym_attributes_repeat1,
-    STATE(101), 3,
+    STATE(99), 3,
       sym_quoted_scalar,
       sym_raw_scalar,
       sym_heredoc,
-    STATE(100), 5,
+    STATE(98), 5,
       sym__payload,
       sym_scalar,
       sym_unit,
       sym_sequence,
       sym_object,
-  [2965] = 17,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(71), 1,
+  [2990] = 18,
+    ACTIONS(29), 1,
       sym_bare_scalar,
-    ACTIONS(81), 1,
+    ACTIONS(31), 1,
+      anon_sym_DQUOTE2,
+    ACTIONS(33), 1,
+      anon_sym_LPAREN2,
+    ACTIONS(35), 1,
+      anon_sym_LBRACE2,
+    ACTIONS(39), 1,
       sym__heredoc_start,
-    ACTIONS(83), 1,
+    ACTIONS(41), 1,
       sym__raw_string_start,
-    ACTIONS(85), 1,
+    ACTIONS(43), 1,
       sym__unit_at,
-    ACTIONS(87), 1,
+    ACTIONS(45), 1,
       sym__tag_start,
-    ACTIONS(232), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(236), 1,
-      anon_sym_LPAREN2,
-    ACTIONS(238), 1,
-      anon_sym_LBRACE2,
-    ACTIONS(254), 1,
+    ACTIONS(108), 1,
+      sym_line_comment,
+    ACTIONS(228), 1,
       anon_sym_RPAREN,
-    STATE(43), 1,
+    STATE(23), 1,
       sym_tag,
-    STATE(64), 1,
+    STATE(43), 1,
       aux_sym_immediate_sequence_repeat2,
-    STATE(74), 1,
+    STATE(82), 1,
       sym_expr,
-    STATE(102), 1,
+    STATE(96), 1,
+      sym__tagged_expr,
+    STATE(100), 1,
       sym_attributes,
-    STATE(79), 2,
+    STATE(57), 2,
       sym_attribute,
       aux_sym_attributes_repeat1,
-    STATE(101), 3,
+    STATE(99), 3,
       sym_quoted_scalar,
       sym_raw_scalar,
       sym_heredoc,
-    STATE(100), 5,
+    STATE(98), 5,
       sym__payload,
       sym_scalar,
       sym_unit,
       sym_sequence,
       sym_object,
-  [3024] = 17,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(71), 1,
+  [3052] = 18,
+    ACTIONS(29), 1,
       sym_bare_scalar,
-    ACTIONS(81), 1,
+    ACTIONS(31), 1,
+      anon_sym_DQUOTE2,
+    ACTIONS(33), 1,
+      anon_sym_LPAREN2,
+    ACTIONS(35), 1,
+      anon_sym_LBRACE2,
+    ACTIONS(39), 1,
       sym__heredoc_start,
-    ACTIONS(83), 1,
+    ACTIONS(41), 1,
       sym__raw_string_start,
-    ACTIONS(85), 1,
+    ACTIONS(43), 1,
       sym__unit_at,
-    ACTIONS(87), 1,
+    ACTIONS(45), 1,
       sym__tag_start,
-    ACTIONS(232), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(236), 1,
-      anon_sym_LPAREN2,
-    ACTIONS(238), 1,
-      anon_sym_LBRACE2,
-    ACTIONS(256), 1,
+    ACTIONS(108), 1,
+      sym_line_comment,
+    ACTIONS(168), 1,
       anon_sym_RPAREN,
-    STATE(43), 1,
+    STATE(23), 1,
       sym_tag,
-    STATE(64), 1,
+    STATE(43), 1,
       aux_sym_immediate_sequence_repeat2,
-    STATE(74), 1,
+    STATE(82), 1,
       sym_expr,
-    STATE(102), 1,
+    STATE(96), 1,
+      sym__tagged_expr,
+    STATE(100), 1,
       sym_attributes,
-    STATE(79), 2,
+    STATE(57), 2,
       sym_attribute,
       aux_sym_attributes_repeat1,
-    STATE(101), 3,
+    STATE(99), 3,
       sym_quoted_scalar,
       sym_raw_scalar,
       sym_heredoc,
-    STATE(100), 5,
+    STATE(98), 5,
       sym__payload,
       sym_scalar,
       sym_unit,
       sym_sequence,
       sym_object,
-  [3083] = 17,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(71), 1,
+  [3114] = 17,
+    ACTIONS(7), 1,
       sym_bare_scalar,
-    ACTIONS(81), 1,
+    ACTIONS(9), 1,
+      anon_sym_DQUOTE2,
+    ACTIONS(11), 1,
+      anon_sym_LPAREN2,
+    ACTIONS(13), 1,
+      anon_sym_LBRACE2,
+    ACTIONS(19), 1,
       sym__heredoc_start,
-    ACTIONS(83), 1,
+    ACTIONS(21), 1,
       sym__raw_string_start,
-    ACTIONS(85), 1,
+    ACTIONS(23), 1,
       sym__unit_at,
-    ACTIONS(87), 1,
+    ACTIONS(25), 1,
       sym__tag_start,
-    ACTIONS(232), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(236), 1,
-      anon_sym_LPAREN2,
-    ACTIONS(238), 1,
-      anon_sym_LBRACE2,
-    ACTIONS(258), 1,
-      anon_sym_RPAREN,
-    STATE(43), 1,
+    ACTIONS(108), 1,
+      sym_line_comment,
+    STATE(19), 1,
       sym_tag,
-    STATE(64), 1,
-      aux_sym_immediate_sequence_repeat2,
-    STATE(74), 1,
+    STATE(32), 1,
       sym_expr,
-    STATE(102), 1,
+    STATE(58), 1,
+      sym_entry,
+    STATE(83), 1,
+      sym__tagged_expr,
+    STATE(97), 1,
       sym_attributes,
-    STATE(79), 2,
+    STATE(59), 2,
       sym_attribute,
       aux_sym_attributes_repeat1,
-    STATE(101), 3,
+    STATE(95), 3,
       sym_quoted_scalar,
       sym_raw_scalar,
       sym_heredoc,
-    STATE(100), 5,
+    STATE(94), 5,
       sym__payload,
       sym_scalar,
       sym_unit,
       sym_sequence,
       sym_object,
-  [3142] = 17,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(27), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(31), 1,
+  [3173] = 17,
+    ACTIONS(29), 1,
       sym_bare_scalar,
+    ACTIONS(31), 1,
+      anon_sym_DQUOTE2,
     ACTIONS(33), 1,
       anon_sym_LPAREN2,
     ACTIONS(35), 1,
@@ -3973,1067 +3908,319 @@ static const uint16_t ts_small_parse_table[] = {
       sym__unit_at,
     ACTIONS(45), 1,
       sym__tag_start,
-    ACTIONS(260), 1,
-      anon_sym_RBRACE,
-    STATE(39), 1,
-      sym_expr,
-    STATE(41), 1,
+    ACTIONS(108), 1,
+      sym_line_comment,
+    STATE(23), 1,
       sym_tag,
-    STATE(133), 1,
+    STATE(33), 1,
+      sym_expr,
+    STATE(96), 1,
+      sym__tagged_expr,
+    STATE(100), 1,
       sym_attributes,
-    STATE(273), 1,
+    STATE(150), 1,
       sym_entry,
-    STATE(76), 2,
+    STATE(57), 2,
       sym_attribute,
       aux_sym_attributes_repeat1,
-    STATE(132), 3,
+    STATE(99), 3,
       sym_quoted_scalar,
       sym_raw_scalar,
       sym_heredoc,
-    STATE(131), 5,
+    STATE(98), 5,
       sym__payload,
       sym_scalar,
       sym_unit,
       sym_sequence,
       sym_object,
-  [3201] = 17,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(71), 1,
+  [3232] = 17,
+    ACTIONS(29), 1,
       sym_bare_scalar,
-    ACTIONS(81), 1,
+    ACTIONS(31), 1,
+      anon_sym_DQUOTE2,
+    ACTIONS(33), 1,
+      anon_sym_LPAREN2,
+    ACTIONS(35), 1,
+      anon_sym_LBRACE2,
+    ACTIONS(39), 1,
       sym__heredoc_start,
-    ACTIONS(83), 1,
+    ACTIONS(41), 1,
       sym__raw_string_start,
-    ACTIONS(85), 1,
+    ACTIONS(43), 1,
       sym__unit_at,
-    ACTIONS(87), 1,
+    ACTIONS(45), 1,
       sym__tag_start,
-    ACTIONS(232), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(236), 1,
-      anon_sym_LPAREN2,
-    ACTIONS(238), 1,
-      anon_sym_LBRACE2,
-    ACTIONS(262), 1,
-      anon_sym_RPAREN,
-    STATE(43), 1,
+    ACTIONS(108), 1,
+      sym_line_comment,
+    STATE(23), 1,
       sym_tag,
-    STATE(64), 1,
-      aux_sym_immediate_sequence_repeat2,
-    STATE(74), 1,
+    STATE(33), 1,
       sym_expr,
-    STATE(102), 1,
+    STATE(96), 1,
+      sym__tagged_expr,
+    STATE(100), 1,
       sym_attributes,
-    STATE(79), 2,
+    STATE(155), 1,
+      sym_entry,
+    STATE(57), 2,
       sym_attribute,
       aux_sym_attributes_repeat1,
-    STATE(101), 3,
+    STATE(99), 3,
       sym_quoted_scalar,
       sym_raw_scalar,
       sym_heredoc,
-    STATE(100), 5,
+    STATE(98), 5,
       sym__payload,
       sym_scalar,
       sym_unit,
       sym_sequence,
       sym_object,
-  [3260] = 17,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(71), 1,
+  [3291] = 17,
+    ACTIONS(29), 1,
       sym_bare_scalar,
-    ACTIONS(81), 1,
+    ACTIONS(31), 1,
+      anon_sym_DQUOTE2,
+    ACTIONS(33), 1,
+      anon_sym_LPAREN2,
+    ACTIONS(35), 1,
+      anon_sym_LBRACE2,
+    ACTIONS(39), 1,
       sym__heredoc_start,
-    ACTIONS(83), 1,
+    ACTIONS(41), 1,
       sym__raw_string_start,
-    ACTIONS(85), 1,
+    ACTIONS(43), 1,
       sym__unit_at,
-    ACTIONS(87), 1,
+    ACTIONS(45), 1,
       sym__tag_start,
-    ACTIONS(232), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(236), 1,
-      anon_sym_LPAREN2,
-    ACTIONS(238), 1,
-      anon_sym_LBRACE2,
-    ACTIONS(264), 1,
-      anon_sym_RPAREN,
-    STATE(43), 1,
+    ACTIONS(108), 1,
+      sym_line_comment,
+    STATE(23), 1,
       sym_tag,
-    STATE(64), 1,
-      aux_sym_immediate_sequence_repeat2,
-    STATE(74), 1,
+    STATE(33), 1,
       sym_expr,
-    STATE(102), 1,
+    STATE(96), 1,
+      sym__tagged_expr,
+    STATE(100), 1,
       sym_attributes,
-    STATE(79), 2,
+    STATE(205), 1,
+      sym_entry,
+    STATE(57), 2,
       sym_attribute,
       aux_sym_attributes_repeat1,
-    STATE(101), 3,
+    STATE(99), 3,
       sym_quoted_scalar,
       sym_raw_scalar,
       sym_heredoc,
-    STATE(100), 5,
+    STATE(98), 5,
       sym__payload,
       sym_scalar,
       sym_unit,
       sym_sequence,
       sym_object,
-  [3319] = 17,
+  [3350] = 12,
+    ACTIONS(108), 1,
+      sym_line_comment,
+    ACTIONS(120), 1,
+      sym_bare_scalar,
+    ACTIONS(230), 1,
+      anon_sym_DQUOTE,
+    ACTIONS(232), 1,
+      anon_sym_LPAREN,
+    ACTIONS(234), 1,
+      anon_sym_LBRACE,
+    ACTIONS(236), 1,
+      sym__immediate_raw_string_start,
+    ACTIONS(238), 1,
+      sym__immediate_unit_at,
+    ACTIONS(240), 1,
+      sym__immediate_heredoc_start,
+    STATE(190), 1,
+      sym_immediate_quoted_scalar_inner,
+    STATE(192), 1,
+      sym__immediate_heredoc,
+    ACTIONS(112), 3,
+      anon_sym_RBRACE,
+      anon_sym_COMMA,
+      sym__newline,
+    STATE(186), 7,
+      sym__immediate_payload,
+      sym__immediate_quoted_scalar,
+      sym__immediate_raw_scalar,
+      sym__immediate_heredoc_scalar,
+      sym_immediate_sequence,
+      sym_immediate_object,
+      sym_immediate_unit,
+  [3395] = 3,
     ACTIONS(3), 1,
       sym_line_comment,
-    ACTIONS(71), 1,
+    ACTIONS(244), 4,
       sym_bare_scalar,
-    ACTIONS(81), 1,
+      anon_sym_DQUOTE2,
+      anon_sym_LPAREN2,
+      anon_sym_LBRACE2,
+    ACTIONS(242), 14,
       sym__heredoc_start,
-    ACTIONS(83), 1,
       sym__raw_string_start,
-    ACTIONS(85), 1,
       sym__unit_at,
-    ACTIONS(87), 1,
       sym__tag_start,
-    ACTIONS(232), 1,
+      sym__immediate_raw_string_start,
+      sym__immediate_unit_at,
+      sym__immediate_heredoc_start,
+      ts_builtin_sym_end,
+      anon_sym_DQUOTE,
+      anon_sym_LPAREN,
+      anon_sym_LBRACE,
+      anon_sym_COMMA,
+      aux_sym_doc_comment_token1,
+      sym__newline,
+  [3421] = 3,
+    ACTIONS(108), 1,
+      sym_line_comment,
+    ACTIONS(244), 4,
+      sym_bare_scalar,
       anon_sym_DQUOTE2,
-    ACTIONS(236), 1,
       anon_sym_LPAREN2,
-    ACTIONS(238), 1,
       anon_sym_LBRACE2,
-    ACTIONS(266), 1,
+    ACTIONS(242), 14,
+      sym__heredoc_start,
+      sym__raw_string_start,
+      sym__unit_at,
+      sym__tag_start,
+      sym__immediate_raw_string_start,
+      sym__immediate_unit_at,
+      sym__immediate_heredoc_start,
+      anon_sym_DQUOTE,
+      anon_sym_LPAREN,
       anon_sym_RPAREN,
-    STATE(43), 1,
+      anon_sym_LBRACE,
+      anon_sym_RBRACE,
+      anon_sym_COMMA,
+      sym__newline,
+  [3447] = 12,
+    ACTIONS(31), 1,
+      anon_sym_DQUOTE2,
+    ACTIONS(33), 1,
+      anon_sym_LPAREN2,
+    ACTIONS(35), 1,
+      anon_sym_LBRACE2,
+    ACTIONS(39), 1,
+      sym__heredoc_start,
+    ACTIONS(41), 1,
+      sym__raw_string_start,
+    ACTIONS(43), 1,
+      sym__unit_at,
+    ACTIONS(45), 1,
+      sym__tag_start,
+    ACTIONS(108), 1,
+      sym_line_comment,
+    ACTIONS(246), 1,
+      sym_bare_scalar,
+    STATE(23), 1,
       sym_tag,
-    STATE(64), 1,
-      aux_sym_immediate_sequence_repeat2,
-    STATE(74), 1,
-      sym_expr,
-    STATE(102), 1,
-      sym_attributes,
-    STATE(79), 2,
-      sym_attribute,
-      aux_sym_attributes_repeat1,
-    STATE(101), 3,
+    STATE(115), 1,
+      sym__tagged_expr,
+    STATE(116), 7,
       sym_quoted_scalar,
       sym_raw_scalar,
       sym_heredoc,
-    STATE(100), 5,
-      sym__payload,
-      sym_scalar,
       sym_unit,
       sym_sequence,
       sym_object,
-  [3378] = 17,
-    ACTIONS(3), 1,
+      sym__attribute_value,
+  [3490] = 12,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(71), 1,
-      sym_bare_scalar,
-    ACTIONS(81), 1,
+    ACTIONS(178), 1,
+      anon_sym_DQUOTE2,
+    ACTIONS(180), 1,
+      anon_sym_LPAREN2,
+    ACTIONS(182), 1,
+      anon_sym_LBRACE2,
+    ACTIONS(184), 1,
       sym__heredoc_start,
-    ACTIONS(83), 1,
+    ACTIONS(186), 1,
       sym__raw_string_start,
-    ACTIONS(85), 1,
+    ACTIONS(188), 1,
       sym__unit_at,
-    ACTIONS(87), 1,
+    ACTIONS(190), 1,
       sym__tag_start,
-    ACTIONS(232), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(236), 1,
-      anon_sym_LPAREN2,
-    ACTIONS(238), 1,
-      anon_sym_LBRACE2,
-    ACTIONS(268), 1,
-      anon_sym_RPAREN,
-    STATE(43), 1,
+    ACTIONS(248), 1,
+      sym_bare_scalar,
+    STATE(51), 1,
       sym_tag,
-    STATE(64), 1,
-      aux_sym_immediate_sequence_repeat2,
-    STATE(74), 1,
-      sym_expr,
-    STATE(102), 1,
-      sym_attributes,
-    STATE(79), 2,
-      sym_attribute,
-      aux_sym_attributes_repeat1,
-    STATE(101), 3,
+    STATE(160), 1,
+      sym__tagged_expr,
+    STATE(161), 7,
       sym_quoted_scalar,
       sym_raw_scalar,
       sym_heredoc,
-    STATE(100), 5,
-      sym__payload,
-      sym_scalar,
       sym_unit,
       sym_sequence,
       sym_object,
-  [3437] = 17,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(71), 1,
-      sym_bare_scalar,
-    ACTIONS(81), 1,
+      sym__attribute_value,
+  [3533] = 12,
+    ACTIONS(9), 1,
+      anon_sym_DQUOTE2,
+    ACTIONS(11), 1,
+      anon_sym_LPAREN2,
+    ACTIONS(13), 1,
+      anon_sym_LBRACE2,
+    ACTIONS(19), 1,
       sym__heredoc_start,
-    ACTIONS(83), 1,
+    ACTIONS(21), 1,
       sym__raw_string_start,
-    ACTIONS(85), 1,
+    ACTIONS(23), 1,
       sym__unit_at,
-    ACTIONS(87), 1,
+    ACTIONS(25), 1,
       sym__tag_start,
-    ACTIONS(232), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(236), 1,
-      anon_sym_LPAREN2,
-    ACTIONS(238), 1,
-      anon_sym_LBRACE2,
-    ACTIONS(270), 1,
-      anon_sym_RPAREN,
-    STATE(43), 1,
+    ACTIONS(108), 1,
+      sym_line_comment,
+    ACTIONS(250), 1,
+      sym_bare_scalar,
+    STATE(19), 1,
       sym_tag,
-    STATE(64), 1,
-      aux_sym_immediate_sequence_repeat2,
-    STATE(74), 1,
-      sym_expr,
-    STATE(102), 1,
-      sym_attributes,
-    STATE(79), 2,
-      sym_attribute,
-      aux_sym_attributes_repeat1,
-    STATE(101), 3,
+    STATE(139), 1,
+      sym__tagged_expr,
+    STATE(140), 7,
       sym_quoted_scalar,
       sym_raw_scalar,
       sym_heredoc,
-    STATE(100), 5,
-      sym__payload,
-      sym_scalar,
       sym_unit,
       sym_sequence,
       sym_object,
-  [3496] = 17,
-    ACTIONS(3), 1,
+      sym__attribute_value,
+  [3576] = 4,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(71), 1,
+    ACTIONS(254), 1,
       sym_bare_scalar,
-    ACTIONS(81), 1,
+    STATE(65), 2,
+      sym_attribute,
+      aux_sym_attributes_repeat1,
+    ACTIONS(252), 11,
       sym__heredoc_start,
-    ACTIONS(83), 1,
       sym__raw_string_start,
-    ACTIONS(85), 1,
       sym__unit_at,
-    ACTIONS(87), 1,
       sym__tag_start,
-    ACTIONS(232), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(236), 1,
-      anon_sym_LPAREN2,
-    ACTIONS(238), 1,
-      anon_sym_LBRACE2,
-    ACTIONS(272), 1,
-      anon_sym_RPAREN,
-    STATE(43), 1,
-      sym_tag,
-    STATE(64), 1,
-      aux_sym_immediate_sequence_repeat2,
-    STATE(74), 1,
-      sym_expr,
-    STATE(102), 1,
-      sym_attributes,
-    STATE(79), 2,
-      sym_attribute,
-      aux_sym_attributes_repeat1,
-    STATE(101), 3,
-      sym_quoted_scalar,
-      sym_raw_scalar,
-      sym_heredoc,
-    STATE(100), 5,
-      sym__payload,
-      sym_scalar,
-      sym_unit,
-      sym_sequence,
-      sym_object,
-  [3555] = 17,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(71), 1,
-      sym_bare_scalar,
-    ACTIONS(81), 1,
-      sym__heredoc_start,
-    ACTIONS(83), 1,
-      sym__raw_string_start,
-    ACTIONS(85), 1,
-      sym__unit_at,
-    ACTIONS(87), 1,
-      sym__tag_start,
-    ACTIONS(232), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(236), 1,
-      anon_sym_LPAREN2,
-    ACTIONS(238), 1,
-      anon_sym_LBRACE2,
-    ACTIONS(274), 1,
-      anon_sym_RPAREN,
-    STATE(43), 1,
-      sym_tag,
-    STATE(64), 1,
-      aux_sym_immediate_sequence_repeat2,
-    STATE(74), 1,
-      sym_expr,
-    STATE(102), 1,
-      sym_attributes,
-    STATE(79), 2,
-      sym_attribute,
-      aux_sym_attributes_repeat1,
-    STATE(101), 3,
-      sym_quoted_scalar,
-      sym_raw_scalar,
-      sym_heredoc,
-    STATE(100), 5,
-      sym__payload,
-      sym_scalar,
-      sym_unit,
-      sym_sequence,
-      sym_object,
-  [3614] = 17,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(27), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(31), 1,
-      sym_bare_scalar,
-    ACTIONS(33), 1,
-      anon_sym_LPAREN2,
-    ACTIONS(35), 1,
-      anon_sym_LBRACE2,
-    ACTIONS(39), 1,
-      sym__heredoc_start,
-    ACTIONS(41), 1,
-      sym__raw_string_start,
-    ACTIONS(43), 1,
-      sym__unit_at,
-    ACTIONS(45), 1,
-      sym__tag_start,
-    ACTIONS(276), 1,
-      anon_sym_RBRACE,
-    STATE(39), 1,
-      sym_expr,
-    STATE(41), 1,
-      sym_tag,
-    STATE(133), 1,
-      sym_attributes,
-    STATE(273), 1,
-      sym_entry,
-    STATE(76), 2,
-      sym_attribute,
-      aux_sym_attributes_repeat1,
-    STATE(132), 3,
-      sym_quoted_scalar,
-      sym_raw_scalar,
-      sym_heredoc,
-    STATE(131), 5,
-      sym__payload,
-      sym_scalar,
-      sym_unit,
-      sym_sequence,
-      sym_object,
-  [3673] = 17,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(71), 1,
-      sym_bare_scalar,
-    ACTIONS(81), 1,
-      sym__heredoc_start,
-    ACTIONS(83), 1,
-      sym__raw_string_start,
-    ACTIONS(85), 1,
-      sym__unit_at,
-    ACTIONS(87), 1,
-      sym__tag_start,
-    ACTIONS(232), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(236), 1,
-      anon_sym_LPAREN2,
-    ACTIONS(238), 1,
-      anon_sym_LBRACE2,
-    ACTIONS(278), 1,
-      anon_sym_RPAREN,
-    STATE(43), 1,
-      sym_tag,
-    STATE(64), 1,
-      aux_sym_immediate_sequence_repeat2,
-    STATE(74), 1,
-      sym_expr,
-    STATE(102), 1,
-      sym_attributes,
-    STATE(79), 2,
-      sym_attribute,
-      aux_sym_attributes_repeat1,
-    STATE(101), 3,
-      sym_quoted_scalar,
-      sym_raw_scalar,
-      sym_heredoc,
-    STATE(100), 5,
-      sym__payload,
-      sym_scalar,
-      sym_unit,
-      sym_sequence,
-      sym_object,
-  [3732] = 17,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(71), 1,
-      sym_bare_scalar,
-    ACTIONS(81), 1,
-      sym__heredoc_start,
-    ACTIONS(83), 1,
-      sym__raw_string_start,
-    ACTIONS(85), 1,
-      sym__unit_at,
-    ACTIONS(87), 1,
-      sym__tag_start,
-    ACTIONS(232), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(236), 1,
-      anon_sym_LPAREN2,
-    ACTIONS(238), 1,
-      anon_sym_LBRACE2,
-    ACTIONS(280), 1,
-      anon_sym_RPAREN,
-    STATE(43), 1,
-      sym_tag,
-    STATE(64), 1,
-      aux_sym_immediate_sequence_repeat2,
-    STATE(74), 1,
-      sym_expr,
-    STATE(102), 1,
-      sym_attributes,
-    STATE(79), 2,
-      sym_attribute,
-      aux_sym_attributes_repeat1,
-    STATE(101), 3,
-      sym_quoted_scalar,
-      sym_raw_scalar,
-      sym_heredoc,
-    STATE(100), 5,
-      sym__payload,
-      sym_scalar,
-      sym_unit,
-      sym_sequence,
-      sym_object,
-  [3791] = 17,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(71), 1,
-      sym_bare_scalar,
-    ACTIONS(81), 1,
-      sym__heredoc_start,
-    ACTIONS(83), 1,
-      sym__raw_string_start,
-    ACTIONS(85), 1,
-      sym__unit_at,
-    ACTIONS(87), 1,
-      sym__tag_start,
-    ACTIONS(232), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(236), 1,
-      anon_sym_LPAREN2,
-    ACTIONS(238), 1,
-      anon_sym_LBRACE2,
-    ACTIONS(282), 1,
-      anon_sym_RPAREN,
-    STATE(43), 1,
-      sym_tag,
-    STATE(64), 1,
-      aux_sym_immediate_sequence_repeat2,
-    STATE(74), 1,
-      sym_expr,
-    STATE(102), 1,
-      sym_attributes,
-    STATE(79), 2,
-      sym_attribute,
-      aux_sym_attributes_repeat1,
-    STATE(101), 3,
-      sym_quoted_scalar,
-      sym_raw_scalar,
-      sym_heredoc,
-    STATE(100), 5,
-      sym__payload,
-      sym_scalar,
-      sym_unit,
-      sym_sequence,
-      sym_object,
-  [3850] = 17,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(71), 1,
-      sym_bare_scalar,
-    ACTIONS(81), 1,
-      sym__heredoc_start,
-    ACTIONS(83), 1,
-      sym__raw_string_start,
-    ACTIONS(85), 1,
-      sym__unit_at,
-    ACTIONS(87), 1,
-      sym__tag_start,
-    ACTIONS(232), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(236), 1,
-      anon_sym_LPAREN2,
-    ACTIONS(238), 1,
-      anon_sym_LBRACE2,
-    ACTIONS(284), 1,
-      anon_sym_RPAREN,
-    STATE(43), 1,
-      sym_tag,
-    STATE(64), 1,
-      aux_sym_immediate_sequence_repeat2,
-    STATE(74), 1,
-      sym_expr,
-    STATE(102), 1,
-      sym_attributes,
-    STATE(79), 2,
-      sym_attribute,
-      aux_sym_attributes_repeat1,
-    STATE(101), 3,
-      sym_quoted_scalar,
-      sym_raw_scalar,
-      sym_heredoc,
-    STATE(100), 5,
-      sym__payload,
-      sym_scalar,
-      sym_unit,
-      sym_sequence,
-      sym_object,
-  [3909] = 10,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(286), 1,
-      anon_sym_DQUOTE,
-    ACTIONS(288), 1,
-      anon_sym_LPAREN,
-    ACTIONS(290), 1,
-      anon_sym_LBRACE,
-    ACTIONS(292), 1,
-      sym__immediate_raw_string_start,
-    ACTIONS(294), 1,
-      sym__immediate_unit_at,
-    STATE(112), 1,
-      sym_immediate_quoted_scalar_inner,
-    ACTIONS(220), 5,
-      anon_sym_DQUOTE2,
-      sym_bare_scalar,
-      anon_sym_LPAREN2,
-      anon_sym_LBRACE2,
-      anon_sym_SLASH_SLASH_SLASH,
-    ACTIONS(226), 6,
-      sym__heredoc_start,
-      sym__raw_string_start,
-      sym__unit_at,
-      sym__tag_start,
-      ts_builtin_sym_end,
-      sym__newline,
-    STATE(103), 6,
-      sym__immediate_payload,
-      sym__immediate_quoted_scalar,
-      sym__immediate_raw_scalar,
-      sym_immediate_sequence,
-      sym_immediate_object,
-      sym_immediate_unit,
-  [3954] = 17,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(71), 1,
-      sym_bare_scalar,
-    ACTIONS(81), 1,
-      sym__heredoc_start,
-    ACTIONS(83), 1,
-      sym__raw_string_start,
-    ACTIONS(85), 1,
-      sym__unit_at,
-    ACTIONS(87), 1,
-      sym__tag_start,
-    ACTIONS(232), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(236), 1,
-      anon_sym_LPAREN2,
-    ACTIONS(238), 1,
-      anon_sym_LBRACE2,
-    ACTIONS(296), 1,
-      anon_sym_RPAREN,
-    STATE(43), 1,
-      sym_tag,
-    STATE(64), 1,
-      aux_sym_immediate_sequence_repeat2,
-    STATE(74), 1,
-      sym_expr,
-    STATE(102), 1,
-      sym_attributes,
-    STATE(79), 2,
-      sym_attribute,
-      aux_sym_attributes_repeat1,
-    STATE(101), 3,
-      sym_quoted_scalar,
-      sym_raw_scalar,
-      sym_heredoc,
-    STATE(100), 5,
-      sym__payload,
-      sym_scalar,
-      sym_unit,
-      sym_sequence,
-      sym_object,
-  [4013] = 17,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(298), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(301), 1,
-      anon_sym_RPAREN,
-    ACTIONS(303), 1,
-      sym_bare_scalar,
-    ACTIONS(306), 1,
-      anon_sym_LPAREN2,
-    ACTIONS(309), 1,
-      anon_sym_LBRACE2,
-    ACTIONS(312), 1,
-      sym__heredoc_start,
-    ACTIONS(315), 1,
-      sym__raw_string_start,
-    ACTIONS(318), 1,
-      sym__unit_at,
-    ACTIONS(321), 1,
-      sym__tag_start,
-    STATE(43), 1,
-      sym_tag,
-    STATE(64), 1,
-      aux_sym_immediate_sequence_repeat2,
-    STATE(74), 1,
-      sym_expr,
-    STATE(102), 1,
-      sym_attributes,
-    STATE(79), 2,
-      sym_attribute,
-      aux_sym_attributes_repeat1,
-    STATE(101), 3,
-      sym_quoted_scalar,
-      sym_raw_scalar,
-      sym_heredoc,
-    STATE(100), 5,
-      sym__payload,
-      sym_scalar,
-      sym_unit,
-      sym_sequence,
-      sym_object,
-  [4072] = 16,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(27), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(31), 1,
-      sym_bare_scalar,
-    ACTIONS(33), 1,
-      anon_sym_LPAREN2,
-    ACTIONS(35), 1,
-      anon_sym_LBRACE2,
-    ACTIONS(39), 1,
-      sym__heredoc_start,
-    ACTIONS(41), 1,
-      sym__raw_string_start,
-    ACTIONS(43), 1,
-      sym__unit_at,
-    ACTIONS(45), 1,
-      sym__tag_start,
-    STATE(39), 1,
-      sym_expr,
-    STATE(41), 1,
-      sym_tag,
-    STATE(133), 1,
-      sym_attributes,
-    STATE(233), 1,
-      sym_entry,
-    STATE(76), 2,
-      sym_attribute,
-      aux_sym_attributes_repeat1,
-    STATE(132), 3,
-      sym_quoted_scalar,
-      sym_raw_scalar,
-      sym_heredoc,
-    STATE(131), 5,
-      sym__payload,
-      sym_scalar,
-      sym_unit,
-      sym_sequence,
-      sym_object,
-  [4128] = 16,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(27), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(31), 1,
-      sym_bare_scalar,
-    ACTIONS(33), 1,
-      anon_sym_LPAREN2,
-    ACTIONS(35), 1,
-      anon_sym_LBRACE2,
-    ACTIONS(39), 1,
-      sym__heredoc_start,
-    ACTIONS(41), 1,
-      sym__raw_string_start,
-    ACTIONS(43), 1,
-      sym__unit_at,
-    ACTIONS(45), 1,
-      sym__tag_start,
-    STATE(39), 1,
-      sym_expr,
-    STATE(41), 1,
-      sym_tag,
-    STATE(133), 1,
-      sym_attributes,
-    STATE(219), 1,
-      sym_entry,
-    STATE(76), 2,
-      sym_attribute,
-      aux_sym_attributes_repeat1,
-    STATE(132), 3,
-      sym_quoted_scalar,
-      sym_raw_scalar,
-      sym_heredoc,
-    STATE(131), 5,
-      sym__payload,
-      sym_scalar,
-      sym_unit,
-      sym_sequence,
-      sym_object,
-  [4184] = 16,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(27), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(31), 1,
-      sym_bare_scalar,
-    ACTIONS(33), 1,
-      anon_sym_LPAREN2,
-    ACTIONS(35), 1,
-      anon_sym_LBRACE2,
-    ACTIONS(39), 1,
-      sym__heredoc_start,
-    ACTIONS(41), 1,
-      sym__raw_string_start,
-    ACTIONS(43), 1,
-      sym__unit_at,
-    ACTIONS(45), 1,
-      sym__tag_start,
-    STATE(39), 1,
-      sym_expr,
-    STATE(41), 1,
-      sym_tag,
-    STATE(133), 1,
-      sym_attributes,
-    STATE(269), 1,
-      sym_entry,
-    STATE(76), 2,
-      sym_attribute,
-      aux_sym_attributes_repeat1,
-    STATE(132), 3,
-      sym_quoted_scalar,
-      sym_raw_scalar,
-      sym_heredoc,
-    STATE(131), 5,
-      sym__payload,
-      sym_scalar,
-      sym_unit,
-      sym_sequence,
-      sym_object,
-  [4240] = 16,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(7), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(9), 1,
-      sym_bare_scalar,
-    ACTIONS(11), 1,
-      anon_sym_LPAREN2,
-    ACTIONS(13), 1,
-      anon_sym_LBRACE2,
-    ACTIONS(19), 1,
-      sym__heredoc_start,
-    ACTIONS(21), 1,
-      sym__raw_string_start,
-    ACTIONS(23), 1,
-      sym__unit_at,
-    ACTIONS(25), 1,
-      sym__tag_start,
-    STATE(40), 1,
-      sym_expr,
-    STATE(62), 1,
-      sym_tag,
-    STATE(89), 1,
-      sym_entry,
-    STATE(178), 1,
-      sym_attributes,
-    STATE(82), 2,
-      sym_attribute,
-      aux_sym_attributes_repeat1,
-    STATE(177), 3,
-      sym_quoted_scalar,
-      sym_raw_scalar,
-      sym_heredoc,
-    STATE(172), 5,
-      sym__payload,
-      sym_scalar,
-      sym_unit,
-      sym_sequence,
-      sym_object,
-  [4296] = 16,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(27), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(31), 1,
-      sym_bare_scalar,
-    ACTIONS(33), 1,
-      anon_sym_LPAREN2,
-    ACTIONS(35), 1,
-      anon_sym_LBRACE2,
-    ACTIONS(39), 1,
-      sym__heredoc_start,
-    ACTIONS(41), 1,
-      sym__raw_string_start,
-    ACTIONS(43), 1,
-      sym__unit_at,
-    ACTIONS(45), 1,
-      sym__tag_start,
-    STATE(39), 1,
-      sym_expr,
-    STATE(41), 1,
-      sym_tag,
-    STATE(133), 1,
-      sym_attributes,
-    STATE(273), 1,
-      sym_entry,
-    STATE(76), 2,
-      sym_attribute,
-      aux_sym_attributes_repeat1,
-    STATE(132), 3,
-      sym_quoted_scalar,
-      sym_raw_scalar,
-      sym_heredoc,
-    STATE(131), 5,
-      sym__payload,
-      sym_scalar,
-      sym_unit,
-      sym_sequence,
-      sym_object,
-  [4352] = 3,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(326), 5,
-      anon_sym_DQUOTE2,
-      sym_bare_scalar,
-      anon_sym_LPAREN2,
-      anon_sym_LBRACE2,
-      anon_sym_SLASH_SLASH_SLASH,
-    ACTIONS(324), 11,
-      sym__heredoc_start,
-      sym__raw_string_start,
-      sym__unit_at,
-      sym__tag_start,
-      sym__immediate_raw_string_start,
-      sym__immediate_unit_at,
-      ts_builtin_sym_end,
-      anon_sym_DQUOTE,
-      anon_sym_LPAREN,
-      anon_sym_LBRACE,
-      sym__newline,
-  [4376] = 2,
-    ACTIONS(326), 7,
-      anon_sym_DQUOTE2,
-      anon_sym_RPAREN,
-      sym_bare_scalar,
-      anon_sym_LPAREN2,
-      anon_sym_LBRACE2,
-      sym_line_comment,
-      sym__newline,
-    ACTIONS(324), 10,
-      sym__heredoc_start,
-      sym__raw_string_start,
-      sym__unit_at,
-      sym__tag_start,
-      sym__immediate_raw_string_start,
-      sym__immediate_unit_at,
-      anon_sym_DQUOTE,
-      anon_sym_LPAREN,
-      anon_sym_LBRACE,
-      aux_sym__seq_ws_token1,
-  [4398] = 3,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(326), 4,
-      anon_sym_DQUOTE2,
-      sym_bare_scalar,
-      anon_sym_LPAREN2,
-      anon_sym_LBRACE2,
-    ACTIONS(324), 12,
-      sym__heredoc_start,
-      sym__raw_string_start,
-      sym__unit_at,
-      sym__tag_start,
-      sym__immediate_raw_string_start,
-      sym__immediate_unit_at,
-      anon_sym_DQUOTE,
-      anon_sym_LPAREN,
-      anon_sym_LBRACE,
-      anon_sym_RBRACE,
-      anon_sym_COMMA,
-      sym__newline,
-  [4422] = 9,
-    ACTIONS(328), 1,
-      anon_sym_DQUOTE,
-    ACTIONS(330), 1,
-      anon_sym_LPAREN,
-    ACTIONS(332), 1,
-      anon_sym_LBRACE,
-    ACTIONS(334), 1,
-      sym_line_comment,
-    ACTIONS(336), 1,
-      sym__immediate_raw_string_start,
-    ACTIONS(338), 1,
-      sym__immediate_unit_at,
-    STATE(235), 1,
-      sym_immediate_quoted_scalar_inner,
-    ACTIONS(226), 3,
-      anon_sym_RBRACE,
-      anon_sym_COMMA,
-      sym__newline,
-    STATE(234), 6,
-      sym__immediate_payload,
-      sym__immediate_quoted_scalar,
-      sym__immediate_raw_scalar,
-      sym_immediate_sequence,
-      sym_immediate_object,
-      sym_immediate_unit,
-  [4457] = 5,
-    ACTIONS(344), 1,
-      aux_sym__seq_ws_token1,
-    ACTIONS(342), 2,
-      sym_line_comment,
-      sym__newline,
-    STATE(77), 2,
-      sym__seq_ws,
-      aux_sym_immediate_sequence_repeat1,
-    ACTIONS(346), 4,
-      sym__heredoc_start,
-      sym__raw_string_start,
-      sym__unit_at,
-      sym__tag_start,
-    ACTIONS(340), 5,
-      anon_sym_DQUOTE2,
       anon_sym_RPAREN,
-      sym_bare_scalar,
-      anon_sym_LPAREN2,
-      anon_sym_LBRACE2,
-  [4482] = 4,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(350), 1,
-      sym_bare_scalar,
-    STATE(75), 2,
-      sym_attribute,
-      aux_sym_attributes_repeat1,
-    ACTIONS(348), 10,
-      sym__heredoc_start,
-      sym__raw_string_start,
-      sym__unit_at,
-      sym__tag_start,
-      anon_sym_DQUOTE2,
       anon_sym_RBRACE,
+      anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
       anon_sym_COMMA,
       sym__newline,
-  [4505] = 4,
+  [3600] = 5,
     ACTIONS(3), 1,
       sym_line_comment,
-    ACTIONS(355), 1,
+    ACTIONS(256), 1,
       sym_bare_scalar,
-    STATE(75), 2,
-      sym_attribute,
-      aux_sym_attributes_repeat1,
-    ACTIONS(353), 10,
-      sym__heredoc_start,
-      sym__raw_string_start,
-      sym__unit_at,
-      sym__tag_start,
-      anon_sym_DQUOTE2,
-      anon_sym_RBRACE,
-      anon_sym_LPAREN2,
-      anon_sym_LBRACE2,
+    ACTIONS(258), 2,
       anon_sym_COMMA,
       sym__newline,
-  [4528] = 5,
-    ACTIONS(79), 1,
-      aux_sym__seq_ws_token1,
-    ACTIONS(77), 2,
-      sym_line_comment,
-      sym__newline,
-    STATE(81), 2,
-      sym__seq_ws,
-      aux_sym_immediate_sequence_repeat1,
-    ACTIONS(301), 4,
-      sym__heredoc_start,
-      sym__raw_string_start,
-      sym__unit_at,
-      sym__tag_start,
-    ACTIONS(358), 5,
-      anon_sym_DQUOTE2,
-      anon_sym_RPAREN,
-      sym_bare_scalar,
-      anon_sym_LPAREN2,
-      anon_sym_LBRACE2,
-  [4553] = 4,
-    ACTIONS(362), 1,
-      sym_bare_scalar,
-    STATE(78), 2,
-      sym_attribute,
-      aux_sym_attributes_repeat1,
-    ACTIONS(348), 5,
-      sym__heredoc_start,
-      sym__raw_string_start,
-      sym__unit_at,
-      sym__tag_start,
-      aux_sym__seq_ws_token1,
-    ACTIONS(360), 6,
-      anon_sym_DQUOTE2,
-      anon_sym_RPAREN,
-      anon_sym_LPAREN2,
-      anon_sym_LBRACE2,
-      sym_line_comment,
-      sym__newline,
-  [4576] = 4,
-    ACTIONS(367), 1,
-      sym_bare_scalar,
-    STATE(78), 2,
-      sym_attribute,
-      aux_sym_attributes_repeat1,
-    ACTIONS(353), 5,
-      sym__heredoc_start,
-      sym__raw_string_start,
-      sym__unit_at,
-      sym__tag_start,
-      aux_sym__seq_ws_token1,
-    ACTIONS(365), 6,
-      anon_sym_DQUOTE2,
-      anon_sym_RPAREN,
-      anon_sym_LPAREN2,
-      anon_sym_LBRACE2,
-      sym_line_comment,
-      sym__newline,
-  [4599] = 5,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(360), 1,
-      anon_sym_SLASH_SLASH_SLASH,
-    ACTIONS(370), 1,
-      sym_bare_scalar,
-    STATE(80), 2,
-      sym_attribute,
-      aux_sym_attributes_repeat1,
-    ACTIONS(348), 9,
+    STATE(64), 2,
+      sym__separator,
+      aux_sym_document_repeat2,
+    ACTIONS(77), 9,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
@@ -5042,58 +4229,16 @@ static const uint16_t ts_small_parse_table[] = {
       anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
-      sym__newline,
-  [4624] = 5,
-    ACTIONS(378), 1,
-      aux_sym__seq_ws_token1,
-    ACTIONS(375), 2,
-      sym_line_comment,
-      sym__newline,
-    STATE(81), 2,
-      sym__seq_ws,
-      aux_sym_immediate_sequence_repeat1,
-    ACTIONS(381), 4,
-      sym__heredoc_start,
-      sym__raw_string_start,
-      sym__unit_at,
-      sym__tag_start,
-    ACTIONS(373), 5,
-      anon_sym_DQUOTE2,
-      anon_sym_RPAREN,
-      sym_bare_scalar,
-      anon_sym_LPAREN2,
-      anon_sym_LBRACE2,
-  [4649] = 5,
+      aux_sym_doc_comment_token1,
+  [3626] = 4,
     ACTIONS(3), 1,
       sym_line_comment,
-    ACTIONS(365), 1,
-      anon_sym_SLASH_SLASH_SLASH,
-    ACTIONS(383), 1,
+    ACTIONS(260), 1,
       sym_bare_scalar,
-    STATE(80), 2,
+    STATE(66), 2,
       sym_attribute,
       aux_sym_attributes_repeat1,
-    ACTIONS(353), 9,
-      sym__heredoc_start,
-      sym__raw_string_start,
-      sym__unit_at,
-      sym__tag_start,
-      ts_builtin_sym_end,
-      anon_sym_DQUOTE2,
-      anon_sym_LPAREN2,
-      anon_sym_LBRACE2,
-      sym__newline,
-  [4674] = 5,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(390), 1,
-      sym__newline,
-    STATE(90), 1,
-      aux_sym_document_repeat1,
-    ACTIONS(388), 2,
-      sym_bare_scalar,
-      anon_sym_SLASH_SLASH_SLASH,
-    ACTIONS(386), 8,
+    ACTIONS(252), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
@@ -5102,174 +4247,42 @@ static const uint16_t ts_small_parse_table[] = {
       anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
-  [4698] = 4,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(394), 1,
-      sym_bare_scalar,
-    ACTIONS(396), 1,
-      anon_sym_GT,
-    ACTIONS(392), 10,
-      sym__heredoc_start,
-      sym__raw_string_start,
-      sym__unit_at,
-      sym__tag_start,
-      anon_sym_DQUOTE2,
-      anon_sym_RBRACE,
-      anon_sym_LPAREN2,
-      anon_sym_LBRACE2,
       anon_sym_COMMA,
+      aux_sym_doc_comment_token1,
       sym__newline,
-  [4720] = 4,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(398), 1,
-      anon_sym_GT,
-    ACTIONS(394), 2,
-      sym_bare_scalar,
-      anon_sym_SLASH_SLASH_SLASH,
-    ACTIONS(392), 9,
-      sym__heredoc_start,
-      sym__raw_string_start,
-      sym__unit_at,
-      sym__tag_start,
-      ts_builtin_sym_end,
-      anon_sym_DQUOTE2,
-      anon_sym_LPAREN2,
-      anon_sym_LBRACE2,
-      sym__newline,
-  [4742] = 5,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(404), 1,
-      sym__newline,
-    STATE(86), 1,
-      aux_sym_document_repeat1,
-    ACTIONS(402), 2,
-      sym_bare_scalar,
-      anon_sym_SLASH_SLASH_SLASH,
-    ACTIONS(400), 8,
-      sym__heredoc_start,
-      sym__raw_string_start,
-      sym__unit_at,
-      sym__tag_start,
-      ts_builtin_sym_end,
-      anon_sym_DQUOTE2,
-      anon_sym_LPAREN2,
-      anon_sym_LBRACE2,
-  [4766] = 5,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(65), 1,
-      sym__newline,
-    STATE(86), 1,
-      aux_sym_document_repeat1,
-    ACTIONS(409), 2,
-      sym_bare_scalar,
-      anon_sym_SLASH_SLASH_SLASH,
-    ACTIONS(407), 8,
-      sym__heredoc_start,
-      sym__raw_string_start,
-      sym__unit_at,
-      sym__tag_start,
-      ts_builtin_sym_end,
-      anon_sym_DQUOTE2,
-      anon_sym_LPAREN2,
-      anon_sym_LBRACE2,
-  [4790] = 3,
-    ACTIONS(411), 1,
-      anon_sym_GT,
-    ACTIONS(392), 5,
-      sym__heredoc_start,
-      sym__raw_string_start,
-      sym__unit_at,
-      sym__tag_start,
-      aux_sym__seq_ws_token1,
-    ACTIONS(394), 7,
-      anon_sym_DQUOTE2,
-      anon_sym_RPAREN,
-      sym_bare_scalar,
-      anon_sym_LPAREN2,
-      anon_sym_LBRACE2,
-      sym_line_comment,
-      sym__newline,
-  [4810] = 5,
+  [3650] = 5,
     ACTIONS(3), 1,
       sym_line_comment,
-    ACTIONS(415), 1,
-      sym__newline,
-    STATE(87), 1,
-      aux_sym_document_repeat1,
-    ACTIONS(413), 2,
+    ACTIONS(264), 1,
       sym_bare_scalar,
-      anon_sym_SLASH_SLASH_SLASH,
-    ACTIONS(153), 8,
-      sym__heredoc_start,
-      sym__raw_string_start,
-      sym__unit_at,
-      sym__tag_start,
-      ts_builtin_sym_end,
-      anon_sym_DQUOTE2,
-      anon_sym_LPAREN2,
-      anon_sym_LBRACE2,
-  [4834] = 5,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(65), 1,
+    ACTIONS(266), 2,
+      anon_sym_COMMA,
       sym__newline,
-    STATE(86), 1,
-      aux_sym_document_repeat1,
-    ACTIONS(413), 2,
-      sym_bare_scalar,
-      anon_sym_SLASH_SLASH_SLASH,
-    ACTIONS(153), 8,
+    STATE(60), 2,
+      sym__separator,
+      aux_sym_document_repeat2,
+    ACTIONS(262), 9,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      ts_builtin_sym_end,
+      anon_sym_RBRACE,
       anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
-  [4858] = 3,
+      aux_sym_doc_comment_token1,
+  [3676] = 5,
     ACTIONS(3), 1,
       sym_line_comment,
-    ACTIONS(419), 1,
+    ACTIONS(256), 1,
       sym_bare_scalar,
-    ACTIONS(417), 10,
-      sym__heredoc_start,
-      sym__raw_string_start,
-      sym__unit_at,
-      sym__tag_start,
-      anon_sym_DQUOTE2,
-      anon_sym_RBRACE,
-      anon_sym_LPAREN2,
-      anon_sym_LBRACE2,
+    ACTIONS(269), 2,
       anon_sym_COMMA,
       sym__newline,
-  [4877] = 3,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(423), 2,
-      sym_bare_scalar,
-      anon_sym_SLASH_SLASH_SLASH,
-    ACTIONS(421), 9,
-      sym__heredoc_start,
-      sym__raw_string_start,
-      sym__unit_at,
-      sym__tag_start,
-      ts_builtin_sym_end,
-      anon_sym_DQUOTE2,
-      anon_sym_LPAREN2,
-      anon_sym_LBRACE2,
-      sym__newline,
-  [4896] = 3,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(427), 2,
-      sym_bare_scalar,
-      anon_sym_SLASH_SLASH_SLASH,
-    ACTIONS(425), 9,
+    STATE(62), 2,
+      sym__separator,
+      aux_sym_document_repeat2,
+    ACTIONS(77), 9,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
@@ -5278,14 +4291,19 @@ static const uint16_t ts_small_parse_table[] = {
       anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
-      sym__newline,
-  [4915] = 3,
+      aux_sym_doc_comment_token1,
+  [3702] = 5,
     ACTIONS(3), 1,
       sym_line_comment,
-    ACTIONS(431), 2,
+    ACTIONS(264), 1,
       sym_bare_scalar,
-      anon_sym_SLASH_SLASH_SLASH,
-    ACTIONS(429), 9,
+    ACTIONS(271), 2,
+      anon_sym_COMMA,
+      sym__newline,
+    STATE(62), 2,
+      sym__separator,
+      aux_sym_document_repeat2,
+    ACTIONS(262), 9,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
@@ -5294,14 +4312,19 @@ static const uint16_t ts_small_parse_table[] = {
       anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
-      sym__newline,
-  [4934] = 3,
+      aux_sym_doc_comment_token1,
+  [3728] = 5,
     ACTIONS(3), 1,
       sym_line_comment,
-    ACTIONS(435), 2,
+    ACTIONS(276), 1,
       sym_bare_scalar,
-      anon_sym_SLASH_SLASH_SLASH,
-    ACTIONS(433), 9,
+    ACTIONS(278), 2,
+      anon_sym_COMMA,
+      sym__newline,
+    STATE(61), 2,
+      sym__separator,
+      aux_sym_document_repeat2,
+    ACTIONS(274), 9,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
@@ -5310,14 +4333,19 @@ static const uint16_t ts_small_parse_table[] = {
       anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
-      sym__newline,
-  [4953] = 3,
+      aux_sym_doc_comment_token1,
+  [3754] = 5,
     ACTIONS(3), 1,
       sym_line_comment,
-    ACTIONS(439), 2,
+    ACTIONS(282), 1,
       sym_bare_scalar,
-      anon_sym_SLASH_SLASH_SLASH,
-    ACTIONS(437), 9,
+    ACTIONS(269), 2,
+      anon_sym_COMMA,
+      sym__newline,
+    STATE(62), 2,
+      sym__separator,
+      aux_sym_document_repeat2,
+    ACTIONS(280), 9,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
@@ -5326,45 +4354,55 @@ static const uint16_t ts_small_parse_table[] = {
       anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
-      sym__newline,
-  [4972] = 3,
-    ACTIONS(3), 1,
+      aux_sym_doc_comment_token1,
+  [3780] = 4,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(443), 2,
+    ACTIONS(286), 1,
       sym_bare_scalar,
-      anon_sym_SLASH_SLASH_SLASH,
-    ACTIONS(441), 9,
+    STATE(65), 2,
+      sym_attribute,
+      aux_sym_attributes_repeat1,
+    ACTIONS(284), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      ts_builtin_sym_end,
+      anon_sym_RPAREN,
+      anon_sym_RBRACE,
       anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
+      anon_sym_COMMA,
       sym__newline,
-  [4991] = 2,
-    ACTIONS(447), 5,
+  [3804] = 4,
+    ACTIONS(3), 1,
+      sym_line_comment,
+    ACTIONS(289), 1,
+      sym_bare_scalar,
+    STATE(66), 2,
+      sym_attribute,
+      aux_sym_attributes_repeat1,
+    ACTIONS(284), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      aux_sym__seq_ws_token1,
-    ACTIONS(445), 7,
+      ts_builtin_sym_end,
       anon_sym_DQUOTE2,
-      anon_sym_RPAREN,
-      sym_bare_scalar,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
-      sym_line_comment,
+      anon_sym_COMMA,
+      aux_sym_doc_comment_token1,
       sym__newline,
-  [5008] = 3,
+  [3828] = 4,
     ACTIONS(3), 1,
       sym_line_comment,
-    ACTIONS(451), 2,
+    ACTIONS(294), 1,
       sym_bare_scalar,
-      anon_sym_SLASH_SLASH_SLASH,
-    ACTIONS(449), 9,
+    ACTIONS(296), 1,
+      anon_sym_GT,
+    ACTIONS(292), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
@@ -5373,59 +4411,70 @@ static const uint16_t ts_small_parse_table[] = {
       anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
+      anon_sym_COMMA,
+      aux_sym_doc_comment_token1,
       sym__newline,
-  [5027] = 2,
-    ACTIONS(455), 5,
+  [3851] = 4,
+    ACTIONS(108), 1,
+      sym_line_comment,
+    ACTIONS(294), 1,
+      sym_bare_scalar,
+    ACTIONS(298), 1,
+      anon_sym_GT,
+    ACTIONS(292), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      aux_sym__seq_ws_token1,
-    ACTIONS(453), 7,
-      anon_sym_DQUOTE2,
       anon_sym_RPAREN,
-      sym_bare_scalar,
+      anon_sym_RBRACE,
+      anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
-      sym_line_comment,
+      anon_sym_COMMA,
       sym__newline,
-  [5044] = 2,
-    ACTIONS(392), 5,
+  [3874] = 3,
+    ACTIONS(108), 1,
+      sym_line_comment,
+    ACTIONS(302), 1,
+      sym_bare_scalar,
+    ACTIONS(300), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      aux_sym__seq_ws_token1,
-    ACTIONS(394), 7,
-      anon_sym_DQUOTE2,
       anon_sym_RPAREN,
-      sym_bare_scalar,
+      anon_sym_RBRACE,
+      anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
+      anon_sym_COMMA,
+      sym__newline,
+  [3894] = 5,
+    ACTIONS(108), 1,
       sym_line_comment,
+    ACTIONS(306), 1,
+      sym_bare_scalar,
+    ACTIONS(308), 1,
       sym__newline,
-  [5061] = 2,
-    ACTIONS(459), 5,
+    STATE(70), 2,
+      sym__seq_ws,
+      aux_sym_immediate_sequence_repeat1,
+    ACTIONS(304), 8,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      aux_sym__seq_ws_token1,
-    ACTIONS(457), 7,
-      anon_sym_DQUOTE2,
       anon_sym_RPAREN,
-      sym_bare_scalar,
+      anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
-      sym_line_comment,
-      sym__newline,
-  [5078] = 3,
+  [3918] = 3,
     ACTIONS(3), 1,
       sym_line_comment,
-    ACTIONS(463), 2,
+    ACTIONS(313), 1,
       sym_bare_scalar,
-      anon_sym_SLASH_SLASH_SLASH,
-    ACTIONS(461), 9,
+    ACTIONS(311), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
@@ -5434,134 +4483,117 @@ static const uint16_t ts_small_parse_table[] = {
       anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
+      anon_sym_COMMA,
+      aux_sym_doc_comment_token1,
       sym__newline,
-  [5097] = 2,
-    ACTIONS(467), 5,
-      sym__heredoc_start,
-      sym__raw_string_start,
-      sym__unit_at,
-      sym__tag_start,
-      aux_sym__seq_ws_token1,
-    ACTIONS(465), 7,
-      anon_sym_DQUOTE2,
-      anon_sym_RPAREN,
-      sym_bare_scalar,
-      anon_sym_LPAREN2,
-      anon_sym_LBRACE2,
+  [3938] = 3,
+    ACTIONS(3), 1,
       sym_line_comment,
-      sym__newline,
-  [5114] = 2,
-    ACTIONS(471), 5,
-      sym__heredoc_start,
-      sym__raw_string_start,
-      sym__unit_at,
-      sym__tag_start,
-      aux_sym__seq_ws_token1,
-    ACTIONS(469), 7,
-      anon_sym_DQUOTE2,
-      anon_sym_RPAREN,
+    ACTIONS(317), 1,
       sym_bare_scalar,
-      anon_sym_LPAREN2,
-      anon_sym_LBRACE2,
-      sym_line_comment,
-      sym__newline,
-  [5131] = 2,
-    ACTIONS(475), 5,
+    ACTIONS(315), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      aux_sym__seq_ws_token1,
-    ACTIONS(473), 7,
+      ts_builtin_sym_end,
       anon_sym_DQUOTE2,
-      anon_sym_RPAREN,
-      sym_bare_scalar,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
-      sym_line_comment,
+      anon_sym_COMMA,
+      aux_sym_doc_comment_token1,
       sym__newline,
-  [5148] = 2,
-    ACTIONS(479), 5,
+  [3958] = 3,
+    ACTIONS(3), 1,
+      sym_line_comment,
+    ACTIONS(321), 1,
+      sym_bare_scalar,
+    ACTIONS(319), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      aux_sym__seq_ws_token1,
-    ACTIONS(477), 7,
+      ts_builtin_sym_end,
       anon_sym_DQUOTE2,
-      anon_sym_RPAREN,
-      sym_bare_scalar,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
-      sym_line_comment,
+      anon_sym_COMMA,
+      aux_sym_doc_comment_token1,
       sym__newline,
-  [5165] = 2,
-    ACTIONS(483), 5,
+  [3978] = 3,
+    ACTIONS(3), 1,
+      sym_line_comment,
+    ACTIONS(325), 1,
+      sym_bare_scalar,
+    ACTIONS(323), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      aux_sym__seq_ws_token1,
-    ACTIONS(481), 7,
+      ts_builtin_sym_end,
       anon_sym_DQUOTE2,
-      anon_sym_RPAREN,
-      sym_bare_scalar,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
-      sym_line_comment,
+      anon_sym_COMMA,
+      aux_sym_doc_comment_token1,
       sym__newline,
-  [5182] = 2,
-    ACTIONS(449), 5,
+  [3998] = 3,
+    ACTIONS(3), 1,
+      sym_line_comment,
+    ACTIONS(329), 1,
+      sym_bare_scalar,
+    ACTIONS(327), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      aux_sym__seq_ws_token1,
-    ACTIONS(451), 7,
+      ts_builtin_sym_end,
       anon_sym_DQUOTE2,
-      anon_sym_RPAREN,
-      sym_bare_scalar,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
-      sym_line_comment,
+      anon_sym_COMMA,
+      aux_sym_doc_comment_token1,
       sym__newline,
-  [5199] = 2,
-    ACTIONS(461), 5,
+  [4018] = 3,
+    ACTIONS(3), 1,
+      sym_line_comment,
+    ACTIONS(333), 1,
+      sym_bare_scalar,
+    ACTIONS(331), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      aux_sym__seq_ws_token1,
-    ACTIONS(463), 7,
+      ts_builtin_sym_end,
       anon_sym_DQUOTE2,
-      anon_sym_RPAREN,
-      sym_bare_scalar,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
-      sym_line_comment,
+      anon_sym_COMMA,
+      aux_sym_doc_comment_token1,
       sym__newline,
-  [5216] = 2,
-    ACTIONS(487), 5,
+  [4038] = 3,
+    ACTIONS(3), 1,
+      sym_line_comment,
+    ACTIONS(337), 1,
+      sym_bare_scalar,
+    ACTIONS(335), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      aux_sym__seq_ws_token1,
-    ACTIONS(485), 7,
+      ts_builtin_sym_end,
       anon_sym_DQUOTE2,
-      anon_sym_RPAREN,
-      sym_bare_scalar,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
-      sym_line_comment,
+      anon_sym_COMMA,
+      aux_sym_doc_comment_token1,
       sym__newline,
-  [5233] = 3,
+  [4058] = 3,
     ACTIONS(3), 1,
       sym_line_comment,
-    ACTIONS(485), 2,
+    ACTIONS(341), 1,
       sym_bare_scalar,
-      anon_sym_SLASH_SLASH_SLASH,
-    ACTIONS(487), 9,
+    ACTIONS(339), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
@@ -5570,861 +4602,937 @@ static const uint16_t ts_small_parse_table[] = {
       anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
+      anon_sym_COMMA,
+      aux_sym_doc_comment_token1,
       sym__newline,
-  [5252] = 2,
-    ACTIONS(491), 5,
+  [4078] = 3,
+    ACTIONS(3), 1,
+      sym_line_comment,
+    ACTIONS(345), 1,
+      sym_bare_scalar,
+    ACTIONS(343), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      aux_sym__seq_ws_token1,
-    ACTIONS(489), 7,
+      ts_builtin_sym_end,
       anon_sym_DQUOTE2,
-      anon_sym_RPAREN,
-      sym_bare_scalar,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
-      sym_line_comment,
+      anon_sym_COMMA,
+      aux_sym_doc_comment_token1,
       sym__newline,
-  [5269] = 2,
-    ACTIONS(495), 5,
+  [4098] = 3,
+    ACTIONS(3), 1,
+      sym_line_comment,
+    ACTIONS(349), 1,
+      sym_bare_scalar,
+    ACTIONS(347), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      aux_sym__seq_ws_token1,
-    ACTIONS(493), 7,
+      ts_builtin_sym_end,
       anon_sym_DQUOTE2,
-      anon_sym_RPAREN,
-      sym_bare_scalar,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
-      sym_line_comment,
+      anon_sym_COMMA,
+      aux_sym_doc_comment_token1,
       sym__newline,
-  [5286] = 2,
-    ACTIONS(499), 5,
+  [4118] = 3,
+    ACTIONS(3), 1,
+      sym_line_comment,
+    ACTIONS(353), 1,
+      sym_bare_scalar,
+    ACTIONS(351), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      aux_sym__seq_ws_token1,
-    ACTIONS(497), 7,
+      ts_builtin_sym_end,
       anon_sym_DQUOTE2,
-      anon_sym_RPAREN,
-      sym_bare_scalar,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
+      anon_sym_COMMA,
+      aux_sym_doc_comment_token1,
+      sym__newline,
+  [4138] = 5,
+    ACTIONS(108), 1,
       sym_line_comment,
+    ACTIONS(357), 1,
+      sym_bare_scalar,
+    ACTIONS(359), 1,
       sym__newline,
-  [5303] = 2,
-    ACTIONS(503), 5,
+    STATE(142), 2,
+      sym__seq_ws,
+      aux_sym_immediate_sequence_repeat1,
+    ACTIONS(355), 8,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      aux_sym__seq_ws_token1,
-    ACTIONS(501), 7,
-      anon_sym_DQUOTE2,
       anon_sym_RPAREN,
-      sym_bare_scalar,
+      anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
+  [4162] = 3,
+    ACTIONS(3), 1,
       sym_line_comment,
-      sym__newline,
-  [5320] = 2,
-    ACTIONS(507), 5,
+    ACTIONS(363), 1,
+      sym_bare_scalar,
+    ACTIONS(361), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      aux_sym__seq_ws_token1,
-    ACTIONS(505), 7,
+      ts_builtin_sym_end,
       anon_sym_DQUOTE2,
-      anon_sym_RPAREN,
-      sym_bare_scalar,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
-      sym_line_comment,
+      anon_sym_COMMA,
+      aux_sym_doc_comment_token1,
       sym__newline,
-  [5337] = 2,
-    ACTIONS(511), 5,
+  [4182] = 3,
+    ACTIONS(3), 1,
+      sym_line_comment,
+    ACTIONS(367), 1,
+      sym_bare_scalar,
+    ACTIONS(365), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      aux_sym__seq_ws_token1,
-    ACTIONS(509), 7,
+      ts_builtin_sym_end,
       anon_sym_DQUOTE2,
-      anon_sym_RPAREN,
-      sym_bare_scalar,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
-      sym_line_comment,
+      anon_sym_COMMA,
+      aux_sym_doc_comment_token1,
       sym__newline,
-  [5354] = 2,
-    ACTIONS(417), 5,
+  [4202] = 3,
+    ACTIONS(3), 1,
+      sym_line_comment,
+    ACTIONS(371), 1,
+      sym_bare_scalar,
+    ACTIONS(369), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      aux_sym__seq_ws_token1,
-    ACTIONS(419), 7,
+      ts_builtin_sym_end,
       anon_sym_DQUOTE2,
-      anon_sym_RPAREN,
-      sym_bare_scalar,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
-      sym_line_comment,
+      anon_sym_COMMA,
+      aux_sym_doc_comment_token1,
       sym__newline,
-  [5371] = 2,
-    ACTIONS(515), 5,
+  [4222] = 3,
+    ACTIONS(3), 1,
+      sym_line_comment,
+    ACTIONS(375), 1,
+      sym_bare_scalar,
+    ACTIONS(373), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      aux_sym__seq_ws_token1,
-    ACTIONS(513), 7,
+      ts_builtin_sym_end,
       anon_sym_DQUOTE2,
-      anon_sym_RPAREN,
-      sym_bare_scalar,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
-      sym_line_comment,
+      anon_sym_COMMA,
+      aux_sym_doc_comment_token1,
       sym__newline,
-  [5388] = 2,
-    ACTIONS(519), 5,
+  [4242] = 3,
+    ACTIONS(3), 1,
+      sym_line_comment,
+    ACTIONS(379), 1,
+      sym_bare_scalar,
+    ACTIONS(377), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      aux_sym__seq_ws_token1,
-    ACTIONS(517), 7,
+      ts_builtin_sym_end,
       anon_sym_DQUOTE2,
-      anon_sym_RPAREN,
-      sym_bare_scalar,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
-      sym_line_comment,
+      anon_sym_COMMA,
+      aux_sym_doc_comment_token1,
       sym__newline,
-  [5405] = 2,
-    ACTIONS(523), 5,
+  [4262] = 3,
+    ACTIONS(3), 1,
+      sym_line_comment,
+    ACTIONS(383), 1,
+      sym_bare_scalar,
+    ACTIONS(381), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      aux_sym__seq_ws_token1,
-    ACTIONS(521), 7,
+      ts_builtin_sym_end,
       anon_sym_DQUOTE2,
-      anon_sym_RPAREN,
-      sym_bare_scalar,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
-      sym_line_comment,
+      anon_sym_COMMA,
+      aux_sym_doc_comment_token1,
       sym__newline,
-  [5422] = 2,
-    ACTIONS(527), 5,
+  [4282] = 3,
+    ACTIONS(3), 1,
+      sym_line_comment,
+    ACTIONS(302), 1,
+      sym_bare_scalar,
+    ACTIONS(300), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      aux_sym__seq_ws_token1,
-    ACTIONS(525), 7,
+      ts_builtin_sym_end,
       anon_sym_DQUOTE2,
-      anon_sym_RPAREN,
-      sym_bare_scalar,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
-      sym_line_comment,
+      anon_sym_COMMA,
+      aux_sym_doc_comment_token1,
       sym__newline,
-  [5439] = 2,
-    ACTIONS(531), 5,
+  [4302] = 3,
+    ACTIONS(3), 1,
+      sym_line_comment,
+    ACTIONS(387), 1,
+      sym_bare_scalar,
+    ACTIONS(385), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      aux_sym__seq_ws_token1,
-    ACTIONS(529), 7,
+      ts_builtin_sym_end,
       anon_sym_DQUOTE2,
-      anon_sym_RPAREN,
-      sym_bare_scalar,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
-      sym_line_comment,
+      anon_sym_COMMA,
+      aux_sym_doc_comment_token1,
       sym__newline,
-  [5456] = 2,
-    ACTIONS(421), 5,
+  [4322] = 3,
+    ACTIONS(3), 1,
+      sym_line_comment,
+    ACTIONS(391), 1,
+      sym_bare_scalar,
+    ACTIONS(389), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      aux_sym__seq_ws_token1,
-    ACTIONS(423), 7,
+      ts_builtin_sym_end,
       anon_sym_DQUOTE2,
-      anon_sym_RPAREN,
-      sym_bare_scalar,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
-      sym_line_comment,
+      anon_sym_COMMA,
+      aux_sym_doc_comment_token1,
       sym__newline,
-  [5473] = 2,
-    ACTIONS(425), 5,
+  [4342] = 3,
+    ACTIONS(3), 1,
+      sym_line_comment,
+    ACTIONS(395), 1,
+      sym_bare_scalar,
+    ACTIONS(393), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      aux_sym__seq_ws_token1,
-    ACTIONS(427), 7,
+      ts_builtin_sym_end,
       anon_sym_DQUOTE2,
-      anon_sym_RPAREN,
-      sym_bare_scalar,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
-      sym_line_comment,
+      anon_sym_COMMA,
+      aux_sym_doc_comment_token1,
       sym__newline,
-  [5490] = 2,
-    ACTIONS(429), 5,
+  [4362] = 3,
+    ACTIONS(108), 1,
+      sym_line_comment,
+    ACTIONS(383), 1,
+      sym_bare_scalar,
+    ACTIONS(381), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      aux_sym__seq_ws_token1,
-    ACTIONS(431), 7,
-      anon_sym_DQUOTE2,
       anon_sym_RPAREN,
-      sym_bare_scalar,
+      anon_sym_RBRACE,
+      anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
-      sym_line_comment,
+      anon_sym_COMMA,
       sym__newline,
-  [5507] = 2,
-    ACTIONS(433), 5,
+  [4382] = 3,
+    ACTIONS(3), 1,
+      sym_line_comment,
+    ACTIONS(399), 1,
+      sym_bare_scalar,
+    ACTIONS(397), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      aux_sym__seq_ws_token1,
-    ACTIONS(435), 7,
+      ts_builtin_sym_end,
       anon_sym_DQUOTE2,
-      anon_sym_RPAREN,
-      sym_bare_scalar,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
-      sym_line_comment,
+      anon_sym_COMMA,
+      aux_sym_doc_comment_token1,
       sym__newline,
-  [5524] = 2,
-    ACTIONS(441), 5,
+  [4402] = 3,
+    ACTIONS(3), 1,
+      sym_line_comment,
+    ACTIONS(294), 1,
+      sym_bare_scalar,
+    ACTIONS(292), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      aux_sym__seq_ws_token1,
-    ACTIONS(443), 7,
+      ts_builtin_sym_end,
       anon_sym_DQUOTE2,
-      anon_sym_RPAREN,
-      sym_bare_scalar,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
-      sym_line_comment,
+      anon_sym_COMMA,
+      aux_sym_doc_comment_token1,
       sym__newline,
-  [5541] = 3,
-    ACTIONS(3), 1,
+  [4422] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(445), 1,
+    ACTIONS(363), 1,
       sym_bare_scalar,
-    ACTIONS(447), 10,
+    ACTIONS(361), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      anon_sym_DQUOTE2,
+      anon_sym_RPAREN,
       anon_sym_RBRACE,
+      anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
       anon_sym_COMMA,
       sym__newline,
-  [5560] = 3,
+  [4442] = 3,
     ACTIONS(3), 1,
       sym_line_comment,
-    ACTIONS(453), 1,
+    ACTIONS(403), 1,
       sym_bare_scalar,
-    ACTIONS(455), 10,
+    ACTIONS(401), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
+      ts_builtin_sym_end,
       anon_sym_DQUOTE2,
-      anon_sym_RBRACE,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
       anon_sym_COMMA,
+      aux_sym_doc_comment_token1,
       sym__newline,
-  [5579] = 3,
-    ACTIONS(3), 1,
+  [4462] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(394), 1,
+    ACTIONS(399), 1,
       sym_bare_scalar,
-    ACTIONS(392), 10,
+    ACTIONS(397), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      anon_sym_DQUOTE2,
+      anon_sym_RPAREN,
       anon_sym_RBRACE,
+      anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
       anon_sym_COMMA,
       sym__newline,
-  [5598] = 3,
-    ACTIONS(3), 1,
+  [4482] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(457), 1,
+    ACTIONS(294), 1,
       sym_bare_scalar,
-    ACTIONS(459), 10,
+    ACTIONS(292), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      anon_sym_DQUOTE2,
+      anon_sym_RPAREN,
       anon_sym_RBRACE,
+      anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
       anon_sym_COMMA,
       sym__newline,
-  [5617] = 3,
-    ACTIONS(3), 1,
+  [4502] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(465), 1,
+    ACTIONS(403), 1,
       sym_bare_scalar,
-    ACTIONS(467), 10,
+    ACTIONS(401), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      anon_sym_DQUOTE2,
+      anon_sym_RPAREN,
       anon_sym_RBRACE,
+      anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
       anon_sym_COMMA,
       sym__newline,
-  [5636] = 3,
+  [4522] = 3,
     ACTIONS(3), 1,
       sym_line_comment,
-    ACTIONS(469), 1,
+    ACTIONS(407), 1,
       sym_bare_scalar,
-    ACTIONS(471), 10,
+    ACTIONS(405), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
+      ts_builtin_sym_end,
       anon_sym_DQUOTE2,
-      anon_sym_RBRACE,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
       anon_sym_COMMA,
+      aux_sym_doc_comment_token1,
       sym__newline,
-  [5655] = 3,
-    ACTIONS(3), 1,
+  [4542] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(473), 1,
+    ACTIONS(329), 1,
       sym_bare_scalar,
-    ACTIONS(475), 10,
+    ACTIONS(327), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      anon_sym_DQUOTE2,
+      anon_sym_RPAREN,
       anon_sym_RBRACE,
+      anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
       anon_sym_COMMA,
       sym__newline,
-  [5674] = 3,
-    ACTIONS(3), 1,
+  [4562] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(477), 1,
+    ACTIONS(317), 1,
       sym_bare_scalar,
-    ACTIONS(479), 10,
+    ACTIONS(315), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      anon_sym_DQUOTE2,
+      anon_sym_RPAREN,
       anon_sym_RBRACE,
+      anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
       anon_sym_COMMA,
       sym__newline,
-  [5693] = 3,
-    ACTIONS(3), 1,
+  [4582] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(481), 1,
+    ACTIONS(337), 1,
       sym_bare_scalar,
-    ACTIONS(483), 10,
+    ACTIONS(335), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      anon_sym_DQUOTE2,
+      anon_sym_RPAREN,
       anon_sym_RBRACE,
+      anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
       anon_sym_COMMA,
       sym__newline,
-  [5712] = 3,
-    ACTIONS(3), 1,
+  [4602] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(451), 1,
+    ACTIONS(345), 1,
       sym_bare_scalar,
-    ACTIONS(449), 10,
+    ACTIONS(343), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      anon_sym_DQUOTE2,
+      anon_sym_RPAREN,
       anon_sym_RBRACE,
+      anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
       anon_sym_COMMA,
       sym__newline,
-  [5731] = 3,
-    ACTIONS(3), 1,
+  [4622] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(463), 1,
+    ACTIONS(387), 1,
       sym_bare_scalar,
-    ACTIONS(461), 10,
+    ACTIONS(385), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      anon_sym_DQUOTE2,
+      anon_sym_RPAREN,
       anon_sym_RBRACE,
+      anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
       anon_sym_COMMA,
       sym__newline,
-  [5750] = 3,
-    ACTIONS(3), 1,
+  [4642] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(485), 1,
+    ACTIONS(411), 1,
       sym_bare_scalar,
-    ACTIONS(487), 10,
+    ACTIONS(409), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      anon_sym_DQUOTE2,
+      anon_sym_RPAREN,
       anon_sym_RBRACE,
+      anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
       anon_sym_COMMA,
       sym__newline,
-  [5769] = 3,
-    ACTIONS(3), 1,
+  [4662] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(489), 1,
+    ACTIONS(415), 1,
       sym_bare_scalar,
-    ACTIONS(491), 10,
+    ACTIONS(413), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      anon_sym_DQUOTE2,
+      anon_sym_RPAREN,
       anon_sym_RBRACE,
+      anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
       anon_sym_COMMA,
       sym__newline,
-  [5788] = 3,
-    ACTIONS(3), 1,
+  [4682] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(493), 1,
+    ACTIONS(419), 1,
       sym_bare_scalar,
-    ACTIONS(495), 10,
+    ACTIONS(417), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      anon_sym_DQUOTE2,
+      anon_sym_RPAREN,
       anon_sym_RBRACE,
+      anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
       anon_sym_COMMA,
       sym__newline,
-  [5807] = 3,
-    ACTIONS(3), 1,
+  [4702] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(497), 1,
+    ACTIONS(423), 1,
       sym_bare_scalar,
-    ACTIONS(499), 10,
+    ACTIONS(421), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      anon_sym_DQUOTE2,
+      anon_sym_RPAREN,
       anon_sym_RBRACE,
+      anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
       anon_sym_COMMA,
       sym__newline,
-  [5826] = 3,
+  [4722] = 5,
     ACTIONS(3), 1,
       sym_line_comment,
-    ACTIONS(501), 1,
+    ACTIONS(427), 1,
       sym_bare_scalar,
-    ACTIONS(503), 10,
+    ACTIONS(429), 1,
+      sym__newline,
+    STATE(111), 1,
+      aux_sym_document_repeat1,
+    ACTIONS(425), 9,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      anon_sym_DQUOTE2,
       anon_sym_RBRACE,
+      anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
-      anon_sym_COMMA,
-      sym__newline,
-  [5845] = 3,
+      aux_sym_doc_comment_token1,
+  [4746] = 3,
     ACTIONS(3), 1,
       sym_line_comment,
-    ACTIONS(505), 1,
+    ACTIONS(411), 1,
       sym_bare_scalar,
-    ACTIONS(507), 10,
+    ACTIONS(409), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
+      ts_builtin_sym_end,
       anon_sym_DQUOTE2,
-      anon_sym_RBRACE,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
       anon_sym_COMMA,
+      aux_sym_doc_comment_token1,
       sym__newline,
-  [5864] = 3,
-    ACTIONS(3), 1,
+  [4766] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(509), 1,
+    ACTIONS(434), 1,
       sym_bare_scalar,
-    ACTIONS(511), 10,
+    ACTIONS(432), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      anon_sym_DQUOTE2,
+      anon_sym_RPAREN,
       anon_sym_RBRACE,
+      anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
       anon_sym_COMMA,
       sym__newline,
-  [5883] = 3,
-    ACTIONS(3), 1,
+  [4786] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(465), 2,
+    ACTIONS(438), 1,
       sym_bare_scalar,
-      anon_sym_SLASH_SLASH_SLASH,
-    ACTIONS(467), 9,
+    ACTIONS(436), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      ts_builtin_sym_end,
+      anon_sym_RPAREN,
+      anon_sym_RBRACE,
       anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
+      anon_sym_COMMA,
       sym__newline,
-  [5902] = 3,
-    ACTIONS(3), 1,
+  [4806] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(513), 1,
+    ACTIONS(442), 1,
       sym_bare_scalar,
-    ACTIONS(515), 10,
+    ACTIONS(440), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      anon_sym_DQUOTE2,
+      anon_sym_RPAREN,
       anon_sym_RBRACE,
+      anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
       anon_sym_COMMA,
       sym__newline,
-  [5921] = 3,
-    ACTIONS(3), 1,
+  [4826] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(517), 1,
+    ACTIONS(446), 1,
       sym_bare_scalar,
-    ACTIONS(519), 10,
+    ACTIONS(444), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      anon_sym_DQUOTE2,
+      anon_sym_RPAREN,
       anon_sym_RBRACE,
+      anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
       anon_sym_COMMA,
       sym__newline,
-  [5940] = 3,
-    ACTIONS(3), 1,
+  [4846] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(521), 1,
+    ACTIONS(450), 1,
       sym_bare_scalar,
-    ACTIONS(523), 10,
+    ACTIONS(448), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      anon_sym_DQUOTE2,
+      anon_sym_RPAREN,
       anon_sym_RBRACE,
+      anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
       anon_sym_COMMA,
       sym__newline,
-  [5959] = 3,
-    ACTIONS(3), 1,
+  [4866] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(525), 1,
+    ACTIONS(454), 1,
       sym_bare_scalar,
-    ACTIONS(527), 10,
+    ACTIONS(452), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      anon_sym_DQUOTE2,
+      anon_sym_RPAREN,
       anon_sym_RBRACE,
+      anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
       anon_sym_COMMA,
       sym__newline,
-  [5978] = 3,
-    ACTIONS(3), 1,
+  [4886] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(529), 1,
+    ACTIONS(313), 1,
       sym_bare_scalar,
-    ACTIONS(531), 10,
+    ACTIONS(311), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      anon_sym_DQUOTE2,
+      anon_sym_RPAREN,
       anon_sym_RBRACE,
+      anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
       anon_sym_COMMA,
       sym__newline,
-  [5997] = 3,
-    ACTIONS(3), 1,
+  [4906] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(423), 1,
+    ACTIONS(321), 1,
       sym_bare_scalar,
-    ACTIONS(421), 10,
+    ACTIONS(319), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      anon_sym_DQUOTE2,
+      anon_sym_RPAREN,
       anon_sym_RBRACE,
+      anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
       anon_sym_COMMA,
       sym__newline,
-  [6016] = 3,
-    ACTIONS(3), 1,
+  [4926] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(427), 1,
+    ACTIONS(325), 1,
       sym_bare_scalar,
-    ACTIONS(425), 10,
+    ACTIONS(323), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      anon_sym_DQUOTE2,
+      anon_sym_RPAREN,
       anon_sym_RBRACE,
+      anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
       anon_sym_COMMA,
       sym__newline,
-  [6035] = 3,
-    ACTIONS(3), 1,
+  [4946] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(431), 1,
+    ACTIONS(458), 1,
       sym_bare_scalar,
-    ACTIONS(429), 10,
+    ACTIONS(456), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      anon_sym_DQUOTE2,
+      anon_sym_RPAREN,
       anon_sym_RBRACE,
+      anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
       anon_sym_COMMA,
       sym__newline,
-  [6054] = 3,
-    ACTIONS(3), 1,
+  [4966] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(435), 1,
+    ACTIONS(333), 1,
       sym_bare_scalar,
-    ACTIONS(433), 10,
+    ACTIONS(331), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      anon_sym_DQUOTE2,
+      anon_sym_RPAREN,
       anon_sym_RBRACE,
+      anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
       anon_sym_COMMA,
       sym__newline,
-  [6073] = 3,
-    ACTIONS(3), 1,
+  [4986] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(443), 1,
+    ACTIONS(341), 1,
       sym_bare_scalar,
-    ACTIONS(441), 10,
+    ACTIONS(339), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      anon_sym_DQUOTE2,
+      anon_sym_RPAREN,
       anon_sym_RBRACE,
+      anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
       anon_sym_COMMA,
       sym__newline,
-  [6092] = 3,
-    ACTIONS(3), 1,
+  [5006] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(489), 2,
+    ACTIONS(349), 1,
       sym_bare_scalar,
-      anon_sym_SLASH_SLASH_SLASH,
-    ACTIONS(491), 9,
+    ACTIONS(347), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      ts_builtin_sym_end,
+      anon_sym_RPAREN,
+      anon_sym_RBRACE,
       anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
+      anon_sym_COMMA,
       sym__newline,
-  [6111] = 3,
-    ACTIONS(3), 1,
+  [5026] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(493), 2,
+    ACTIONS(353), 1,
       sym_bare_scalar,
-      anon_sym_SLASH_SLASH_SLASH,
-    ACTIONS(495), 9,
+    ACTIONS(351), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      ts_builtin_sym_end,
+      anon_sym_RPAREN,
+      anon_sym_RBRACE,
       anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
+      anon_sym_COMMA,
       sym__newline,
-  [6130] = 3,
-    ACTIONS(3), 1,
+  [5046] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(497), 2,
+    ACTIONS(367), 1,
       sym_bare_scalar,
-      anon_sym_SLASH_SLASH_SLASH,
-    ACTIONS(499), 9,
+    ACTIONS(365), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      ts_builtin_sym_end,
+      anon_sym_RPAREN,
+      anon_sym_RBRACE,
       anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
+      anon_sym_COMMA,
       sym__newline,
-  [6149] = 3,
-    ACTIONS(3), 1,
+  [5066] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(501), 2,
+    ACTIONS(371), 1,
       sym_bare_scalar,
-      anon_sym_SLASH_SLASH_SLASH,
-    ACTIONS(503), 9,
+    ACTIONS(369), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      ts_builtin_sym_end,
+      anon_sym_RPAREN,
+      anon_sym_RBRACE,
       anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
+      anon_sym_COMMA,
       sym__newline,
-  [6168] = 3,
-    ACTIONS(3), 1,
+  [5086] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(505), 2,
+    ACTIONS(375), 1,
       sym_bare_scalar,
-      anon_sym_SLASH_SLASH_SLASH,
-    ACTIONS(507), 9,
+    ACTIONS(373), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      ts_builtin_sym_end,
+      anon_sym_RPAREN,
+      anon_sym_RBRACE,
       anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
+      anon_sym_COMMA,
       sym__newline,
-  [6187] = 3,
-    ACTIONS(3), 1,
+  [5106] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(469), 2,
+    ACTIONS(379), 1,
       sym_bare_scalar,
-      anon_sym_SLASH_SLASH_SLASH,
-    ACTIONS(471), 9,
+    ACTIONS(377), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      ts_builtin_sym_end,
+      anon_sym_RPAREN,
+      anon_sym_RBRACE,
       anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
+      anon_sym_COMMA,
       sym__newline,
-  [6206] = 3,
-    ACTIONS(3), 1,
+  [5126] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(473), 2,
+    ACTIONS(391), 1,
       sym_bare_scalar,
-      anon_sym_SLASH_SLASH_SLASH,
-    ACTIONS(475), 9,
+    ACTIONS(389), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      ts_builtin_sym_end,
+      anon_sym_RPAREN,
+      anon_sym_RBRACE,
       anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
+      anon_sym_COMMA,
       sym__newline,
-  [6225] = 3,
-    ACTIONS(3), 1,
+  [5146] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(477), 2,
+    ACTIONS(395), 1,
       sym_bare_scalar,
-      anon_sym_SLASH_SLASH_SLASH,
-    ACTIONS(479), 9,
+    ACTIONS(393), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      ts_builtin_sym_end,
+      anon_sym_RPAREN,
+      anon_sym_RBRACE,
       anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
+      anon_sym_COMMA,
       sym__newline,
-  [6244] = 3,
+  [5166] = 3,
     ACTIONS(3), 1,
       sym_line_comment,
-    ACTIONS(509), 2,
+    ACTIONS(415), 1,
       sym_bare_scalar,
-      anon_sym_SLASH_SLASH_SLASH,
-    ACTIONS(511), 9,
+    ACTIONS(413), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
@@ -6433,14 +5541,15 @@ static const uint16_t ts_small_parse_table[] = {
       anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
+      anon_sym_COMMA,
+      aux_sym_doc_comment_token1,
       sym__newline,
-  [6263] = 3,
+  [5186] = 3,
     ACTIONS(3), 1,
       sym_line_comment,
-    ACTIONS(419), 2,
+    ACTIONS(419), 1,
       sym_bare_scalar,
-      anon_sym_SLASH_SLASH_SLASH,
-    ACTIONS(417), 9,
+    ACTIONS(417), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
@@ -6449,14 +5558,15 @@ static const uint16_t ts_small_parse_table[] = {
       anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
+      anon_sym_COMMA,
+      aux_sym_doc_comment_token1,
       sym__newline,
-  [6282] = 3,
+  [5206] = 3,
     ACTIONS(3), 1,
       sym_line_comment,
-    ACTIONS(513), 2,
+    ACTIONS(423), 1,
       sym_bare_scalar,
-      anon_sym_SLASH_SLASH_SLASH,
-    ACTIONS(515), 9,
+    ACTIONS(421), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
@@ -6465,14 +5575,19 @@ static const uint16_t ts_small_parse_table[] = {
       anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
+      anon_sym_COMMA,
+      aux_sym_doc_comment_token1,
       sym__newline,
-  [6301] = 3,
+  [5226] = 5,
     ACTIONS(3), 1,
       sym_line_comment,
-    ACTIONS(517), 2,
+    ACTIONS(427), 1,
       sym_bare_scalar,
-      anon_sym_SLASH_SLASH_SLASH,
-    ACTIONS(519), 9,
+    ACTIONS(460), 1,
+      sym__newline,
+    STATE(136), 1,
+      aux_sym_document_repeat1,
+    ACTIONS(425), 9,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
@@ -6481,14 +5596,13 @@ static const uint16_t ts_small_parse_table[] = {
       anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
-      sym__newline,
-  [6320] = 3,
+      aux_sym_doc_comment_token1,
+  [5250] = 3,
     ACTIONS(3), 1,
       sym_line_comment,
-    ACTIONS(445), 2,
+    ACTIONS(434), 1,
       sym_bare_scalar,
-      anon_sym_SLASH_SLASH_SLASH,
-    ACTIONS(447), 9,
+    ACTIONS(432), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
@@ -6497,14 +5611,15 @@ static const uint16_t ts_small_parse_table[] = {
       anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
+      anon_sym_COMMA,
+      aux_sym_doc_comment_token1,
       sym__newline,
-  [6339] = 3,
+  [5270] = 3,
     ACTIONS(3), 1,
       sym_line_comment,
-    ACTIONS(453), 2,
+    ACTIONS(438), 1,
       sym_bare_scalar,
-      anon_sym_SLASH_SLASH_SLASH,
-    ACTIONS(455), 9,
+    ACTIONS(436), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
@@ -6513,14 +5628,15 @@ static const uint16_t ts_small_parse_table[] = {
       anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
+      anon_sym_COMMA,
+      aux_sym_doc_comment_token1,
       sym__newline,
-  [6358] = 3,
+  [5290] = 3,
     ACTIONS(3), 1,
       sym_line_comment,
-    ACTIONS(521), 2,
+    ACTIONS(442), 1,
       sym_bare_scalar,
-      anon_sym_SLASH_SLASH_SLASH,
-    ACTIONS(523), 9,
+    ACTIONS(440), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
@@ -6529,14 +5645,15 @@ static const uint16_t ts_small_parse_table[] = {
       anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
+      anon_sym_COMMA,
+      aux_sym_doc_comment_token1,
       sym__newline,
-  [6377] = 3,
+  [5310] = 3,
     ACTIONS(3), 1,
       sym_line_comment,
-    ACTIONS(481), 2,
+    ACTIONS(446), 1,
       sym_bare_scalar,
-      anon_sym_SLASH_SLASH_SLASH,
-    ACTIONS(483), 9,
+    ACTIONS(444), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
@@ -6545,14 +5662,15 @@ static const uint16_t ts_small_parse_table[] = {
       anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
+      anon_sym_COMMA,
+      aux_sym_doc_comment_token1,
       sym__newline,
-  [6396] = 3,
+  [5330] = 3,
     ACTIONS(3), 1,
       sym_line_comment,
-    ACTIONS(525), 2,
+    ACTIONS(450), 1,
       sym_bare_scalar,
-      anon_sym_SLASH_SLASH_SLASH,
-    ACTIONS(527), 9,
+    ACTIONS(448), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
@@ -6561,30 +5679,34 @@ static const uint16_t ts_small_parse_table[] = {
       anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
+      anon_sym_COMMA,
+      aux_sym_doc_comment_token1,
       sym__newline,
-  [6415] = 3,
-    ACTIONS(3), 1,
+  [5350] = 5,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(529), 2,
+    ACTIONS(134), 1,
+      sym__newline,
+    ACTIONS(463), 1,
       sym_bare_scalar,
-      anon_sym_SLASH_SLASH_SLASH,
-    ACTIONS(531), 9,
+    STATE(70), 2,
+      sym__seq_ws,
+      aux_sym_immediate_sequence_repeat1,
+    ACTIONS(202), 8,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
       sym__tag_start,
-      ts_builtin_sym_end,
+      anon_sym_RPAREN,
       anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
-      sym__newline,
-  [6434] = 3,
+  [5374] = 3,
     ACTIONS(3), 1,
       sym_line_comment,
-    ACTIONS(394), 2,
+    ACTIONS(454), 1,
       sym_bare_scalar,
-      anon_sym_SLASH_SLASH_SLASH,
-    ACTIONS(392), 9,
+    ACTIONS(452), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
@@ -6593,14 +5715,15 @@ static const uint16_t ts_small_parse_table[] = {
       anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
+      anon_sym_COMMA,
+      aux_sym_doc_comment_token1,
       sym__newline,
-  [6453] = 3,
+  [5394] = 3,
     ACTIONS(3), 1,
       sym_line_comment,
-    ACTIONS(457), 2,
+    ACTIONS(458), 1,
       sym_bare_scalar,
-      anon_sym_SLASH_SLASH_SLASH,
-    ACTIONS(459), 9,
+    ACTIONS(456), 11,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
@@ -6609,17 +5732,34 @@ static const uint16_t ts_small_parse_table[] = {
       anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
+      anon_sym_COMMA,
+      aux_sym_doc_comment_token1,
+      sym__newline,
+  [5414] = 3,
+    ACTIONS(108), 1,
+      sym_line_comment,
+    ACTIONS(244), 1,
+      sym_bare_scalar,
+    ACTIONS(242), 9,
+      sym__immediate_raw_string_start,
+      sym__immediate_unit_at,
+      sym__immediate_heredoc_start,
+      anon_sym_DQUOTE,
+      anon_sym_LPAREN,
+      anon_sym_LBRACE,
+      anon_sym_RBRACE,
+      anon_sym_COMMA,
       sym__newline,
-  [6472] = 5,
+  [5432] = 5,
     ACTIONS(3), 1,
       sym_line_comment,
     ACTIONS(15), 1,
-      anon_sym_SLASH_SLASH_SLASH,
-    ACTIONS(535), 1,
+      aux_sym_doc_comment_token1,
+    ACTIONS(465), 1,
       sym_bare_scalar,
-    STATE(180), 1,
+    STATE(147), 1,
       aux_sym_doc_comment_repeat1,
-    ACTIONS(533), 7,
+    ACTIONS(467), 7,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
@@ -6627,16 +5767,16 @@ static const uint16_t ts_small_parse_table[] = {
       anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
-  [6494] = 5,
+  [5454] = 5,
     ACTIONS(3), 1,
       sym_line_comment,
-    ACTIONS(539), 1,
+    ACTIONS(469), 1,
       sym_bare_scalar,
-    ACTIONS(541), 1,
-      anon_sym_SLASH_SLASH_SLASH,
-    STATE(180), 1,
+    ACTIONS(473), 1,
+      aux_sym_doc_comment_token1,
+    STATE(147), 1,
       aux_sym_doc_comment_repeat1,
-    ACTIONS(537), 7,
+    ACTIONS(471), 7,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
@@ -6644,13 +5784,12 @@ static const uint16_t ts_small_parse_table[] = {
       anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
-  [6516] = 3,
+  [5476] = 3,
     ACTIONS(3), 1,
       sym_line_comment,
-    ACTIONS(546), 2,
+    ACTIONS(469), 1,
       sym_bare_scalar,
-      anon_sym_SLASH_SLASH_SLASH,
-    ACTIONS(544), 7,
+    ACTIONS(471), 8,
       sym__heredoc_start,
       sym__raw_string_start,
       sym__unit_at,
@@ -6658,1270 +5797,1130 @@ static const uint16_t ts_small_parse_table[] = {
       anon_sym_DQUOTE2,
       anon_sym_LPAREN2,
       anon_sym_LBRACE2,
-  [6533] = 6,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(232), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(236), 1,
-      anon_sym_LPAREN2,
-    ACTIONS(238), 1,
-      anon_sym_LBRACE2,
-    ACTIONS(548), 1,
-      sym_bare_scalar,
-    STATE(116), 4,
-      sym_quoted_scalar,
-      sym_sequence,
-      sym_object,
-      sym__attribute_value,
-  [6555] = 6,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(7), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(11), 1,
-      anon_sym_LPAREN2,
-    ACTIONS(13), 1,
-      anon_sym_LBRACE2,
-    ACTIONS(550), 1,
-      sym_bare_scalar,
-    STATE(162), 4,
-      sym_quoted_scalar,
-      sym_sequence,
-      sym_object,
-      sym__attribute_value,
-  [6577] = 2,
-    ACTIONS(334), 1,
-      sym_line_comment,
-    ACTIONS(324), 8,
-      sym__immediate_raw_string_start,
-      sym__immediate_unit_at,
-      anon_sym_DQUOTE,
-      anon_sym_LPAREN,
-      anon_sym_LBRACE,
+      aux_sym_doc_comment_token1,
+  [5493] = 5,
+    ACTIONS(27), 1,
       anon_sym_RBRACE,
+    ACTIONS(108), 1,
+      sym_line_comment,
+    STATE(152), 1,
+      aux_sym__object_body_repeat1,
+    ACTIONS(476), 2,
       anon_sym_COMMA,
       sym__newline,
-  [6591] = 6,
-    ACTIONS(3), 1,
-      sym_line_comment,
+    STATE(3), 2,
+      sym__separator,
+      aux_sym_document_repeat2,
+  [5511] = 5,
     ACTIONS(27), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(33), 1,
-      anon_sym_LPAREN2,
-    ACTIONS(35), 1,
-      anon_sym_LBRACE2,
-    ACTIONS(552), 1,
-      sym_bare_scalar,
-    STATE(145), 4,
-      sym_quoted_scalar,
-      sym_sequence,
-      sym_object,
-      sym__attribute_value,
-  [6613] = 6,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(554), 1,
-      anon_sym_DQUOTE2,
-    ACTIONS(556), 1,
-      sym_bare_scalar,
-    ACTIONS(558), 1,
-      anon_sym_LPAREN2,
-    ACTIONS(560), 1,
-      anon_sym_LBRACE2,
-    STATE(201), 4,
-      sym_quoted_scalar,
-      sym_sequence,
-      sym_object,
-      sym__attribute_value,
-  [6635] = 4,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(562), 1,
-      sym_bare_scalar,
-    STATE(188), 2,
-      sym_attribute,
-      aux_sym_attributes_repeat1,
-    ACTIONS(353), 3,
       anon_sym_RBRACE,
+    ACTIONS(108), 1,
+      sym_line_comment,
+    STATE(153), 1,
+      aux_sym__object_body_repeat1,
+    ACTIONS(476), 2,
       anon_sym_COMMA,
       sym__newline,
-  [6651] = 4,
-    ACTIONS(3), 1,
+    STATE(3), 2,
+      sym__separator,
+      aux_sym_document_repeat2,
+  [5529] = 4,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(564), 1,
+    ACTIONS(478), 1,
       sym_bare_scalar,
-    STATE(188), 2,
+    STATE(151), 2,
       sym_attribute,
       aux_sym_attributes_repeat1,
-    ACTIONS(348), 3,
+    ACTIONS(284), 3,
       anon_sym_RBRACE,
       anon_sym_COMMA,
       sym__newline,
-  [6667] = 6,
-    ACTIONS(334), 1,
+  [5545] = 5,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(567), 1,
+    ACTIONS(481), 1,
       anon_sym_RBRACE,
-    ACTIONS(570), 1,
+    STATE(152), 1,
+      aux_sym__object_body_repeat1,
+    ACTIONS(483), 2,
       anon_sym_COMMA,
-    ACTIONS(572), 1,
       sym__newline,
-    STATE(238), 1,
-      aux_sym__newline_separated_repeat1,
-    STATE(239), 1,
-      aux_sym__comma_separated_repeat1,
-  [6686] = 4,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(576), 1,
-      anon_sym_DQUOTE2,
-    STATE(211), 1,
-      aux_sym_immediate_quoted_scalar_inner_repeat1,
-    ACTIONS(574), 2,
-      aux_sym_immediate_quoted_scalar_inner_token1,
-      sym_escape_sequence,
-  [6700] = 4,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(580), 1,
-      anon_sym_DQUOTE2,
-    STATE(199), 1,
-      aux_sym_immediate_quoted_scalar_inner_repeat1,
-    ACTIONS(578), 2,
-      aux_sym_immediate_quoted_scalar_inner_token1,
-      sym_escape_sequence,
-  [6714] = 4,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(582), 1,
-      anon_sym_DQUOTE2,
-    STATE(199), 1,
-      aux_sym_immediate_quoted_scalar_inner_repeat1,
-    ACTIONS(578), 2,
-      aux_sym_immediate_quoted_scalar_inner_token1,
-      sym_escape_sequence,
-  [6728] = 4,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(586), 1,
-      anon_sym_DQUOTE2,
-    STATE(191), 1,
-      aux_sym_immediate_quoted_scalar_inner_repeat1,
-    ACTIONS(584), 2,
-      aux_sym_immediate_quoted_scalar_inner_token1,
-      sym_escape_sequence,
-  [6742] = 4,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(588), 1,
-      anon_sym_DQUOTE2,
-    STATE(199), 1,
-      aux_sym_immediate_quoted_scalar_inner_repeat1,
-    ACTIONS(578), 2,
-      aux_sym_immediate_quoted_scalar_inner_token1,
-      sym_escape_sequence,
-  [6756] = 4,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(592), 1,
-      anon_sym_DQUOTE2,
-    STATE(194), 1,
-      aux_sym_immediate_quoted_scalar_inner_repeat1,
-    ACTIONS(590), 2,
-      aux_sym_immediate_quoted_scalar_inner_token1,
-      sym_escape_sequence,
-  [6770] = 4,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(596), 1,
-      anon_sym_DQUOTE2,
-    STATE(197), 1,
-      aux_sym_immediate_quoted_scalar_inner_repeat1,
-    ACTIONS(594), 2,
-      aux_sym_immediate_quoted_scalar_inner_token1,
-      sym_escape_sequence,
-  [6784] = 4,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(598), 1,
-      anon_sym_DQUOTE2,
-    STATE(199), 1,
-      aux_sym_immediate_quoted_scalar_inner_repeat1,
-    ACTIONS(578), 2,
-      aux_sym_immediate_quoted_scalar_inner_token1,
-      sym_escape_sequence,
-  [6798] = 3,
-    ACTIONS(334), 1,
-      sym_line_comment,
-    ACTIONS(600), 1,
-      anon_sym_GT,
-    ACTIONS(392), 3,
+    STATE(10), 2,
+      sym__separator,
+      aux_sym_document_repeat2,
+  [5563] = 5,
+    ACTIONS(47), 1,
       anon_sym_RBRACE,
+    ACTIONS(108), 1,
+      sym_line_comment,
+    STATE(152), 1,
+      aux_sym__object_body_repeat1,
+    ACTIONS(486), 2,
       anon_sym_COMMA,
       sym__newline,
-  [6810] = 4,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(605), 1,
-      anon_sym_DQUOTE2,
-    STATE(199), 1,
-      aux_sym_immediate_quoted_scalar_inner_repeat1,
-    ACTIONS(602), 2,
-      aux_sym_immediate_quoted_scalar_inner_token1,
-      sym_escape_sequence,
-  [6824] = 4,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(609), 1,
-      anon_sym_DQUOTE2,
-    STATE(203), 1,
-      aux_sym_immediate_quoted_scalar_inner_repeat1,
-    ACTIONS(607), 2,
-      aux_sym_immediate_quoted_scalar_inner_token1,
-      sym_escape_sequence,
-  [6838] = 3,
-    ACTIONS(3), 1,
+    STATE(5), 2,
+      sym__separator,
+      aux_sym_document_repeat2,
+  [5581] = 4,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(501), 1,
+    ACTIONS(488), 1,
       sym_bare_scalar,
-    ACTIONS(503), 3,
+    STATE(151), 2,
+      sym_attribute,
+      aux_sym_attributes_repeat1,
+    ACTIONS(252), 3,
       anon_sym_RBRACE,
       anon_sym_COMMA,
       sym__newline,
-  [6850] = 3,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(473), 1,
-      sym_bare_scalar,
-    ACTIONS(475), 3,
+  [5597] = 5,
+    ACTIONS(47), 1,
       anon_sym_RBRACE,
+    ACTIONS(108), 1,
+      sym_line_comment,
+    STATE(157), 1,
+      aux_sym__object_body_repeat1,
+    ACTIONS(486), 2,
       anon_sym_COMMA,
       sym__newline,
-  [6862] = 4,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(611), 1,
-      anon_sym_DQUOTE2,
-    STATE(199), 1,
-      aux_sym_immediate_quoted_scalar_inner_repeat1,
-    ACTIONS(578), 2,
-      aux_sym_immediate_quoted_scalar_inner_token1,
-      sym_escape_sequence,
-  [6876] = 4,
-    ACTIONS(3), 1,
+    STATE(5), 2,
+      sym__separator,
+      aux_sym_document_repeat2,
+  [5615] = 5,
+    ACTIONS(71), 1,
+      anon_sym_RBRACE,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(615), 1,
-      anon_sym_DQUOTE2,
-    STATE(192), 1,
-      aux_sym_immediate_quoted_scalar_inner_repeat1,
-    ACTIONS(613), 2,
-      aux_sym_immediate_quoted_scalar_inner_token1,
-      sym_escape_sequence,
-  [6890] = 4,
-    ACTIONS(3), 1,
+    STATE(149), 1,
+      aux_sym__object_body_repeat1,
+    ACTIONS(490), 2,
+      anon_sym_COMMA,
+      sym__newline,
+    STATE(2), 2,
+      sym__separator,
+      aux_sym_document_repeat2,
+  [5633] = 5,
+    ACTIONS(51), 1,
+      anon_sym_RBRACE,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(617), 1,
-      anon_sym_DQUOTE2,
-    STATE(199), 1,
-      aux_sym_immediate_quoted_scalar_inner_repeat1,
-    ACTIONS(578), 2,
-      aux_sym_immediate_quoted_scalar_inner_token1,
-      sym_escape_sequence,
-  [6904] = 3,
-    ACTIONS(3), 1,
+    STATE(152), 1,
+      aux_sym__object_body_repeat1,
+    ACTIONS(492), 2,
+      anon_sym_COMMA,
+      sym__newline,
+    STATE(4), 2,
+      sym__separator,
+      aux_sym_document_repeat2,
+  [5651] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(477), 1,
+    ACTIONS(371), 1,
       sym_bare_scalar,
-    ACTIONS(479), 3,
+    ACTIONS(369), 3,
       anon_sym_RBRACE,
       anon_sym_COMMA,
       sym__newline,
-  [6916] = 4,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(619), 1,
-      anon_sym_DQUOTE2,
-    STATE(199), 1,
-      aux_sym_immediate_quoted_scalar_inner_repeat1,
-    ACTIONS(578), 2,
-      aux_sym_immediate_quoted_scalar_inner_token1,
-      sym_escape_sequence,
-  [6930] = 3,
-    ACTIONS(3), 1,
+  [5663] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(481), 1,
+    ACTIONS(438), 1,
       sym_bare_scalar,
-    ACTIONS(483), 3,
+    ACTIONS(436), 3,
       anon_sym_RBRACE,
       anon_sym_COMMA,
       sym__newline,
-  [6942] = 3,
-    ACTIONS(3), 1,
+  [5675] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(497), 1,
+    ACTIONS(442), 1,
       sym_bare_scalar,
-    ACTIONS(499), 3,
+    ACTIONS(440), 3,
       anon_sym_RBRACE,
       anon_sym_COMMA,
       sym__newline,
-  [6954] = 3,
-    ACTIONS(3), 1,
+  [5687] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(505), 1,
+    ACTIONS(446), 1,
       sym_bare_scalar,
-    ACTIONS(507), 3,
+    ACTIONS(444), 3,
       anon_sym_RBRACE,
       anon_sym_COMMA,
       sym__newline,
-  [6966] = 4,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(621), 1,
-      anon_sym_DQUOTE2,
-    STATE(199), 1,
-      aux_sym_immediate_quoted_scalar_inner_repeat1,
-    ACTIONS(578), 2,
-      aux_sym_immediate_quoted_scalar_inner_token1,
-      sym_escape_sequence,
-  [6980] = 3,
-    ACTIONS(3), 1,
+  [5699] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(509), 1,
+    ACTIONS(450), 1,
       sym_bare_scalar,
-    ACTIONS(511), 3,
+    ACTIONS(448), 3,
       anon_sym_RBRACE,
       anon_sym_COMMA,
       sym__newline,
-  [6992] = 3,
-    ACTIONS(3), 1,
+  [5711] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(529), 1,
+    ACTIONS(454), 1,
       sym_bare_scalar,
-    ACTIONS(531), 3,
+    ACTIONS(452), 3,
       anon_sym_RBRACE,
       anon_sym_COMMA,
       sym__newline,
-  [7004] = 4,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(625), 1,
-      anon_sym_DQUOTE2,
-    STATE(217), 1,
-      aux_sym_immediate_quoted_scalar_inner_repeat1,
-    ACTIONS(623), 2,
-      aux_sym_immediate_quoted_scalar_inner_token1,
-      sym_escape_sequence,
-  [7018] = 4,
-    ACTIONS(3), 1,
+  [5723] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(629), 1,
-      anon_sym_DQUOTE2,
-    STATE(207), 1,
-      aux_sym_immediate_quoted_scalar_inner_repeat1,
-    ACTIONS(627), 2,
-      aux_sym_immediate_quoted_scalar_inner_token1,
-      sym_escape_sequence,
-  [7032] = 4,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(633), 1,
-      anon_sym_DQUOTE2,
-    STATE(205), 1,
-      aux_sym_immediate_quoted_scalar_inner_repeat1,
-    ACTIONS(631), 2,
-      aux_sym_immediate_quoted_scalar_inner_token1,
-      sym_escape_sequence,
-  [7046] = 4,
-    ACTIONS(3), 1,
-      sym_line_comment,
-    ACTIONS(635), 1,
-      anon_sym_DQUOTE2,
-    STATE(199), 1,
-      aux_sym_immediate_quoted_scalar_inner_repeat1,
-    ACTIONS(578), 2,
-      aux_sym_immediate_quoted_scalar_inner_token1,
-      sym_escape_sequence,
-  [7060] = 2,
-    ACTIONS(334), 1,
-      sym_line_comment,
-    ACTIONS(421), 3,
+    ACTIONS(313), 1,
+      sym_bare_scalar,
+    ACTIONS(311), 3,
       anon_sym_RBRACE,
       anon_sym_COMMA,
       sym__newline,
-  [7069] = 4,
-    ACTIONS(190), 1,
-      anon_sym_RBRACE,
-    ACTIONS(334), 1,
-      sym_line_comment,
-    ACTIONS(637), 1,
-      sym__newline,
-    STATE(242), 1,
-      aux_sym__newline_separated_repeat1,
-  [7082] = 4,
-    ACTIONS(334), 1,
+  [5735] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(639), 1,
+    ACTIONS(321), 1,
+      sym_bare_scalar,
+    ACTIONS(319), 3,
       anon_sym_RBRACE,
-    ACTIONS(641), 1,
       anon_sym_COMMA,
-    STATE(220), 1,
-      aux_sym__comma_separated_repeat1,
-  [7095] = 2,
-    ACTIONS(334), 1,
+      sym__newline,
+  [5747] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(447), 3,
+    ACTIONS(325), 1,
+      sym_bare_scalar,
+    ACTIONS(323), 3,
       anon_sym_RBRACE,
       anon_sym_COMMA,
       sym__newline,
-  [7104] = 4,
-    ACTIONS(334), 1,
+  [5759] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(644), 1,
+    ACTIONS(458), 1,
+      sym_bare_scalar,
+    ACTIONS(456), 3,
       anon_sym_RBRACE,
-    ACTIONS(646), 1,
+      anon_sym_COMMA,
       sym__newline,
-    STATE(222), 1,
-      aux_sym__newline_separated_repeat1,
-  [7117] = 2,
-    ACTIONS(334), 1,
+  [5771] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(455), 3,
+    ACTIONS(333), 1,
+      sym_bare_scalar,
+    ACTIONS(331), 3,
       anon_sym_RBRACE,
       anon_sym_COMMA,
       sym__newline,
-  [7126] = 2,
-    ACTIONS(334), 1,
+  [5783] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(392), 3,
+    ACTIONS(341), 1,
+      sym_bare_scalar,
+    ACTIONS(339), 3,
       anon_sym_RBRACE,
       anon_sym_COMMA,
       sym__newline,
-  [7135] = 2,
-    ACTIONS(334), 1,
+  [5795] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(459), 3,
+    ACTIONS(349), 1,
+      sym_bare_scalar,
+    ACTIONS(347), 3,
       anon_sym_RBRACE,
       anon_sym_COMMA,
       sym__newline,
-  [7144] = 2,
-    ACTIONS(334), 1,
+  [5807] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(467), 3,
+    ACTIONS(353), 1,
+      sym_bare_scalar,
+    ACTIONS(351), 3,
       anon_sym_RBRACE,
       anon_sym_COMMA,
       sym__newline,
-  [7153] = 2,
-    ACTIONS(334), 1,
+  [5819] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(471), 3,
+    ACTIONS(367), 1,
+      sym_bare_scalar,
+    ACTIONS(365), 3,
       anon_sym_RBRACE,
       anon_sym_COMMA,
       sym__newline,
-  [7162] = 2,
-    ACTIONS(334), 1,
+  [5831] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(475), 3,
+    ACTIONS(317), 1,
+      sym_bare_scalar,
+    ACTIONS(315), 3,
       anon_sym_RBRACE,
       anon_sym_COMMA,
       sym__newline,
-  [7171] = 2,
-    ACTIONS(334), 1,
+  [5843] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(479), 3,
+    ACTIONS(375), 1,
+      sym_bare_scalar,
+    ACTIONS(373), 3,
       anon_sym_RBRACE,
       anon_sym_COMMA,
       sym__newline,
-  [7180] = 4,
-    ACTIONS(334), 1,
-      sym_line_comment,
-    ACTIONS(649), 1,
-      sym__heredoc_lang,
-    ACTIONS(651), 1,
-      sym__heredoc_content,
-    ACTIONS(653), 1,
-      sym__heredoc_end,
-  [7193] = 2,
-    ACTIONS(334), 1,
+  [5855] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(483), 3,
+    ACTIONS(379), 1,
+      sym_bare_scalar,
+    ACTIONS(377), 3,
       anon_sym_RBRACE,
       anon_sym_COMMA,
       sym__newline,
-  [7202] = 2,
-    ACTIONS(334), 1,
+  [5867] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(449), 3,
+    ACTIONS(302), 1,
+      sym_bare_scalar,
+    ACTIONS(300), 3,
       anon_sym_RBRACE,
       anon_sym_COMMA,
       sym__newline,
-  [7211] = 4,
-    ACTIONS(196), 1,
-      anon_sym_RBRACE,
-    ACTIONS(334), 1,
+  [5879] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(655), 1,
+    ACTIONS(391), 1,
+      sym_bare_scalar,
+    ACTIONS(389), 3,
+      anon_sym_RBRACE,
+      anon_sym_COMMA,
       sym__newline,
-    STATE(257), 1,
-      aux_sym__newline_separated_repeat1,
-  [7224] = 2,
-    ACTIONS(334), 1,
+  [5891] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(461), 3,
+    ACTIONS(337), 1,
+      sym_bare_scalar,
+    ACTIONS(335), 3,
       anon_sym_RBRACE,
       anon_sym_COMMA,
       sym__newline,
-  [7233] = 2,
-    ACTIONS(334), 1,
+  [5903] = 4,
+    ACTIONS(3), 1,
+      sym_line_comment,
+    ACTIONS(494), 1,
+      anon_sym_DQUOTE,
+    STATE(182), 1,
+      aux_sym_immediate_quoted_scalar_inner_repeat1,
+    ACTIONS(496), 2,
+      sym__quoted_content,
+      sym_escape_sequence,
+  [5917] = 4,
+    ACTIONS(3), 1,
+      sym_line_comment,
+    ACTIONS(498), 1,
+      anon_sym_DQUOTE,
+    STATE(199), 1,
+      aux_sym_immediate_quoted_scalar_inner_repeat1,
+    ACTIONS(500), 2,
+      sym__quoted_content,
+      sym_escape_sequence,
+  [5931] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(487), 3,
+    ACTIONS(387), 1,
+      sym_bare_scalar,
+    ACTIONS(385), 3,
       anon_sym_RBRACE,
       anon_sym_COMMA,
       sym__newline,
-  [7242] = 2,
-    ACTIONS(334), 1,
+  [5943] = 4,
+    ACTIONS(3), 1,
       sym_line_comment,
-    ACTIONS(491), 3,
+    ACTIONS(502), 1,
+      anon_sym_DQUOTE,
+    STATE(197), 1,
+      aux_sym_immediate_quoted_scalar_inner_repeat1,
+    ACTIONS(504), 2,
+      sym__quoted_content,
+      sym_escape_sequence,
+  [5957] = 3,
+    ACTIONS(108), 1,
+      sym_line_comment,
+    ACTIONS(506), 1,
+      anon_sym_GT,
+    ACTIONS(292), 3,
       anon_sym_RBRACE,
       anon_sym_COMMA,
       sym__newline,
-  [7251] = 2,
-    ACTIONS(334), 1,
+  [5969] = 4,
+    ACTIONS(3), 1,
+      sym_line_comment,
+    ACTIONS(508), 1,
+      anon_sym_DQUOTE,
+    STATE(187), 1,
+      aux_sym_immediate_quoted_scalar_inner_repeat1,
+    ACTIONS(510), 2,
+      sym__quoted_content,
+      sym_escape_sequence,
+  [5983] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(495), 3,
+    ACTIONS(411), 1,
+      sym_bare_scalar,
+    ACTIONS(409), 3,
       anon_sym_RBRACE,
       anon_sym_COMMA,
       sym__newline,
-  [7260] = 4,
-    ACTIONS(196), 1,
-      anon_sym_RBRACE,
-    ACTIONS(334), 1,
+  [5995] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(655), 1,
-      sym__newline,
-    STATE(222), 1,
-      aux_sym__newline_separated_repeat1,
-  [7273] = 4,
-    ACTIONS(260), 1,
+    ACTIONS(415), 1,
+      sym_bare_scalar,
+    ACTIONS(413), 3,
       anon_sym_RBRACE,
-    ACTIONS(334), 1,
-      sym_line_comment,
-    ACTIONS(657), 1,
       anon_sym_COMMA,
-    STATE(220), 1,
-      aux_sym__comma_separated_repeat1,
-  [7286] = 4,
-    ACTIONS(334), 1,
+      sym__newline,
+  [6007] = 4,
+    ACTIONS(3), 1,
       sym_line_comment,
-    ACTIONS(659), 1,
-      sym__heredoc_lang,
-    ACTIONS(661), 1,
-      sym__heredoc_content,
-    ACTIONS(663), 1,
-      sym__heredoc_end,
-  [7299] = 2,
-    ACTIONS(334), 1,
+    ACTIONS(512), 1,
+      anon_sym_DQUOTE,
+    STATE(197), 1,
+      aux_sym_immediate_quoted_scalar_inner_repeat1,
+    ACTIONS(504), 2,
+      sym__quoted_content,
+      sym_escape_sequence,
+  [6021] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(499), 3,
+    ACTIONS(329), 1,
+      sym_bare_scalar,
+    ACTIONS(327), 3,
       anon_sym_RBRACE,
       anon_sym_COMMA,
       sym__newline,
-  [7308] = 4,
-    ACTIONS(194), 1,
-      anon_sym_RBRACE,
-    ACTIONS(334), 1,
+  [6033] = 4,
+    ACTIONS(3), 1,
       sym_line_comment,
-    ACTIONS(665), 1,
-      sym__newline,
-    STATE(222), 1,
-      aux_sym__newline_separated_repeat1,
-  [7321] = 2,
-    ACTIONS(334), 1,
+    ACTIONS(514), 1,
+      anon_sym_DQUOTE,
+    STATE(191), 1,
+      aux_sym_immediate_quoted_scalar_inner_repeat1,
+    ACTIONS(516), 2,
+      sym__quoted_content,
+      sym_escape_sequence,
+  [6047] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(507), 3,
+    ACTIONS(419), 1,
+      sym_bare_scalar,
+    ACTIONS(417), 3,
       anon_sym_RBRACE,
       anon_sym_COMMA,
       sym__newline,
-  [7330] = 4,
-    ACTIONS(334), 1,
+  [6059] = 4,
+    ACTIONS(3), 1,
       sym_line_comment,
-    ACTIONS(667), 1,
-      sym__heredoc_lang,
-    ACTIONS(669), 1,
-      sym__heredoc_content,
-    ACTIONS(671), 1,
-      sym__heredoc_end,
-  [7343] = 2,
-    ACTIONS(334), 1,
+    ACTIONS(518), 1,
+      anon_sym_DQUOTE,
+    STATE(197), 1,
+      aux_sym_immediate_quoted_scalar_inner_repeat1,
+    ACTIONS(504), 2,
+      sym__quoted_content,
+      sym_escape_sequence,
+  [6073] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(511), 3,
+    ACTIONS(423), 1,
+      sym_bare_scalar,
+    ACTIONS(421), 3,
       anon_sym_RBRACE,
       anon_sym_COMMA,
       sym__newline,
-  [7352] = 2,
-    ACTIONS(334), 1,
+  [6085] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(417), 3,
+    ACTIONS(345), 1,
+      sym_bare_scalar,
+    ACTIONS(343), 3,
       anon_sym_RBRACE,
       anon_sym_COMMA,
       sym__newline,
-  [7361] = 2,
-    ACTIONS(334), 1,
+  [6097] = 4,
+    ACTIONS(3), 1,
+      sym_line_comment,
+    ACTIONS(520), 1,
+      anon_sym_DQUOTE,
+    STATE(198), 1,
+      aux_sym_immediate_quoted_scalar_inner_repeat1,
+    ACTIONS(522), 2,
+      sym__quoted_content,
+      sym_escape_sequence,
+  [6111] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(515), 3,
+    ACTIONS(434), 1,
+      sym_bare_scalar,
+    ACTIONS(432), 3,
       anon_sym_RBRACE,
       anon_sym_COMMA,
       sym__newline,
-  [7370] = 2,
-    ACTIONS(334), 1,
+  [6123] = 4,
+    ACTIONS(3), 1,
+      sym_line_comment,
+    ACTIONS(524), 1,
+      anon_sym_DQUOTE,
+    STATE(200), 1,
+      aux_sym_immediate_quoted_scalar_inner_repeat1,
+    ACTIONS(526), 2,
+      sym__quoted_content,
+      sym_escape_sequence,
+  [6137] = 4,
+    ACTIONS(3), 1,
+      sym_line_comment,
+    ACTIONS(528), 1,
+      anon_sym_DQUOTE,
+    STATE(197), 1,
+      aux_sym_immediate_quoted_scalar_inner_repeat1,
+    ACTIONS(530), 2,
+      sym__quoted_content,
+      sym_escape_sequence,
+  [6151] = 4,
+    ACTIONS(3), 1,
+      sym_line_comment,
+    ACTIONS(533), 1,
+      anon_sym_DQUOTE,
+    STATE(197), 1,
+      aux_sym_immediate_quoted_scalar_inner_repeat1,
+    ACTIONS(504), 2,
+      sym__quoted_content,
+      sym_escape_sequence,
+  [6165] = 4,
+    ACTIONS(3), 1,
+      sym_line_comment,
+    ACTIONS(535), 1,
+      anon_sym_DQUOTE,
+    STATE(197), 1,
+      aux_sym_immediate_quoted_scalar_inner_repeat1,
+    ACTIONS(504), 2,
+      sym__quoted_content,
+      sym_escape_sequence,
+  [6179] = 4,
+    ACTIONS(3), 1,
+      sym_line_comment,
+    ACTIONS(537), 1,
+      anon_sym_DQUOTE,
+    STATE(197), 1,
+      aux_sym_immediate_quoted_scalar_inner_repeat1,
+    ACTIONS(504), 2,
+      sym__quoted_content,
+      sym_escape_sequence,
+  [6193] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(519), 3,
+    ACTIONS(383), 1,
+      sym_bare_scalar,
+    ACTIONS(381), 3,
       anon_sym_RBRACE,
       anon_sym_COMMA,
       sym__newline,
-  [7379] = 2,
-    ACTIONS(334), 1,
+  [6205] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(523), 3,
+    ACTIONS(395), 1,
+      sym_bare_scalar,
+    ACTIONS(393), 3,
       anon_sym_RBRACE,
       anon_sym_COMMA,
       sym__newline,
-  [7388] = 2,
-    ACTIONS(334), 1,
+  [6217] = 2,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(527), 3,
+    ACTIONS(361), 3,
       anon_sym_RBRACE,
       anon_sym_COMMA,
       sym__newline,
-  [7397] = 2,
-    ACTIONS(334), 1,
+  [6226] = 4,
+    ACTIONS(108), 1,
+      sym_line_comment,
+    ACTIONS(539), 1,
+      sym__heredoc_lang,
+    ACTIONS(541), 1,
+      sym__heredoc_content,
+    ACTIONS(543), 1,
+      sym__heredoc_end,
+  [6239] = 2,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(531), 3,
+    ACTIONS(545), 3,
       anon_sym_RBRACE,
       anon_sym_COMMA,
       sym__newline,
-  [7406] = 2,
-    ACTIONS(334), 1,
+  [6248] = 2,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(425), 3,
+    ACTIONS(397), 3,
       anon_sym_RBRACE,
       anon_sym_COMMA,
       sym__newline,
-  [7415] = 2,
-    ACTIONS(334), 1,
+  [6257] = 2,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(429), 3,
+    ACTIONS(292), 3,
       anon_sym_RBRACE,
       anon_sym_COMMA,
       sym__newline,
-  [7424] = 2,
-    ACTIONS(334), 1,
+  [6266] = 4,
+    ACTIONS(108), 1,
+      sym_line_comment,
+    ACTIONS(547), 1,
+      sym__heredoc_lang,
+    ACTIONS(549), 1,
+      sym__heredoc_content,
+    ACTIONS(551), 1,
+      sym__heredoc_end,
+  [6279] = 2,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(433), 3,
+    ACTIONS(401), 3,
       anon_sym_RBRACE,
       anon_sym_COMMA,
       sym__newline,
-  [7433] = 2,
-    ACTIONS(334), 1,
+  [6288] = 2,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(441), 3,
+    ACTIONS(481), 3,
       anon_sym_RBRACE,
       anon_sym_COMMA,
       sym__newline,
-  [7442] = 2,
-    ACTIONS(334), 1,
+  [6297] = 4,
+    ACTIONS(108), 1,
+      sym_line_comment,
+    ACTIONS(553), 1,
+      sym__heredoc_lang,
+    ACTIONS(555), 1,
+      sym__heredoc_content,
+    ACTIONS(557), 1,
+      sym__heredoc_end,
+  [6310] = 4,
+    ACTIONS(108), 1,
+      sym_line_comment,
+    ACTIONS(559), 1,
+      sym__heredoc_lang,
+    ACTIONS(561), 1,
+      sym__heredoc_content,
+    ACTIONS(563), 1,
+      sym__heredoc_end,
+  [6323] = 2,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(437), 3,
+    ACTIONS(405), 3,
       anon_sym_RBRACE,
       anon_sym_COMMA,
       sym__newline,
-  [7451] = 4,
-    ACTIONS(190), 1,
-      anon_sym_RBRACE,
-    ACTIONS(334), 1,
+  [6332] = 4,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(637), 1,
-      sym__newline,
-    STATE(222), 1,
-      aux_sym__newline_separated_repeat1,
-  [7464] = 4,
-    ACTIONS(334), 1,
+    ACTIONS(565), 1,
+      sym__heredoc_lang,
+    ACTIONS(567), 1,
+      sym__heredoc_content,
+    ACTIONS(569), 1,
+      sym__heredoc_end,
+  [6345] = 4,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(673), 1,
+    ACTIONS(571), 1,
       sym__heredoc_lang,
-    ACTIONS(675), 1,
+    ACTIONS(573), 1,
       sym__heredoc_content,
-    ACTIONS(677), 1,
+    ACTIONS(575), 1,
       sym__heredoc_end,
-  [7477] = 3,
-    ACTIONS(334), 1,
+  [6358] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(679), 1,
+    ACTIONS(577), 1,
       sym__raw_string_content,
-    ACTIONS(681), 1,
+    ACTIONS(579), 1,
       sym__raw_string_end,
-  [7487] = 3,
-    ACTIONS(334), 1,
+  [6368] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(683), 1,
-      sym__raw_string_content,
-    ACTIONS(685), 1,
-      sym__raw_string_end,
-  [7497] = 3,
-    ACTIONS(334), 1,
+    ACTIONS(581), 1,
+      sym__heredoc_content,
+    ACTIONS(583), 1,
+      sym__heredoc_end,
+  [6378] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(687), 1,
+    ACTIONS(585), 1,
       sym__raw_string_content,
-    ACTIONS(689), 1,
+    ACTIONS(587), 1,
       sym__raw_string_end,
-  [7507] = 3,
-    ACTIONS(334), 1,
+  [6388] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(691), 1,
+    ACTIONS(589), 1,
       sym__raw_string_content,
-    ACTIONS(693), 1,
+    ACTIONS(591), 1,
       sym__raw_string_end,
-  [7517] = 2,
-    ACTIONS(334), 1,
-      sym_line_comment,
-    ACTIONS(644), 2,
-      anon_sym_RBRACE,
-      sym__newline,
-  [7525] = 3,
-    ACTIONS(334), 1,
+  [6398] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(695), 1,
-      sym__raw_string_content,
-    ACTIONS(697), 1,
-      sym__raw_string_end,
-  [7535] = 3,
-    ACTIONS(334), 1,
+    ACTIONS(593), 1,
+      sym__heredoc_content,
+    ACTIONS(595), 1,
+      sym__heredoc_end,
+  [6408] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(699), 1,
+    ACTIONS(597), 1,
       sym__heredoc_content,
-    ACTIONS(701), 1,
+    ACTIONS(599), 1,
       sym__heredoc_end,
-  [7545] = 3,
-    ACTIONS(334), 1,
+  [6418] = 3,
+    ACTIONS(108), 1,
+      sym_line_comment,
+    ACTIONS(601), 1,
+      sym__raw_string_content,
+    ACTIONS(603), 1,
+      sym__raw_string_end,
+  [6428] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(703), 1,
+    ACTIONS(605), 1,
       sym__raw_string_content,
-    ACTIONS(705), 1,
+    ACTIONS(607), 1,
       sym__raw_string_end,
-  [7555] = 3,
-    ACTIONS(334), 1,
+  [6438] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(707), 1,
+    ACTIONS(609), 1,
       sym__heredoc_content,
-    ACTIONS(709), 1,
+    ACTIONS(611), 1,
       sym__heredoc_end,
-  [7565] = 3,
-    ACTIONS(334), 1,
+  [6448] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(711), 1,
+    ACTIONS(613), 1,
       sym__heredoc_content,
-    ACTIONS(713), 1,
+    ACTIONS(615), 1,
       sym__heredoc_end,
-  [7575] = 2,
-    ACTIONS(334), 1,
-      sym_line_comment,
-    ACTIONS(715), 2,
-      anon_sym_RBRACE,
-      sym__newline,
-  [7583] = 3,
-    ACTIONS(334), 1,
+  [6458] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(717), 1,
+    ACTIONS(617), 1,
       sym__heredoc_content,
-    ACTIONS(719), 1,
+    ACTIONS(619), 1,
       sym__heredoc_end,
-  [7593] = 3,
-    ACTIONS(334), 1,
+  [6468] = 3,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(721), 1,
+    ACTIONS(621), 1,
       sym__raw_string_content,
-    ACTIONS(723), 1,
+    ACTIONS(623), 1,
       sym__raw_string_end,
-  [7603] = 3,
-    ACTIONS(334), 1,
+  [6478] = 2,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(725), 1,
-      sym__raw_string_content,
-    ACTIONS(727), 1,
-      sym__raw_string_end,
-  [7613] = 2,
-    ACTIONS(334), 1,
+    ACTIONS(625), 1,
+      sym__newline,
+  [6485] = 2,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(639), 2,
-      anon_sym_RBRACE,
-      anon_sym_COMMA,
-  [7621] = 2,
-    ACTIONS(334), 1,
+    ACTIONS(627), 1,
+      sym__heredoc_end,
+  [6492] = 2,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(729), 1,
+    ACTIONS(629), 1,
       sym__raw_string_end,
-  [7628] = 2,
-    ACTIONS(334), 1,
+  [6499] = 2,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(731), 1,
-      sym__newline,
-  [7635] = 2,
-    ACTIONS(334), 1,
+    ACTIONS(631), 1,
+      sym__heredoc_end,
+  [6506] = 2,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(733), 1,
+    ACTIONS(633), 1,
       sym__heredoc_end,
-  [7642] = 2,
-    ACTIONS(334), 1,
+  [6513] = 2,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(735), 1,
-      anon_sym_RBRACE,
-  [7649] = 2,
-    ACTIONS(334), 1,
+    ACTIONS(635), 1,
+      sym__raw_string_end,
+  [6520] = 2,
+    ACTIONS(108), 1,
+      sym_line_comment,
+    ACTIONS(637), 1,
+      ts_builtin_sym_end,
+  [6527] = 2,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(713), 1,
+    ACTIONS(615), 1,
       sym__heredoc_end,
-  [7656] = 2,
-    ACTIONS(334), 1,
+  [6534] = 2,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(737), 1,
+    ACTIONS(639), 1,
       sym__raw_string_end,
-  [7663] = 2,
-    ACTIONS(334), 1,
-      sym_line_comment,
-    ACTIONS(739), 1,
-      anon_sym_RBRACE,
-  [7670] = 2,
-    ACTIONS(334), 1,
+  [6541] = 2,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(719), 1,
+    ACTIONS(595), 1,
       sym__heredoc_end,
-  [7677] = 2,
-    ACTIONS(334), 1,
+  [6548] = 2,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(709), 1,
+    ACTIONS(641), 1,
+      anon_sym_RBRACE,
+  [6555] = 2,
+    ACTIONS(108), 1,
+      sym_line_comment,
+    ACTIONS(599), 1,
       sym__heredoc_end,
-  [7684] = 2,
-    ACTIONS(334), 1,
+  [6562] = 2,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(741), 1,
+    ACTIONS(643), 1,
       anon_sym_RBRACE,
-  [7691] = 2,
-    ACTIONS(334), 1,
+  [6569] = 2,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(743), 1,
+    ACTIONS(645), 1,
       anon_sym_RBRACE,
-  [7698] = 2,
-    ACTIONS(334), 1,
+  [6576] = 2,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(396), 1,
+    ACTIONS(296), 1,
       anon_sym_GT,
-  [7705] = 2,
-    ACTIONS(334), 1,
+  [6583] = 2,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(745), 1,
+    ACTIONS(583), 1,
       sym__heredoc_end,
-  [7712] = 2,
-    ACTIONS(334), 1,
+  [6590] = 2,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(747), 1,
-      anon_sym_GT,
-  [7719] = 2,
-    ACTIONS(334), 1,
-      sym_line_comment,
-    ACTIONS(749), 1,
-      sym__heredoc_end,
-  [7726] = 2,
-    ACTIONS(334), 1,
+    ACTIONS(647), 1,
+      anon_sym_RBRACE,
+  [6597] = 2,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(600), 1,
+    ACTIONS(506), 1,
       anon_sym_GT,
-  [7733] = 2,
-    ACTIONS(334), 1,
+  [6604] = 2,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(751), 1,
+    ACTIONS(649), 1,
       sym__heredoc_end,
-  [7740] = 2,
-    ACTIONS(334), 1,
-      sym_line_comment,
-    ACTIONS(753), 1,
-      sym__raw_string_end,
-  [7747] = 2,
-    ACTIONS(334), 1,
+  [6611] = 2,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(755), 1,
+    ACTIONS(651), 1,
       sym__raw_string_end,
-  [7754] = 2,
-    ACTIONS(334), 1,
+  [6618] = 2,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(757), 1,
+    ACTIONS(653), 1,
       sym__raw_string_end,
-  [7761] = 2,
-    ACTIONS(334), 1,
-      sym_line_comment,
-    ACTIONS(759), 1,
-      anon_sym_RBRACE,
-  [7768] = 2,
-    ACTIONS(3), 1,
+  [6625] = 2,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(761), 1,
-      aux_sym_doc_comment_token1,
-  [7775] = 2,
-    ACTIONS(334), 1,
-      sym_line_comment,
-    ACTIONS(763), 1,
+    ACTIONS(655), 1,
       anon_sym_RBRACE,
-  [7782] = 2,
-    ACTIONS(334), 1,
+  [6632] = 2,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(701), 1,
+    ACTIONS(619), 1,
       sym__heredoc_end,
-  [7789] = 2,
-    ACTIONS(334), 1,
+  [6639] = 2,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(765), 1,
-      ts_builtin_sym_end,
-  [7796] = 2,
-    ACTIONS(334), 1,
-      sym_line_comment,
-    ACTIONS(767), 1,
-      anon_sym_RBRACE,
-  [7803] = 2,
-    ACTIONS(334), 1,
-      sym_line_comment,
-    ACTIONS(398), 1,
-      anon_sym_GT,
-  [7810] = 2,
-    ACTIONS(334), 1,
-      sym_line_comment,
-    ACTIONS(769), 1,
+    ACTIONS(657), 1,
       sym__raw_string_end,
-  [7817] = 2,
-    ACTIONS(334), 1,
+  [6646] = 2,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(771), 1,
-      sym__raw_string_end,
-  [7824] = 2,
-    ACTIONS(334), 1,
+    ACTIONS(659), 1,
+      sym__heredoc_end,
+  [6653] = 2,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(773), 1,
-      sym__raw_string_end,
-  [7831] = 2,
-    ACTIONS(334), 1,
+    ACTIONS(611), 1,
+      sym__heredoc_end,
+  [6660] = 2,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(775), 1,
+    ACTIONS(661), 1,
       anon_sym_RBRACE,
-  [7838] = 2,
-    ACTIONS(334), 1,
+  [6667] = 2,
+    ACTIONS(108), 1,
       sym_line_comment,
-    ACTIONS(777), 1,
-      anon_sym_RBRACE,
+    ACTIONS(663), 1,
+      sym__heredoc_end,
+  [6674] = 2,
+    ACTIONS(108), 1,
+      sym_line_comment,
+    ACTIONS(298), 1,
+      anon_sym_GT,
 };
 
 static const uint32_t ts_small_parse_table_map[] = {
   [SMALL_STATE(2)] = 0,
-  [SMALL_STATE(3)] = 76,
-  [SMALL_STATE(4)] = 152,
-  [SMALL_STATE(5)] = 228,
-  [SMALL_STATE(6)] = 304,
-  [SMALL_STATE(7)] = 380,
-  [SMALL_STATE(8)] = 456,
-  [SMALL_STATE(9)] = 532,
-  [SMALL_STATE(10)] = 608,
-  [SMALL_STATE(11)] = 684,
-  [SMALL_STATE(12)] = 761,
-  [SMALL_STATE(13)] = 828,
-  [SMALL_STATE(14)] = 895,
-  [SMALL_STATE(15)] = 962,
-  [SMALL_STATE(16)] = 1029,
-  [SMALL_STATE(17)] = 1096,
-  [SMALL_STATE(18)] = 1163,
-  [SMALL_STATE(19)] = 1230,
-  [SMALL_STATE(20)] = 1297,
-  [SMALL_STATE(21)] = 1364,
-  [SMALL_STATE(22)] = 1431,
-  [SMALL_STATE(23)] = 1498,
-  [SMALL_STATE(24)] = 1565,
-  [SMALL_STATE(25)] = 1636,
-  [SMALL_STATE(26)] = 1703,
-  [SMALL_STATE(27)] = 1770,
-  [SMALL_STATE(28)] = 1841,
-  [SMALL_STATE(29)] = 1908,
-  [SMALL_STATE(30)] = 1975,
-  [SMALL_STATE(31)] = 2046,
-  [SMALL_STATE(32)] = 2113,
-  [SMALL_STATE(33)] = 2180,
-  [SMALL_STATE(34)] = 2248,
-  [SMALL_STATE(35)] = 2316,
-  [SMALL_STATE(36)] = 2384,
-  [SMALL_STATE(37)] = 2452,
-  [SMALL_STATE(38)] = 2517,
-  [SMALL_STATE(39)] = 2582,
-  [SMALL_STATE(40)] = 2640,
-  [SMALL_STATE(41)] = 2700,
-  [SMALL_STATE(42)] = 2745,
-  [SMALL_STATE(43)] = 2804,
-  [SMALL_STATE(44)] = 2847,
-  [SMALL_STATE(45)] = 2906,
-  [SMALL_STATE(46)] = 2965,
-  [SMALL_STATE(47)] = 3024,
-  [SMALL_STATE(48)] = 3083,
-  [SMALL_STATE(49)] = 3142,
-  [SMALL_STATE(50)] = 3201,
-  [SMALL_STATE(51)] = 3260,
-  [SMALL_STATE(52)] = 3319,
-  [SMALL_STATE(53)] = 3378,
-  [SMALL_STATE(54)] = 3437,
-  [SMALL_STATE(55)] = 3496,
-  [SMALL_STATE(56)] = 3555,
-  [SMALL_STATE(57)] = 3614,
-  [SMALL_STATE(58)] = 3673,
-  [SMALL_STATE(59)] = 3732,
-  [SMALL_STATE(60)] = 3791,
-  [SMALL_STATE(61)] = 3850,
-  [SMALL_STATE(62)] = 3909,
-  [SMALL_STATE(63)] = 3954,
-  [SMALL_STATE(64)] = 4013,
-  [SMALL_STATE(65)] = 4072,
-  [SMALL_STATE(66)] = 4128,
-  [SMALL_STATE(67)] = 4184,
-  [SMALL_STATE(68)] = 4240,
-  [SMALL_STATE(69)] = 4296,
-  [SMALL_STATE(70)] = 4352,
-  [SMALL_STATE(71)] = 4376,
-  [SMALL_STATE(72)] = 4398,
-  [SMALL_STATE(73)] = 4422,
-  [SMALL_STATE(74)] = 4457,
-  [SMALL_STATE(75)] = 4482,
-  [SMALL_STATE(76)] = 4505,
-  [SMALL_STATE(77)] = 4528,
-  [SMALL_STATE(78)] = 4553,
-  [SMALL_STATE(79)] = 4576,
-  [SMALL_STATE(80)] = 4599,
-  [SMALL_STATE(81)] = 4624,
-  [SMALL_STATE(82)] = 4649,
-  [SMALL_STATE(83)] = 4674,
-  [SMALL_STATE(84)] = 4698,
-  [SMALL_STATE(85)] = 4720,
-  [SMALL_STATE(86)] = 4742,
-  [SMALL_STATE(87)] = 4766,
-  [SMALL_STATE(88)] = 4790,
-  [SMALL_STATE(89)] = 4810,
-  [SMALL_STATE(90)] = 4834,
-  [SMALL_STATE(91)] = 4858,
-  [SMALL_STATE(92)] = 4877,
-  [SMALL_STATE(93)] = 4896,
-  [SMALL_STATE(94)] = 4915,
-  [SMALL_STATE(95)] = 4934,
-  [SMALL_STATE(96)] = 4953,
-  [SMALL_STATE(97)] = 4972,
-  [SMALL_STATE(98)] = 4991,
-  [SMALL_STATE(99)] = 5008,
-  [SMALL_STATE(100)] = 5027,
-  [SMALL_STATE(101)] = 5044,
-  [SMALL_STATE(102)] = 5061,
-  [SMALL_STATE(103)] = 5078,
-  [SMALL_STATE(104)] = 5097,
-  [SMALL_STATE(105)] = 5114,
-  [SMALL_STATE(106)] = 5131,
-  [SMALL_STATE(107)] = 5148,
-  [SMALL_STATE(108)] = 5165,
-  [SMALL_STATE(109)] = 5182,
-  [SMALL_STATE(110)] = 5199,
-  [SMALL_STATE(111)] = 5216,
-  [SMALL_STATE(112)] = 5233,
-  [SMALL_STATE(113)] = 5252,
-  [SMALL_STATE(114)] = 5269,
-  [SMALL_STATE(115)] = 5286,
-  [SMALL_STATE(116)] = 5303,
-  [SMALL_STATE(117)] = 5320,
-  [SMALL_STATE(118)] = 5337,
-  [SMALL_STATE(119)] = 5354,
-  [SMALL_STATE(120)] = 5371,
-  [SMALL_STATE(121)] = 5388,
-  [SMALL_STATE(122)] = 5405,
-  [SMALL_STATE(123)] = 5422,
-  [SMALL_STATE(124)] = 5439,
-  [SMALL_STATE(125)] = 5456,
-  [SMALL_STATE(126)] = 5473,
-  [SMALL_STATE(127)] = 5490,
-  [SMALL_STATE(128)] = 5507,
-  [SMALL_STATE(129)] = 5524,
-  [SMALL_STATE(130)] = 5541,
-  [SMALL_STATE(131)] = 5560,
-  [SMALL_STATE(132)] = 5579,
-  [SMALL_STATE(133)] = 5598,
-  [SMALL_STATE(134)] = 5617,
-  [SMALL_STATE(135)] = 5636,
-  [SMALL_STATE(136)] = 5655,
-  [SMALL_STATE(137)] = 5674,
-  [SMALL_STATE(138)] = 5693,
-  [SMALL_STATE(139)] = 5712,
-  [SMALL_STATE(140)] = 5731,
-  [SMALL_STATE(141)] = 5750,
-  [SMALL_STATE(142)] = 5769,
-  [SMALL_STATE(143)] = 5788,
-  [SMALL_STATE(144)] = 5807,
-  [SMALL_STATE(145)] = 5826,
-  [SMALL_STATE(146)] = 5845,
-  [SMALL_STATE(147)] = 5864,
-  [SMALL_STATE(148)] = 5883,
-  [SMALL_STATE(149)] = 5902,
-  [SMALL_STATE(150)] = 5921,
-  [SMALL_STATE(151)] = 5940,
-  [SMALL_STATE(152)] = 5959,
-  [SMALL_STATE(153)] = 5978,
-  [SMALL_STATE(154)] = 5997,
-  [SMALL_STATE(155)] = 6016,
-  [SMALL_STATE(156)] = 6035,
-  [SMALL_STATE(157)] = 6054,
-  [SMALL_STATE(158)] = 6073,
-  [SMALL_STATE(159)] = 6092,
-  [SMALL_STATE(160)] = 6111,
-  [SMALL_STATE(161)] = 6130,
-  [SMALL_STATE(162)] = 6149,
-  [SMALL_STATE(163)] = 6168,
-  [SMALL_STATE(164)] = 6187,
-  [SMALL_STATE(165)] = 6206,
-  [SMALL_STATE(166)] = 6225,
-  [SMALL_STATE(167)] = 6244,
-  [SMALL_STATE(168)] = 6263,
-  [SMALL_STATE(169)] = 6282,
-  [SMALL_STATE(170)] = 6301,
-  [SMALL_STATE(171)] = 6320,
-  [SMALL_STATE(172)] = 6339,
-  [SMALL_STATE(173)] = 6358,
-  [SMALL_STATE(174)] = 6377,
-  [SMALL_STATE(175)] = 6396,
-  [SMALL_STATE(176)] = 6415,
-  [SMALL_STATE(177)] = 6434,
-  [SMALL_STATE(178)] = 6453,
-  [SMALL_STATE(179)] = 6472,
-  [SMALL_STATE(180)] = 6494,
-  [SMALL_STATE(181)] = 6516,
-  [SMALL_STATE(182)] = 6533,
-  [SMALL_STATE(183)] = 6555,
-  [SMALL_STATE(184)] = 6577,
-  [SMALL_STATE(185)] = 6591,
-  [SMALL_STATE(186)] = 6613,
-  [SMALL_STATE(187)] = 6635,
-  [SMALL_STATE(188)] = 6651,
-  [SMALL_STATE(189)] = 6667,
-  [SMALL_STATE(190)] = 6686,
-  [SMALL_STATE(191)] = 6700,
-  [SMALL_STATE(192)] = 6714,
-  [SMALL_STATE(193)] = 6728,
-  [SMALL_STATE(194)] = 6742,
-  [SMALL_STATE(195)] = 6756,
-  [SMALL_STATE(196)] = 6770,
-  [SMALL_STATE(197)] = 6784,
-  [SMALL_STATE(198)] = 6798,
-  [SMALL_STATE(199)] = 6810,
-  [SMALL_STATE(200)] = 6824,
-  [SMALL_STATE(201)] = 6838,
-  [SMALL_STATE(202)] = 6850,
-  [SMALL_STATE(203)] = 6862,
-  [SMALL_STATE(204)] = 6876,
-  [SMALL_STATE(205)] = 6890,
-  [SMALL_STATE(206)] = 6904,
-  [SMALL_STATE(207)] = 6916,
-  [SMALL_STATE(208)] = 6930,
-  [SMALL_STATE(209)] = 6942,
-  [SMALL_STATE(210)] = 6954,
-  [SMALL_STATE(211)] = 6966,
-  [SMALL_STATE(212)] = 6980,
-  [SMALL_STATE(213)] = 6992,
-  [SMALL_STATE(214)] = 7004,
-  [SMALL_STATE(215)] = 7018,
-  [SMALL_STATE(216)] = 7032,
-  [SMALL_STATE(217)] = 7046,
-  [SMALL_STATE(218)] = 7060,
-  [SMALL_STATE(219)] = 7069,
-  [SMALL_STATE(220)] = 7082,
-  [SMALL_STATE(221)] = 7095,
-  [SMALL_STATE(222)] = 7104,
-  [SMALL_STATE(223)] = 7117,
-  [SMALL_STATE(224)] = 7126,
-  [SMALL_STATE(225)] = 7135,
-  [SMALL_STATE(226)] = 7144,
-  [SMALL_STATE(227)] = 7153,
-  [SMALL_STATE(228)] = 7162,
-  [SMALL_STATE(229)] = 7171,
-  [SMALL_STATE(230)] = 7180,
-  [SMALL_STATE(231)] = 7193,
-  [SMALL_STATE(232)] = 7202,
-  [SMALL_STATE(233)] = 7211,
-  [SMALL_STATE(234)] = 7224,
-  [SMALL_STATE(235)] = 7233,
-  [SMALL_STATE(236)] = 7242,
-  [SMALL_STATE(237)] = 7251,
-  [SMALL_STATE(238)] = 7260,
-  [SMALL_STATE(239)] = 7273,
-  [SMALL_STATE(240)] = 7286,
-  [SMALL_STATE(241)] = 7299,
-  [SMALL_STATE(242)] = 7308,
-  [SMALL_STATE(243)] = 7321,
-  [SMALL_STATE(244)] = 7330,
-  [SMALL_STATE(245)] = 7343,
-  [SMALL_STATE(246)] = 7352,
-  [SMALL_STATE(247)] = 7361,
-  [SMALL_STATE(248)] = 7370,
-  [SMALL_STATE(249)] = 7379,
-  [SMALL_STATE(250)] = 7388,
-  [SMALL_STATE(251)] = 7397,
-  [SMALL_STATE(252)] = 7406,
-  [SMALL_STATE(253)] = 7415,
-  [SMALL_STATE(254)] = 7424,
-  [SMALL_STATE(255)] = 7433,
-  [SMALL_STATE(256)] = 7442,
-  [SMALL_STATE(257)] = 7451,
-  [SMALL_STATE(258)] = 7464,
-  [SMALL_STATE(259)] = 7477,
-  [SMALL_STATE(260)] = 7487,
-  [SMALL_STATE(261)] = 7497,
-  [SMALL_STATE(262)] = 7507,
-  [SMALL_STATE(263)] = 7517,
-  [SMALL_STATE(264)] = 7525,
-  [SMALL_STATE(265)] = 7535,
-  [SMALL_STATE(266)] = 7545,
-  [SMALL_STATE(267)] = 7555,
-  [SMALL_STATE(268)] = 7565,
-  [SMALL_STATE(269)] = 7575,
-  [SMALL_STATE(270)] = 7583,
-  [SMALL_STATE(271)] = 7593,
-  [SMALL_STATE(272)] = 7603,
-  [SMALL_STATE(273)] = 7613,
-  [SMALL_STATE(274)] = 7621,
-  [SMALL_STATE(275)] = 7628,
-  [SMALL_STATE(276)] = 7635,
-  [SMALL_STATE(277)] = 7642,
-  [SMALL_STATE(278)] = 7649,
-  [SMALL_STATE(279)] = 7656,
-  [SMALL_STATE(280)] = 7663,
-  [SMALL_STATE(281)] = 7670,
-  [SMALL_STATE(282)] = 7677,
-  [SMALL_STATE(283)] = 7684,
-  [SMALL_STATE(284)] = 7691,
-  [SMALL_STATE(285)] = 7698,
-  [SMALL_STATE(286)] = 7705,
-  [SMALL_STATE(287)] = 7712,
-  [SMALL_STATE(288)] = 7719,
-  [SMALL_STATE(289)] = 7726,
-  [SMALL_STATE(290)] = 7733,
-  [SMALL_STATE(291)] = 7740,
-  [SMALL_STATE(292)] = 7747,
-  [SMALL_STATE(293)] = 7754,
-  [SMALL_STATE(294)] = 7761,
-  [SMALL_STATE(295)] = 7768,
-  [SMALL_STATE(296)] = 7775,
-  [SMALL_STATE(297)] = 7782,
-  [SMALL_STATE(298)] = 7789,
-  [SMALL_STATE(299)] = 7796,
-  [SMALL_STATE(300)] = 7803,
-  [SMALL_STATE(301)] = 7810,
-  [SMALL_STATE(302)] = 7817,
-  [SMALL_STATE(303)] = 7824,
-  [SMALL_STATE(304)] = 7831,
-  [SMALL_STATE(305)] = 7838,
+  [SMALL_STATE(3)] = 79,
+  [SMALL_STATE(4)] = 158,
+  [SMALL_STATE(5)] = 237,
+  [SMALL_STATE(6)] = 316,
+  [SMALL_STATE(7)] = 396,
+  [SMALL_STATE(8)] = 476,
+  [SMALL_STATE(9)] = 556,
+  [SMALL_STATE(10)] = 636,
+  [SMALL_STATE(11)] = 712,
+  [SMALL_STATE(12)] = 792,
+  [SMALL_STATE(13)] = 872,
+  [SMALL_STATE(14)] = 952,
+  [SMALL_STATE(15)] = 1029,
+  [SMALL_STATE(16)] = 1103,
+  [SMALL_STATE(17)] = 1177,
+  [SMALL_STATE(18)] = 1251,
+  [SMALL_STATE(19)] = 1320,
+  [SMALL_STATE(20)] = 1373,
+  [SMALL_STATE(21)] = 1442,
+  [SMALL_STATE(22)] = 1511,
+  [SMALL_STATE(23)] = 1580,
+  [SMALL_STATE(24)] = 1633,
+  [SMALL_STATE(25)] = 1702,
+  [SMALL_STATE(26)] = 1771,
+  [SMALL_STATE(27)] = 1840,
+  [SMALL_STATE(28)] = 1909,
+  [SMALL_STATE(29)] = 1978,
+  [SMALL_STATE(30)] = 2047,
+  [SMALL_STATE(31)] = 2116,
+  [SMALL_STATE(32)] = 2185,
+  [SMALL_STATE(33)] = 2247,
+  [SMALL_STATE(34)] = 2308,
+  [SMALL_STATE(35)] = 2370,
+  [SMALL_STATE(36)] = 2432,
+  [SMALL_STATE(37)] = 2494,
+  [SMALL_STATE(38)] = 2556,
+  [SMALL_STATE(39)] = 2618,
+  [SMALL_STATE(40)] = 2680,
+  [SMALL_STATE(41)] = 2742,
+  [SMALL_STATE(42)] = 2804,
+  [SMALL_STATE(43)] = 2866,
+  [SMALL_STATE(44)] = 2928,
+  [SMALL_STATE(45)] = 2990,
+  [SMALL_STATE(46)] = 3052,
+  [SMALL_STATE(47)] = 3114,
+  [SMALL_STATE(48)] = 3173,
+  [SMALL_STATE(49)] = 3232,
+  [SMALL_STATE(50)] = 3291,
+  [SMALL_STATE(51)] = 3350,
+  [SMALL_STATE(52)] = 3395,
+  [SMALL_STATE(53)] = 3421,
+  [SMALL_STATE(54)] = 3447,
+  [SMALL_STATE(55)] = 3490,
+  [SMALL_STATE(56)] = 3533,
+  [SMALL_STATE(57)] = 3576,
+  [SMALL_STATE(58)] = 3600,
+  [SMALL_STATE(59)] = 3626,
+  [SMALL_STATE(60)] = 3650,
+  [SMALL_STATE(61)] = 3676,
+  [SMALL_STATE(62)] = 3702,
+  [SMALL_STATE(63)] = 3728,
+  [SMALL_STATE(64)] = 3754,
+  [SMALL_STATE(65)] = 3780,
+  [SMALL_STATE(66)] = 3804,
+  [SMALL_STATE(67)] = 3828,
+  [SMALL_STATE(68)] = 3851,
+  [SMALL_STATE(69)] = 3874,
+  [SMALL_STATE(70)] = 3894,
+  [SMALL_STATE(71)] = 3918,
+  [SMALL_STATE(72)] = 3938,
+  [SMALL_STATE(73)] = 3958,
+  [SMALL_STATE(74)] = 3978,
+  [SMALL_STATE(75)] = 3998,
+  [SMALL_STATE(76)] = 4018,
+  [SMALL_STATE(77)] = 4038,
+  [SMALL_STATE(78)] = 4058,
+  [SMALL_STATE(79)] = 4078,
+  [SMALL_STATE(80)] = 4098,
+  [SMALL_STATE(81)] = 4118,
+  [SMALL_STATE(82)] = 4138,
+  [SMALL_STATE(83)] = 4162,
+  [SMALL_STATE(84)] = 4182,
+  [SMALL_STATE(85)] = 4202,
+  [SMALL_STATE(86)] = 4222,
+  [SMALL_STATE(87)] = 4242,
+  [SMALL_STATE(88)] = 4262,
+  [SMALL_STATE(89)] = 4282,
+  [SMALL_STATE(90)] = 4302,
+  [SMALL_STATE(91)] = 4322,
+  [SMALL_STATE(92)] = 4342,
+  [SMALL_STATE(93)] = 4362,
+  [SMALL_STATE(94)] = 4382,
+  [SMALL_STATE(95)] = 4402,
+  [SMALL_STATE(96)] = 4422,
+  [SMALL_STATE(97)] = 4442,
+  [SMALL_STATE(98)] = 4462,
+  [SMALL_STATE(99)] = 4482,
+  [SMALL_STATE(100)] = 4502,
+  [SMALL_STATE(101)] = 4522,
+  [SMALL_STATE(102)] = 4542,
+  [SMALL_STATE(103)] = 4562,
+  [SMALL_STATE(104)] = 4582,
+  [SMALL_STATE(105)] = 4602,
+  [SMALL_STATE(106)] = 4622,
+  [SMALL_STATE(107)] = 4642,
+  [SMALL_STATE(108)] = 4662,
+  [SMALL_STATE(109)] = 4682,
+  [SMALL_STATE(110)] = 4702,
+  [SMALL_STATE(111)] = 4722,
+  [SMALL_STATE(112)] = 4746,
+  [SMALL_STATE(113)] = 4766,
+  [SMALL_STATE(114)] = 4786,
+  [SMALL_STATE(115)] = 4806,
+  [SMALL_STATE(116)] = 4826,
+  [SMALL_STATE(117)] = 4846,
+  [SMALL_STATE(118)] = 4866,
+  [SMALL_STATE(119)] = 4886,
+  [SMALL_STATE(120)] = 4906,
+  [SMALL_STATE(121)] = 4926,
+  [SMALL_STATE(122)] = 4946,
+  [SMALL_STATE(123)] = 4966,
+  [SMALL_STATE(124)] = 4986,
+  [SMALL_STATE(125)] = 5006,
+  [SMALL_STATE(126)] = 5026,
+  [SMALL_STATE(127)] = 5046,
+  [SMALL_STATE(128)] = 5066,
+  [SMALL_STATE(129)] = 5086,
+  [SMALL_STATE(130)] = 5106,
+  [SMALL_STATE(131)] = 5126,
+  [SMALL_STATE(132)] = 5146,
+  [SMALL_STATE(133)] = 5166,
+  [SMALL_STATE(134)] = 5186,
+  [SMALL_STATE(135)] = 5206,
+  [SMALL_STATE(136)] = 5226,
+  [SMALL_STATE(137)] = 5250,
+  [SMALL_STATE(138)] = 5270,
+  [SMALL_STATE(139)] = 5290,
+  [SMALL_STATE(140)] = 5310,
+  [SMALL_STATE(141)] = 5330,
+  [SMALL_STATE(142)] = 5350,
+  [SMALL_STATE(143)] = 5374,
+  [SMALL_STATE(144)] = 5394,
+  [SMALL_STATE(145)] = 5414,
+  [SMALL_STATE(146)] = 5432,
+  [SMALL_STATE(147)] = 5454,
+  [SMALL_STATE(148)] = 5476,
+  [SMALL_STATE(149)] = 5493,
+  [SMALL_STATE(150)] = 5511,
+  [SMALL_STATE(151)] = 5529,
+  [SMALL_STATE(152)] = 5545,
+  [SMALL_STATE(153)] = 5563,
+  [SMALL_STATE(154)] = 5581,
+  [SMALL_STATE(155)] = 5597,
+  [SMALL_STATE(156)] = 5615,
+  [SMALL_STATE(157)] = 5633,
+  [SMALL_STATE(158)] = 5651,
+  [SMALL_STATE(159)] = 5663,
+  [SMALL_STATE(160)] = 5675,
+  [SMALL_STATE(161)] = 5687,
+  [SMALL_STATE(162)] = 5699,
+  [SMALL_STATE(163)] = 5711,
+  [SMALL_STATE(164)] = 5723,
+  [SMALL_STATE(165)] = 5735,
+  [SMALL_STATE(166)] = 5747,
+  [SMALL_STATE(167)] = 5759,
+  [SMALL_STATE(168)] = 5771,
+  [SMALL_STATE(169)] = 5783,
+  [SMALL_STATE(170)] = 5795,
+  [SMALL_STATE(171)] = 5807,
+  [SMALL_STATE(172)] = 5819,
+  [SMALL_STATE(173)] = 5831,
+  [SMALL_STATE(174)] = 5843,
+  [SMALL_STATE(175)] = 5855,
+  [SMALL_STATE(176)] = 5867,
+  [SMALL_STATE(177)] = 5879,
+  [SMALL_STATE(178)] = 5891,
+  [SMALL_STATE(179)] = 5903,
+  [SMALL_STATE(180)] = 5917,
+  [SMALL_STATE(181)] = 5931,
+  [SMALL_STATE(182)] = 5943,
+  [SMALL_STATE(183)] = 5957,
+  [SMALL_STATE(184)] = 5969,
+  [SMALL_STATE(185)] = 5983,
+  [SMALL_STATE(186)] = 5995,
+  [SMALL_STATE(187)] = 6007,
+  [SMALL_STATE(188)] = 6021,
+  [SMALL_STATE(189)] = 6033,
+  [SMALL_STATE(190)] = 6047,
+  [SMALL_STATE(191)] = 6059,
+  [SMALL_STATE(192)] = 6073,
+  [SMALL_STATE(193)] = 6085,
+  [SMALL_STATE(194)] = 6097,
+  [SMALL_STATE(195)] = 6111,
+  [SMALL_STATE(196)] = 6123,
+  [SMALL_STATE(197)] = 6137,
+  [SMALL_STATE(198)] = 6151,
+  [SMALL_STATE(199)] = 6165,
+  [SMALL_STATE(200)] = 6179,
+  [SMALL_STATE(201)] = 6193,
+  [SMALL_STATE(202)] = 6205,
+  [SMALL_STATE(203)] = 6217,
+  [SMALL_STATE(204)] = 6226,
+  [SMALL_STATE(205)] = 6239,
+  [SMALL_STATE(206)] = 6248,
+  [SMALL_STATE(207)] = 6257,
+  [SMALL_STATE(208)] = 6266,
+  [SMALL_STATE(209)] = 6279,
+  [SMALL_STATE(210)] = 6288,
+  [SMALL_STATE(211)] = 6297,
+  [SMALL_STATE(212)] = 6310,
+  [SMALL_STATE(213)] = 6323,
+  [SMALL_STATE(214)] = 6332,
+  [SMALL_STATE(215)] = 6345,
+  [SMALL_STATE(216)] = 6358,
+  [SMALL_STATE(217)] = 6368,
+  [SMALL_STATE(218)] = 6378,
+  [SMALL_STATE(219)] = 6388,
+  [SMALL_STATE(220)] = 6398,
+  [SMALL_STATE(221)] = 6408,
+  [SMALL_STATE(222)] = 6418,
+  [SMALL_STATE(223)] = 6428,
+  [SMALL_STATE(224)] = 6438,
+  [SMALL_STATE(225)] = 6448,
+  [SMALL_STATE(226)] = 6458,
+  [SMALL_STATE(227)] = 6468,
+  [SMALL_STATE(228)] = 6478,
+  [SMALL_STATE(229)] = 6485,
+  [SMALL_STATE(230)] = 6492,
+  [SMALL_STATE(231)] = 6499,
+  [SMALL_STATE(232)] = 6506,
+  [SMALL_STATE(233)] = 6513,
+  [SMALL_STATE(234)] = 6520,
+  [SMALL_STATE(235)] = 6527,
+  [SMALL_STATE(236)] = 6534,
+  [SMALL_STATE(237)] = 6541,
+  [SMALL_STATE(238)] = 6548,
+  [SMALL_STATE(239)] = 6555,
+  [SMALL_STATE(240)] = 6562,
+  [SMALL_STATE(241)] = 6569,
+  [SMALL_STATE(242)] = 6576,
+  [SMALL_STATE(243)] = 6583,
+  [SMALL_STATE(244)] = 6590,
+  [SMALL_STATE(245)] = 6597,
+  [SMALL_STATE(246)] = 6604,
+  [SMALL_STATE(247)] = 6611,
+  [SMALL_STATE(248)] = 6618,
+  [SMALL_STATE(249)] = 6625,
+  [SMALL_STATE(250)] = 6632,
+  [SMALL_STATE(251)] = 6639,
+  [SMALL_STATE(252)] = 6646,
+  [SMALL_STATE(253)] = 6653,
+  [SMALL_STATE(254)] = 6660,
+  [SMALL_STATE(255)] = 6667,
+  [SMALL_STATE(256)] = 6674,
 };
 
 static const TSParseActionEntry ts_parse_actions[] = {
@@ -7929,376 +6928,321 @@ static const TSParseActionEntry ts_parse_actions[] = {
   [1] = {.entry = {.count = 1, .reusable = false}}, RECOVER(),
   [3] = {.entry = {.count = 1, .reusable = false}}, SHIFT_EXTRA(),
   [5] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_document, 0, 0, 0),
-  [7] = {.entry = {.count = 1, .reusable = true}}, SHIFT(193),
-  [9] = {.entry = {.count = 1, .reusable = false}}, SHIFT(85),
-  [11] = {.entry = {.count = 1, .reusable = true}}, SHIFT(16),
-  [13] = {.entry = {.count = 1, .reusable = true}}, SHIFT(2),
-  [15] = {.entry = {.count = 1, .reusable = false}}, SHIFT(295),
-  [17] = {.entry = {.count = 1, .reusable = true}}, SHIFT(11),
-  [19] = {.entry = {.count = 1, .reusable = true}}, SHIFT(240),
-  [21] = {.entry = {.count = 1, .reusable = true}}, SHIFT(261),
-  [23] = {.entry = {.count = 1, .reusable = true}}, SHIFT(171),
-  [25] = {.entry = {.count = 1, .reusable = true}}, SHIFT(70),
-  [27] = {.entry = {.count = 1, .reusable = true}}, SHIFT(204),
-  [29] = {.entry = {.count = 1, .reusable = true}}, SHIFT(174),
-  [31] = {.entry = {.count = 1, .reusable = false}}, SHIFT(84),
-  [33] = {.entry = {.count = 1, .reusable = true}}, SHIFT(20),
-  [35] = {.entry = {.count = 1, .reusable = true}}, SHIFT(8),
-  [37] = {.entry = {.count = 1, .reusable = true}}, SHIFT(37),
-  [39] = {.entry = {.count = 1, .reusable = true}}, SHIFT(230),
-  [41] = {.entry = {.count = 1, .reusable = true}}, SHIFT(266),
-  [43] = {.entry = {.count = 1, .reusable = true}}, SHIFT(130),
-  [45] = {.entry = {.count = 1, .reusable = true}}, SHIFT(72),
-  [47] = {.entry = {.count = 1, .reusable = true}}, SHIFT(208),
-  [49] = {.entry = {.count = 1, .reusable = true}}, SHIFT(231),
-  [51] = {.entry = {.count = 1, .reusable = true}}, SHIFT(173),
-  [53] = {.entry = {.count = 1, .reusable = true}}, SHIFT(108),
-  [55] = {.entry = {.count = 1, .reusable = true}}, SHIFT(122),
-  [57] = {.entry = {.count = 1, .reusable = true}}, SHIFT(138),
-  [59] = {.entry = {.count = 1, .reusable = true}}, SHIFT(151),
-  [61] = {.entry = {.count = 1, .reusable = true}}, SHIFT(249),
-  [63] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_document, 1, 0, 0),
-  [65] = {.entry = {.count = 1, .reusable = true}}, SHIFT(86),
-  [67] = {.entry = {.count = 1, .reusable = false}}, SHIFT(215),
-  [69] = {.entry = {.count = 1, .reusable = false}}, SHIFT(210),
-  [71] = {.entry = {.count = 1, .reusable = false}}, SHIFT(88),
-  [73] = {.entry = {.count = 1, .reusable = false}}, SHIFT(17),
-  [75] = {.entry = {.count = 1, .reusable = false}}, SHIFT(6),
-  [77] = {.entry = {.count = 1, .reusable = false}}, SHIFT(81),
-  [79] = {.entry = {.count = 1, .reusable = true}}, SHIFT(81),
-  [81] = {.entry = {.count = 1, .reusable = true}}, SHIFT(258),
-  [83] = {.entry = {.count = 1, .reusable = true}}, SHIFT(259),
-  [85] = {.entry = {.count = 1, .reusable = true}}, SHIFT(98),
-  [87] = {.entry = {.count = 1, .reusable = true}}, SHIFT(71),
-  [89] = {.entry = {.count = 1, .reusable = false}}, SHIFT(121),
-  [91] = {.entry = {.count = 1, .reusable = false}}, SHIFT(19),
-  [93] = {.entry = {.count = 1, .reusable = true}}, SHIFT(19),
-  [95] = {.entry = {.count = 1, .reusable = false}}, SHIFT(94),
-  [97] = {.entry = {.count = 1, .reusable = false}}, SHIFT(163),
-  [99] = {.entry = {.count = 1, .reusable = false}}, SHIFT(166),
-  [101] = {.entry = {.count = 1, .reusable = false}}, SHIFT(15),
-  [103] = {.entry = {.count = 1, .reusable = true}}, SHIFT(15),
-  [105] = {.entry = {.count = 1, .reusable = false}}, SHIFT(107),
-  [107] = {.entry = {.count = 1, .reusable = false}}, SHIFT(18),
-  [109] = {.entry = {.count = 1, .reusable = true}}, SHIFT(18),
-  [111] = {.entry = {.count = 1, .reusable = false}}, SHIFT(117),
-  [113] = {.entry = {.count = 1, .reusable = false}}, SHIFT(127),
-  [115] = {.entry = {.count = 1, .reusable = false}}, SHIFT(137),
-  [117] = {.entry = {.count = 1, .reusable = false}}, SHIFT(22),
-  [119] = {.entry = {.count = 1, .reusable = true}}, SHIFT(22),
-  [121] = {.entry = {.count = 1, .reusable = false}}, SHIFT(170),
-  [123] = {.entry = {.count = 1, .reusable = false}}, SHIFT(14),
-  [125] = {.entry = {.count = 1, .reusable = true}}, SHIFT(14),
-  [127] = {.entry = {.count = 1, .reusable = false}}, SHIFT(146),
-  [129] = {.entry = {.count = 1, .reusable = false}}, SHIFT(150),
-  [131] = {.entry = {.count = 1, .reusable = false}}, SHIFT(25),
-  [133] = {.entry = {.count = 1, .reusable = true}}, SHIFT(25),
-  [135] = {.entry = {.count = 1, .reusable = false}}, SHIFT(156),
-  [137] = {.entry = {.count = 1, .reusable = false}}, SHIFT(229),
-  [139] = {.entry = {.count = 1, .reusable = false}}, SHIFT(28),
-  [141] = {.entry = {.count = 1, .reusable = true}}, SHIFT(28),
-  [143] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_document, 2, 0, 0),
-  [145] = {.entry = {.count = 1, .reusable = false}}, SHIFT(243),
-  [147] = {.entry = {.count = 1, .reusable = false}}, SHIFT(248),
-  [149] = {.entry = {.count = 1, .reusable = false}}, SHIFT(31),
-  [151] = {.entry = {.count = 1, .reusable = true}}, SHIFT(31),
-  [153] = {.entry = {.count = 1, .reusable = true}}, REDUCE(aux_sym_document_repeat2, 2, 0, 0),
-  [155] = {.entry = {.count = 2, .reusable = true}}, REDUCE(aux_sym_document_repeat2, 2, 0, 0), SHIFT_REPEAT(193),
-  [158] = {.entry = {.count = 2, .reusable = false}}, REDUCE(aux_sym_document_repeat2, 2, 0, 0), SHIFT_REPEAT(85),
-  [161] = {.entry = {.count = 2, .reusable = true}}, REDUCE(aux_sym_document_repeat2, 2, 0, 0), SHIFT_REPEAT(16),
-  [164] = {.entry = {.count = 2, .reusable = true}}, REDUCE(aux_sym_document_repeat2, 2, 0, 0), SHIFT_REPEAT(2),
-  [167] = {.entry = {.count = 2, .reusable = false}}, REDUCE(aux_sym_document_repeat2, 2, 0, 0), SHIFT_REPEAT(295),
-  [170] = {.entry = {.count = 2, .reusable = true}}, REDUCE(aux_sym_document_repeat2, 2, 0, 0), SHIFT_REPEAT(240),
-  [173] = {.entry = {.count = 2, .reusable = true}}, REDUCE(aux_sym_document_repeat2, 2, 0, 0), SHIFT_REPEAT(261),
-  [176] = {.entry = {.count = 2, .reusable = true}}, REDUCE(aux_sym_document_repeat2, 2, 0, 0), SHIFT_REPEAT(171),
-  [179] = {.entry = {.count = 2, .reusable = true}}, REDUCE(aux_sym_document_repeat2, 2, 0, 0), SHIFT_REPEAT(70),
-  [182] = {.entry = {.count = 1, .reusable = false}}, SHIFT(253),
-  [184] = {.entry = {.count = 1, .reusable = false}}, SHIFT(206),
-  [186] = {.entry = {.count = 1, .reusable = false}}, SHIFT(12),
-  [188] = {.entry = {.count = 1, .reusable = true}}, SHIFT(12),
-  [190] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym__newline_separated, 3, 0, 0),
-  [192] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym__newline_separated, 5, 0, 0),
-  [194] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym__newline_separated, 4, 0, 0),
-  [196] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym__newline_separated, 2, 0, 0),
-  [198] = {.entry = {.count = 1, .reusable = true}}, SHIFT(200),
-  [200] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_entry, 1, 0, 1),
-  [202] = {.entry = {.count = 1, .reusable = false}}, SHIFT(198),
-  [204] = {.entry = {.count = 1, .reusable = true}}, SHIFT(26),
-  [206] = {.entry = {.count = 1, .reusable = true}}, SHIFT(4),
-  [208] = {.entry = {.count = 1, .reusable = true}}, SHIFT(244),
-  [210] = {.entry = {.count = 1, .reusable = true}}, SHIFT(264),
-  [212] = {.entry = {.count = 1, .reusable = true}}, SHIFT(221),
-  [214] = {.entry = {.count = 1, .reusable = true}}, SHIFT(184),
-  [216] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym_entry, 1, 0, 1),
-  [218] = {.entry = {.count = 1, .reusable = true}}, SHIFT(196),
-  [220] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym_expr, 1, 0, 2),
-  [222] = {.entry = {.count = 1, .reusable = true}}, SHIFT(23),
-  [224] = {.entry = {.count = 1, .reusable = true}}, SHIFT(9),
-  [226] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_expr, 1, 0, 2),
-  [228] = {.entry = {.count = 1, .reusable = true}}, SHIFT(272),
-  [230] = {.entry = {.count = 1, .reusable = true}}, SHIFT(139),
-  [232] = {.entry = {.count = 1, .reusable = true}}, SHIFT(215),
-  [234] = {.entry = {.count = 1, .reusable = true}}, SHIFT(213),
-  [236] = {.entry = {.count = 1, .reusable = true}}, SHIFT(17),
-  [238] = {.entry = {.count = 1, .reusable = true}}, SHIFT(6),
-  [240] = {.entry = {.count = 1, .reusable = true}}, SHIFT(195),
-  [242] = {.entry = {.count = 1, .reusable = true}}, SHIFT(13),
-  [244] = {.entry = {.count = 1, .reusable = true}}, SHIFT(7),
-  [246] = {.entry = {.count = 1, .reusable = true}}, SHIFT(271),
-  [248] = {.entry = {.count = 1, .reusable = true}}, SHIFT(109),
-  [250] = {.entry = {.count = 1, .reusable = true}}, SHIFT(117),
-  [252] = {.entry = {.count = 1, .reusable = true}}, SHIFT(124),
-  [254] = {.entry = {.count = 1, .reusable = true}}, SHIFT(176),
-  [256] = {.entry = {.count = 1, .reusable = true}}, SHIFT(127),
-  [258] = {.entry = {.count = 1, .reusable = true}}, SHIFT(129),
-  [260] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym__comma_separated, 2, 0, 0),
-  [262] = {.entry = {.count = 1, .reusable = true}}, SHIFT(146),
-  [264] = {.entry = {.count = 1, .reusable = true}}, SHIFT(163),
-  [266] = {.entry = {.count = 1, .reusable = true}}, SHIFT(153),
-  [268] = {.entry = {.count = 1, .reusable = true}}, SHIFT(94),
-  [270] = {.entry = {.count = 1, .reusable = true}}, SHIFT(156),
-  [272] = {.entry = {.count = 1, .reusable = true}}, SHIFT(158),
-  [274] = {.entry = {.count = 1, .reusable = true}}, SHIFT(243),
-  [276] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym__comma_separated, 3, 0, 0),
-  [278] = {.entry = {.count = 1, .reusable = true}}, SHIFT(97),
-  [280] = {.entry = {.count = 1, .reusable = true}}, SHIFT(251),
-  [282] = {.entry = {.count = 1, .reusable = true}}, SHIFT(253),
-  [284] = {.entry = {.count = 1, .reusable = true}}, SHIFT(255),
-  [286] = {.entry = {.count = 1, .reusable = true}}, SHIFT(216),
-  [288] = {.entry = {.count = 1, .reusable = true}}, SHIFT(21),
-  [290] = {.entry = {.count = 1, .reusable = true}}, SHIFT(5),
-  [292] = {.entry = {.count = 1, .reusable = true}}, SHIFT(260),
-  [294] = {.entry = {.count = 1, .reusable = true}}, SHIFT(99),
-  [296] = {.entry = {.count = 1, .reusable = true}}, SHIFT(210),
-  [298] = {.entry = {.count = 2, .reusable = true}}, REDUCE(aux_sym_immediate_sequence_repeat2, 2, 0, 0), SHIFT_REPEAT(215),
-  [301] = {.entry = {.count = 1, .reusable = true}}, REDUCE(aux_sym_immediate_sequence_repeat2, 2, 0, 0),
-  [303] = {.entry = {.count = 2, .reusable = false}}, REDUCE(aux_sym_immediate_sequence_repeat2, 2, 0, 0), SHIFT_REPEAT(88),
-  [306] = {.entry = {.count = 2, .reusable = true}}, REDUCE(aux_sym_immediate_sequence_repeat2, 2, 0, 0), SHIFT_REPEAT(17),
-  [309] = {.entry = {.count = 2, .reusable = true}}, REDUCE(aux_sym_immediate_sequence_repeat2, 2, 0, 0), SHIFT_REPEAT(6),
-  [312] = {.entry = {.count = 2, .reusable = true}}, REDUCE(aux_sym_immediate_sequence_repeat2, 2, 0, 0), SHIFT_REPEAT(258),
-  [315] = {.entry = {.count = 2, .reusable = true}}, REDUCE(aux_sym_immediate_sequence_repeat2, 2, 0, 0), SHIFT_REPEAT(259),
-  [318] = {.entry = {.count = 2, .reusable = true}}, REDUCE(aux_sym_immediate_sequence_repeat2, 2, 0, 0), SHIFT_REPEAT(98),
-  [321] = {.entry = {.count = 2, .reusable = true}}, REDUCE(aux_sym_immediate_sequence_repeat2, 2, 0, 0), SHIFT_REPEAT(71),
-  [324] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_tag, 1, 0, 0),
-  [326] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym_tag, 1, 0, 0),
-  [328] = {.entry = {.count = 1, .reusable = true}}, SHIFT(190),
-  [330] = {.entry = {.count = 1, .reusable = true}}, SHIFT(29),
-  [332] = {.entry = {.count = 1, .reusable = true}}, SHIFT(10),
-  [334] = {.entry = {.count = 1, .reusable = true}}, SHIFT_EXTRA(),
-  [336] = {.entry = {.count = 1, .reusable = true}}, SHIFT(262),
-  [338] = {.entry = {.count = 1, .reusable = true}}, SHIFT(232),
-  [340] = {.entry = {.count = 1, .reusable = false}}, REDUCE(aux_sym_immediate_sequence_repeat2, 1, 0, 0),
-  [342] = {.entry = {.count = 1, .reusable = false}}, SHIFT(77),
-  [344] = {.entry = {.count = 1, .reusable = true}}, SHIFT(77),
-  [346] = {.entry = {.count = 1, .reusable = true}}, REDUCE(aux_sym_immediate_sequence_repeat2, 1, 0, 0),
-  [348] = {.entry = {.count = 1, .reusable = true}}, REDUCE(aux_sym_attributes_repeat1, 2, 0, 0),
-  [350] = {.entry = {.count = 2, .reusable = false}}, REDUCE(aux_sym_attributes_repeat1, 2, 0, 0), SHIFT_REPEAT(285),
-  [353] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_attributes, 1, 0, 0),
-  [355] = {.entry = {.count = 2, .reusable = false}}, REDUCE(sym_attributes, 1, 0, 0), SHIFT(285),
-  [358] = {.entry = {.count = 1, .reusable = false}}, REDUCE(aux_sym_immediate_sequence_repeat2, 2, 0, 0),
-  [360] = {.entry = {.count = 1, .reusable = false}}, REDUCE(aux_sym_attributes_repeat1, 2, 0, 0),
-  [362] = {.entry = {.count = 2, .reusable = false}}, REDUCE(aux_sym_attributes_repeat1, 2, 0, 0), SHIFT_REPEAT(287),
-  [365] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym_attributes, 1, 0, 0),
-  [367] = {.entry = {.count = 2, .reusable = false}}, REDUCE(sym_attributes, 1, 0, 0), SHIFT(287),
-  [370] = {.entry = {.count = 2, .reusable = false}}, REDUCE(aux_sym_attributes_repeat1, 2, 0, 0), SHIFT_REPEAT(300),
-  [373] = {.entry = {.count = 1, .reusable = false}}, REDUCE(aux_sym_immediate_sequence_repeat1, 2, 0, 0),
-  [375] = {.entry = {.count = 2, .reusable = false}}, REDUCE(aux_sym_immediate_sequence_repeat1, 2, 0, 0), SHIFT_REPEAT(81),
-  [378] = {.entry = {.count = 2, .reusable = true}}, REDUCE(aux_sym_immediate_sequence_repeat1, 2, 0, 0), SHIFT_REPEAT(81),
-  [381] = {.entry = {.count = 1, .reusable = true}}, REDUCE(aux_sym_immediate_sequence_repeat1, 2, 0, 0),
-  [383] = {.entry = {.count = 2, .reusable = false}}, REDUCE(sym_attributes, 1, 0, 0), SHIFT(300),
-  [386] = {.entry = {.count = 1, .reusable = true}}, REDUCE(aux_sym_document_repeat2, 1, 0, 0),
-  [388] = {.entry = {.count = 1, .reusable = false}}, REDUCE(aux_sym_document_repeat2, 1, 0, 0),
-  [390] = {.entry = {.count = 1, .reusable = true}}, SHIFT(90),
-  [392] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_scalar, 1, 0, 0),
-  [394] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym_scalar, 1, 0, 0),
-  [396] = {.entry = {.count = 1, .reusable = true}}, SHIFT(185),
-  [398] = {.entry = {.count = 1, .reusable = true}}, SHIFT(183),
-  [400] = {.entry = {.count = 1, .reusable = true}}, REDUCE(aux_sym_document_repeat1, 2, 0, 0),
-  [402] = {.entry = {.count = 1, .reusable = false}}, REDUCE(aux_sym_document_repeat1, 2, 0, 0),
-  [404] = {.entry = {.count = 2, .reusable = true}}, REDUCE(aux_sym_document_repeat1, 2, 0, 0), SHIFT_REPEAT(86),
-  [407] = {.entry = {.count = 1, .reusable = true}}, REDUCE(aux_sym_document_repeat2, 3, 0, 0),
-  [409] = {.entry = {.count = 1, .reusable = false}}, REDUCE(aux_sym_document_repeat2, 3, 0, 0),
-  [411] = {.entry = {.count = 1, .reusable = false}}, SHIFT(182),
-  [413] = {.entry = {.count = 1, .reusable = false}}, REDUCE(aux_sym_document_repeat2, 2, 0, 0),
-  [415] = {.entry = {.count = 1, .reusable = true}}, SHIFT(87),
-  [417] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym__immediate_raw_scalar, 2, 0, 7),
-  [419] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym__immediate_raw_scalar, 2, 0, 7),
-  [421] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym__immediate_raw_scalar, 3, 0, 8),
-  [423] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym__immediate_raw_scalar, 3, 0, 8),
-  [425] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_immediate_quoted_scalar_inner, 3, 0, 0),
-  [427] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym_immediate_quoted_scalar_inner, 3, 0, 0),
-  [429] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_immediate_sequence, 3, 0, 0),
-  [431] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym_immediate_sequence, 3, 0, 0),
-  [433] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_immediate_object, 3, 0, 0),
-  [435] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym_immediate_object, 3, 0, 0),
-  [437] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_entry, 2, 0, 4),
-  [439] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym_entry, 2, 0, 4),
-  [441] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_immediate_sequence, 4, 0, 0),
-  [443] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym_immediate_sequence, 4, 0, 0),
-  [445] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym_unit, 1, 0, 0),
-  [447] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_unit, 1, 0, 0),
-  [449] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_immediate_unit, 1, 0, 0),
-  [451] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym_immediate_unit, 1, 0, 0),
-  [453] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym_expr, 1, 0, 3),
-  [455] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_expr, 1, 0, 3),
-  [457] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym_expr, 1, 0, 0),
-  [459] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_expr, 1, 0, 0),
-  [461] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_expr, 2, 0, 5),
-  [463] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym_expr, 2, 0, 5),
-  [465] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym_heredoc, 2, 0, 0),
-  [467] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_heredoc, 2, 0, 0),
-  [469] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym_raw_scalar, 2, 0, 0),
-  [471] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_raw_scalar, 2, 0, 0),
-  [473] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym_quoted_scalar, 2, 0, 0),
-  [475] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_quoted_scalar, 2, 0, 0),
-  [477] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym_sequence, 2, 0, 0),
-  [479] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_sequence, 2, 0, 0),
-  [481] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym_object, 2, 0, 0),
-  [483] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_object, 2, 0, 0),
-  [485] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym__immediate_quoted_scalar, 1, 0, 0),
-  [487] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym__immediate_quoted_scalar, 1, 0, 0),
-  [489] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym_heredoc, 3, 0, 0),
-  [491] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_heredoc, 3, 0, 0),
-  [493] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym_raw_scalar, 3, 0, 0),
-  [495] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_raw_scalar, 3, 0, 0),
-  [497] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym_quoted_scalar, 3, 0, 0),
-  [499] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_quoted_scalar, 3, 0, 0),
-  [501] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym_attribute, 3, 0, 6),
-  [503] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_attribute, 3, 0, 6),
-  [505] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym_sequence, 3, 0, 0),
-  [507] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_sequence, 3, 0, 0),
-  [509] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym_object, 3, 0, 0),
-  [511] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_object, 3, 0, 0),
-  [513] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym_immediate_quoted_scalar_inner, 2, 0, 0),
-  [515] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_immediate_quoted_scalar_inner, 2, 0, 0),
-  [517] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym_immediate_sequence, 2, 0, 0),
-  [519] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_immediate_sequence, 2, 0, 0),
-  [521] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym_immediate_object, 2, 0, 0),
-  [523] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_immediate_object, 2, 0, 0),
-  [525] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym_heredoc, 4, 0, 0),
-  [527] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_heredoc, 4, 0, 0),
-  [529] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym_sequence, 4, 0, 0),
-  [531] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_sequence, 4, 0, 0),
-  [533] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_doc_comment, 1, 0, 0),
-  [535] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym_doc_comment, 1, 0, 0),
-  [537] = {.entry = {.count = 1, .reusable = true}}, REDUCE(aux_sym_doc_comment_repeat1, 2, 0, 0),
-  [539] = {.entry = {.count = 1, .reusable = false}}, REDUCE(aux_sym_doc_comment_repeat1, 2, 0, 0),
-  [541] = {.entry = {.count = 2, .reusable = false}}, REDUCE(aux_sym_doc_comment_repeat1, 2, 0, 0), SHIFT_REPEAT(295),
-  [544] = {.entry = {.count = 1, .reusable = true}}, REDUCE(aux_sym_doc_comment_repeat1, 3, 0, 0),
-  [546] = {.entry = {.count = 1, .reusable = false}}, REDUCE(aux_sym_doc_comment_repeat1, 3, 0, 0),
-  [548] = {.entry = {.count = 1, .reusable = false}}, SHIFT(116),
-  [550] = {.entry = {.count = 1, .reusable = false}}, SHIFT(162),
-  [552] = {.entry = {.count = 1, .reusable = false}}, SHIFT(145),
-  [554] = {.entry = {.count = 1, .reusable = true}}, SHIFT(214),
-  [556] = {.entry = {.count = 1, .reusable = false}}, SHIFT(201),
-  [558] = {.entry = {.count = 1, .reusable = true}}, SHIFT(32),
-  [560] = {.entry = {.count = 1, .reusable = true}}, SHIFT(3),
-  [562] = {.entry = {.count = 1, .reusable = false}}, SHIFT(289),
-  [564] = {.entry = {.count = 2, .reusable = false}}, REDUCE(aux_sym_attributes_repeat1, 2, 0, 0), SHIFT_REPEAT(289),
-  [567] = {.entry = {.count = 2, .reusable = true}}, REDUCE(sym__newline_separated, 1, 0, 0), REDUCE(sym__comma_separated, 1, 0, 0),
-  [570] = {.entry = {.count = 1, .reusable = true}}, SHIFT(49),
-  [572] = {.entry = {.count = 1, .reusable = true}}, SHIFT(36),
-  [574] = {.entry = {.count = 1, .reusable = false}}, SHIFT(211),
-  [576] = {.entry = {.count = 1, .reusable = false}}, SHIFT(247),
-  [578] = {.entry = {.count = 1, .reusable = false}}, SHIFT(199),
-  [580] = {.entry = {.count = 1, .reusable = false}}, SHIFT(161),
-  [582] = {.entry = {.count = 1, .reusable = false}}, SHIFT(144),
-  [584] = {.entry = {.count = 1, .reusable = false}}, SHIFT(191),
-  [586] = {.entry = {.count = 1, .reusable = false}}, SHIFT(165),
-  [588] = {.entry = {.count = 1, .reusable = false}}, SHIFT(126),
-  [590] = {.entry = {.count = 1, .reusable = false}}, SHIFT(194),
-  [592] = {.entry = {.count = 1, .reusable = false}}, SHIFT(120),
-  [594] = {.entry = {.count = 1, .reusable = false}}, SHIFT(197),
-  [596] = {.entry = {.count = 1, .reusable = false}}, SHIFT(149),
-  [598] = {.entry = {.count = 1, .reusable = false}}, SHIFT(155),
-  [600] = {.entry = {.count = 1, .reusable = true}}, SHIFT(186),
-  [602] = {.entry = {.count = 2, .reusable = false}}, REDUCE(aux_sym_immediate_quoted_scalar_inner_repeat1, 2, 0, 0), SHIFT_REPEAT(199),
-  [605] = {.entry = {.count = 1, .reusable = false}}, REDUCE(aux_sym_immediate_quoted_scalar_inner_repeat1, 2, 0, 0),
-  [607] = {.entry = {.count = 1, .reusable = false}}, SHIFT(203),
-  [609] = {.entry = {.count = 1, .reusable = false}}, SHIFT(228),
-  [611] = {.entry = {.count = 1, .reusable = false}}, SHIFT(241),
-  [613] = {.entry = {.count = 1, .reusable = false}}, SHIFT(192),
-  [615] = {.entry = {.count = 1, .reusable = false}}, SHIFT(136),
-  [617] = {.entry = {.count = 1, .reusable = false}}, SHIFT(93),
-  [619] = {.entry = {.count = 1, .reusable = false}}, SHIFT(115),
-  [621] = {.entry = {.count = 1, .reusable = false}}, SHIFT(252),
-  [623] = {.entry = {.count = 1, .reusable = false}}, SHIFT(217),
-  [625] = {.entry = {.count = 1, .reusable = false}}, SHIFT(202),
-  [627] = {.entry = {.count = 1, .reusable = false}}, SHIFT(207),
-  [629] = {.entry = {.count = 1, .reusable = false}}, SHIFT(106),
-  [631] = {.entry = {.count = 1, .reusable = false}}, SHIFT(205),
-  [633] = {.entry = {.count = 1, .reusable = false}}, SHIFT(169),
-  [635] = {.entry = {.count = 1, .reusable = false}}, SHIFT(209),
-  [637] = {.entry = {.count = 1, .reusable = true}}, SHIFT(35),
-  [639] = {.entry = {.count = 1, .reusable = true}}, REDUCE(aux_sym__comma_separated_repeat1, 2, 0, 0),
-  [641] = {.entry = {.count = 2, .reusable = true}}, REDUCE(aux_sym__comma_separated_repeat1, 2, 0, 0), SHIFT_REPEAT(69),
-  [644] = {.entry = {.count = 1, .reusable = true}}, REDUCE(aux_sym__newline_separated_repeat1, 2, 0, 0),
-  [646] = {.entry = {.count = 2, .reusable = true}}, REDUCE(aux_sym__newline_separated_repeat1, 2, 0, 0), SHIFT_REPEAT(38),
-  [649] = {.entry = {.count = 1, .reusable = true}}, SHIFT(265),
-  [651] = {.entry = {.count = 1, .reusable = true}}, SHIFT(297),
-  [653] = {.entry = {.count = 1, .reusable = true}}, SHIFT(134),
-  [655] = {.entry = {.count = 1, .reusable = true}}, SHIFT(33),
-  [657] = {.entry = {.count = 1, .reusable = true}}, SHIFT(57),
-  [659] = {.entry = {.count = 1, .reusable = true}}, SHIFT(270),
-  [661] = {.entry = {.count = 1, .reusable = true}}, SHIFT(281),
-  [663] = {.entry = {.count = 1, .reusable = true}}, SHIFT(148),
-  [665] = {.entry = {.count = 1, .reusable = true}}, SHIFT(34),
-  [667] = {.entry = {.count = 1, .reusable = true}}, SHIFT(268),
-  [669] = {.entry = {.count = 1, .reusable = true}}, SHIFT(278),
-  [671] = {.entry = {.count = 1, .reusable = true}}, SHIFT(226),
-  [673] = {.entry = {.count = 1, .reusable = true}}, SHIFT(267),
-  [675] = {.entry = {.count = 1, .reusable = true}}, SHIFT(282),
-  [677] = {.entry = {.count = 1, .reusable = true}}, SHIFT(104),
-  [679] = {.entry = {.count = 1, .reusable = true}}, SHIFT(303),
-  [681] = {.entry = {.count = 1, .reusable = true}}, SHIFT(105),
-  [683] = {.entry = {.count = 1, .reusable = true}}, SHIFT(301),
-  [685] = {.entry = {.count = 1, .reusable = true}}, SHIFT(168),
-  [687] = {.entry = {.count = 1, .reusable = true}}, SHIFT(291),
-  [689] = {.entry = {.count = 1, .reusable = true}}, SHIFT(164),
-  [691] = {.entry = {.count = 1, .reusable = true}}, SHIFT(292),
-  [693] = {.entry = {.count = 1, .reusable = true}}, SHIFT(246),
-  [695] = {.entry = {.count = 1, .reusable = true}}, SHIFT(279),
-  [697] = {.entry = {.count = 1, .reusable = true}}, SHIFT(227),
-  [699] = {.entry = {.count = 1, .reusable = true}}, SHIFT(286),
-  [701] = {.entry = {.count = 1, .reusable = true}}, SHIFT(142),
-  [703] = {.entry = {.count = 1, .reusable = true}}, SHIFT(302),
-  [705] = {.entry = {.count = 1, .reusable = true}}, SHIFT(135),
-  [707] = {.entry = {.count = 1, .reusable = true}}, SHIFT(288),
-  [709] = {.entry = {.count = 1, .reusable = true}}, SHIFT(113),
-  [711] = {.entry = {.count = 1, .reusable = true}}, SHIFT(290),
-  [713] = {.entry = {.count = 1, .reusable = true}}, SHIFT(236),
-  [715] = {.entry = {.count = 1, .reusable = true}}, REDUCE(aux_sym__newline_separated_repeat1, 3, 0, 0),
-  [717] = {.entry = {.count = 1, .reusable = true}}, SHIFT(276),
-  [719] = {.entry = {.count = 1, .reusable = true}}, SHIFT(159),
-  [721] = {.entry = {.count = 1, .reusable = true}}, SHIFT(293),
-  [723] = {.entry = {.count = 1, .reusable = true}}, SHIFT(119),
-  [725] = {.entry = {.count = 1, .reusable = true}}, SHIFT(274),
-  [727] = {.entry = {.count = 1, .reusable = true}}, SHIFT(91),
-  [729] = {.entry = {.count = 1, .reusable = true}}, SHIFT(154),
-  [731] = {.entry = {.count = 1, .reusable = true}}, SHIFT(181),
-  [733] = {.entry = {.count = 1, .reusable = true}}, SHIFT(175),
-  [735] = {.entry = {.count = 1, .reusable = true}}, SHIFT(147),
-  [737] = {.entry = {.count = 1, .reusable = true}}, SHIFT(237),
-  [739] = {.entry = {.count = 1, .reusable = true}}, SHIFT(128),
-  [741] = {.entry = {.count = 1, .reusable = true}}, SHIFT(167),
-  [743] = {.entry = {.count = 1, .reusable = true}}, SHIFT(245),
-  [745] = {.entry = {.count = 1, .reusable = true}}, SHIFT(152),
-  [747] = {.entry = {.count = 1, .reusable = true}}, SHIFT(182),
-  [749] = {.entry = {.count = 1, .reusable = true}}, SHIFT(123),
-  [751] = {.entry = {.count = 1, .reusable = true}}, SHIFT(250),
-  [753] = {.entry = {.count = 1, .reusable = true}}, SHIFT(160),
-  [755] = {.entry = {.count = 1, .reusable = true}}, SHIFT(218),
-  [757] = {.entry = {.count = 1, .reusable = true}}, SHIFT(125),
-  [759] = {.entry = {.count = 1, .reusable = true}}, SHIFT(95),
-  [761] = {.entry = {.count = 1, .reusable = false}}, SHIFT(275),
-  [763] = {.entry = {.count = 1, .reusable = true}}, SHIFT(254),
-  [765] = {.entry = {.count = 1, .reusable = true}},  ACCEPT_INPUT(),
-  [767] = {.entry = {.count = 1, .reusable = true}}, SHIFT(157),
-  [769] = {.entry = {.count = 1, .reusable = true}}, SHIFT(92),
-  [771] = {.entry = {.count = 1, .reusable = true}}, SHIFT(143),
-  [773] = {.entry = {.count = 1, .reusable = true}}, SHIFT(114),
-  [775] = {.entry = {.count = 1, .reusable = true}}, SHIFT(212),
-  [777] = {.entry = {.count = 1, .reusable = true}}, SHIFT(118),
+  [7] = {.entry = {.count = 1, .reusable = false}}, SHIFT(67),
+  [9] = {.entry = {.count = 1, .reusable = true}}, SHIFT(180),
+  [11] = {.entry = {.count = 1, .reusable = true}}, SHIFT(20),
+  [13] = {.entry = {.count = 1, .reusable = true}}, SHIFT(6),
+  [15] = {.entry = {.count = 1, .reusable = true}}, SHIFT(228),
+  [17] = {.entry = {.count = 1, .reusable = true}}, SHIFT(9),
+  [19] = {.entry = {.count = 1, .reusable = true}}, SHIFT(204),
+  [21] = {.entry = {.count = 1, .reusable = true}}, SHIFT(218),
+  [23] = {.entry = {.count = 1, .reusable = true}}, SHIFT(88),
+  [25] = {.entry = {.count = 1, .reusable = true}}, SHIFT(52),
+  [27] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym__object_body, 2, 0, 0),
+  [29] = {.entry = {.count = 1, .reusable = false}}, SHIFT(68),
+  [31] = {.entry = {.count = 1, .reusable = true}}, SHIFT(179),
+  [33] = {.entry = {.count = 1, .reusable = true}}, SHIFT(31),
+  [35] = {.entry = {.count = 1, .reusable = true}}, SHIFT(12),
+  [37] = {.entry = {.count = 1, .reusable = true}}, SHIFT(60),
+  [39] = {.entry = {.count = 1, .reusable = true}}, SHIFT(215),
+  [41] = {.entry = {.count = 1, .reusable = true}}, SHIFT(227),
+  [43] = {.entry = {.count = 1, .reusable = true}}, SHIFT(93),
+  [45] = {.entry = {.count = 1, .reusable = true}}, SHIFT(53),
+  [47] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym__object_body, 3, 0, 0),
+  [49] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym__object_body, 5, 0, 0),
+  [51] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym__object_body, 4, 0, 0),
+  [53] = {.entry = {.count = 1, .reusable = true}}, SHIFT(90),
+  [55] = {.entry = {.count = 1, .reusable = true}}, SHIFT(14),
+  [57] = {.entry = {.count = 1, .reusable = true}}, SHIFT(169),
+  [59] = {.entry = {.count = 1, .reusable = true}}, SHIFT(78),
+  [61] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_document, 1, 0, 0),
+  [63] = {.entry = {.count = 1, .reusable = true}}, SHIFT(136),
+  [65] = {.entry = {.count = 1, .reusable = true}}, SHIFT(124),
+  [67] = {.entry = {.count = 1, .reusable = true}}, SHIFT(106),
+  [69] = {.entry = {.count = 1, .reusable = true}}, SHIFT(181),
+  [71] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym__object_body, 1, 0, 0),
+  [73] = {.entry = {.count = 1, .reusable = true}}, SHIFT(111),
+  [75] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_document, 2, 0, 0),
+  [77] = {.entry = {.count = 1, .reusable = true}}, REDUCE(aux_sym_document_repeat3, 2, 0, 0),
+  [79] = {.entry = {.count = 2, .reusable = false}}, REDUCE(aux_sym_document_repeat3, 2, 0, 0), SHIFT_REPEAT(67),
+  [82] = {.entry = {.count = 2, .reusable = true}}, REDUCE(aux_sym_document_repeat3, 2, 0, 0), SHIFT_REPEAT(180),
+  [85] = {.entry = {.count = 2, .reusable = true}}, REDUCE(aux_sym_document_repeat3, 2, 0, 0), SHIFT_REPEAT(20),
+  [88] = {.entry = {.count = 2, .reusable = true}}, REDUCE(aux_sym_document_repeat3, 2, 0, 0), SHIFT_REPEAT(6),
+  [91] = {.entry = {.count = 2, .reusable = true}}, REDUCE(aux_sym_document_repeat3, 2, 0, 0), SHIFT_REPEAT(228),
+  [94] = {.entry = {.count = 2, .reusable = true}}, REDUCE(aux_sym_document_repeat3, 2, 0, 0), SHIFT_REPEAT(204),
+  [97] = {.entry = {.count = 2, .reusable = true}}, REDUCE(aux_sym_document_repeat3, 2, 0, 0), SHIFT_REPEAT(218),
+  [100] = {.entry = {.count = 2, .reusable = true}}, REDUCE(aux_sym_document_repeat3, 2, 0, 0), SHIFT_REPEAT(88),
+  [103] = {.entry = {.count = 2, .reusable = true}}, REDUCE(aux_sym_document_repeat3, 2, 0, 0), SHIFT_REPEAT(52),
+  [106] = {.entry = {.count = 1, .reusable = true}}, SHIFT(168),
+  [108] = {.entry = {.count = 1, .reusable = true}}, SHIFT_EXTRA(),
+  [110] = {.entry = {.count = 1, .reusable = true}}, SHIFT(30),
+  [112] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym__tagged_expr, 1, 0, 3),
+  [114] = {.entry = {.count = 1, .reusable = true}}, SHIFT(196),
+  [116] = {.entry = {.count = 1, .reusable = true}}, SHIFT(29),
+  [118] = {.entry = {.count = 1, .reusable = true}}, SHIFT(8),
+  [120] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym__tagged_expr, 1, 0, 3),
+  [122] = {.entry = {.count = 1, .reusable = true}}, SHIFT(219),
+  [124] = {.entry = {.count = 1, .reusable = true}}, SHIFT(112),
+  [126] = {.entry = {.count = 1, .reusable = true}}, SHIFT(214),
+  [128] = {.entry = {.count = 1, .reusable = true}}, SHIFT(79),
+  [130] = {.entry = {.count = 1, .reusable = true}}, SHIFT(22),
+  [132] = {.entry = {.count = 1, .reusable = true}}, SHIFT(87),
+  [134] = {.entry = {.count = 1, .reusable = true}}, SHIFT(70),
+  [136] = {.entry = {.count = 1, .reusable = true}}, SHIFT(143),
+  [138] = {.entry = {.count = 1, .reusable = true}}, SHIFT(184),
+  [140] = {.entry = {.count = 1, .reusable = true}}, SHIFT(25),
+  [142] = {.entry = {.count = 1, .reusable = true}}, SHIFT(11),
+  [144] = {.entry = {.count = 1, .reusable = true}}, SHIFT(216),
+  [146] = {.entry = {.count = 1, .reusable = true}}, SHIFT(107),
+  [148] = {.entry = {.count = 1, .reusable = true}}, SHIFT(208),
+  [150] = {.entry = {.count = 1, .reusable = true}}, SHIFT(118),
+  [152] = {.entry = {.count = 1, .reusable = true}}, SHIFT(123),
+  [154] = {.entry = {.count = 1, .reusable = true}}, SHIFT(26),
+  [156] = {.entry = {.count = 1, .reusable = true}}, SHIFT(130),
+  [158] = {.entry = {.count = 1, .reusable = true}}, SHIFT(193),
+  [160] = {.entry = {.count = 1, .reusable = true}}, SHIFT(28),
+  [162] = {.entry = {.count = 1, .reusable = true}}, SHIFT(163),
+  [164] = {.entry = {.count = 1, .reusable = true}}, SHIFT(76),
+  [166] = {.entry = {.count = 1, .reusable = true}}, SHIFT(21),
+  [168] = {.entry = {.count = 1, .reusable = true}}, SHIFT(175),
+  [170] = {.entry = {.count = 1, .reusable = true}}, SHIFT(105),
+  [172] = {.entry = {.count = 1, .reusable = true}}, SHIFT(24),
+  [174] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_entry, 1, 0, 1),
+  [176] = {.entry = {.count = 1, .reusable = false}}, SHIFT(183),
+  [178] = {.entry = {.count = 1, .reusable = true}}, SHIFT(189),
+  [180] = {.entry = {.count = 1, .reusable = true}}, SHIFT(27),
+  [182] = {.entry = {.count = 1, .reusable = true}}, SHIFT(13),
+  [184] = {.entry = {.count = 1, .reusable = true}}, SHIFT(212),
+  [186] = {.entry = {.count = 1, .reusable = true}}, SHIFT(222),
+  [188] = {.entry = {.count = 1, .reusable = true}}, SHIFT(201),
+  [190] = {.entry = {.count = 1, .reusable = true}}, SHIFT(145),
+  [192] = {.entry = {.count = 1, .reusable = true}}, SHIFT(202),
+  [194] = {.entry = {.count = 1, .reusable = true}}, SHIFT(126),
+  [196] = {.entry = {.count = 1, .reusable = true}}, SHIFT(81),
+  [198] = {.entry = {.count = 1, .reusable = true}}, SHIFT(92),
+  [200] = {.entry = {.count = 1, .reusable = true}}, SHIFT(132),
+  [202] = {.entry = {.count = 1, .reusable = true}}, REDUCE(aux_sym_immediate_sequence_repeat2, 2, 0, 0),
+  [204] = {.entry = {.count = 2, .reusable = false}}, REDUCE(aux_sym_immediate_sequence_repeat2, 2, 0, 0), SHIFT_REPEAT(68),
+  [207] = {.entry = {.count = 2, .reusable = true}}, REDUCE(aux_sym_immediate_sequence_repeat2, 2, 0, 0), SHIFT_REPEAT(179),
+  [210] = {.entry = {.count = 2, .reusable = true}}, REDUCE(aux_sym_immediate_sequence_repeat2, 2, 0, 0), SHIFT_REPEAT(31),
+  [213] = {.entry = {.count = 2, .reusable = true}}, REDUCE(aux_sym_immediate_sequence_repeat2, 2, 0, 0), SHIFT_REPEAT(12),
+  [216] = {.entry = {.count = 2, .reusable = true}}, REDUCE(aux_sym_immediate_sequence_repeat2, 2, 0, 0), SHIFT_REPEAT(215),
+  [219] = {.entry = {.count = 2, .reusable = true}}, REDUCE(aux_sym_immediate_sequence_repeat2, 2, 0, 0), SHIFT_REPEAT(227),
+  [222] = {.entry = {.count = 2, .reusable = true}}, REDUCE(aux_sym_immediate_sequence_repeat2, 2, 0, 0), SHIFT_REPEAT(93),
+  [225] = {.entry = {.count = 2, .reusable = true}}, REDUCE(aux_sym_immediate_sequence_repeat2, 2, 0, 0), SHIFT_REPEAT(53),
+  [228] = {.entry = {.count = 1, .reusable = true}}, SHIFT(171),
+  [230] = {.entry = {.count = 1, .reusable = true}}, SHIFT(194),
+  [232] = {.entry = {.count = 1, .reusable = true}}, SHIFT(18),
+  [234] = {.entry = {.count = 1, .reusable = true}}, SHIFT(7),
+  [236] = {.entry = {.count = 1, .reusable = true}}, SHIFT(223),
+  [238] = {.entry = {.count = 1, .reusable = true}}, SHIFT(185),
+  [240] = {.entry = {.count = 1, .reusable = true}}, SHIFT(211),
+  [242] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_tag, 1, 0, 0),
+  [244] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym_tag, 1, 0, 0),
+  [246] = {.entry = {.count = 1, .reusable = false}}, SHIFT(116),
+  [248] = {.entry = {.count = 1, .reusable = false}}, SHIFT(161),
+  [250] = {.entry = {.count = 1, .reusable = false}}, SHIFT(140),
+  [252] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_attributes, 1, 0, 0),
+  [254] = {.entry = {.count = 1, .reusable = false}}, SHIFT(256),
+  [256] = {.entry = {.count = 1, .reusable = false}}, REDUCE(aux_sym_document_repeat3, 2, 0, 0),
+  [258] = {.entry = {.count = 1, .reusable = true}}, SHIFT(64),
+  [260] = {.entry = {.count = 1, .reusable = false}}, SHIFT(242),
+  [262] = {.entry = {.count = 1, .reusable = true}}, REDUCE(aux_sym_document_repeat2, 2, 0, 0),
+  [264] = {.entry = {.count = 1, .reusable = false}}, REDUCE(aux_sym_document_repeat2, 2, 0, 0),
+  [266] = {.entry = {.count = 2, .reusable = true}}, REDUCE(aux_sym_document_repeat2, 2, 0, 0), SHIFT_REPEAT(60),
+  [269] = {.entry = {.count = 1, .reusable = true}}, SHIFT(62),
+  [271] = {.entry = {.count = 2, .reusable = true}}, REDUCE(aux_sym_document_repeat2, 2, 0, 0), SHIFT_REPEAT(62),
+  [274] = {.entry = {.count = 1, .reusable = true}}, REDUCE(aux_sym_document_repeat3, 1, 0, 0),
+  [276] = {.entry = {.count = 1, .reusable = false}}, REDUCE(aux_sym_document_repeat3, 1, 0, 0),
+  [278] = {.entry = {.count = 1, .reusable = true}}, SHIFT(61),
+  [280] = {.entry = {.count = 1, .reusable = true}}, REDUCE(aux_sym_document_repeat3, 3, 0, 0),
+  [282] = {.entry = {.count = 1, .reusable = false}}, REDUCE(aux_sym_document_repeat3, 3, 0, 0),
+  [284] = {.entry = {.count = 1, .reusable = true}}, REDUCE(aux_sym_attributes_repeat1, 2, 0, 0),
+  [286] = {.entry = {.count = 2, .reusable = false}}, REDUCE(aux_sym_attributes_repeat1, 2, 0, 0), SHIFT_REPEAT(256),
+  [289] = {.entry = {.count = 2, .reusable = false}}, REDUCE(aux_sym_attributes_repeat1, 2, 0, 0), SHIFT_REPEAT(242),
+  [292] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_scalar, 1, 0, 0),
+  [294] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym_scalar, 1, 0, 0),
+  [296] = {.entry = {.count = 1, .reusable = true}}, SHIFT(56),
+  [298] = {.entry = {.count = 1, .reusable = true}}, SHIFT(54),
+  [300] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_immediate_object, 3, 0, 0),
+  [302] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym_immediate_object, 3, 0, 0),
+  [304] = {.entry = {.count = 1, .reusable = true}}, REDUCE(aux_sym_immediate_sequence_repeat1, 2, 0, 0),
+  [306] = {.entry = {.count = 1, .reusable = false}}, REDUCE(aux_sym_immediate_sequence_repeat1, 2, 0, 0),
+  [308] = {.entry = {.count = 2, .reusable = true}}, REDUCE(aux_sym_immediate_sequence_repeat1, 2, 0, 0), SHIFT_REPEAT(70),
+  [311] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_object, 3, 0, 0),
+  [313] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym_object, 3, 0, 0),
+  [315] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_raw_scalar, 2, 0, 0),
+  [317] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym_raw_scalar, 2, 0, 0),
+  [319] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym__immediate_raw_scalar, 2, 0, 9),
+  [321] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym__immediate_raw_scalar, 2, 0, 9),
+  [323] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym__immediate_heredoc, 2, 0, 0),
+  [325] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym__immediate_heredoc, 2, 0, 0),
+  [327] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_heredoc, 2, 0, 0),
+  [329] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym_heredoc, 2, 0, 0),
+  [331] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_immediate_sequence, 2, 0, 0),
+  [333] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym_immediate_sequence, 2, 0, 0),
+  [335] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_quoted_scalar, 2, 0, 0),
+  [337] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym_quoted_scalar, 2, 0, 0),
+  [339] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_immediate_object, 2, 0, 0),
+  [341] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym_immediate_object, 2, 0, 0),
+  [343] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_sequence, 2, 0, 0),
+  [345] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym_sequence, 2, 0, 0),
+  [347] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_heredoc, 4, 0, 0),
+  [349] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym_heredoc, 4, 0, 0),
+  [351] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_sequence, 4, 0, 0),
+  [353] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym_sequence, 4, 0, 0),
+  [355] = {.entry = {.count = 1, .reusable = true}}, REDUCE(aux_sym_immediate_sequence_repeat2, 1, 0, 0),
+  [357] = {.entry = {.count = 1, .reusable = false}}, REDUCE(aux_sym_immediate_sequence_repeat2, 1, 0, 0),
+  [359] = {.entry = {.count = 1, .reusable = true}}, SHIFT(142),
+  [361] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_expr, 1, 0, 2),
+  [363] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym_expr, 1, 0, 2),
+  [365] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym__immediate_raw_scalar, 3, 0, 10),
+  [367] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym__immediate_raw_scalar, 3, 0, 10),
+  [369] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym__immediate_heredoc, 3, 0, 0),
+  [371] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym__immediate_heredoc, 3, 0, 0),
+  [373] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_immediate_quoted_scalar_inner, 3, 0, 0),
+  [375] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym_immediate_quoted_scalar_inner, 3, 0, 0),
+  [377] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_immediate_sequence, 3, 0, 0),
+  [379] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym_immediate_sequence, 3, 0, 0),
+  [381] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_unit, 1, 0, 0),
+  [383] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym_unit, 1, 0, 0),
+  [385] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_object, 2, 0, 0),
+  [387] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym_object, 2, 0, 0),
+  [389] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym__immediate_heredoc, 4, 0, 0),
+  [391] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym__immediate_heredoc, 4, 0, 0),
+  [393] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_immediate_sequence, 4, 0, 0),
+  [395] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym_immediate_sequence, 4, 0, 0),
+  [397] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_expr, 1, 0, 4),
+  [399] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym_expr, 1, 0, 4),
+  [401] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_expr, 1, 0, 0),
+  [403] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym_expr, 1, 0, 0),
+  [405] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_entry, 2, 0, 5),
+  [407] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym_entry, 2, 0, 5),
+  [409] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_immediate_unit, 1, 0, 0),
+  [411] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym_immediate_unit, 1, 0, 0),
+  [413] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym__tagged_expr, 2, 0, 6),
+  [415] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym__tagged_expr, 2, 0, 6),
+  [417] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym__immediate_quoted_scalar, 1, 0, 0),
+  [419] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym__immediate_quoted_scalar, 1, 0, 0),
+  [421] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym__immediate_heredoc_scalar, 1, 0, 0),
+  [423] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym__immediate_heredoc_scalar, 1, 0, 0),
+  [425] = {.entry = {.count = 1, .reusable = true}}, REDUCE(aux_sym_document_repeat1, 2, 0, 0),
+  [427] = {.entry = {.count = 1, .reusable = false}}, REDUCE(aux_sym_document_repeat1, 2, 0, 0),
+  [429] = {.entry = {.count = 2, .reusable = true}}, REDUCE(aux_sym_document_repeat1, 2, 0, 0), SHIFT_REPEAT(111),
+  [432] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_heredoc, 3, 0, 0),
+  [434] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym_heredoc, 3, 0, 0),
+  [436] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_raw_scalar, 3, 0, 0),
+  [438] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym_raw_scalar, 3, 0, 0),
+  [440] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym__attribute_value, 1, 0, 7),
+  [442] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym__attribute_value, 1, 0, 7),
+  [444] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_attribute, 3, 0, 8),
+  [446] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym_attribute, 3, 0, 8),
+  [448] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_quoted_scalar, 3, 0, 0),
+  [450] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym_quoted_scalar, 3, 0, 0),
+  [452] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_sequence, 3, 0, 0),
+  [454] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym_sequence, 3, 0, 0),
+  [456] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_immediate_quoted_scalar_inner, 2, 0, 0),
+  [458] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym_immediate_quoted_scalar_inner, 2, 0, 0),
+  [460] = {.entry = {.count = 2, .reusable = true}}, REDUCE(aux_sym_document_repeat1, 2, 0, 0), SHIFT_REPEAT(136),
+  [463] = {.entry = {.count = 1, .reusable = false}}, REDUCE(aux_sym_immediate_sequence_repeat2, 2, 0, 0),
+  [465] = {.entry = {.count = 1, .reusable = false}}, REDUCE(sym_doc_comment, 1, 0, 0),
+  [467] = {.entry = {.count = 1, .reusable = true}}, REDUCE(sym_doc_comment, 1, 0, 0),
+  [469] = {.entry = {.count = 1, .reusable = false}}, REDUCE(aux_sym_doc_comment_repeat1, 2, 0, 0),
+  [471] = {.entry = {.count = 1, .reusable = true}}, REDUCE(aux_sym_doc_comment_repeat1, 2, 0, 0),
+  [473] = {.entry = {.count = 2, .reusable = true}}, REDUCE(aux_sym_doc_comment_repeat1, 2, 0, 0), SHIFT_REPEAT(228),
+  [476] = {.entry = {.count = 1, .reusable = true}}, SHIFT(3),
+  [478] = {.entry = {.count = 2, .reusable = false}}, REDUCE(aux_sym_attributes_repeat1, 2, 0, 0), SHIFT_REPEAT(245),
+  [481] = {.entry = {.count = 1, .reusable = true}}, REDUCE(aux_sym__object_body_repeat1, 2, 0, 0),
+  [483] = {.entry = {.count = 2, .reusable = true}}, REDUCE(aux_sym__object_body_repeat1, 2, 0, 0), SHIFT_REPEAT(10),
+  [486] = {.entry = {.count = 1, .reusable = true}}, SHIFT(5),
+  [488] = {.entry = {.count = 1, .reusable = false}}, SHIFT(245),
+  [490] = {.entry = {.count = 1, .reusable = true}}, SHIFT(2),
+  [492] = {.entry = {.count = 1, .reusable = true}}, SHIFT(4),
+  [494] = {.entry = {.count = 1, .reusable = true}}, SHIFT(104),
+  [496] = {.entry = {.count = 1, .reusable = true}}, SHIFT(182),
+  [498] = {.entry = {.count = 1, .reusable = true}}, SHIFT(77),
+  [500] = {.entry = {.count = 1, .reusable = true}}, SHIFT(199),
+  [502] = {.entry = {.count = 1, .reusable = true}}, SHIFT(117),
+  [504] = {.entry = {.count = 1, .reusable = true}}, SHIFT(197),
+  [506] = {.entry = {.count = 1, .reusable = true}}, SHIFT(55),
+  [508] = {.entry = {.count = 1, .reusable = true}}, SHIFT(122),
+  [510] = {.entry = {.count = 1, .reusable = true}}, SHIFT(187),
+  [512] = {.entry = {.count = 1, .reusable = true}}, SHIFT(129),
+  [514] = {.entry = {.count = 1, .reusable = true}}, SHIFT(178),
+  [516] = {.entry = {.count = 1, .reusable = true}}, SHIFT(191),
+  [518] = {.entry = {.count = 1, .reusable = true}}, SHIFT(162),
+  [520] = {.entry = {.count = 1, .reusable = true}}, SHIFT(167),
+  [522] = {.entry = {.count = 1, .reusable = true}}, SHIFT(198),
+  [524] = {.entry = {.count = 1, .reusable = true}}, SHIFT(144),
+  [526] = {.entry = {.count = 1, .reusable = true}}, SHIFT(200),
+  [528] = {.entry = {.count = 1, .reusable = true}}, REDUCE(aux_sym_immediate_quoted_scalar_inner_repeat1, 2, 0, 0),
+  [530] = {.entry = {.count = 2, .reusable = true}}, REDUCE(aux_sym_immediate_quoted_scalar_inner_repeat1, 2, 0, 0), SHIFT_REPEAT(197),
+  [533] = {.entry = {.count = 1, .reusable = true}}, SHIFT(174),
+  [535] = {.entry = {.count = 1, .reusable = true}}, SHIFT(141),
+  [537] = {.entry = {.count = 1, .reusable = true}}, SHIFT(86),
+  [539] = {.entry = {.count = 1, .reusable = true}}, SHIFT(224),
+  [541] = {.entry = {.count = 1, .reusable = true}}, SHIFT(253),
+  [543] = {.entry = {.count = 1, .reusable = true}}, SHIFT(75),
+  [545] = {.entry = {.count = 1, .reusable = true}}, REDUCE(aux_sym__object_body_repeat1, 3, 0, 0),
+  [547] = {.entry = {.count = 1, .reusable = true}}, SHIFT(220),
+  [549] = {.entry = {.count = 1, .reusable = true}}, SHIFT(237),
+  [551] = {.entry = {.count = 1, .reusable = true}}, SHIFT(121),
+  [553] = {.entry = {.count = 1, .reusable = true}}, SHIFT(226),
+  [555] = {.entry = {.count = 1, .reusable = true}}, SHIFT(250),
+  [557] = {.entry = {.count = 1, .reusable = true}}, SHIFT(166),
+  [559] = {.entry = {.count = 1, .reusable = true}}, SHIFT(225),
+  [561] = {.entry = {.count = 1, .reusable = true}}, SHIFT(235),
+  [563] = {.entry = {.count = 1, .reusable = true}}, SHIFT(188),
+  [565] = {.entry = {.count = 1, .reusable = true}}, SHIFT(221),
+  [567] = {.entry = {.count = 1, .reusable = true}}, SHIFT(239),
+  [569] = {.entry = {.count = 1, .reusable = true}}, SHIFT(74),
+  [571] = {.entry = {.count = 1, .reusable = true}}, SHIFT(217),
+  [573] = {.entry = {.count = 1, .reusable = true}}, SHIFT(243),
+  [575] = {.entry = {.count = 1, .reusable = true}}, SHIFT(102),
+  [577] = {.entry = {.count = 1, .reusable = true}}, SHIFT(233),
+  [579] = {.entry = {.count = 1, .reusable = true}}, SHIFT(120),
+  [581] = {.entry = {.count = 1, .reusable = true}}, SHIFT(229),
+  [583] = {.entry = {.count = 1, .reusable = true}}, SHIFT(113),
+  [585] = {.entry = {.count = 1, .reusable = true}}, SHIFT(251),
+  [587] = {.entry = {.count = 1, .reusable = true}}, SHIFT(72),
+  [589] = {.entry = {.count = 1, .reusable = true}}, SHIFT(247),
+  [591] = {.entry = {.count = 1, .reusable = true}}, SHIFT(73),
+  [593] = {.entry = {.count = 1, .reusable = true}}, SHIFT(252),
+  [595] = {.entry = {.count = 1, .reusable = true}}, SHIFT(128),
+  [597] = {.entry = {.count = 1, .reusable = true}}, SHIFT(231),
+  [599] = {.entry = {.count = 1, .reusable = true}}, SHIFT(85),
+  [601] = {.entry = {.count = 1, .reusable = true}}, SHIFT(236),
+  [603] = {.entry = {.count = 1, .reusable = true}}, SHIFT(173),
+  [605] = {.entry = {.count = 1, .reusable = true}}, SHIFT(248),
+  [607] = {.entry = {.count = 1, .reusable = true}}, SHIFT(165),
+  [609] = {.entry = {.count = 1, .reusable = true}}, SHIFT(232),
+  [611] = {.entry = {.count = 1, .reusable = true}}, SHIFT(137),
+  [613] = {.entry = {.count = 1, .reusable = true}}, SHIFT(246),
+  [615] = {.entry = {.count = 1, .reusable = true}}, SHIFT(195),
+  [617] = {.entry = {.count = 1, .reusable = true}}, SHIFT(255),
+  [619] = {.entry = {.count = 1, .reusable = true}}, SHIFT(158),
+  [621] = {.entry = {.count = 1, .reusable = true}}, SHIFT(230),
+  [623] = {.entry = {.count = 1, .reusable = true}}, SHIFT(103),
+  [625] = {.entry = {.count = 1, .reusable = true}}, SHIFT(148),
+  [627] = {.entry = {.count = 1, .reusable = true}}, SHIFT(125),
+  [629] = {.entry = {.count = 1, .reusable = true}}, SHIFT(114),
+  [631] = {.entry = {.count = 1, .reusable = true}}, SHIFT(91),
+  [633] = {.entry = {.count = 1, .reusable = true}}, SHIFT(80),
+  [635] = {.entry = {.count = 1, .reusable = true}}, SHIFT(127),
+  [637] = {.entry = {.count = 1, .reusable = true}},  ACCEPT_INPUT(),
+  [639] = {.entry = {.count = 1, .reusable = true}}, SHIFT(159),
+  [641] = {.entry = {.count = 1, .reusable = true}}, SHIFT(89),
+  [643] = {.entry = {.count = 1, .reusable = true}}, SHIFT(164),
+  [645] = {.entry = {.count = 1, .reusable = true}}, SHIFT(119),
+  [647] = {.entry = {.count = 1, .reusable = true}}, SHIFT(71),
+  [649] = {.entry = {.count = 1, .reusable = true}}, SHIFT(170),
+  [651] = {.entry = {.count = 1, .reusable = true}}, SHIFT(84),
+  [653] = {.entry = {.count = 1, .reusable = true}}, SHIFT(172),
+  [655] = {.entry = {.count = 1, .reusable = true}}, SHIFT(69),
+  [657] = {.entry = {.count = 1, .reusable = true}}, SHIFT(138),
+  [659] = {.entry = {.count = 1, .reusable = true}}, SHIFT(131),
+  [661] = {.entry = {.count = 1, .reusable = true}}, SHIFT(176),
+  [663] = {.entry = {.count = 1, .reusable = true}}, SHIFT(177),
 };
 
 enum ts_external_scanner_symbol_identifiers {
@@ -8313,6 +7257,7 @@ enum ts_external_scanner_symbol_identifiers {
   ts_external_token__tag_start = 8,
   ts_external_token__immediate_raw_string_start = 9,
   ts_external_token__immediate_unit_at = 10,
+  ts_external_token__immediate_heredoc_start = 11,
 };
 
 static const TSSymbol ts_external_scanner_symbol_map[EXTERNAL_TOKEN_COUNT] = {
@@ -8327,6 +7272,7 @@ static const TSSymbol ts_external_scanner_symbol_map[EXTERNAL_TOKEN_COUNT] = {
   [ts_external_token__tag_start] = sym__tag_start,
   [ts_external_token__immediate_raw_string_start] = sym__immediate_raw_string_start,
   [ts_external_token__immediate_unit_at] = sym__immediate_unit_at,
+  [ts_external_token__immediate_heredoc_start] = sym__immediate_heredoc_start,
 };
 
 static const bool ts_external_scanner_states[10][EXTERNAL_TOKEN_COUNT] = {
@@ -8342,6 +7288,7 @@ static const bool ts_external_scanner_states[10][EXTERNAL_TOKEN_COUNT] = {
     [ts_external_token__tag_start] = true,
     [ts_external_token__immediate_raw_string_start] = true,
     [ts_external_token__immediate_unit_at] = true,
+    [ts_external_token__immediate_heredoc_start] = true,
   },
   [2] = {
     [ts_external_token__heredoc_start] = true,
@@ -8356,10 +7303,12 @@ static const bool ts_external_scanner_states[10][EXTERNAL_TOKEN_COUNT] = {
     [ts_external_token__tag_start] = true,
     [ts_external_token__immediate_raw_string_start] = true,
     [ts_external_token__immediate_unit_at] = true,
+    [ts_external_token__immediate_heredoc_start] = true,
   },
   [4] = {
     [ts_external_token__immediate_raw_string_start] = true,
     [ts_external_token__immediate_unit_at] = true,
+    [ts_external_token__immediate_heredoc_start] = true,
   },
   [5] = {
     [ts_external_token__heredoc_lang] = true,
@@ -8375,10 +7324,10 @@ static const bool ts_external_scanner_states[10][EXTERNAL_TOKEN_COUNT] = {
     [ts_external_token__heredoc_end] = true,
   },
   [8] = {
-    [ts_external_token__raw_string_end] = true,
+    [ts_external_token__heredoc_end] = true,
   },
   [9] = {
-    [ts_external_token__heredoc_end] = true,
+    [ts_external_token__raw_string_end] = true,
   },
 };
 
diff --git a/crates/tree-sitter-styx/src/scanner.c b/crates/tree-sitter-styx/src/scanner.c
index 184c776..c2f73c1 100644
--- a/crates/tree-sitter-styx/src/scanner.c
+++ b/crates/tree-sitter-styx/src/scanner.c
@@ -23,6 +23,7 @@ enum TokenType {
   TAG_START,
   IMMEDIATE_RAW_STRING_START,
   IMMEDIATE_UNIT_AT,
+  IMMEDIATE_HEREDOC_START,
 };
 
 // Maximum delimiter length for heredocs
@@ -143,7 +144,8 @@ void tree_sitter_styx_external_scanner_destroy(void *payload) {
 }
 
 // Try to scan heredoc start: <<DELIM (not including ,lang or newline)
-static bool scan_heredoc_start(Scanner *scanner, TSLexer *lexer) {
+static bool scan_heredoc_start(Scanner *scanner, TSLexer *lexer,
+                               enum TokenType result_symbol) {
   // We expect to be positioned at '<'
   if (lexer->lookahead != '<')
     return false;
@@ -173,7 +175,7 @@ static bool scan_heredoc_start(Scanner *scanner, TSLexer *lexer) {
 
   scanner->in_heredoc = true;
   scanner->heredoc_needs_lang_check = true;
-  lexer->result_symbol = HEREDOC_START;
+  lexer->result_symbol = result_symbol;
   return true;
 }
 
@@ -389,11 +391,17 @@ static bool scan_at_token(TSLexer *lexer, const bool *valid_symbols) {
     if (!valid_symbols[TAG_START])
       return false;
 
+    lexer->result_symbol = TAG_START;
     while (is_tag_name_char(lexer->lookahead)) {
+      bool maybe_raw_string = lexer->lookahead == 'r';
+      lexer->mark_end(lexer);
       advance(lexer);
+      // r# starts a raw string payload, it does not belong to the tag name
+      if (maybe_raw_string && lexer->lookahead == '#')
+        return true;
     }
 
-    lexer->result_symbol = TAG_START;
+    lexer->mark_end(lexer);
     return true;
   } else {
     // This is a unit (bare @)
@@ -460,6 +468,11 @@ bool tree_sitter_styx_external_scanner_scan(void *payload, TSLexer *lexer,
     return scan_raw_string_start(scanner, lexer, IMMEDIATE_RAW_STRING_START);
   }
 
+  // Immediate heredoc: <<DELIM right after a tag
+  if (valid_symbols[IMMEDIATE_HEREDOC_START] && lexer->lookahead == '<') {
+    return scan_heredoc_start(scanner, lexer, IMMEDIATE_HEREDOC_START);
+  }
+
   // Now skip whitespace for non-immediate tokens
   if (!scanner->in_heredoc && !scanner->in_raw_string) {
     while (lexer->lookahead == ' ' || lexer->lookahead == '\t') {
@@ -475,7 +488,7 @@ bool tree_sitter_styx_external_scanner_scan(void *payload, TSLexer *lexer,
 
   // Try to start a heredoc
   if (valid_symbols[HEREDOC_START] && lexer->lookahead == '<') {
-    return scan_heredoc_start(scanner, lexer);
+    return scan_heredoc_start(scanner, lexer, HEREDOC_START);
   }
 
   // Try to start a raw string (regular, not immediate - immediate handled above)
-- 
2.43.0


From 3d8c6669c9747dba48abbf97e1b5cfec345b5def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:49 +0000
Subject: [PATCH 53/84] fix: schema validation reports its findings in the same
 order every time

---
 crates/facet-styx/src/schema_validate.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/facet-styx/src/schema_validate.rs b/crates/facet-styx/src/schema_validate.rs
index 38f51af..8559f03 100644
--- a/crates/facet-styx/src/schema_validate.rs
+++ b/crates/facet-styx/src/schema_validate.rs
@@ -464,6 +464,8 @@ impl<'a> Validator<'a> {
         let mut seen_fields: HashSet<Option<&str>> = HashSet::new();
         let mut schema_fields: Vec<(&ObjectKey, &Schema)> = Vec::new();
         self.collect_fields(schema, &mut schema_fields, &mut HashSet::new());
+        // The schema's map has no order; what is reported must not depend on it.
+        schema_fields.sort_by_key(|(key, _)| (key.name(), key.tag.as_deref()));
         // Look up catch-all schema - find any key that is a typed pattern or unit
         let additional_schema = schema_fields
             .iter()
@@ -866,7 +868,8 @@ impl<'a> Validator<'a> {
             span: value.span,
         });
 
-        let expected_variants: Vec<String> = schema.0.keys().map(|k| k.value.clone()).collect();
+        let mut expected_variants: Vec<String> = schema.0.keys().map(|k| k.value.clone()).collect();
+        expected_variants.sort();
 
         match schema.0.get(&Documented::new(tag.to_string())) {
             Some(variant_schema) => {
-- 
2.43.0


From 0b5e72cd099c39a86e8ea8fc031cf05d4573246f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:53 +0000
Subject: [PATCH 54/84] fix: attributes in sequences are no syntax errors in
 the editor and the formatter

---
 crates/styx-cst/src/ast.rs    | 1 +
 crates/styx-cst/src/parser.rs | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/styx-cst/src/ast.rs b/crates/styx-cst/src/ast.rs
index d42af1a..cfc9952 100644
--- a/crates/styx-cst/src/ast.rs
+++ b/crates/styx-cst/src/ast.rs
@@ -295,6 +295,7 @@ impl Sequence {
                                     | SyntaxKind::UNIT
                                     | SyntaxKind::TAG
                                     | SyntaxKind::HEREDOC
+                                    | SyntaxKind::ATTRIBUTES
                             )
                         })
                     })
diff --git a/crates/styx-cst/src/parser.rs b/crates/styx-cst/src/parser.rs
index c8cc148..4744dce 100644
--- a/crates/styx-cst/src/parser.rs
+++ b/crates/styx-cst/src/parser.rs
@@ -431,7 +431,11 @@ impl<'src> CstParser<'src> {
             // In sequences, each element is wrapped in an ENTRY with just a KEY
             self.builder.start_node(SyntaxKind::ENTRY.into());
             self.builder.start_node(SyntaxKind::KEY.into());
-            self.parse_atom();
+            if self.at_attribute() {
+                self.parse_attributes(Some(TokenKind::RParen));
+            } else {
+                self.parse_atom();
+            }
             self.builder.finish_node();
             self.builder.finish_node();
 
-- 
2.43.0


From 9dcea8eea6098cf9ea1a6e333cc29bbe83b8c3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:55 +0000
Subject: [PATCH 55/84] fix: the language server's cached schemas stay inside
 the cache directory and are never half written

---
 crates/styx-lsp/src/cache.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/crates/styx-lsp/src/cache.rs b/crates/styx-lsp/src/cache.rs
index a4c9d7c..048bdd3 100644
--- a/crates/styx-lsp/src/cache.rs
+++ b/crates/styx-lsp/src/cache.rs
@@ -23,11 +23,18 @@ pub fn embedded_cache_path(cli_name: &str, content: &str) -> Option<PathBuf> {
     let hash = content_hash(content);
     cache_dir().map(|d| {
         d.join("embedded")
-            .join(cli_name)
+            .join(relative_dir(cli_name))
             .join(format!("{}.styx", hash))
     })
 }
 
+/// A name as a path below the cache directory: never absolute, never `..`.
+fn relative_dir(name: &str) -> PathBuf {
+    name.split(['/', '\\'])
+        .filter(|part| !matches!(*part, "" | "." | ".."))
+        .collect()
+}
+
 /// Compute a content hash for cache invalidation.
 ///
 /// Returns first 16 hex chars of SHA-256.
@@ -54,9 +61,12 @@ pub fn cache_embedded_schema(cli_name: &str, content: &str) -> Option<PathBuf> {
         fs::create_dir_all(parent).ok()?;
     }
 
-    // Write content
-    let mut file = fs::File::create(&path).ok()?;
+    // Write content beside its place first, so that nobody sees a part of it
+    let partial = path.with_extension(format!("{}.tmp", std::process::id()));
+    let mut file = fs::File::create(&partial).ok()?;
     file.write_all(content.as_bytes()).ok()?;
+    drop(file);
+    fs::rename(&partial, &path).ok()?;
 
     Some(path)
 }
-- 
2.43.0


From 96c99dfbcb24137b869c023a9556d1141d312e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:59 +0000
Subject: [PATCH 56/84] fix: the language server counts columns in UTF-16 units
 everywhere

---
 crates/styx-lsp/src/extensions.rs      | 38 ++++---------
 crates/styx-lsp/src/lib.rs             |  1 +
 crates/styx-lsp/src/position.rs        | 60 +++++++++++++++++++++
 crates/styx-lsp/src/semantic_tokens.rs | 75 +++++++++++++++-----------
 crates/styx-lsp/src/server.rs          | 52 +++---------------
 5 files changed, 124 insertions(+), 102 deletions(-)
 create mode 100644 crates/styx-lsp/src/position.rs

diff --git a/crates/styx-lsp/src/extensions.rs b/crates/styx-lsp/src/extensions.rs
index 6d46ff3..f586add 100644
--- a/crates/styx-lsp/src/extensions.rs
+++ b/crates/styx-lsp/src/extensions.rs
@@ -33,11 +33,12 @@ use styx_tree::Value;
 use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
 use tokio::process::{Child, ChildStdin, ChildStdout, Command};
 use tokio::sync::RwLock;
-use tower_lsp::lsp_types::Url;
+use tower_lsp::lsp_types::{Position, Url};
 use tracing::{debug, info, warn};
 use vox_stream::StreamLink;
 
 use crate::config::{self, StyxUserConfig};
+use crate::position::{offset_to_position, position_to_offset};
 use crate::schema_validation::resolve_schema;
 use crate::server::DocumentMap;
 
@@ -384,12 +385,12 @@ impl StyxLspHost for StyxLspHostImpl {
             return None;
         }
 
-        let content = &doc.content[..offset];
-        let line = content.chars().filter(|&c| c == '\n').count() as u32;
-        let last_newline = content.rfind('\n').map(|i| i + 1).unwrap_or(0);
-        let character = (offset - last_newline) as u32;
+        let position = offset_to_position(&doc.content, offset);
 
-        Some(styx_lsp_ext::Position { line, character })
+        Some(styx_lsp_ext::Position {
+            line: position.line,
+            character: position.character,
+        })
     }
 
     async fn position_to_offset(&self, params: PositionToOffsetParams) -> Option<u32> {
@@ -397,28 +398,11 @@ impl StyxLspHost for StyxLspHostImpl {
         let docs = self.documents.read().await;
         let doc = docs.get(&uri)?;
 
-        let mut offset = 0;
-        let mut current_line = 0;
-
-        for ch in doc.content.chars() {
-            if current_line == params.position.line {
-                for (char_offset, c) in doc.content[offset..].chars().enumerate() {
-                    if char_offset == params.position.character as usize {
-                        return Some(offset as u32);
-                    }
-                    if c == '\n' {
-                        break;
-                    }
-                    offset += c.len_utf8();
-                }
-                return Some(offset as u32);
-            }
-            if ch == '\n' {
-                current_line += 1;
-            }
-            offset += ch.len_utf8();
+        let position = Position::new(params.position.line, params.position.character);
+        if position.line > offset_to_position(&doc.content, doc.content.len()).line {
+            return None;
         }
 
-        None
+        Some(position_to_offset(&doc.content, position) as u32)
     }
 }
diff --git a/crates/styx-lsp/src/lib.rs b/crates/styx-lsp/src/lib.rs
index 12db026..a88a5c3 100644
--- a/crates/styx-lsp/src/lib.rs
+++ b/crates/styx-lsp/src/lib.rs
@@ -11,6 +11,7 @@
 pub mod cache;
 pub mod config;
 pub mod extensions;
+mod position;
 pub mod schema_hints;
 mod schema_validation;
 pub mod semantic_tokens;
diff --git a/crates/styx-lsp/src/position.rs b/crates/styx-lsp/src/position.rs
new file mode 100644
index 0000000..9499a96
--- /dev/null
+++ b/crates/styx-lsp/src/position.rs
@@ -0,0 +1,60 @@
+//! Conversion between byte offsets and LSP positions.
+//!
+//! Positions are what clients count: lines end at `\n`, `\r\n` or `\r`, and columns are
+//! UTF-16 code units (the protocol's default encoding).
+
+use tower_lsp::lsp_types::Position;
+
+/// Is the character at byte `i` the end of a line? The `\r` of a `\r\n` is not.
+fn ends_line(content: &str, i: usize, ch: char) -> bool {
+    ch == '\n' || (ch == '\r' && content.as_bytes().get(i + 1) != Some(&b'\n'))
+}
+
+/// The `\r` of a `\r\n` is part of the line end and has no column of its own.
+fn width(ch: char) -> u32 {
+    if ch == '\r' { 0 } else { ch.len_utf16() as u32 }
+}
+
+/// Convert byte offset to LSP Position
+pub(crate) fn offset_to_position(content: &str, offset: usize) -> Position {
+    let mut line = 0u32;
+    let mut col = 0u32;
+
+    for (i, ch) in content.char_indices() {
+        if i >= offset {
+            break;
+        }
+        if ends_line(content, i, ch) {
+            line += 1;
+            col = 0;
+        } else {
+            col += width(ch);
+        }
+    }
+
+    Position::new(line, col)
+}
+
+/// Convert LSP Position to byte offset
+pub(crate) fn position_to_offset(content: &str, position: Position) -> usize {
+    let mut current_line = 0u32;
+    let mut current_col = 0u32;
+
+    for (i, ch) in content.char_indices() {
+        if current_line == position.line && current_col >= position.character {
+            return i;
+        }
+        if (ch == '\n' || ch == '\r') && current_line == position.line {
+            // Position is past end of line
+            return i;
+        }
+        if ends_line(content, i, ch) {
+            current_line += 1;
+            current_col = 0;
+        } else {
+            current_col += width(ch);
+        }
+    }
+
+    content.len()
+}
diff --git a/crates/styx-lsp/src/semantic_tokens.rs b/crates/styx-lsp/src/semantic_tokens.rs
index c062977..a432d00 100644
--- a/crates/styx-lsp/src/semantic_tokens.rs
+++ b/crates/styx-lsp/src/semantic_tokens.rs
@@ -3,6 +3,8 @@
 use styx_cst::{Parse, SyntaxKind, SyntaxNode, SyntaxToken};
 use tower_lsp::lsp_types::*;
 
+use crate::position::offset_to_position;
+
 /// Semantic token types we support
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 #[repr(u32)]
@@ -173,6 +175,10 @@ fn walk_node_for_spans(node: &SyntaxNode, spans: &mut Vec<HighlightSpan>, ctx: W
             for child in node.children_with_tokens() {
                 if let Some(child_node) = child.as_node() {
                     walk_node_for_spans(child_node, spans, seq_ctx);
+                } else if let Some(token) = child.as_token()
+                    && token.kind() == SyntaxKind::LINE_COMMENT
+                {
+                    add_span_from_syntax(spans, token, TokenType::Comment, false);
                 }
             }
         }
@@ -266,9 +272,15 @@ fn collect_key_spans(node: &SyntaxNode, spans: &mut Vec<HighlightSpan>) {
                             && token.kind() == SyntaxKind::TAG_TOKEN
                         {
                             add_span_from_syntax(spans, token, TokenType::Property, false);
+                        } else if let Some(payload) = t.as_node() {
+                            walk_node_for_spans(payload, spans, WalkContext::default());
                         }
                     }
                 }
+                SyntaxKind::OBJECT | SyntaxKind::SEQUENCE | SyntaxKind::HEREDOC => {
+                    // An explicit root, or a heredoc as a key
+                    walk_node_for_spans(child_node, spans, WalkContext::default());
+                }
                 SyntaxKind::UNIT => {
                     for t in child_node.children_with_tokens() {
                         if let Some(token) = t.as_token()
@@ -315,7 +327,7 @@ fn collect_key_spans_as_values(node: &SyntaxNode, spans: &mut Vec<HighlightSpan>
                 SyntaxKind::SEQUENCE => {
                     walk_node_for_spans(child_node, spans, WalkContext { in_sequence: true });
                 }
-                SyntaxKind::OBJECT => {
+                SyntaxKind::OBJECT | SyntaxKind::HEREDOC | SyntaxKind::ATTRIBUTES => {
                     walk_node_for_spans(child_node, spans, WalkContext::default());
                 }
                 _ => {}
@@ -376,6 +388,10 @@ fn walk_node(node: &SyntaxNode, content: &str, tokens: &mut Vec<RawToken>, ctx:
             for child in node.children_with_tokens() {
                 if let Some(child_node) = child.as_node() {
                     walk_node(child_node, content, tokens, seq_ctx);
+                } else if let Some(token) = child.as_token()
+                    && token.kind() == SyntaxKind::LINE_COMMENT
+                {
+                    add_token_from_syntax(tokens, content, token, TokenType::Comment, 0);
                 }
             }
         }
@@ -493,9 +509,18 @@ fn collect_key_tokens(node: &SyntaxNode, content: &str, tokens: &mut Vec<RawToke
                             && token.kind() == SyntaxKind::TAG_TOKEN
                         {
                             add_token_from_syntax(tokens, content, token, TokenType::Property, 0);
+                        } else if let Some(payload) = tag_child.as_node() {
+                            walk_node(payload, content, tokens, WalkContext::default());
                         }
                     }
                 }
+                SyntaxKind::OBJECT
+                | SyntaxKind::SEQUENCE
+                | SyntaxKind::UNIT
+                | SyntaxKind::HEREDOC => {
+                    // KEY -> OBJECT (an explicit root), or a key that is no plain scalar
+                    walk_node(child_node, content, tokens, WalkContext::default());
+                }
                 _ => {}
             }
         }
@@ -544,7 +569,10 @@ fn collect_key_tokens_as_values(node: &SyntaxNode, content: &str, tokens: &mut V
                     let seq_ctx = WalkContext { in_sequence: true };
                     walk_node(child_node, content, tokens, seq_ctx);
                 }
-                SyntaxKind::OBJECT => {
+                SyntaxKind::UNIT | SyntaxKind::HEREDOC => {
+                    walk_node(child_node, content, tokens, WalkContext::default());
+                }
+                SyntaxKind::OBJECT | SyntaxKind::ATTRIBUTES => {
                     // KEY -> OBJECT (objects in sequences like `({a 1} {b 2})`)
                     // Objects should use regular object context (keys are properties)
                     walk_node(child_node, content, tokens, WalkContext::default());
@@ -573,36 +601,23 @@ fn add_token_from_syntax(
 ) {
     let start: usize = token.text_range().start().into();
     let end: usize = token.text_range().end().into();
-    let (line, start_char) = offset_to_line_col(content, start);
-    let length = (end - start) as u32;
-
-    tokens.push(RawToken {
-        line,
-        start_char,
-        length,
-        token_type,
-        modifiers,
-    });
-}
-
-/// Convert byte offset to (line, column)
-fn offset_to_line_col(content: &str, offset: usize) -> (u32, u32) {
-    let mut line = 0u32;
-    let mut col = 0u32;
-
-    for (i, ch) in content.char_indices() {
-        if i >= offset {
-            break;
-        }
-        if ch == '\n' {
-            line += 1;
-            col = 0;
-        } else {
-            col += 1;
+    // A token in the protocol stays on one line: one piece for each line of the text
+    let mut piece_start = start;
+    for piece in content[start..end].split_inclusive(['\n', '\r']) {
+        let text = piece.trim_end_matches(['\n', '\r']);
+        let position = offset_to_position(content, piece_start);
+        piece_start += piece.len();
+        if text.is_empty() {
+            continue;
         }
+        tokens.push(RawToken {
+            line: position.line,
+            start_char: position.character,
+            length: text.encode_utf16().count() as u32,
+            token_type,
+            modifiers,
+        });
     }
-
-    (line, col)
 }
 
 /// Encode raw tokens as LSP semantic tokens (delta-encoded)
diff --git a/crates/styx-lsp/src/server.rs b/crates/styx-lsp/src/server.rs
index dee83b1..17d9f33 100644
--- a/crates/styx-lsp/src/server.rs
+++ b/crates/styx-lsp/src/server.rs
@@ -11,6 +11,7 @@ use tower_lsp::lsp_types::*;
 use tower_lsp::{Client, LanguageServer, LspService, Server};
 
 use crate::extensions::{ExtensionManager, ExtensionResult, get_extension_info};
+use crate::position::{offset_to_position, position_to_offset};
 use crate::schema_hints::find_matching_hint;
 use crate::schema_validation::{
     find_object_at_offset, find_schema_declaration, find_tagged_context_at_offset,
@@ -2103,9 +2104,14 @@ fn collect_document_symbols(value: &Value, content: &str) -> Vec<DocumentSymbol>
             end: offset_to_position(content, key_span.end as usize),
         };
 
+        // The object of a dotted path ends with its own segment; the symbol covers its children
+        let end = children.iter().map(|child| child.range.end).fold(
+            offset_to_position(content, val_span.end as usize),
+            Position::max,
+        );
         let range = Range {
             start: offset_to_position(content, key_span.start as usize),
-            end: offset_to_position(content, val_span.end as usize),
+            end,
         };
 
         #[allow(deprecated)]
@@ -2145,50 +2151,6 @@ fn find_schema_declaration_range(tree: &Value, content: &str) -> Option<Range> {
     None
 }
 
-/// Convert byte offset to LSP Position
-fn offset_to_position(content: &str, offset: usize) -> Position {
-    let mut line = 0u32;
-    let mut col = 0u32;
-
-    for (i, ch) in content.char_indices() {
-        if i >= offset {
-            break;
-        }
-        if ch == '\n' {
-            line += 1;
-            col = 0;
-        } else {
-            col += 1;
-        }
-    }
-
-    Position::new(line, col)
-}
-
-/// Convert LSP Position to byte offset
-fn position_to_offset(content: &str, position: Position) -> usize {
-    let mut current_line = 0u32;
-    let mut current_col = 0u32;
-
-    for (i, ch) in content.char_indices() {
-        if current_line == position.line && current_col == position.character {
-            return i;
-        }
-        if ch == '\n' {
-            if current_line == position.line {
-                // Position is past end of line
-                return i;
-            }
-            current_line += 1;
-            current_col = 0;
-        } else {
-            current_col += 1;
-        }
-    }
-
-    content.len()
-}
-
 /// Find the field key at a given offset in the tree (returns just the immediate field name)
 fn find_field_key_at_offset(tree: &Value, offset: usize) -> Option<String> {
     // Use the path-based function and return just the last element
-- 
2.43.0


From b5c02087c3a61ce100f73e9c244ffef40b6fa433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:02 +0000
Subject: [PATCH 57/84] fix: types defined in terms of themselves do not
 overflow the language server's stack

---
 crates/styx-lsp/src/schema_validation.rs | 95 +++++++++++++++++-------
 crates/styx-lsp/src/server.rs            | 42 ++++++++++-
 2 files changed, 108 insertions(+), 29 deletions(-)

diff --git a/crates/styx-lsp/src/schema_validation.rs b/crates/styx-lsp/src/schema_validation.rs
index 90edee3..be0999c 100644
--- a/crates/styx-lsp/src/schema_validation.rs
+++ b/crates/styx-lsp/src/schema_validation.rs
@@ -355,12 +355,20 @@ pub fn get_schema_fields(schema_file: &SchemaFile) -> Vec<SchemaField> {
         return fields;
     };
 
-    collect_object_fields(root_schema, schema_file, &mut fields);
+    collect_object_fields(root_schema, schema_file, &mut fields, &mut Vec::new());
+    fields.sort_by(|a, b| a.name.cmp(&b.name));
     fields
 }
 
 /// Recursively collect fields from a schema, handling wrappers like @object.
-fn collect_object_fields(schema: &Schema, schema_file: &SchemaFile, fields: &mut Vec<SchemaField>) {
+///
+/// `resolving` are the types being collected: a type that includes itself has no further fields.
+fn collect_object_fields(
+    schema: &Schema,
+    schema_file: &SchemaFile,
+    fields: &mut Vec<SchemaField>,
+    resolving: &mut Vec<String>,
+) {
     match schema {
         Schema::Object(obj) => {
             for (key, field_schema) in &obj.0 {
@@ -379,15 +387,19 @@ fn collect_object_fields(schema: &Schema, schema_file: &SchemaFile, fields: &mut
             }
         }
         Schema::Flatten(flatten) => {
-            collect_object_fields(&flatten.0.0, schema_file, fields);
+            collect_object_fields(&flatten.0.0, schema_file, fields, resolving);
         }
         Schema::Type {
             name: Some(type_name),
         } => {
             // Resolve the type reference and collect its fields
-            if let Some(type_schema) = schema_file.schema.get(&Some(type_name.clone())) {
+            if !resolving.contains(type_name)
+                && let Some(type_schema) = schema_file.schema.get(&Some(type_name.clone()))
+            {
+                resolving.push(type_name.clone());
                 let resolved = resolve_type_reference(type_schema, schema_file);
-                collect_object_fields(&resolved, schema_file, fields);
+                collect_object_fields(&resolved, schema_file, fields, resolving);
+                resolving.pop();
             }
         }
         _ => {}
@@ -607,13 +619,14 @@ fn find_object_at_offset_recursive(
 /// Get the schema for a given path within a schema file.
 pub fn get_schema_at_path(schema_file: &SchemaFile, path: &[String]) -> Option<Schema> {
     let root_schema = schema_file.schema.get(&None)?;
-    get_schema_at_path_recursive(root_schema, path, schema_file)
+    get_schema_at_path_recursive(root_schema, path, schema_file, &mut Vec::new())
 }
 
 fn get_schema_at_path_recursive(
     schema: &Schema,
     path: &[String],
     schema_file: &SchemaFile,
+    resolving: &mut Vec<String>,
 ) -> Option<Schema> {
     if path.is_empty() {
         return Some(schema.clone());
@@ -629,7 +642,12 @@ fn get_schema_at_path_recursive(
                 .0
                 .get(&Documented::new(ObjectKey::named(field_name.clone())))
             {
-                return get_schema_at_path_recursive(field_schema, rest, schema_file);
+                return get_schema_at_path_recursive(
+                    field_schema,
+                    rest,
+                    schema_file,
+                    &mut Vec::new(),
+                );
             }
 
             // Try catch-all keys (like @string or @)
@@ -638,7 +656,12 @@ fn get_schema_at_path_recursive(
                 // or unit catch-all @ (tag = Some(""), value = None)
                 // key is Documented<ObjectKey>, so key.value is the ObjectKey
                 if key.value.value.is_none() && key.value.tag.is_some() {
-                    return get_schema_at_path_recursive(field_schema, rest, schema_file);
+                    return get_schema_at_path_recursive(
+                        field_schema,
+                        rest,
+                        schema_file,
+                        &mut Vec::new(),
+                    );
                 }
             }
 
@@ -652,7 +675,12 @@ fn get_schema_at_path_recursive(
                     .0
                     .get(&Documented::new(variant_name.to_string()))
                 {
-                    return get_schema_at_path_recursive(variant_schema, rest, schema_file);
+                    return get_schema_at_path_recursive(
+                        variant_schema,
+                        rest,
+                        schema_file,
+                        &mut Vec::new(),
+                    );
                 }
             }
             None
@@ -666,16 +694,27 @@ fn get_schema_at_path_recursive(
             } else {
                 &map_schema.0[1].value
             };
-            get_schema_at_path_recursive(value_schema, rest, schema_file)
+            get_schema_at_path_recursive(value_schema, rest, schema_file, &mut Vec::new())
+        }
+        Schema::Optional(opt) => {
+            get_schema_at_path_recursive(&opt.0.0, path, schema_file, resolving)
+        }
+        Schema::Default(def) => {
+            get_schema_at_path_recursive(&def.0.1, path, schema_file, resolving)
+        }
+        Schema::Deprecated(dep) => {
+            get_schema_at_path_recursive(&dep.0.1, path, schema_file, resolving)
         }
-        Schema::Optional(opt) => get_schema_at_path_recursive(&opt.0.0, path, schema_file),
-        Schema::Default(def) => get_schema_at_path_recursive(&def.0.1, path, schema_file),
-        Schema::Deprecated(dep) => get_schema_at_path_recursive(&dep.0.1, path, schema_file),
         Schema::Type {
             name: Some(type_name),
         } => {
+            // A type that refers to itself leads nowhere
+            if resolving.contains(type_name) {
+                return None;
+            }
             let type_schema = schema_file.schema.get(&Some(type_name.clone()))?;
-            get_schema_at_path_recursive(type_schema, path, schema_file)
+            resolving.push(type_name.clone());
+            get_schema_at_path_recursive(type_schema, path, schema_file, resolving)
         }
         _ => None,
     }
@@ -691,24 +730,30 @@ pub fn get_schema_fields_at_path(schema_file: &SchemaFile, path: &[String]) -> V
     let resolved = resolve_type_reference(&schema, schema_file);
 
     let mut fields = Vec::new();
-    collect_object_fields(&resolved, schema_file, &mut fields);
+    collect_object_fields(&resolved, schema_file, &mut fields, &mut Vec::new());
+    fields.sort_by(|a, b| a.name.cmp(&b.name));
     fields
 }
 
 /// Resolve a type reference to its actual schema definition.
 fn resolve_type_reference(schema: &Schema, schema_file: &SchemaFile) -> Schema {
-    match schema {
-        Schema::Type {
-            name: Some(type_name),
-        } => {
-            if let Some(type_schema) = schema_file.schema.get(&Some(type_name.clone())) {
-                resolve_type_reference(type_schema, schema_file)
-            } else {
-                schema.clone()
-            }
+    let mut schema = schema;
+    let mut resolved: Vec<&str> = Vec::new();
+    while let Schema::Type {
+        name: Some(type_name),
+    } = schema
+    {
+        // A type that refers to itself stays unresolved
+        let Some(type_schema) = schema_file.schema.get(&Some(type_name.clone())) else {
+            break;
+        };
+        if resolved.contains(&type_name.as_str()) {
+            break;
         }
-        other => other.clone(),
+        resolved.push(type_name);
+        schema = type_schema;
     }
+    schema.clone()
 }
 
 #[cfg(test)]
diff --git a/crates/styx-lsp/src/server.rs b/crates/styx-lsp/src/server.rs
index 17d9f33..886eb96 100644
--- a/crates/styx-lsp/src/server.rs
+++ b/crates/styx-lsp/src/server.rs
@@ -2415,6 +2415,17 @@ fn get_field_info_in_type(
     value: &Value,
     path: &[&str],
     schema_defs: &styx_tree::Object,
+) -> Option<FieldInfo> {
+    find_field_info_in_type(value, path, schema_defs, &mut Vec::new())
+}
+
+/// `searching` are the enums and objects being searched for the path: a type may contain
+/// itself.
+fn find_field_info_in_type<'a>(
+    value: &'a Value,
+    path: &[&str],
+    schema_defs: &'a styx_tree::Object,
+    searching: &mut Vec<&'a styx_tree::Object>,
 ) -> Option<FieldInfo> {
     if path.is_empty() {
         return None;
@@ -2469,19 +2480,28 @@ fn get_field_info_in_type(
     // This handles cases like `Decl @enum{query @Query}` where we need to look
     // inside variant types (like @Query) to find nested fields (like `from`)
     if let Some(enum_obj) = extract_enum_object(value) {
+        if searching.iter().any(|obj| std::ptr::eq(*obj, enum_obj)) {
+            return None;
+        }
+        searching.push(enum_obj);
         // Search all enum variants for the field
         for entry in &enum_obj.entries {
             // Resolve the variant's value type and recurse
             let resolved = resolve_type_reference(&entry.value, schema_defs);
-            if let Some(info) = get_field_info_in_type(resolved, path, schema_defs) {
+            if let Some(info) = find_field_info_in_type(resolved, path, schema_defs, searching) {
                 return Some(info);
             }
         }
+        searching.pop();
         return None;
     }
 
     // Try to get the object - handle various wrappings (also resolves type refs)
     let obj = extract_object_from_value_with_defs(value, schema_defs)?;
+    if searching.iter().any(|other| std::ptr::eq(*other, obj)) {
+        return None;
+    }
+    searching.push(obj);
 
     for entry in &obj.entries {
         if entry.key.as_str() == Some(field_name) {
@@ -2499,12 +2519,13 @@ fn get_field_info_in_type(
 
         // Check unit key entries (root schema)
         if entry.key.is_unit()
-            && let Some(found) = get_field_info_in_type(&entry.value, path, schema_defs)
+            && let Some(found) = find_field_info_in_type(&entry.value, path, schema_defs, searching)
         {
             return Some(found);
         }
     }
 
+    searching.pop();
     None
 }
 
@@ -2623,6 +2644,15 @@ fn extract_object_catchall_value_type(value: &Value) -> Option<&Value> {
 fn extract_object_from_value_with_defs<'a>(
     value: &'a Value,
     schema_defs: &'a styx_tree::Object,
+) -> Option<&'a styx_tree::Object> {
+    find_object_with_defs(value, schema_defs, &mut Vec::new())
+}
+
+/// `searching` are the sequences being searched for an object: a type may contain itself.
+fn find_object_with_defs<'a>(
+    value: &'a Value,
+    schema_defs: &'a styx_tree::Object,
+    searching: &mut Vec<&'a styx_tree::Sequence>,
 ) -> Option<&'a styx_tree::Object> {
     // First resolve if it's a type reference
     let resolved = resolve_type_reference(value, schema_defs);
@@ -2637,13 +2667,17 @@ fn extract_object_from_value_with_defs<'a>(
         match &resolved.payload {
             Some(styx_tree::Payload::Object(obj)) => return Some(obj),
             // Handle @optional(@object{...}) or @optional(@TypeRef) - tag with sequence payload
-            Some(styx_tree::Payload::Sequence(seq)) => {
+            Some(styx_tree::Payload::Sequence(seq))
+                if !searching.iter().any(|other| std::ptr::eq(*other, seq)) =>
+            {
+                searching.push(seq);
                 // Look for object inside the sequence (recursively resolving type refs)
                 for item in &seq.items {
-                    if let Some(obj) = extract_object_from_value_with_defs(item, schema_defs) {
+                    if let Some(obj) = find_object_with_defs(item, schema_defs, searching) {
                         return Some(obj);
                     }
                 }
+                searching.pop();
             }
             _ => {}
         }
-- 
2.43.0


From 3c4f0f571198287b47b1ad4c2fb1a3d8c5d18dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:06 +0000
Subject: [PATCH 58/84] fix: the language server answers from the latest text

---
 crates/styx-lsp/src/server.rs | 186 +++++++++++++---------------------
 1 file changed, 72 insertions(+), 114 deletions(-)

diff --git a/crates/styx-lsp/src/server.rs b/crates/styx-lsp/src/server.rs
index 886eb96..2bcae4e 100644
--- a/crates/styx-lsp/src/server.rs
+++ b/crates/styx-lsp/src/server.rs
@@ -22,6 +22,7 @@ use crate::semantic_tokens::{compute_semantic_tokens, semantic_token_legend};
 use styx_lsp_ext as ext;
 
 /// Document state tracked by the server
+#[derive(Clone)]
 pub struct DocumentState {
     /// Document content
     pub content: String,
@@ -98,18 +99,56 @@ impl StyxLanguageServer {
         }
     }
 
-    /// Publish diagnostics for a document
-    #[allow(clippy::too_many_arguments)]
+    /// Take over a document's new text, then publish its diagnostics
+    async fn set_document(&self, uri: Url, content: String, version: i32) {
+        // Parse the document (CST)
+        let parsed = parse(&content);
+
+        // Parse into tree for schema validation
+        let (tree, tree_error) = match styx_tree::parse(&content) {
+            Ok(tree) => (Some(tree), None),
+            Err(e) => (None, Some(e)),
+        };
+
+        // Store the document before anything that takes time, so that requests that
+        // follow see it and a later text is not overwritten by this one
+        let document = DocumentState {
+            content,
+            parse: parsed,
+            tree,
+            version,
+        };
+        self.documents
+            .write()
+            .await
+            .insert(uri.clone(), document.clone());
+
+        // Check for LSP extension in schema (might have changed)
+        let blocked_extension = if let Some(ref tree) = document.tree {
+            self.check_for_extension(tree, &uri).await
+        } else {
+            None
+        };
+
+        self.publish_diagnostics(uri, &document, tree_error.as_ref(), blocked_extension)
+            .await;
+    }
+
+    /// Publish diagnostics for a document, unless it has changed since
     async fn publish_diagnostics(
         &self,
         uri: Url,
-        content: &str,
-        parsed: &Parse,
-        tree: Option<&Value>,
+        document: &DocumentState,
         tree_error: Option<&styx_tree::BuildError>,
-        version: i32,
         blocked_extension: Option<BlockedExtensionInfo>,
     ) {
+        let DocumentState {
+            content,
+            parse: parsed,
+            tree,
+            version,
+        } = document;
+        let tree = tree.as_ref();
         let mut diagnostics = self.compute_diagnostics(&uri, content, parsed, tree, tree_error);
 
         // Add diagnostic for blocked extension if applicable
@@ -185,9 +224,18 @@ impl StyxLanguageServer {
             }
         }
 
-        self.client
-            .publish_diagnostics(uri, diagnostics, Some(version))
-            .await;
+        // A text that has been replaced or closed meanwhile gets no diagnostics
+        let current = self
+            .documents
+            .read()
+            .await
+            .get(&uri)
+            .is_some_and(|latest| latest.version == *version && latest.content == *content);
+        if current {
+            self.client
+                .publish_diagnostics(uri, diagnostics, Some(*version))
+                .await;
+        }
     }
 
     /// Compute diagnostics for document content
@@ -494,102 +542,18 @@ impl LanguageServer for StyxLanguageServer {
     }
 
     async fn did_open(&self, params: DidOpenTextDocumentParams) {
-        let uri = params.text_document.uri;
-        let content = params.text_document.text;
-        let version = params.text_document.version;
-
-        // Parse the document (CST)
-        let parsed = parse(&content);
-
-        // Parse into tree for schema validation
-        let (tree, tree_error) = match styx_tree::parse(&content) {
-            Ok(tree) => (Some(tree), None),
-            Err(e) => (None, Some(e)),
-        };
-
-        // Check for LSP extension in schema
-        let blocked_extension = if let Some(ref tree) = tree {
-            self.check_for_extension(tree, &uri).await
-        } else {
-            None
-        };
-
-        // Publish diagnostics
-        self.publish_diagnostics(
-            uri.clone(),
-            &content,
-            &parsed,
-            tree.as_ref(),
-            tree_error.as_ref(),
-            version,
-            blocked_extension,
-        )
-        .await;
-
-        // Store document
-        {
-            let mut docs = self.documents.write().await;
-            docs.insert(
-                uri,
-                DocumentState {
-                    content,
-                    parse: parsed,
-                    tree,
-                    version,
-                },
-            );
-        }
+        let document = params.text_document;
+        self.set_document(document.uri, document.text, document.version)
+            .await;
     }
 
     async fn did_change(&self, params: DidChangeTextDocumentParams) {
         let uri = params.text_document.uri;
         let version = params.text_document.version;
 
-        // With FULL sync, we get the entire document content
-        if let Some(change) = params.content_changes.into_iter().next() {
-            let content = change.text;
-
-            // Parse the document (CST)
-            let parsed = parse(&content);
-
-            // Parse into tree for schema validation
-            let (tree, tree_error) = match styx_tree::parse(&content) {
-                Ok(tree) => (Some(tree), None),
-                Err(e) => (None, Some(e)),
-            };
-
-            // Check for LSP extension in schema (might have changed)
-            let blocked_extension = if let Some(ref tree) = tree {
-                self.check_for_extension(tree, &uri).await
-            } else {
-                None
-            };
-
-            // Publish diagnostics
-            self.publish_diagnostics(
-                uri.clone(),
-                &content,
-                &parsed,
-                tree.as_ref(),
-                tree_error.as_ref(),
-                version,
-                blocked_extension,
-            )
-            .await;
-
-            // Update stored document
-            {
-                let mut docs = self.documents.write().await;
-                docs.insert(
-                    uri,
-                    DocumentState {
-                        content,
-                        parse: parsed,
-                        tree,
-                        version,
-                    },
-                );
-            }
+        // With FULL sync, every change is the entire document content: the last one counts
+        if let Some(change) = params.content_changes.into_iter().next_back() {
+            self.set_document(uri, change.text, version).await;
         }
     }
 
@@ -1606,23 +1570,16 @@ impl LanguageServer for StyxLanguageServer {
 
                     // Re-publish diagnostics for all open documents to clear the warning
                     // and trigger extension spawning
-                    let docs = self.documents.read().await;
-                    for (uri, doc) in docs.iter() {
+                    let docs = self.documents.read().await.clone();
+                    for (uri, doc) in docs {
                         let blocked_extension = if let Some(ref tree) = doc.tree {
-                            self.check_for_extension(tree, uri).await
+                            self.check_for_extension(tree, &uri).await
                         } else {
                             None
                         };
-                        self.publish_diagnostics(
-                            uri.clone(),
-                            &doc.content,
-                            &doc.parse,
-                            doc.tree.as_ref(),
-                            None, // tree_error already reported on initial load
-                            doc.version,
-                            blocked_extension,
-                        )
-                        .await;
+                        let tree_error = styx_tree::parse(&doc.content).err();
+                        self.publish_diagnostics(uri, &doc, tree_error.as_ref(), blocked_extension)
+                            .await;
                     }
 
                     // Request inlay hint refresh so hints appear immediately
@@ -2987,8 +2944,9 @@ fn get_word_range_at_position(content: &str, position: Position) -> Option<(Stri
     // Find the start of the current word by scanning backwards
     let before = &content[..offset];
     let word_start = before
-        .rfind(|c: char| c.is_whitespace() || c == '{' || c == '}')
-        .map(|i| i + 1)
+        .char_indices()
+        .rfind(|(_, c)| c.is_whitespace() || *c == '{' || *c == '}')
+        .map(|(i, c)| i + c.len_utf8())
         .unwrap_or(0);
 
     let word = &before[word_start..];
-- 
2.43.0


From 77705ce7f64420d1451266bf642bb6699ac0e4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:11 +0000
Subject: [PATCH 59/84] fix: edits offered by the language server keep
 documents valid

---
 crates/styx-lsp/src/edits.rs             | 283 +++++++++++++++++++
 crates/styx-lsp/src/lib.rs               |   1 +
 crates/styx-lsp/src/schema_validation.rs |  65 ++++-
 crates/styx-lsp/src/server.rs            | 340 +++++------------------
 4 files changed, 421 insertions(+), 268 deletions(-)
 create mode 100644 crates/styx-lsp/src/edits.rs

diff --git a/crates/styx-lsp/src/edits.rs b/crates/styx-lsp/src/edits.rs
new file mode 100644
index 0000000..e28c4ec
--- /dev/null
+++ b/crates/styx-lsp/src/edits.rs
@@ -0,0 +1,283 @@
+//! Text edits offered as code actions.
+//!
+//! Every edit is checked before it is offered: the document it leads to must still parse.
+
+use styx_cst::{Parse, SyntaxKind, SyntaxNode};
+use styx_tree::{Entry, Span, Value};
+use tower_lsp::lsp_types::*;
+
+use crate::position::offset_to_position;
+use crate::schema_validation::{SchemaField, generate_placeholder};
+
+/// Replace the bytes `start..end` of `content`; `None` if the result is not a valid document.
+fn checked_edit(content: &str, start: usize, end: usize, new_text: String) -> Option<TextEdit> {
+    let edited = [&content[..start], &new_text, &content[end..]].concat();
+    styx_tree::parse(&edited).ok()?;
+    Some(TextEdit {
+        range: Range {
+            start: offset_to_position(content, start),
+            end: offset_to_position(content, end),
+        },
+        new_text,
+    })
+}
+
+/// A key as it is written in a document.
+fn key_text(name: &str) -> String {
+    if styx_format::can_be_bare_key(name) {
+        name.to_string()
+    } else {
+        format!("\"{}\"", styx_format::escape_quoted(name))
+    }
+}
+
+/// Put a schema declaration at the start of the document.
+pub(crate) fn declaration_edit(content: &str, declaration: &str) -> Option<TextEdit> {
+    let start = content.len() - content.trim_start_matches('\u{feff}').len();
+    checked_edit(content, start, start, format!("{declaration}\n\n"))
+}
+
+/// Rename the key `from` that is at `range`.
+pub(crate) fn rename_edit(
+    tree: &Value,
+    content: &str,
+    range: Range,
+    from: &str,
+    to: &str,
+) -> Option<TextEdit> {
+    let span = find_key(tree, &|entry| {
+        let span = entry.key.span?;
+        let at = Range {
+            start: offset_to_position(content, span.start as usize),
+            end: offset_to_position(content, span.end as usize),
+        };
+        (entry.key.as_str() == Some(from) && at == range).then_some(span)
+    })?;
+    checked_edit(
+        content,
+        span.start as usize,
+        span.end as usize,
+        key_text(to),
+    )
+}
+
+fn find_key(value: &Value, pick: &dyn Fn(&Entry) -> Option<Span>) -> Option<Span> {
+    if let Some(object) = value.as_object() {
+        return object
+            .entries
+            .iter()
+            .find_map(|entry| pick(entry).or_else(|| find_key(&entry.value, pick)));
+    }
+    let sequence = value.as_sequence()?;
+    sequence.items.iter().find_map(|item| find_key(item, pick))
+}
+
+/// The end of a node without the whitespace and comments it may end with.
+fn end_of(node: &SyntaxNode) -> usize {
+    let mut token = node.last_token();
+    while let Some(t) = token {
+        let end: usize = t.text_range().end().into();
+        if end <= node.text_range().start().into() {
+            break;
+        }
+        match t.kind() {
+            SyntaxKind::WHITESPACE | SyntaxKind::NEWLINE | SyntaxKind::LINE_COMMENT => {
+                token = t.prev_token();
+            }
+            _ => return end,
+        }
+    }
+    node.text_range().end().into()
+}
+
+/// The start of an entry's key.
+fn start_of(entry: &SyntaxNode) -> usize {
+    entry
+        .children()
+        .find(|child| child.kind() == SyntaxKind::KEY)
+        .map_or(entry.text_range(), |key| key.text_range())
+        .start()
+        .into()
+}
+
+fn entries_of(object: &SyntaxNode) -> Vec<SyntaxNode> {
+    object
+        .children()
+        .filter(|child| child.kind() == SyntaxKind::ENTRY)
+        .collect()
+}
+
+/// The object written around the whole document, if there is one.
+fn explicit_root(root: &SyntaxNode) -> Option<SyntaxNode> {
+    let key = entries_of(root)
+        .first()?
+        .children()
+        .find(|child| child.kind() == SyntaxKind::KEY)?;
+    key.children()
+        .find(|child| child.kind() == SyntaxKind::OBJECT)
+}
+
+fn line_start(content: &str, offset: usize) -> usize {
+    content[..offset].rfind('\n').map_or(0, |i| i + 1)
+}
+
+/// The end of the line, without its line end.
+fn line_end(content: &str, offset: usize) -> usize {
+    let line = content[offset..].split('\n').next().unwrap_or("");
+    offset + line.trim_end_matches('\r').len()
+}
+
+fn indent_of(content: &str, offset: usize) -> &str {
+    let line = &content[line_start(content, offset)..offset];
+    &line[..line.len() - line.trim_start().len()]
+}
+
+/// Add fields to the object whose `{` is at `object_start`, or to the document.
+pub(crate) fn fill_edit(
+    parse: &Parse,
+    content: &str,
+    object_start: Option<usize>,
+    fields: &[&SchemaField],
+) -> Option<TextEdit> {
+    let root = parse.syntax();
+    let braced = match object_start {
+        Some(start) => Some(root.descendants().find(|node| {
+            node.kind() == SyntaxKind::OBJECT && usize::from(node.text_range().start()) == start
+        })?),
+        None => explicit_root(&root),
+    };
+    let fields: Vec<String> = fields
+        .iter()
+        .map(|field| {
+            // Use default value if available, otherwise generate placeholder
+            let value = field
+                .default_value
+                .clone()
+                .unwrap_or_else(|| generate_placeholder(&field.schema));
+            format!("{} {}", key_text(&field.name), value)
+        })
+        .collect();
+    let lines = |indent: &str| -> String {
+        fields
+            .iter()
+            .map(|field| format!("\n{indent}{field}"))
+            .collect()
+    };
+
+    let object = braced.as_ref().unwrap_or(&root);
+    let entries = entries_of(object);
+    let (at, new_text) = match entries.last() {
+        None if braced.is_some() => {
+            let close = end_of(object).checked_sub(1)?;
+            let indent = indent_of(content, close);
+            let line = line_start(content, close);
+            if line > object.text_range().start().into() {
+                // The closing brace has a line of its own
+                let text = fields
+                    .iter()
+                    .map(|field| format!("{indent}    {field}\n"))
+                    .collect();
+                (line, text)
+            } else {
+                (close, fields.join(", "))
+            }
+        }
+        None => {
+            let mut text = lines("");
+            if content.is_empty() || content.ends_with('\n') {
+                text.remove(0);
+            }
+            (content.len(), text + "\n")
+        }
+        Some(last) => {
+            let end = end_of(last);
+            let commas = object
+                .children_with_tokens()
+                .any(|child| child.kind() == SyntaxKind::COMMA);
+            let start = start_of(last);
+            let own_line = content[line_start(content, start)..start].trim().is_empty();
+            let object_end = if braced.is_some() {
+                end_of(object)
+            } else {
+                content.len()
+            };
+            let multiline = braced.is_none()
+                || content[usize::from(object.text_range().start())..object_end].contains('\n');
+            if commas || !multiline {
+                let text = fields.iter().map(|field| format!(", {field}")).collect();
+                (end, text)
+            } else {
+                let indent = indent_of(content, start).to_string();
+                let indent = if own_line { indent } else { indent + "    " };
+                let rest = &content[end..line_end(content, end)];
+                let at = match rest.trim_start() {
+                    // A comment, or nothing, is left on the line
+                    "" => end,
+                    comment if comment.starts_with("//") => end + rest.len(),
+                    _ => end,
+                };
+                (at, lines(&indent))
+            }
+        }
+    };
+    checked_edit(content, at, at, new_text)
+}
+
+/// Generate a text edit to reorder the document's fields to match schema order.
+///
+/// Whole lines move, together with the comments above them. Returns `None` if the fields are
+/// already in order or can't be reordered that way.
+pub(crate) fn reorder_edit(
+    parse: &Parse,
+    tree: &Value,
+    schema_fields: &[SchemaField],
+    content: &str,
+) -> Option<TextEdit> {
+    let root = parse.syntax();
+    let nodes = entries_of(&root);
+    let object = tree.as_object()?;
+    if explicit_root(&root).is_some() || nodes.len() != object.entries.len() {
+        return None;
+    }
+
+    // The schema declaration stays first, unknown fields go last
+    let rank = |entry: &Entry| {
+        if entry.key.is_unit() || entry.key.is_schema_tag() {
+            return 0;
+        }
+        let known = entry
+            .key
+            .as_str()
+            .and_then(|name| schema_fields.iter().position(|field| field.name == name));
+        known.map_or(usize::MAX, |i| i + 1)
+    };
+
+    let mut chunks = Vec::new();
+    let mut start = 0;
+    for (node, entry) in nodes.iter().zip(&object.entries) {
+        let (key_start, end) = (start_of(node), end_of(node));
+        let rest = content[end..line_end(content, end)].trim_start();
+        let indent = &content[line_start(content, key_start)..key_start];
+        if !indent.trim().is_empty() || !(rest.is_empty() || rest.starts_with("//")) {
+            return None;
+        }
+        let next = content[end..]
+            .find('\n')
+            .map_or(content.len(), |i| end + i + 1);
+        chunks.push((rank(entry), &content[start..next]));
+        start = next;
+    }
+    if chunks.is_sorted_by_key(|(rank, _)| *rank) {
+        return None; // Already in order
+    }
+    chunks.sort_by_key(|(rank, _)| *rank);
+
+    let mut new_text = String::new();
+    for (_, chunk) in chunks {
+        new_text.push_str(chunk);
+        if !chunk.ends_with('\n') {
+            new_text.push('\n');
+        }
+    }
+    checked_edit(content, 0, start, new_text)
+}
diff --git a/crates/styx-lsp/src/lib.rs b/crates/styx-lsp/src/lib.rs
index a88a5c3..84e019b 100644
--- a/crates/styx-lsp/src/lib.rs
+++ b/crates/styx-lsp/src/lib.rs
@@ -10,6 +10,7 @@
 
 pub mod cache;
 pub mod config;
+mod edits;
 pub mod extensions;
 mod position;
 pub mod schema_hints;
diff --git a/crates/styx-lsp/src/schema_validation.rs b/crates/styx-lsp/src/schema_validation.rs
index be0999c..1712501 100644
--- a/crates/styx-lsp/src/schema_validation.rs
+++ b/crates/styx-lsp/src/schema_validation.rs
@@ -360,6 +360,56 @@ pub fn get_schema_fields(schema_file: &SchemaFile) -> Vec<SchemaField> {
     fields
 }
 
+/// Put the root's fields into the order in which the schema's source declares them.
+pub fn order_as_declared(fields: &mut [SchemaField], schema_source: &str) {
+    let mut order = Vec::new();
+    if let Ok(tree) = styx_tree::parse(schema_source)
+        && let Some(definitions) = tree.get("schema").and_then(|value| value.as_object())
+        && let Some(root) = definitions.entries.iter().find(|e| e.key.is_unit())
+    {
+        collect_declared_names(&root.value, definitions, &mut order, &mut Vec::new());
+    }
+    fields.sort_by_key(|field| {
+        let rank = order.iter().position(|name| *name == field.name);
+        rank.unwrap_or(usize::MAX)
+    });
+}
+
+/// Names of the fields of a type as written in a schema's source.
+fn collect_declared_names<'a>(
+    value: &'a Value,
+    definitions: &'a styx_tree::Object,
+    names: &mut Vec<String>,
+    resolving: &mut Vec<&'a str>,
+) {
+    match (value.tag_name(), &value.payload) {
+        (None | Some("object"), Some(styx_tree::Payload::Object(object))) => {
+            names.extend(
+                object
+                    .entries
+                    .iter()
+                    .filter_map(|entry| entry.key.as_str().map(String::from)),
+            );
+        }
+        (Some("flatten"), Some(styx_tree::Payload::Sequence(sequence))) => {
+            if let Some(inner) = sequence.items.first() {
+                collect_declared_names(inner, definitions, names, resolving);
+            }
+        }
+        (Some(name), None) if !resolving.contains(&name) => {
+            let definition = definitions
+                .entries
+                .iter()
+                .find(|entry| entry.key.as_str() == Some(name));
+            if let Some(definition) = definition {
+                resolving.push(name);
+                collect_declared_names(&definition.value, definitions, names, resolving);
+            }
+        }
+        _ => {}
+    }
+}
+
 /// Recursively collect fields from a schema, handling wrappers like @object.
 ///
 /// `resolving` are the types being collected: a type that includes itself has no further fields.
@@ -432,7 +482,7 @@ pub fn generate_placeholder(schema: &Schema) -> String {
         Schema::Bool => "false".to_string(),
         Schema::Unit => "@".to_string(),
         Schema::Any => "@".to_string(),
-        Schema::Seq(_) => "[]".to_string(),
+        Schema::Seq(_) => "()".to_string(),
         Schema::Map(_) => "{}".to_string(),
         Schema::Object(_) => "{}".to_string(),
         Schema::Optional(opt) => generate_placeholder(&opt.0.0.value),
@@ -445,7 +495,7 @@ pub fn generate_placeholder(schema: &Schema) -> String {
         }
         Schema::Enum(e) => {
             e.0.keys()
-                .next()
+                .min_by(|a, b| a.value.cmp(&b.value))
                 .map(|k| format!("@{}", k.value))
                 .unwrap_or_else(|| "@".to_string())
         }
@@ -457,7 +507,7 @@ pub fn generate_placeholder(schema: &Schema) -> String {
                 .unwrap_or_else(|| generate_placeholder(&o.0.0.value))
         }
         Schema::Flatten(f) => generate_placeholder(&f.0.0.value),
-        Schema::Literal(lit) => lit.clone(),
+        Schema::Literal(lit) => scalar_text(lit),
         Schema::Type { name } => name
             .as_ref()
             .map(|n| format!("@{}", n))
@@ -470,6 +520,15 @@ pub fn generate_placeholder(schema: &Schema) -> String {
     }
 }
 
+/// A scalar as it is written in a document.
+fn scalar_text(value: &str) -> String {
+    if styx_format::can_be_bare(value) {
+        value.to_string()
+    } else {
+        format!("\"{}\"", styx_format::escape_quoted(value))
+    }
+}
+
 /// Load schema for a document and return the SchemaFile.
 pub fn load_document_schema(value: &Value, document_uri: &Url) -> Result<SchemaFile, String> {
     let schema_ref =
diff --git a/crates/styx-lsp/src/server.rs b/crates/styx-lsp/src/server.rs
index 2bcae4e..cf09901 100644
--- a/crates/styx-lsp/src/server.rs
+++ b/crates/styx-lsp/src/server.rs
@@ -10,13 +10,15 @@ use tower_lsp::jsonrpc::Result;
 use tower_lsp::lsp_types::*;
 use tower_lsp::{Client, LanguageServer, LspService, Server};
 
+use crate::edits::{declaration_edit, fill_edit, rename_edit, reorder_edit};
 use crate::extensions::{ExtensionManager, ExtensionResult, get_extension_info};
 use crate::position::{offset_to_position, position_to_offset};
 use crate::schema_hints::find_matching_hint;
 use crate::schema_validation::{
-    find_object_at_offset, find_schema_declaration, find_tagged_context_at_offset,
-    get_document_fields, get_error_span, get_schema_fields, get_schema_fields_at_path,
-    load_document_schema, resolve_schema, validate_against_schema,
+    SchemaField, SchemaRef, find_object_at_offset, find_schema_declaration,
+    find_tagged_context_at_offset, get_document_fields, get_error_span, get_schema_fields,
+    get_schema_fields_at_path, load_document_schema, order_as_declared, resolve_schema,
+    validate_against_schema,
 };
 use crate::semantic_tokens::{compute_semantic_tokens, semantic_token_legend};
 use styx_lsp_ext as ext;
@@ -1124,6 +1126,10 @@ impl LanguageServer for StyxLanguageServer {
         let uri = params.text_document.uri;
         let mut actions = Vec::new();
 
+        let Some(document) = self.documents.read().await.get(&uri).cloned() else {
+            return Ok(None);
+        };
+
         // Process each diagnostic to generate code actions (quickfixes)
         for diag in &params.context.diagnostics {
             // Handle schema hint diagnostics (add @schema declaration)
@@ -1139,15 +1145,7 @@ impl LanguageServer for StyxLanguageServer {
                         .unwrap_or("schema");
 
                     // Action 1: Add the suggested schema declaration
-                    {
-                        let edit = TextEdit {
-                            range: Range {
-                                start: Position::new(0, 0),
-                                end: Position::new(0, 0),
-                            },
-                            new_text: format!("{}\n\n", declaration),
-                        };
-
+                    if let Some(edit) = declaration_edit(&document.content, declaration) {
                         let mut changes = std::collections::HashMap::new();
                         changes.insert(uri.clone(), vec![edit]);
 
@@ -1165,15 +1163,7 @@ impl LanguageServer for StyxLanguageServer {
                     }
 
                     // Action 2: Stop reminding (insert @schema @ to explicitly disable)
-                    {
-                        let edit = TextEdit {
-                            range: Range {
-                                start: Position::new(0, 0),
-                                end: Position::new(0, 0),
-                            },
-                            new_text: "@schema @\n\n".to_string(),
-                        };
-
+                    if let Some(edit) = declaration_edit(&document.content, "@schema @") {
                         let mut changes = std::collections::HashMap::new();
                         changes.insert(uri.clone(), vec![edit]);
 
@@ -1232,13 +1222,9 @@ impl LanguageServer for StyxLanguageServer {
                     data.get("from").and_then(|v| v.as_str()),
                     data.get("to").and_then(|v| v.as_str()),
                 )
+                && let Some(tree) = &document.tree
+                && let Some(edit) = rename_edit(tree, &document.content, diag.range, from, to)
             {
-                // Create a text edit to rename the field
-                let edit = TextEdit {
-                    range: diag.range,
-                    new_text: to.to_string(),
-                };
-
                 let mut changes = std::collections::HashMap::new();
                 changes.insert(uri.clone(), vec![edit]);
 
@@ -1385,9 +1371,18 @@ impl LanguageServer for StyxLanguageServer {
         {
             // Try to load the schema
             if let Ok(schema_file) = load_document_schema(tree, &uri) {
-                // Find the object at cursor position
+                // Find the object at cursor position (no path: the document itself)
                 let cursor_offset = position_to_offset(&doc.content, params.range.start);
-                let object_ctx = find_object_at_offset(tree, cursor_offset);
+                let object_ctx =
+                    find_object_at_offset(tree, cursor_offset).filter(|ctx| !ctx.path.is_empty());
+
+                let root_fields = || {
+                    let mut fields = get_schema_fields(&schema_file);
+                    if let Ok(schema) = resolve_schema(tree, &uri) {
+                        order_as_declared(&mut fields, &schema.source);
+                    }
+                    fields
+                };
 
                 // Get schema fields for the current context (root or nested)
                 let (schema_fields, existing_fields, context_name) =
@@ -1399,14 +1394,10 @@ impl LanguageServer for StyxLanguageServer {
                             .iter()
                             .filter_map(|e| e.key.as_str().map(String::from))
                             .collect();
-                        let name = if ctx.path.is_empty() {
-                            String::new()
-                        } else {
-                            format!(" in '{}'", ctx.path.join("."))
-                        };
+                        let name = format!(" in '{}'", ctx.path.join("."));
                         (fields, existing, name)
                     } else {
-                        let fields = get_schema_fields(&schema_file);
+                        let fields = root_fields();
                         let existing = get_document_fields(tree);
                         (fields, existing, String::new())
                     };
@@ -1422,43 +1413,19 @@ impl LanguageServer for StyxLanguageServer {
                     .filter(|f| f.optional && !existing_fields.contains(&f.name))
                     .collect();
 
-                // Find insert position and indentation within the current object
-                let insert_info = if let Some(ref ctx) = object_ctx {
-                    if let Some(span) = ctx.span {
-                        // Find insertion point within this object
-                        let obj_content = &doc.content[span.start as usize..span.end as usize];
-                        let obj_insert = find_field_insert_position(obj_content);
-                        // Adjust position to be relative to document start
-                        let obj_start_pos = offset_to_position(&doc.content, span.start as usize);
-                        InsertPosition {
-                            position: Position {
-                                line: obj_start_pos.line + obj_insert.position.line,
-                                character: if obj_insert.position.line == 0 {
-                                    obj_start_pos.character + obj_insert.position.character
-                                } else {
-                                    obj_insert.position.character
-                                },
-                            },
-                            indent: obj_insert.indent,
-                        }
-                    } else {
-                        find_field_insert_position(&doc.content)
+                // The object to insert into
+                let fill = |fields: &[&SchemaField]| match &object_ctx {
+                    Some(ctx) => {
+                        let start = ctx.span?.start as usize;
+                        fill_edit(&doc.parse, &doc.content, Some(start), fields)
                     }
-                } else {
-                    find_field_insert_position(&doc.content)
+                    None => fill_edit(&doc.parse, &doc.content, None, fields),
                 };
 
                 // Action: Fill required fields
-                if !missing_required.is_empty() {
-                    let new_text = generate_fields_text(&missing_required, &insert_info.indent);
-                    let edit = TextEdit {
-                        range: Range {
-                            start: insert_info.position,
-                            end: insert_info.position,
-                        },
-                        new_text,
-                    };
-
+                if !missing_required.is_empty()
+                    && let Some(edit) = fill(&missing_required)
+                {
                     let mut changes = std::collections::HashMap::new();
                     changes.insert(uri.clone(), vec![edit]);
 
@@ -1484,16 +1451,9 @@ impl LanguageServer for StyxLanguageServer {
                     .filter(|f| !existing_fields.contains(&f.name))
                     .collect();
 
-                if !all_missing.is_empty() && !missing_optional.is_empty() {
-                    let new_text = generate_fields_text(&all_missing, &insert_info.indent);
-                    let edit = TextEdit {
-                        range: Range {
-                            start: insert_info.position,
-                            end: insert_info.position,
-                        },
-                        new_text,
-                    };
-
+                if !missing_optional.is_empty()
+                    && let Some(edit) = fill(&all_missing)
+                {
                     let mut changes = std::collections::HashMap::new();
                     changes.insert(uri.clone(), vec![edit]);
 
@@ -1514,28 +1474,22 @@ impl LanguageServer for StyxLanguageServer {
                 }
 
                 // Action: Reorder fields to match schema (only at root level for now)
-                if object_ctx
-                    .as_ref()
-                    .map(|c| c.path.is_empty())
-                    .unwrap_or(true)
+                if object_ctx.is_none()
+                    && let Some(reorder_edit) =
+                        reorder_edit(&doc.parse, tree, &root_fields(), &doc.content)
                 {
-                    let root_fields = get_schema_fields(&schema_file);
-                    if let Some(reorder_edit) =
-                        generate_reorder_edit(tree, &root_fields, &doc.content)
-                    {
-                        let mut changes = std::collections::HashMap::new();
-                        changes.insert(uri.clone(), vec![reorder_edit]);
+                    let mut changes = std::collections::HashMap::new();
+                    changes.insert(uri.clone(), vec![reorder_edit]);
 
-                        actions.push(CodeActionOrCommand::CodeAction(CodeAction {
-                            title: "Reorder fields to match schema".to_string(),
-                            kind: Some(CodeActionKind::SOURCE_ORGANIZE_IMPORTS),
-                            edit: Some(WorkspaceEdit {
-                                changes: Some(changes),
-                                ..Default::default()
-                            }),
+                    actions.push(CodeActionOrCommand::CodeAction(CodeAction {
+                        title: "Reorder fields to match schema".to_string(),
+                        kind: Some(CodeActionKind::SOURCE_ORGANIZE_IMPORTS),
+                        edit: Some(WorkspaceEdit {
+                            changes: Some(changes),
                             ..Default::default()
-                        }));
-                    }
+                        }),
+                        ..Default::default()
+                    }));
                 }
             }
         }
@@ -1849,20 +1803,10 @@ impl LanguageServer for StyxLanguageServer {
         }
 
         // Replace the entire document
-        let lines: Vec<&str> = doc.content.lines().collect();
-        let last_line = lines.len().saturating_sub(1);
-        let last_char = lines.last().map(|l| l.len()).unwrap_or(0);
-
         Ok(Some(vec![TextEdit {
             range: Range {
-                start: Position {
-                    line: 0,
-                    character: 0,
-                },
-                end: Position {
-                    line: last_line as u32,
-                    character: last_char as u32,
-                },
+                start: Position::new(0, 0),
+                end: offset_to_position(&doc.content, doc.content.len()),
             },
             new_text: formatted,
         }]))
@@ -1909,6 +1853,12 @@ impl LanguageServer for StyxLanguageServer {
             return Ok(None);
         }
 
+        // Inside a scalar, indentation would be part of its text
+        let line_start = position_to_offset(&doc.content, Position::new(position.line, 0));
+        if is_inside_scalar(&doc.parse, line_start) {
+            return Ok(None);
+        }
+
         // Convert position to byte offset
         let offset = position_to_offset(&doc.content, position);
 
@@ -1942,6 +1892,22 @@ impl LanguageServer for StyxLanguageServer {
     }
 }
 
+/// Is the offset inside a scalar or heredoc, where whitespace is text?
+fn is_inside_scalar(parse: &styx_cst::Parse, offset: usize) -> bool {
+    use styx_cst::{SyntaxKind, TextSize};
+
+    let offset = TextSize::new(offset as u32);
+    parse
+        .syntax()
+        .token_at_offset(offset)
+        .flat_map(|token| token.parent_ancestors())
+        .any(|node| {
+            matches!(node.kind(), SyntaxKind::SCALAR | SyntaxKind::HEREDOC)
+                && node.text_range().start() < offset
+                && offset < node.text_range().end()
+        })
+}
+
 /// Find the nesting depth (number of objects/sequences) containing the given offset.
 ///
 /// Uses the CST for accurate position information. Counts OBJECT and SEQUENCE
@@ -3172,162 +3138,6 @@ fn find_field_in_doc(tree: &Value, field_name: &str, content: &str) -> Option<Ra
     None
 }
 
-/// Info about where to insert new fields
-struct InsertPosition {
-    position: Position,
-    indent: String,
-}
-
-/// Find the position where new fields should be inserted and the indentation to use.
-fn find_field_insert_position(content: &str) -> InsertPosition {
-    let lines: Vec<&str> = content.lines().collect();
-
-    // Find the last non-empty, non-comment line
-    for (i, line) in lines.iter().enumerate().rev() {
-        let trimmed = line.trim();
-        if !trimmed.is_empty() && !trimmed.starts_with("//") && !trimmed.starts_with('#') {
-            // Detect indentation from this line
-            let indent_len = line.len() - line.trim_start().len();
-            let indent = line[..indent_len].to_string();
-
-            return InsertPosition {
-                position: Position {
-                    line: i as u32,
-                    character: line.len() as u32,
-                },
-                indent,
-            };
-        }
-    }
-
-    // Fallback: end of document, no indentation
-    InsertPosition {
-        position: Position {
-            line: lines.len().saturating_sub(1) as u32,
-            character: lines.last().map(|l| l.len()).unwrap_or(0) as u32,
-        },
-        indent: String::new(),
-    }
-}
-
-/// Generate text for inserting missing fields.
-fn generate_fields_text(fields: &[&crate::schema_validation::SchemaField], indent: &str) -> String {
-    use crate::schema_validation::generate_placeholder;
-
-    let mut result = String::new();
-
-    for field in fields {
-        result.push('\n');
-        result.push_str(indent);
-        result.push_str(&field.name);
-        result.push(' ');
-
-        // Use default value if available, otherwise generate placeholder
-        let value = field
-            .default_value
-            .clone()
-            .unwrap_or_else(|| generate_placeholder(&field.schema));
-        result.push_str(&value);
-    }
-
-    result
-}
-
-/// Generate a text edit to reorder fields to match schema order.
-/// Returns None if the fields are already in order or can't be reordered.
-fn generate_reorder_edit(
-    tree: &Value,
-    schema_fields: &[crate::schema_validation::SchemaField],
-    content: &str,
-) -> Option<TextEdit> {
-    let obj = tree.as_object()?;
-
-    // Build schema field order map
-    let schema_order: std::collections::HashMap<&str, usize> = schema_fields
-        .iter()
-        .enumerate()
-        .map(|(i, f)| (f.name.as_str(), i))
-        .collect();
-
-    // Collect document entries with their positions
-    let mut doc_entries: Vec<(Option<usize>, &styx_tree::Entry)> = obj
-        .entries
-        .iter()
-        .map(|e| {
-            let order = e
-                .key
-                .as_str()
-                .and_then(|name| schema_order.get(name).copied());
-            (order, e)
-        })
-        .collect();
-
-    // Check if already in order
-    let current_order: Vec<Option<usize>> = doc_entries.iter().map(|(o, _)| *o).collect();
-    let mut sorted_order = current_order.clone();
-    sorted_order.sort_by(|a, b| match (a, b) {
-        (Some(x), Some(y)) => x.cmp(y),
-        (Some(_), None) => std::cmp::Ordering::Less,
-        (None, Some(_)) => std::cmp::Ordering::Greater,
-        (None, None) => std::cmp::Ordering::Equal,
-    });
-
-    if current_order == sorted_order {
-        return None; // Already in order
-    }
-
-    // Sort entries by schema order (keep @ declaration first, unknowns last)
-    doc_entries.sort_by(|(a_order, a_entry), (b_order, b_entry)| {
-        // @ declaration always first
-        if a_entry.key.is_unit() {
-            return std::cmp::Ordering::Less;
-        }
-        if b_entry.key.is_unit() {
-            return std::cmp::Ordering::Greater;
-        }
-        // Then by schema order
-        match (a_order, b_order) {
-            (Some(x), Some(y)) => x.cmp(y),
-            (Some(_), None) => std::cmp::Ordering::Less,
-            (None, Some(_)) => std::cmp::Ordering::Greater,
-            (None, None) => std::cmp::Ordering::Equal,
-        }
-    });
-
-    // Regenerate the document content, preserving original entry text
-    let mut new_content = String::new();
-
-    for (i, (_, entry)) in doc_entries.iter().enumerate() {
-        if i > 0 {
-            new_content.push('\n');
-        }
-
-        // Get the full entry text from the original source (key + value)
-        // by using the key's start and value's end
-        if let (Some(key_span), Some(val_span)) = (entry.key.span, entry.value.span) {
-            // Find the start of the line to preserve indentation
-            let key_start = key_span.start as usize;
-            let line_start = content[..key_start].rfind('\n').map(|i| i + 1).unwrap_or(0);
-            let indent = &content[line_start..key_start];
-
-            new_content.push_str(indent);
-            new_content.push_str(&content[key_start..val_span.end as usize]);
-        }
-    }
-
-    // Find the range of the entire document content (excluding leading/trailing whitespace)
-    let start_offset = obj.span?.start as usize;
-    let end_offset = obj.span?.end as usize;
-
-    Some(TextEdit {
-        range: Range {
-            start: offset_to_position(content, start_offset),
-            end: offset_to_position(content, end_offset),
-        },
-        new_text: new_content,
-    })
-}
-
 /// Run the LSP server on stdin/stdout
 pub async fn run() -> eyre::Result<()> {
     // Set up logging (no ANSI colors since output goes to stderr for LSP)
-- 
2.43.0


From c85fae55e7cddf58597f71f52cf560e3be9e203f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:14 +0000
Subject: [PATCH 60/84] fix: the editor reports schemas that cannot be used, as
 the command line does

---
 crates/styx-lsp/src/schema_validation.rs | 91 ++++++++++++++++--------
 crates/styx-lsp/src/server.rs            | 26 +++----
 2 files changed, 76 insertions(+), 41 deletions(-)

diff --git a/crates/styx-lsp/src/schema_validation.rs b/crates/styx-lsp/src/schema_validation.rs
index 1712501..6670fb4 100644
--- a/crates/styx-lsp/src/schema_validation.rs
+++ b/crates/styx-lsp/src/schema_validation.rs
@@ -35,8 +35,15 @@ pub enum SchemaRef {
         /// The binary to extract from
         cli: String,
     },
+    /// The first schema embedded in a binary: @schema {cli <binary>}
+    FirstEmbedded {
+        /// The binary to extract from
+        cli: String,
+    },
     /// Explicit opt-out: @schema @ (no schema validation)
     None,
+    /// A declaration that is none of these, with what is wrong
+    Invalid(&'static str),
 }
 
 impl SchemaRef {
@@ -52,8 +59,10 @@ impl SchemaRef {
                     format!("failed to read schema file '{}': {}", resolved.display(), e)
                 })
             }
-            SchemaRef::Embedded { id, cli } => extract_embedded_schema_source(cli, id),
+            SchemaRef::Embedded { id, cli } => extract_embedded_schema_source(cli, Some(id)),
+            SchemaRef::FirstEmbedded { cli } => extract_embedded_schema_source(cli, None),
             SchemaRef::None => Err("schema validation explicitly disabled".to_string()),
+            SchemaRef::Invalid(message) => Err(message.to_string()),
         }
     }
 
@@ -67,8 +76,10 @@ impl SchemaRef {
                     .ok_or_else(|| format!("could not resolve schema path '{}'", path))?;
                 load_schema_file(&resolved)
             }
-            SchemaRef::Embedded { id, cli } => extract_embedded_schema(cli, id),
+            SchemaRef::Embedded { id, cli } => extract_embedded_schema(cli, Some(id)),
+            SchemaRef::FirstEmbedded { cli } => extract_embedded_schema(cli, None),
             SchemaRef::None => Err("schema validation explicitly disabled".to_string()),
+            SchemaRef::Invalid(message) => Err(message.to_string()),
         }
     }
 
@@ -84,22 +95,11 @@ impl SchemaRef {
                 Url::from_file_path(&resolved)
                     .map_err(|_| format!("could not create URI for '{}'", resolved.display()))
             }
-            SchemaRef::Embedded { id, cli } => {
-                // Cache the schema to disk and return a file:// URI
-                // Use both cli and id to create a unique cache key
-                let cache_key = format!("{}/{}", cli, id);
-                if let Some(cache_path) = cache::cache_embedded_schema(&cache_key, source) {
-                    Url::from_file_path(&cache_path)
-                        .map_err(|_| format!("could not create URI for '{}'", cache_path.display()))
-                } else {
-                    // Fallback to virtual URI if caching fails
-                    Url::parse(&format!(
-                        "{}://{}/{}/schema.styx",
-                        EMBEDDED_SCHEMA_SCHEME, cli, id
-                    ))
-                    .map_err(|e| format!("could not create embedded schema URI: {}", e))
-                }
+            SchemaRef::Embedded { id, cli } => embedded_uri(cli, id, source),
+            SchemaRef::FirstEmbedded { cli } => {
+                embedded_uri(cli, &extract_schema_id(source).unwrap_or_default(), source)
             }
+            SchemaRef::Invalid(message) => Err(message.to_string()),
             SchemaRef::None => Err("schema validation explicitly disabled".to_string()),
         }
     }
@@ -111,6 +111,24 @@ impl SchemaRef {
     }
 }
 
+/// The URI of an embedded schema: a cached copy on disk, or a virtual URI.
+fn embedded_uri(cli: &str, id: &str, source: &str) -> Result<Url, String> {
+    // Cache the schema to disk and return a file:// URI
+    // Use both cli and id to create a unique cache key
+    let cache_key = format!("{}/{}", cli, id);
+    if let Some(cache_path) = cache::cache_embedded_schema(&cache_key, source) {
+        Url::from_file_path(&cache_path)
+            .map_err(|_| format!("could not create URI for '{}'", cache_path.display()))
+    } else {
+        // Fallback to virtual URI if caching fails
+        Url::parse(&format!(
+            "{}://{}/{}/schema.styx",
+            EMBEDDED_SCHEMA_SCHEME, cli, id
+        ))
+        .map_err(|e| format!("could not create embedded schema URI: {}", e))
+    }
+}
+
 /// A fully resolved schema with source text and location.
 ///
 /// This is the single source of truth for schema information in the LSP.
@@ -147,17 +165,24 @@ pub fn find_schema_declaration(value: &Value) -> Option<SchemaRef> {
             }
 
             // @schema {id ..., cli ...}
-            if let Some(schema_obj) = entry.value.as_object()
-                && let Some(id_value) = schema_obj.get("id")
-                && let Some(id) = id_value.as_str()
-                && let Some(cli_value) = schema_obj.get("cli")
-                && let Some(cli_name) = cli_value.as_str()
-            {
-                return Some(SchemaRef::Embedded {
+            let Some(schema_obj) = entry.value.as_object() else {
+                return Some(SchemaRef::Invalid(
+                    "@schema directive must be a path or an object with {id ..., cli ...}",
+                ));
+            };
+            let field = |name| schema_obj.get(name).and_then(|value| value.as_str());
+            return Some(match (field("id"), field("cli")) {
+                (Some(id), Some(cli)) => SchemaRef::Embedded {
                     id: id.to_string(),
-                    cli: cli_name.to_string(),
-                });
-            }
+                    cli: cli.to_string(),
+                },
+                (None, Some(cli)) => SchemaRef::FirstEmbedded {
+                    cli: cli.to_string(),
+                },
+                (_, None) => SchemaRef::Invalid(
+                    "@schema directive must have a 'cli' field with the binary name",
+                ),
+            });
         }
     }
 
@@ -216,13 +241,16 @@ pub fn strip_schema_declaration(value: &Value) -> Value {
 }
 
 /// Extract schema from a binary with embedded styx schemas.
-fn extract_embedded_schema(cli_name: &str, schema_id: &str) -> Result<SchemaFile, String> {
+fn extract_embedded_schema(cli_name: &str, schema_id: Option<&str>) -> Result<SchemaFile, String> {
     let source = extract_embedded_schema_source(cli_name, schema_id)?;
     facet_styx::from_str(&source).map_err(|e| format!("failed to parse embedded schema: {}", e))
 }
 
 /// Extract schema source text from a binary with embedded styx schemas.
-fn extract_embedded_schema_source(cli_name: &str, schema_id: &str) -> Result<String, String> {
+fn extract_embedded_schema_source(
+    cli_name: &str,
+    schema_id: Option<&str>,
+) -> Result<String, String> {
     let binary_path =
         which::which(cli_name).map_err(|_| format!("binary '{}' not found in PATH", cli_name))?;
 
@@ -241,6 +269,11 @@ fn extract_embedded_schema_source(cli_name: &str, schema_id: &str) -> Result<Str
         ));
     }
 
+    // No ID specified, use the first schema
+    let Some(schema_id) = schema_id else {
+        return Ok(schemas[0].clone());
+    };
+
     // Find the schema with the matching ID
     for schema_source in schemas {
         if extract_schema_id(&schema_source).is_some_and(|id| id == schema_id) {
diff --git a/crates/styx-lsp/src/server.rs b/crates/styx-lsp/src/server.rs
index cf09901..a4f190f 100644
--- a/crates/styx-lsp/src/server.rs
+++ b/crates/styx-lsp/src/server.rs
@@ -327,15 +327,20 @@ impl StyxLanguageServer {
         // Phase 3: Schema validation
         if let Some(tree) = tree {
             // Only validate if there's a schema declaration
-            if let Ok(schema) = resolve_schema(tree, uri) {
+            if find_schema_declaration(tree)
+                .is_some_and(|schema| !matches!(schema, SchemaRef::None))
+            {
                 // Create related_information linking to schema
-                let schema_location = Some(DiagnosticRelatedInformation {
-                    location: Location {
-                        uri: schema.uri.clone(),
-                        range: Range::default(),
-                    },
-                    message: format!("schema: {}", schema.uri),
-                });
+                let schema_location =
+                    resolve_schema(tree, uri)
+                        .ok()
+                        .map(|schema| DiagnosticRelatedInformation {
+                            location: Location {
+                                uri: schema.uri.clone(),
+                                range: Range::default(),
+                            },
+                            message: format!("schema: {}", schema.uri),
+                        });
 
                 match validate_against_schema(tree, uri) {
                     Ok(result) => {
@@ -409,10 +414,7 @@ impl StyxLanguageServer {
                     Err(e) => {
                         // Schema loading error
                         diagnostics.push(Diagnostic {
-                            range: Range {
-                                start: Position::new(0, 0),
-                                end: Position::new(0, 1),
-                            },
+                            range: find_schema_declaration_range(tree, content).unwrap_or_default(),
                             severity: Some(DiagnosticSeverity::ERROR),
                             code: None,
                             code_description: None,
-- 
2.43.0


From 79e5854f27632124005f8445a0d38ab0caf515b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:10 +0000
Subject: [PATCH 61/84] fix: the Python lexer reads escapes, heredocs and
 whitespace as the language has them

---
 implementations/styx-py/styx/lexer.py | 71 ++++++++++++++++++---------
 1 file changed, 47 insertions(+), 24 deletions(-)

diff --git a/implementations/styx-py/styx/lexer.py b/implementations/styx-py/styx/lexer.py
index ce97622..34fa257 100644
--- a/implementations/styx-py/styx/lexer.py
+++ b/implementations/styx-py/styx/lexer.py
@@ -39,13 +39,21 @@ class Token:
     had_newline_before: bool
 
 
-SPECIAL_CHARS: Final[frozenset[str]] = frozenset(
-    ["{", "}", "(", ")", ",", '"', ">", " ", "\t", "\n", "\r"]
+# The characters with the Unicode property White_Space (`str.isspace` has others)
+WHITESPACE: Final[str] = (
+    "\t\n\v\f\r \x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a"
+    "\u2028\u2029\u202f\u205f\u3000"
 )
 
+SPECIAL_CHARS: Final[frozenset[str]] = frozenset(["{", "}", "(", ")", ",", '"', ">", *WHITESPACE])
+
 TAG_START_RE: Final[re.Pattern[str]] = re.compile(r"[A-Za-z_]")
 TAG_CHAR_RE: Final[re.Pattern[str]] = re.compile(r"[A-Za-z0-9_\-]")
 
+HEREDOC_START_RE: Final[re.Pattern[str]] = re.compile(r"<<([A-Z][A-Z0-9_]*)")
+HEX_RE: Final[re.Pattern[str]] = re.compile(r"[0-9A-Fa-f]+")
+MAX_HEREDOC_DELIMITER: Final[int] = 16
+
 
 class Lexer:
     """Tokenizer for Styx source code."""
@@ -80,16 +88,18 @@ class Lexer:
 
         while self.pos < len(self.source):
             ch = self._peek()
-            if ch in (" ", "\t", "\r"):
+            if ch in (" ", "\t"):
                 had_whitespace = True
                 self._advance()
-            elif ch == "\n":
+            elif ch == "\n" or (ch == "\r" and self._peek(1) == "\n"):
+                if ch == "\r":
+                    self._advance()
                 had_whitespace = True
                 had_newline = True
                 self._advance()
             elif ch == "/" and self._peek(1) == "/":
                 had_whitespace = True
-                while self.pos < len(self.source) and self._peek() != "\n":
+                while self.pos < len(self.source) and self._peek() not in ("\n", "\r"):
                     self._advance()
             else:
                 break
@@ -158,7 +168,11 @@ class Lexer:
             self._advance()
             if self._is_tag_start(self._peek()):
                 name_start = self.pos
+                self._advance()
                 while self._is_tag_char(self._peek()):
+                    # `@tagr#"raw"#`: the `r` opens the payload
+                    if self._peek() == "r" and self._peek(1) == "#":
+                        break
                     self._advance()
                 name = self.source[name_start : self.pos]
                 return Token(
@@ -176,10 +190,10 @@ class Lexer:
 
         # Heredoc - only if << is followed by uppercase letter
         if ch == "<" and self._peek(1) == "<":
-            after_lt_lt = self._peek(2)
-            if after_lt_lt.isupper():
+            opening = HEREDOC_START_RE.match(self.source, self.pos)
+            if opening and len(opening[1]) <= MAX_HEREDOC_DELIMITER:
                 return self._read_heredoc(start, had_whitespace, had_newline)
-            # << not followed by uppercase - return error at just <<
+            # << not followed by a delimiter - return error at just <<
             self._advance()  # <
             self._advance()  # <
             error_end = self.byte_pos
@@ -188,6 +202,11 @@ class Lexer:
                 self._advance()
             raise ParseError("unexpected token", Span(start, error_end))
 
+        # A bare scalar does not start with `=` or with whitespace other than the above
+        if ch == "=" or ch in WHITESPACE:
+            self._advance()
+            raise ParseError("unexpected token", Span(start, self.byte_pos))
+
         # Bare scalar
         return self._read_bare_scalar(start, had_whitespace, had_newline)
 
@@ -219,38 +238,35 @@ class Lexer:
                     case '"':
                         text += '"'
                     case "u":
-                        text += self._read_unicode_escape()
+                        text += self._read_unicode_escape(escape_start)
                     case _:
                         raise ParseError(
                             f"invalid escape sequence: \\{escaped}",
                             Span(escape_start, self.byte_pos),
                         )
-            elif ch in ("\n", "\r"):
-                # Unterminated string - include the newline in the span
-                self._advance()
-                if ch == "\r" and self._peek() == "\n":
-                    self._advance()
-                raise ParseError("unexpected token", Span(start, self.byte_pos))
             else:
                 text += self._advance()
 
         # EOF without closing quote - error
         raise ParseError("unexpected token", Span(start, self.byte_pos))
 
-    def _read_unicode_escape(self) -> str:
+    def _read_unicode_escape(self, escape_start: int) -> str:
         """Read a unicode escape sequence."""
+        hex_str = ""
         if self._peek() == "{":
             self._advance()
-            hex_str = ""
-            while self._peek() != "}" and self.pos < len(self.source):
+            while self._peek() not in ("}", '"', ""):
                 hex_str += self._advance()
-            self._advance()
-            return chr(int(hex_str, 16))
+            valid = self._advance() == "}" and len(hex_str) <= 6
         else:
-            hex_str = ""
-            for _ in range(4):
+            while len(hex_str) < 4 and self._peek() not in ('"', ""):
                 hex_str += self._advance()
-            return chr(int(hex_str, 16))
+            valid = len(hex_str) == 4
+        if valid and HEX_RE.fullmatch(hex_str):
+            code = int(hex_str, 16)
+            if code <= 0x10FFFF and not 0xD800 <= code <= 0xDFFF:
+                return chr(code)
+        raise ParseError("invalid escape sequence: \\u", Span(escape_start, self.byte_pos))
 
     def _read_raw_string(self, start: int, had_whitespace: bool, had_newline: bool) -> Token:
         """Read a raw string."""
@@ -259,6 +275,8 @@ class Lexer:
         while self._peek() == "#":
             self._advance()
             hashes += 1
+        if self._peek() != '"':
+            raise ParseError("unexpected token", Span(start, self.byte_pos))
         self._advance()  # opening "
 
         text = ""
@@ -290,12 +308,15 @@ class Lexer:
         content_start = self.byte_pos
 
         text = ""
-        bare_delimiter = delimiter.split(",")[0]
+        bare_delimiter = delimiter.removesuffix("\r").split(",")[0]
 
         while self.pos < len(self.source):
             line = ""
             while self.pos < len(self.source) and self._peek() != "\n":
                 line += self._advance()
+            carriage_return = self.pos < len(self.source) and line.endswith("\r")
+            if carriage_return:
+                line = line[:-1]
 
             # Check for exact match (no indentation)
             if line == bare_delimiter:
@@ -318,6 +339,8 @@ class Lexer:
                 )
 
             text += line
+            if carriage_return:
+                text += "\r"
             if self.pos < len(self.source) and self._peek() == "\n":
                 self._advance()
                 text += "\n"
-- 
2.43.0


From 0701a5644bc2d3365cee17be167110f50ce27c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:47 +0000
Subject: [PATCH 62/84] fix: the Python parser refuses what the language
 refuses, and ends on every text

---
 implementations/styx-py/styx/lexer.py  |  14 +-
 implementations/styx-py/styx/parser.py | 325 ++++++++++---------------
 2 files changed, 138 insertions(+), 201 deletions(-)

diff --git a/implementations/styx-py/styx/lexer.py b/implementations/styx-py/styx/lexer.py
index 34fa257..f4b24d0 100644
--- a/implementations/styx-py/styx/lexer.py
+++ b/implementations/styx-py/styx/lexer.py
@@ -37,6 +37,7 @@ class Token:
     span: Span
     had_whitespace_before: bool
     had_newline_before: bool
+    doc_before: Span | None = None  # the doc comment in front of the token
 
 
 # The characters with the Unicode property White_Space (`str.isspace` has others)
@@ -58,12 +59,13 @@ MAX_HEREDOC_DELIMITER: Final[int] = 16
 class Lexer:
     """Tokenizer for Styx source code."""
 
-    __slots__ = ("byte_pos", "pos", "source")
+    __slots__ = ("byte_pos", "doc", "pos", "source")
 
     def __init__(self, source: str) -> None:
         self.source = source
         self.pos = 0  # character position
         self.byte_pos = 0  # byte position for spans
+        self.doc: Span | None = None
 
     def _peek(self, offset: int = 0) -> str:
         """Look ahead in the source."""
@@ -99,8 +101,12 @@ class Lexer:
                 self._advance()
             elif ch == "/" and self._peek(1) == "/":
                 had_whitespace = True
+                start = self.byte_pos
+                is_doc = self._peek(2) == "/"
                 while self.pos < len(self.source) and self._peek() not in ("\n", "\r"):
                     self._advance()
+                if is_doc:
+                    self.doc = Span(self.doc.start if self.doc else start, self.byte_pos)
             else:
                 break
 
@@ -116,6 +122,12 @@ class Lexer:
 
     def next_token(self) -> Token:
         """Return the next token."""
+        self.doc = None
+        token = self._next_token()
+        token.doc_before = self.doc
+        return token
+
+    def _next_token(self) -> Token:
         had_whitespace, had_newline = self._skip_whitespace_and_comments()
 
         if self.pos >= len(self.source):
diff --git a/implementations/styx-py/styx/parser.py b/implementations/styx-py/styx/parser.py
index ba451a9..c832d1c 100644
--- a/implementations/styx-py/styx/parser.py
+++ b/implementations/styx-py/styx/parser.py
@@ -17,6 +17,14 @@ from .types import (
     Value,
 )
 
+# A key as far as duplicates go: the text of a scalar, or the parts of a tag or unit key.
+PathSegment = str | tuple[str, ...]
+
+
+def _show(path: tuple[PathSegment, ...]) -> str:
+    """Format a path for a message."""
+    return ".".join(s if isinstance(s, str) else "".join(s) for s in path)
+
 
 class PathState:
     """Track path state for detecting reopen-path and nest-into-terminal errors."""
@@ -24,32 +32,35 @@ class PathState:
     __slots__ = ("assigned_paths", "closed_paths", "current_path")
 
     def __init__(self) -> None:
-        self.current_path: list[str] = []
-        self.closed_paths: set[str] = set()  # Paths that have had siblings
-        self.assigned_paths: dict[str, tuple[PathValueKind, Span]] = {}
+        self.current_path: tuple[PathSegment, ...] = ()
+        self.closed_paths: set[tuple[PathSegment, ...]] = set()  # Paths that have had siblings
+        self.assigned_paths: dict[tuple[PathSegment, ...], tuple[PathValueKind, Span]] = {}
 
-    def check_and_update(self, path: list[str], span: Span, kind: PathValueKind) -> None:
+    def check_and_update(
+        self, path: tuple[PathSegment, ...], span: Span, kind: PathValueKind
+    ) -> None:
         """Check path validity and update state. Raises ParseError if invalid."""
-        full_path = ".".join(path)
 
         # 1. Check for duplicate
-        if full_path in self.assigned_paths:
-            existing_kind, _existing_span = self.assigned_paths[full_path]
+        if path in self.assigned_paths:
+            existing_kind, _existing_span = self.assigned_paths[path]
             if existing_kind == PathValueKind.TERMINAL:
                 raise ParseError("duplicate key", span)
             # Both are objects - it's a reopen attempt
-            raise ParseError(f"cannot reopen path `{full_path}` after sibling appeared", span)
+            raise ParseError(f"cannot reopen path `{_show(path)}` after sibling appeared", span)
 
         # 2. Check if any prefix is closed (has had siblings) or is terminal
         for i in range(1, len(path)):
-            prefix = ".".join(path[:i])
+            prefix = path[:i]
             if prefix in self.closed_paths:
-                raise ParseError(f"cannot reopen path `{prefix}` after sibling appeared", span)
+                raise ParseError(
+                    f"cannot reopen path `{_show(prefix)}` after sibling appeared", span
+                )
             if prefix in self.assigned_paths:
                 prefix_kind, _prefix_span = self.assigned_paths[prefix]
                 if prefix_kind == PathValueKind.TERMINAL:
                     raise ParseError(
-                        f"cannot nest into `{prefix}` which has a terminal value", span
+                        f"cannot nest into `{_show(prefix)}` which has a terminal value", span
                     )
 
         # 3. Find common prefix length with current path
@@ -62,18 +73,17 @@ class PathState:
 
         # 4. Close all divergent paths from current path
         for i in range(common_len, len(self.current_path)):
-            divergent = ".".join(self.current_path[: i + 1])
-            self.closed_paths.add(divergent)
+            self.closed_paths.add(self.current_path[: i + 1])
 
         # 5. Record intermediate segments as objects
         for i in range(len(path) - 1):
-            prefix = ".".join(path[: i + 1])
+            prefix = path[: i + 1]
             if prefix not in self.assigned_paths:
                 self.assigned_paths[prefix] = (PathValueKind.OBJECT, span)
 
         # 6. Record the final path
-        self.assigned_paths[full_path] = (kind, span)
-        self.current_path = path.copy()
+        self.assigned_paths[path] = (kind, span)
+        self.current_path = path
 
 
 class Parser:
@@ -127,7 +137,7 @@ class Parser:
             self._advance()
 
         # Check for explicit root object: { ... } at document start
-        if self._check(TokenType.LBRACE):
+        if self._check(TokenType.LBRACE) and self.current.doc_before is None:
             # Explicit root object - parse it and check for trailing content
             obj = self._parse_object()
             obj_value = Value(span=obj.span, payload=obj)
@@ -135,10 +145,6 @@ class Parser:
             entries.append(Entry(key=unit_key, value=obj_value))
 
             # After explicit root object, only whitespace/comments/EOF are allowed
-            # Skip commas (they don't count as "content")
-            while self._check(TokenType.COMMA):
-                self._advance()
-
             if not self._check(TokenType.EOF):
                 # Find the span of trailing content
                 trailing_start = self.current.span.start
@@ -158,73 +164,35 @@ class Parser:
             )
 
         while not self._check(TokenType.EOF):
-            entry = self._parse_entry_with_path_check(path_state)
+            entry = self._parse_entry(path_state)
             if entry:
                 entries.append(entry)
+        self._check_no_doc()
 
         return Document(
             entries=entries,
             span=Span(start, self.current.span.end),
         )
 
-    def _parse_entry_with_path_check(self, path_state: PathState) -> Entry | None:
-        """Parse an entry at document level with path state checking."""
-        while self._check(TokenType.COMMA):
-            self._advance()
+    def _check_no_doc(self) -> None:
+        """Where entries end, no doc comment may be left."""
+        if self.current.doc_before is not None:
+            raise ParseError("doc comment not followed by an entry", self.current.doc_before)
 
-        # Stray > tokens without a value are an error
+    def _check_entry_end(self) -> None:
+        """An entry ends at a newline, a comma or where its object ends."""
+        if self.current.had_newline_before or self._check(
+            TokenType.EOF, TokenType.RBRACE, TokenType.COMMA
+        ):
+            return
         if self._check(TokenType.GT):
             raise ParseError("expected a value", self.current.span)
+        raise ParseError(
+            "unexpected atom after value (entry has too many atoms)", self.current.span
+        )
 
-        if self._check(TokenType.EOF, TokenType.RBRACE):
-            return None
-
-        key = self._parse_value()
-
-        # Special case: object in key position gets implicit unit key
-        if key.payload is not None and isinstance(key.payload, StyxObject):
-            if not self.current.had_newline_before and not self._check(
-                TokenType.EOF, TokenType.RBRACE, TokenType.COMMA
-            ):
-                self._parse_value()  # Drop trailing value
-            unit_key = Value(span=Span(-1, -1))
-            return Entry(key=unit_key, value=key)
-
-        # Check for dotted path in bare scalar key
-        if (
-            key.payload is not None
-            and isinstance(key.payload, Scalar)
-            and key.payload.kind == ScalarKind.BARE
-        ):
-            text = key.payload.text
-            if "." in text:
-                return self._expand_dotted_path_with_state(text, key.span, path_state)
-
-        # Check key validity with path state
-        key_text = self._get_key_text(key)
-
-        self._validate_key(key)
-
-        # Check for implicit unit
-        if self.current.had_newline_before or self._check(TokenType.EOF, TokenType.RBRACE):
-            if key_text is not None:
-                path_state.check_and_update([key_text], key.span, PathValueKind.TERMINAL)
-            return Entry(key=key, value=Value(span=key.span))
-
-        value = self._parse_value()
-
-        # Determine kind from actual value
-        if key_text is not None:
-            if value.payload is not None and isinstance(value.payload, StyxObject):
-                kind = PathValueKind.OBJECT
-            else:
-                kind = PathValueKind.TERMINAL
-            path_state.check_and_update([key_text], key.span, kind)
-
-        return Entry(key=key, value=value)
-
-    def _parse_entry_with_dup_check(self, seen_keys: dict[str, Span]) -> Entry | None:
-        """Parse an entry with duplicate key checking."""
+    def _parse_entry(self, path_state: PathState, in_object: bool = False) -> Entry | None:
+        """Parse an entry, of the document or of an object, with path state checking."""
         while self._check(TokenType.COMMA):
             self._advance()
 
@@ -232,58 +200,60 @@ class Parser:
         if self._check(TokenType.GT):
             raise ParseError("expected a value", self.current.span)
 
-        if self._check(TokenType.EOF, TokenType.RBRACE):
+        if self._check(TokenType.EOF) or (in_object and self._check(TokenType.RBRACE)):
             return None
 
         key = self._parse_value()
+        self._validate_key(key)
 
-        # Special case: object in key position gets implicit unit key
-        if key.payload is not None and isinstance(key.payload, StyxObject):
-            if not self.current.had_newline_before and not self._check(
-                TokenType.EOF, TokenType.RBRACE, TokenType.COMMA
-            ):
-                self._parse_value()  # Drop trailing value
-            unit_key = Value(span=Span(-1, -1))
-            return Entry(key=unit_key, value=key)
-
-        # Check for dotted path in bare scalar key
         if (
-            key.payload is not None
+            key.tag is None
             and isinstance(key.payload, Scalar)
             and key.payload.kind == ScalarKind.BARE
         ):
-            text = key.payload.text
-            if "." in text:
-                return self._expand_dotted_path(text, key.span, seen_keys)
-
-        # Check for duplicate key
-        key_text = self._get_key_text(key)
-        if key_text is not None:
-            if key_text in seen_keys:
-                raise ParseError("duplicate key", key.span)
-            seen_keys[key_text] = key.span
-
-        self._validate_key(key)
-
-        # Check for implicit unit
-        if self.current.had_newline_before or self._check(TokenType.EOF, TokenType.RBRACE):
-            return Entry(key=key, value=Value(span=key.span))
+            if not self.current.had_whitespace_before and self._check(
+                TokenType.LBRACE, TokenType.LPAREN
+            ):
+                raise ParseError(
+                    "missing whitespace before `{` or `(` (required after bare scalar to"
+                    " distinguish from tag syntax like `@tag{}`)",
+                    self.current.span,
+                )
+            # Dotted path in bare scalar key
+            if "." in key.payload.text:
+                return self._expand_dotted_path(key.payload.text, key.span, path_state)
 
-        value = self._parse_value()
+        value = self._parse_entry_value(key)
+        path_state.check_and_update((self._key_segment(key),), key.span, self._value_kind(value))
         return Entry(key=key, value=value)
 
-    def _get_key_text(self, key: Value) -> str | None:
-        """Get the text representation of a key for duplicate checking."""
-        if key.payload is not None and isinstance(key.payload, Scalar):
-            return key.payload.text
-        if key.tag is not None and key.payload is None:
-            return f"@{key.tag.name}"
-        return None
+    def _parse_entry_value(self, key: Value) -> Value:
+        """Parse what follows a key; nothing does if the value is an implicit unit."""
+        if self.current.had_newline_before or self._check(
+            TokenType.EOF, TokenType.RBRACE, TokenType.COMMA
+        ):
+            return Value(span=key.span)
+        value = self._parse_value()
+        self._check_entry_end()
+        return value
+
+    def _value_kind(self, value: Value) -> PathValueKind:
+        """Whether more of a path may follow a value."""
+        if value.tag is None and isinstance(value.payload, StyxObject):
+            return PathValueKind.OBJECT
+        return PathValueKind.TERMINAL
+
+    def _key_segment(self, key: Value) -> PathSegment:
+        """What a key is, for duplicate checking."""
+        text = (key.payload.text,) if isinstance(key.payload, Scalar) else ()
+        if key.tag is not None:
+            return ("@", key.tag.name, *text)
+        return text[0] if text else ("@",)
 
     def _validate_key(self, key: Value) -> None:
         """Validate that a value can be used as a key."""
         if key.payload is not None:
-            if isinstance(key.payload, Sequence):
+            if isinstance(key.payload, (Sequence, StyxObject)):
                 raise ParseError("invalid key", key.span)
             if isinstance(key.payload, Scalar) and key.payload.kind == ScalarKind.HEREDOC:
                 # Point at just the opening marker (<<TAG), not the whole content
@@ -297,9 +267,7 @@ class Parser:
         end_offset = newline_idx + 1 if newline_idx >= 0 else len(text)
         return Span(heredoc_span.start, heredoc_span.start + end_offset)
 
-    def _expand_dotted_path_with_state(
-        self, path_text: str, span: Span, path_state: PathState
-    ) -> Entry:
+    def _expand_dotted_path(self, path_text: str, span: Span, path_state: PathState) -> Entry:
         """Expand a dotted path into nested objects with path state validation."""
         segments = path_text.split(".")
 
@@ -315,16 +283,10 @@ class Parser:
             offset += segment_bytes + 1  # +1 for the dot
 
         # Parse the value
-        value = self._parse_value()
-
-        # Determine value kind
-        if value.payload is not None and isinstance(value.payload, StyxObject):
-            kind = PathValueKind.OBJECT
-        else:
-            kind = PathValueKind.TERMINAL
+        value = self._parse_entry_value(Value(span=span))
 
         # Check and update path state - use full path span for error messages
-        path_state.check_and_update(segments, span, kind)
+        path_state.check_and_update(tuple(segments), span, self._value_kind(value))
 
         # Build nested objects from inside out
         # Object spans start at the PREVIOUS segment's position (i-1)
@@ -355,50 +317,6 @@ class Parser:
 
         return Entry(key=outer_key, value=result)
 
-    def _expand_dotted_path(self, path_text: str, span: Span, seen_keys: dict[str, Span]) -> Entry:
-        """Expand a dotted path into nested objects."""
-        segments = path_text.split(".")
-
-        if any(s == "" for s in segments):
-            raise ParseError("invalid key", span)
-
-        first_segment = segments[0]
-        if first_segment in seen_keys:
-            raise ParseError("duplicate key", span)
-        seen_keys[first_segment] = span
-
-        segment_spans: list[Span] = []
-        offset = span.start
-        for segment in segments:
-            segment_bytes = len(segment.encode("utf-8"))
-            segment_spans.append(Span(offset, offset + segment_bytes))
-            offset += segment_bytes + 1
-
-        value = self._parse_value()
-
-        result = value
-        for i in range(len(segments) - 1, 0, -1):
-            seg_span = segment_spans[i]
-            segment_key = Value(
-                span=seg_span,
-                payload=Scalar(text=segments[i], kind=ScalarKind.BARE, span=seg_span),
-            )
-            result = Value(
-                span=span,
-                payload=StyxObject(
-                    entries=[Entry(key=segment_key, value=result)],
-                    span=span,
-                ),
-            )
-
-        first_span = segment_spans[0]
-        outer_key = Value(
-            span=first_span,
-            payload=Scalar(text=first_segment, kind=ScalarKind.BARE, span=first_span),
-        )
-
-        return Entry(key=outer_key, value=result)
-
     def _parse_attribute_value(self) -> Value:
         """Parse a value in attribute context."""
         if self._check(TokenType.LBRACE):
@@ -410,8 +328,7 @@ class Parser:
         if self._check(TokenType.TAG):
             return self._parse_tag_value()
         if self._check(TokenType.AT):
-            at_token = self._advance()
-            return Value(span=at_token.span)
+            return self._parse_unit()
         scalar = self._parse_scalar()
         return Value(span=scalar.span, payload=scalar)
 
@@ -432,8 +349,7 @@ class Parser:
                 scalar = self._parse_scalar()
                 return Value(span=scalar.span, tag=tag, payload=scalar)
             if self._check(TokenType.AT):
-                at_token = self._advance()
-                return Value(span=at_token.span, tag=tag)
+                return Value(span=self._parse_unit().span, tag=tag)
             # If there's something else immediately after the tag (like /package),
             # it's an invalid tag name. Span starts at the @.
             if not self._check(
@@ -446,23 +362,25 @@ class Parser:
 
         return Value(span=Span(start, tag_token.span.end), tag=tag)
 
+    def _parse_unit(self) -> Value:
+        """Parse an explicit unit."""
+        at_token = self._advance()
+        if not self.current.had_whitespace_before and not self._check(
+            TokenType.EOF,
+            TokenType.RBRACE,
+            TokenType.RPAREN,
+            TokenType.COMMA,
+            TokenType.LBRACE,
+            TokenType.LPAREN,
+        ):
+            # Error span includes the @ (it's part of the tag)
+            raise ParseError("invalid tag name", Span(at_token.span.start, self.current.span.end))
+        return Value(span=Span(at_token.span.start, at_token.span.end))
+
     def _parse_value(self) -> Value:
         """Parse a value."""
         if self._check(TokenType.AT):
-            at_token = self._advance()
-            if not self.current.had_whitespace_before and not self._check(
-                TokenType.EOF,
-                TokenType.RBRACE,
-                TokenType.RPAREN,
-                TokenType.COMMA,
-                TokenType.LBRACE,
-                TokenType.LPAREN,
-            ):
-                # Error span includes the @ (it's part of the tag)
-                raise ParseError(
-                    "invalid tag name", Span(at_token.span.start, self.current.span.end)
-                )
-            return Value(span=Span(at_token.span.start, at_token.span.end))
+            return self._parse_unit()
 
         if self._check(TokenType.TAG):
             return self._parse_tag_value()
@@ -477,16 +395,9 @@ class Parser:
 
         if self._check(TokenType.SCALAR):
             scalar_token = self._advance()
-            next_token = self.current
-
-            # Attribute syntax: scalar>value - but only if there's actually a value after >
-            # If > is at EOF or followed by newline, just treat scalar as the value
-            if (
-                next_token.type == TokenType.GT
-                and not next_token.had_whitespace_before
-                and not self._peek().had_newline_before
-                and self._peek().type != TokenType.EOF
-            ):
+
+            # Attribute syntax: scalar>value
+            if self._check(TokenType.GT) and not self.current.had_whitespace_before:
                 return self._parse_attributes_starting_with(scalar_token)
 
             return Value(
@@ -501,12 +412,21 @@ class Parser:
         scalar = self._parse_scalar()
         return Value(span=scalar.span, payload=scalar)
 
+    def _advance_past_gt(self) -> None:
+        """Consume the `>` of an attribute, which its value must follow directly."""
+        gt_token = self._expect(TokenType.GT)
+        if self.current.had_whitespace_before or self._check(
+            TokenType.EOF, TokenType.RBRACE, TokenType.RPAREN, TokenType.COMMA
+        ):
+            raise ParseError("expected a value", gt_token.span)
+
     def _parse_attributes_starting_with(self, first_key_token: Token) -> Value:
         """Parse attribute syntax (key>value key>value ...)."""
         attrs: list[Entry] = []
         start_span = first_key_token.span
+        seen_keys = {first_key_token.text}
 
-        self._expect(TokenType.GT)
+        self._advance_past_gt()
         first_key = Value(
             span=first_key_token.span,
             payload=Scalar(
@@ -527,7 +447,11 @@ class Parser:
                 break
 
             self._advance()
-            self._advance()
+            self._advance_past_gt()
+
+            if key_token.text in seen_keys:
+                raise ParseError("duplicate key", key_token.span)
+            seen_keys.add(key_token.text)
 
             attr_key = Value(
                 span=key_token.span,
@@ -573,10 +497,10 @@ class Parser:
         open_brace = self._expect(TokenType.LBRACE)
         start = open_brace.span.start
         entries: list[Entry] = []
-        seen_keys: dict[str, Span] = {}
+        path_state = PathState()
 
         while not self._check(TokenType.RBRACE, TokenType.EOF):
-            entry = self._parse_entry_with_dup_check(seen_keys)
+            entry = self._parse_entry(path_state, in_object=True)
             if entry:
                 entries.append(entry)
 
@@ -586,6 +510,7 @@ class Parser:
 
         if self._check(TokenType.EOF):
             raise ParseError("unclosed object (missing `}`)", open_brace.span)
+        self._check_no_doc()
 
         end = self._expect(TokenType.RBRACE).span.end
         return StyxObject(entries=entries, span=Span(start, end))
-- 
2.43.0


From 3dc1af00ce5b882daa69f74eff1775611f7cd1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:11 +0000
Subject: [PATCH 63/84] fix: the JavaScript lexer reads escapes, heredocs and
 whitespace as the language has them

---
 implementations/styx-js/src/lexer.ts | 81 ++++++++++++++++++----------
 1 file changed, 54 insertions(+), 27 deletions(-)

diff --git a/implementations/styx-js/src/lexer.ts b/implementations/styx-js/src/lexer.ts
index 1f8ac6a..062e90d 100644
--- a/implementations/styx-js/src/lexer.ts
+++ b/implementations/styx-js/src/lexer.ts
@@ -26,7 +26,14 @@ export interface Token {
   hadNewlineBefore: boolean;
 }
 
-const SPECIAL_CHARS = new Set(["{", "}", "(", ")", ",", '"', ">", " ", "\t", "\n", "\r"]);
+/** The characters with the Unicode property White_Space (`\s` has others) */
+const WHITESPACE =
+  /[\t\n\v\f\r \u0085\u00a0\u1680\u2000-\u200a\u2028\u2029\u202f\u205f\u3000]/;
+
+const SPECIAL_CHARS = new Set(["{", "}", "(", ")", ",", '"', ">"]);
+
+const HEREDOC_START = /<<([A-Z][A-Z0-9_]*)/y;
+const MAX_HEREDOC_DELIMITER = 16;
 
 export class Lexer {
   private pos = 0; // character position
@@ -81,17 +88,20 @@ export class Lexer {
     let hadNewline = false;
     while (this.pos < this.source.length) {
       const ch = this.peek();
-      if (ch === " " || ch === "\t" || ch === "\r") {
+      if (ch === " " || ch === "\t") {
         hadWhitespace = true;
         this.advance();
-      } else if (ch === "\n") {
+      } else if (ch === "\n" || (ch === "\r" && this.peek(1) === "\n")) {
+        if (ch === "\r") {
+          this.advance();
+        }
         hadWhitespace = true;
         hadNewline = true;
         this.advance();
       } else if (ch === "/" && this.peek(1) === "/") {
         // Line comment - skip to end of line
         hadWhitespace = true;
-        while (this.pos < this.source.length && this.peek() !== "\n") {
+        while (this.pos < this.source.length && this.peek() !== "\n" && this.peek() !== "\r") {
           this.advance();
         }
       } else {
@@ -185,7 +195,10 @@ export class Lexer {
       // Check if it's a tag name
       if (this.isTagStart(this.peek())) {
         const nameStart = this.pos;
+        this.advance();
         while (this.isTagChar(this.peek())) {
+          // `@tagr#"raw"#`: the `r` opens the payload
+          if (this.peek() === "r" && this.peek(1) === "#") break;
           this.advance();
         }
         const name = this.source.slice(nameStart, this.pos);
@@ -218,11 +231,12 @@ export class Lexer {
 
     // Heredoc - only if << is followed by uppercase letter
     if (ch === "<" && this.peek(1) === "<") {
-      const afterLtLt = this.peek(2);
-      if (afterLtLt >= "A" && afterLtLt <= "Z") {
+      HEREDOC_START.lastIndex = this.pos;
+      const opening = HEREDOC_START.exec(this.source);
+      if (opening && opening[1].length <= MAX_HEREDOC_DELIMITER) {
         return this.readHeredoc(start, hadWhitespace, hadNewline);
       }
-      // << not followed by uppercase - return error at just <<
+      // << not followed by a delimiter - return error at just <<
       this.advance(); // <
       this.advance(); // <
       const errorEnd = this.bytePos;
@@ -233,6 +247,12 @@ export class Lexer {
       throw new ParseError("unexpected token", { start, end: errorEnd });
     }
 
+    // A bare scalar does not start with `=` or with whitespace other than the above
+    if (ch === "=" || WHITESPACE.test(ch)) {
+      this.advance();
+      throw new ParseError("unexpected token", { start, end: this.bytePos });
+    }
+
     // Bare scalar
     return this.readBareScalar(start, hadWhitespace, hadNewline);
   }
@@ -283,7 +303,7 @@ export class Lexer {
             text += '"';
             break;
           case "u":
-            text += this.readUnicodeEscape();
+            text += this.readUnicodeEscape(escapeStart);
             break;
           default:
             // Unknown escape - this is a parse error
@@ -292,13 +312,6 @@ export class Lexer {
               end: this.bytePos,
             });
         }
-      } else if (ch === "\n" || ch === "\r") {
-        // Unterminated string - include the newline in the span
-        this.advance();
-        if (ch === "\r" && this.peek() === "\n") {
-          this.advance();
-        }
-        throw new ParseError("unexpected token", { start, end: this.bytePos });
       } else {
         text += this.advance();
       }
@@ -308,25 +321,32 @@ export class Lexer {
     throw new ParseError("unexpected token", { start, end: this.bytePos });
   }
 
-  private readUnicodeEscape(): string {
+  private readUnicodeEscape(escapeStart: number): string {
+    let hex = "";
+    let valid: boolean;
     if (this.peek() === "{") {
       this.advance(); // {
-      let hex = "";
-      while (this.peek() !== "}" && this.pos < this.source.length) {
+      while (!["}", '"', ""].includes(this.peek())) {
         hex += this.advance();
       }
-      this.advance(); // }
-      const codePoint = parseInt(hex, 16);
-      return String.fromCodePoint(codePoint);
+      valid = this.advance() === "}" && hex.length <= 6;
     } else {
       // \uXXXX format
-      let hex = "";
-      for (let i = 0; i < 4; i++) {
+      while (hex.length < 4 && !['"', ""].includes(this.peek())) {
         hex += this.advance();
       }
+      valid = hex.length === 4;
+    }
+    if (valid && /^[0-9A-Fa-f]+$/.test(hex)) {
       const codePoint = parseInt(hex, 16);
-      return String.fromCodePoint(codePoint);
+      if (codePoint <= 0x10ffff && !(codePoint >= 0xd800 && codePoint <= 0xdfff)) {
+        return String.fromCodePoint(codePoint);
+      }
     }
+    throw new ParseError("invalid escape sequence: \\u", {
+      start: escapeStart,
+      end: this.bytePos,
+    });
   }
 
   private readRawString(start: number, hadWhitespace: boolean, hadNewline: boolean): Token {
@@ -336,6 +356,9 @@ export class Lexer {
       this.advance();
       hashes++;
     }
+    if (this.peek() !== '"') {
+      throw new ParseError("unexpected token", { start, end: this.bytePos });
+    }
     this.advance(); // opening "
 
     let text = "";
@@ -379,7 +402,7 @@ export class Lexer {
 
     // Read content until delimiter on its own line
     let text = "";
-    const bareDelimiter = delimiter.split(",")[0];
+    const bareDelimiter = delimiter.replace(/\r$/, "").split(",")[0];
 
     while (this.pos < this.source.length) {
       // Read a line
@@ -387,6 +410,10 @@ export class Lexer {
       while (this.pos < this.source.length && this.peek() !== "\n") {
         line += this.advance();
       }
+      const carriageReturn = this.pos < this.source.length && line.endsWith("\r");
+      if (carriageReturn) {
+        line = line.slice(0, -1);
+      }
 
       // Check for exact match (no indentation)
       if (line === bareDelimiter) {
@@ -417,7 +444,7 @@ export class Lexer {
       }
 
       // Add line to content
-      text += line;
+      text += carriageReturn ? line + "\r" : line;
       if (this.pos < this.source.length && this.peek() === "\n") {
         this.advance();
         text += "\n";
@@ -453,7 +480,7 @@ export class Lexer {
     let text = "";
     while (this.pos < this.source.length) {
       const ch = this.peek();
-      if (SPECIAL_CHARS.has(ch)) {
+      if (SPECIAL_CHARS.has(ch) || WHITESPACE.test(ch)) {
         break;
       }
       text += this.advance();
-- 
2.43.0


From c99b1e2aa365c177e93a58dea03e25d5c41e92e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:04 +0000
Subject: [PATCH 64/84] fix: the JavaScript parser refuses what the language
 refuses, and ends on every text

---
 implementations/styx-js/src/lexer.ts  |  15 ++
 implementations/styx-js/src/parser.ts | 368 ++++++++------------------
 implementations/styx-js/src/types.ts  |  30 ++-
 3 files changed, 138 insertions(+), 275 deletions(-)

diff --git a/implementations/styx-js/src/lexer.ts b/implementations/styx-js/src/lexer.ts
index 062e90d..016eaaa 100644
--- a/implementations/styx-js/src/lexer.ts
+++ b/implementations/styx-js/src/lexer.ts
@@ -24,6 +24,8 @@ export interface Token {
   hadWhitespaceBefore: boolean;
   /** True if there was a newline before this token */
   hadNewlineBefore: boolean;
+  /** The doc comment in front of this token */
+  docBefore?: Span;
 }
 
 /** The characters with the Unicode property White_Space (`\s` has others) */
@@ -40,6 +42,7 @@ export class Lexer {
   private bytePos = 0; // byte position for spans
   private line = 1;
   private col = 1;
+  private doc: Span | undefined;
 
   constructor(private source: string) {}
 
@@ -101,9 +104,14 @@ export class Lexer {
       } else if (ch === "/" && this.peek(1) === "/") {
         // Line comment - skip to end of line
         hadWhitespace = true;
+        const start = this.bytePos;
+        const isDoc = this.peek(2) === "/";
         while (this.pos < this.source.length && this.peek() !== "\n" && this.peek() !== "\r") {
           this.advance();
         }
+        if (isDoc) {
+          this.doc = { start: this.doc?.start ?? start, end: this.bytePos };
+        }
       } else {
         break;
       }
@@ -112,6 +120,13 @@ export class Lexer {
   }
 
   nextToken(): Token {
+    this.doc = undefined;
+    const token = this.readToken();
+    token.docBefore = this.doc;
+    return token;
+  }
+
+  private readToken(): Token {
     const { hadWhitespace, hadNewline } = this.skipWhitespaceAndComments();
 
     if (this.pos >= this.source.length) {
diff --git a/implementations/styx-js/src/parser.ts b/implementations/styx-js/src/parser.ts
index 0f867dd..e87b481 100644
--- a/implementations/styx-js/src/parser.ts
+++ b/implementations/styx-js/src/parser.ts
@@ -9,6 +9,7 @@ import {
   Span,
   ParseError,
   ScalarKind,
+  PathSegment,
   PathState,
   PathValueKind,
 } from "./types.js";
@@ -60,12 +61,12 @@ export class Parser {
     const pathState = new PathState();
 
     // Check for explicit root object: { ... } at document start
-    // Skip any leading commas first (just like parseEntryWithPathCheck does)
+    // Skip any leading commas first (just like parseEntry does)
     while (this.check("comma")) {
       this.advance();
     }
 
-    if (this.check("lbrace")) {
+    if (this.check("lbrace") && !this.current.docBefore) {
       // Explicit root object - parse it and check for trailing content
       const obj = this.parseObject();
       const objValue: Value = { payload: obj, span: obj.span };
@@ -73,11 +74,6 @@ export class Parser {
       entries.push({ key: unitKey, value: objValue });
 
       // After explicit root object, only whitespace/comments/EOF are allowed
-      // Skip commas (they don't count as "content")
-      while (this.check("comma")) {
-        this.advance();
-      }
-
       if (!this.check("eof")) {
         // Find the span of trailing content
         const trailingStart = this.current.span.start;
@@ -100,11 +96,12 @@ export class Parser {
     }
 
     while (!this.check("eof")) {
-      const entry = this.parseEntryWithPathCheck(pathState);
+      const entry = this.parseEntry(pathState, false);
       if (entry) {
         entries.push(entry);
       }
     }
+    this.checkNoDoc();
 
     return {
       entries,
@@ -112,7 +109,29 @@ export class Parser {
     };
   }
 
-  private parseEntryWithPathCheck(pathState: PathState): Entry | null {
+  /** Where entries end, no doc comment may be left */
+  private checkNoDoc(): void {
+    if (this.current.docBefore) {
+      throw new ParseError("doc comment not followed by an entry", this.current.docBefore);
+    }
+  }
+
+  /** An entry ends at a newline, a comma or where its object ends */
+  private checkEntryEnd(): void {
+    if (this.current.hadNewlineBefore || this.check("eof", "rbrace", "comma")) {
+      return;
+    }
+    if (this.check("gt")) {
+      throw new ParseError("expected a value", this.current.span);
+    }
+    throw new ParseError(
+      "unexpected atom after value (entry has too many atoms)",
+      this.current.span,
+    );
+  }
+
+  /** Parse an entry, of the document or of an object */
+  private parseEntry(pathState: PathState, inObject: boolean): Entry | null {
     while (this.check("comma")) {
       this.advance();
     }
@@ -122,58 +141,59 @@ export class Parser {
       throw new ParseError("expected a value", this.current.span);
     }
 
-    if (this.check("eof", "rbrace")) {
+    if (this.check("eof") || (inObject && this.check("rbrace"))) {
       return null;
     }
 
     // Parse the key
     const key = this.parseValue();
+    this.validateKey(key);
 
-    // Special case: object in key position gets implicit unit key
-    if (key.payload?.type === "object") {
-      if (!this.current.hadNewlineBefore && !this.check("eof", "rbrace", "comma")) {
-        this.parseValue(); // Drop trailing value
+    if (!key.tag && key.payload?.type === "scalar" && key.payload.kind === "bare") {
+      if (!this.current.hadWhitespaceBefore && this.check("lbrace", "lparen")) {
+        throw new ParseError(
+          "missing whitespace before `{` or `(` (required after bare scalar to distinguish from tag syntax like `@tag{}`)",
+          this.current.span,
+        );
       }
-      const unitKey: Value = { span: { start: -1, end: -1 } };
-      return { key: unitKey, value: key };
-    }
-
-    // Check for dotted path in bare scalar key
-    if (key.payload?.type === "scalar" && key.payload.kind === "bare") {
+      // Dotted path in bare scalar key
       const text = key.payload.text;
       if (text.includes(".")) {
-        return this.expandDottedPathWithState(text, key.span, pathState);
+        return this.expandDottedPath(text, key.span, pathState);
       }
     }
 
-    // Get key text for path state
-    const keyText = this.getKeyText(key);
+    const value = this.parseEntryValue(key);
+    pathState.checkAndUpdate([this.keySegment(key)], key.span, this.valueKind(value));
 
-    // Validate key
-    this.validateKey(key);
+    return { key, value };
+  }
 
-    // Check for implicit unit (key followed by newline, EOF, or closing brace)
-    if (this.current.hadNewlineBefore || this.check("eof", "rbrace")) {
-      if (keyText !== null) {
-        pathState.checkAndUpdate([keyText], key.span, "terminal");
-      }
-      const unitValue: Value = { span: key.span };
-      return { key, value: unitValue };
+  /** Parse what follows a key; nothing does if the value is an implicit unit */
+  private parseEntryValue(key: { span: Span }): Value {
+    if (this.current.hadNewlineBefore || this.check("eof", "rbrace", "comma")) {
+      return { span: key.span };
     }
-
-    // Parse the value
     const value = this.parseValue();
+    this.checkEntryEnd();
+    return value;
+  }
 
-    // Determine kind from actual value
-    if (keyText !== null) {
-      const kind: PathValueKind = value.payload?.type === "object" ? "object" : "terminal";
-      pathState.checkAndUpdate([keyText], key.span, kind);
-    }
+  /** Whether more of a path may follow a value */
+  private valueKind(value: Value): PathValueKind {
+    return !value.tag && value.payload?.type === "object" ? "object" : "terminal";
+  }
 
-    return { key, value };
+  /** What a key is, for duplicate checking */
+  private keySegment(key: Value): PathSegment {
+    const text = key.payload?.type === "scalar" ? [key.payload.text] : [];
+    if (key.tag) {
+      return ["@", key.tag.name, ...text];
+    }
+    return text.length > 0 ? text[0] : ["@"];
   }
 
-  private expandDottedPathWithState(pathText: string, span: Span, pathState: PathState): Entry {
+  private expandDottedPath(pathText: string, span: Span, pathState: PathState): Entry {
     const segments = pathText.split(".");
 
     if (segments.some((s) => s === "")) {
@@ -189,13 +209,10 @@ export class Parser {
       offset += segmentBytes + 1; // +1 for the dot
     }
 
-    const value = this.parseValue();
-
-    // Determine value kind
-    const kind: PathValueKind = value.payload?.type === "object" ? "object" : "terminal";
+    const value = this.parseEntryValue({ span });
 
     // Check and update path state - use full path span for error messages
-    pathState.checkAndUpdate(segments, span, kind);
+    pathState.checkAndUpdate(segments, span, this.valueKind(value));
 
     // Build nested structure from inside out
     // Object spans start at the PREVIOUS segment's position (i-1)
@@ -239,82 +256,10 @@ export class Parser {
     return { key: outerKey, value: result };
   }
 
-  private parseEntryWithDupCheck(seenKeys: Map<string, Span>): Entry | null {
-    while (this.check("comma")) {
-      this.advance();
-    }
-
-    // Trailing > without a value is a parse error
-    if (this.check("gt")) {
-      throw new ParseError("expected a value", this.current.span);
-    }
-
-    if (this.check("eof", "rbrace")) {
-      return null;
-    }
-
-    // Parse the key
-    const key = this.parseValue();
-
-    // Special case: object in key position gets implicit unit key
-    // The parsed "value" is dropped (matches Rust styx_tree behavior)
-    if (key.payload?.type === "object") {
-      // Skip any trailing value on the same line
-      if (!this.current.hadNewlineBefore && !this.check("eof", "rbrace", "comma")) {
-        this.parseValue(); // Drop it
-      }
-      const unitKey: Value = { span: { start: -1, end: -1 } };
-      return { key: unitKey, value: key };
-    }
-
-    // Check for dotted path in bare scalar key
-    if (key.payload?.type === "scalar" && key.payload.kind === "bare") {
-      const text = key.payload.text;
-      if (text.includes(".")) {
-        return this.expandDottedPath(text, key.span, seenKeys);
-      }
-    }
-
-    // Check for duplicate key
-    const keyText = this.getKeyText(key);
-    if (keyText !== null) {
-      const existing = seenKeys.get(keyText);
-      if (existing) {
-        throw new ParseError(`duplicate key`, key.span);
-      }
-      seenKeys.set(keyText, key.span);
-    }
-
-    // Validate key
-    this.validateKey(key);
-
-    // Check for implicit unit (key followed by newline, EOF, or closing brace)
-    if (this.current.hadNewlineBefore || this.check("eof", "rbrace")) {
-      // Implicit unit - no value provided
-      const unitValue: Value = { span: key.span };
-      return { key, value: unitValue };
-    }
-
-    // Parse the value
-    const value = this.parseValue();
-
-    return { key, value };
-  }
-
-  private getKeyText(key: Value): string | null {
-    if (key.payload?.type === "scalar") {
-      return key.payload.text;
-    }
-    if (key.tag && !key.payload) {
-      return `@${key.tag.name}`;
-    }
-    return null;
-  }
-
   private validateKey(key: Value): void {
     if (key.payload) {
-      // Sequences cannot be used as keys
-      if (key.payload.type === "sequence") {
+      // Sequences and objects cannot be used as keys
+      if (key.payload.type === "sequence" || key.payload.type === "object") {
         throw new ParseError(`invalid key`, key.span);
       }
       // Heredocs cannot be used as keys
@@ -334,68 +279,6 @@ export class Parser {
     return { start: heredocSpan.start, end: heredocSpan.start + endOffset };
   }
 
-  private expandDottedPath(pathText: string, span: Span, seenKeys: Map<string, Span>): Entry {
-    const segments = pathText.split(".");
-
-    if (segments.some((s) => s === "")) {
-      throw new ParseError(`invalid key`, span);
-    }
-
-    const firstSegment = segments[0];
-    const existing = seenKeys.get(firstSegment);
-    if (existing) {
-      throw new ParseError(`duplicate key`, span);
-    }
-    seenKeys.set(firstSegment, span);
-
-    // Calculate byte offsets for each segment
-    const segmentSpans: Span[] = [];
-    let offset = span.start;
-    for (let i = 0; i < segments.length; i++) {
-      const segmentBytes = new TextEncoder().encode(segments[i]).length;
-      segmentSpans.push({ start: offset, end: offset + segmentBytes });
-      offset += segmentBytes + 1; // +1 for the dot
-    }
-
-    const value = this.parseValue();
-
-    // Build nested structure from inside out
-    let result: Value = value;
-    for (let i = segments.length - 1; i >= 1; i--) {
-      const segSpan = segmentSpans[i];
-      const segmentKey: Value = {
-        payload: {
-          type: "scalar",
-          text: segments[i],
-          kind: "bare",
-          span: segSpan,
-        },
-        span: segSpan,
-      };
-      result = {
-        payload: {
-          type: "object",
-          entries: [{ key: segmentKey, value: result }],
-          span,
-        },
-        span,
-      };
-    }
-
-    const firstSpan = segmentSpans[0];
-    const outerKey: Value = {
-      payload: {
-        type: "scalar",
-        text: firstSegment,
-        kind: "bare",
-        span: firstSpan,
-      },
-      span: firstSpan,
-    };
-
-    return { key: outerKey, value: result };
-  }
-
   private parseAttributeValue(): Value {
     if (this.check("lbrace")) {
       const obj = this.parseObject();
@@ -409,8 +292,7 @@ export class Parser {
       return this.parseTagValue();
     }
     if (this.check("at")) {
-      const atToken = this.advance();
-      return { span: atToken.span };
+      return this.parseUnit();
     }
     const scalar = this.parseScalar();
     return { payload: scalar, span: scalar.span };
@@ -442,31 +324,34 @@ export class Parser {
         return { tag, payload: scalar, span: scalar.span };
       }
       if (this.check("at")) {
-        const atToken = this.advance();
         // For explicit unit (@tag@), the span is just the trailing @
-        return { tag, span: atToken.span };
+        return { tag, span: this.parseUnit().span };
       }
     }
 
     return { tag, span: { start, end: tagToken.span.end } };
   }
 
+  private parseUnit(): Value {
+    const atToken = this.advance();
+    // Check for invalid tag name: @ followed immediately by non-tag-start character
+    if (
+      !this.current.hadWhitespaceBefore &&
+      !this.check("eof", "rbrace", "rparen", "comma", "lbrace", "lparen")
+    ) {
+      // This looks like @123 or @-foo - invalid tag name
+      // Error span includes the @ (it's part of the tag)
+      throw new ParseError(`invalid tag name`, {
+        start: atToken.span.start,
+        end: this.current.span.end,
+      });
+    }
+    return { span: { start: atToken.span.start, end: atToken.span.end } };
+  }
+
   private parseValue(): Value {
     if (this.check("at")) {
-      const atToken = this.advance();
-      // Check for invalid tag name: @ followed immediately by non-tag-start character
-      if (
-        !this.current.hadWhitespaceBefore &&
-        !this.check("eof", "rbrace", "rparen", "comma", "lbrace", "lparen")
-      ) {
-        // This looks like @123 or @-foo - invalid tag name
-        // Error span includes the @ (it's part of the tag)
-        throw new ParseError(`invalid tag name`, {
-          start: atToken.span.start,
-          end: this.current.span.end,
-        });
-      }
-      return { span: { start: atToken.span.start, end: atToken.span.end } };
+      return this.parseUnit();
     }
 
     if (this.check("tag")) {
@@ -489,15 +374,7 @@ export class Parser {
       const nextToken = this.current;
 
       if (nextToken.type === "gt" && !nextToken.hadWhitespaceBefore) {
-        // Attribute syntax: key>value
-        this.advance(); // consume >
-        const afterGT = this.current;
-        if (afterGT.hadNewlineBefore || this.check("eof", "rbrace", "rparen")) {
-          // Trailing > without a value is a parse error
-          throw new ParseError("expected a value", nextToken.span);
-        }
-        // Parse as attributes (we already consumed >)
-        return this.parseAttributesAfterGT(scalarToken);
+        return this.parseAttributesStartingWith(scalarToken);
       }
 
       return {
@@ -515,64 +392,21 @@ export class Parser {
     return { payload: scalar, span: scalar.span };
   }
 
-  private parseAttributesStartingWith(firstKeyToken: Token): Value {
-    const attrs: Entry[] = [];
-    const startSpan = firstKeyToken.span;
-
-    this.expect("gt");
-    const firstKey: Value = {
-      payload: {
-        type: "scalar",
-        text: firstKeyToken.text,
-        kind: "bare",
-        span: firstKeyToken.span,
-      },
-      span: firstKeyToken.span,
-    };
-    const firstValue = this.parseAttributeValue();
-    attrs.push({ key: firstKey, value: firstValue });
-
-    let endSpan = firstValue.span;
-
-    while (this.check("scalar") && !this.current.hadNewlineBefore) {
-      const keyToken = this.current;
-      const nextToken = this.peek();
-      if (nextToken.type !== "gt" || nextToken.hadWhitespaceBefore) {
-        break;
-      }
-
-      this.advance();
-      this.advance();
-
-      const attrKey: Value = {
-        payload: {
-          type: "scalar",
-          text: keyToken.text,
-          kind: "bare",
-          span: keyToken.span,
-        },
-        span: keyToken.span,
-      };
-
-      const attrValue = this.parseAttributeValue();
-      attrs.push({ key: attrKey, value: attrValue });
-      endSpan = attrValue.span;
+  /** Consume the `>` of an attribute, which its value must follow directly */
+  private advancePastGT(): void {
+    const gtToken = this.expect("gt");
+    if (this.current.hadWhitespaceBefore || this.check("eof", "rbrace", "rparen", "comma")) {
+      throw new ParseError("expected a value", gtToken.span);
     }
-
-    const obj: StyxObject = {
-      type: "object",
-      entries: attrs,
-      span: { start: startSpan.start, end: endSpan.end },
-    };
-
-    return { payload: obj, span: obj.span };
   }
 
-  private parseAttributesAfterGT(firstKeyToken: Token): Value {
-    // Same as parseAttributesStartingWith but > was already consumed
+  private parseAttributesStartingWith(firstKeyToken: Token): Value {
     const attrs: Entry[] = [];
     const startSpan = firstKeyToken.span;
 
+    const seenKeys = new Set([firstKeyToken.text]);
+
+    this.advancePastGT();
     const firstKey: Value = {
       payload: {
         type: "scalar",
@@ -595,7 +429,12 @@ export class Parser {
       }
 
       this.advance();
-      this.advance();
+      this.advancePastGT();
+
+      if (seenKeys.has(keyToken.text)) {
+        throw new ParseError(`duplicate key`, keyToken.span);
+      }
+      seenKeys.add(keyToken.text);
 
       const attrKey: Value = {
         payload: {
@@ -655,10 +494,10 @@ export class Parser {
     const openBrace = this.expect("lbrace");
     const start = openBrace.span.start;
     const entries: Entry[] = [];
-    const seenKeys = new Map<string, Span>();
+    const pathState = new PathState();
 
     while (!this.check("rbrace", "eof")) {
-      const entry = this.parseEntryWithDupCheck(seenKeys);
+      const entry = this.parseEntry(pathState, true);
       if (entry) {
         entries.push(entry);
       }
@@ -672,6 +511,7 @@ export class Parser {
     if (this.check("eof")) {
       throw new ParseError("unclosed object (missing `}`)", openBrace.span);
     }
+    this.checkNoDoc();
 
     const end = this.expect("rbrace").span.end;
     return {
diff --git a/implementations/styx-js/src/types.ts b/implementations/styx-js/src/types.ts
index 31ed14b..07624bb 100644
--- a/implementations/styx-js/src/types.ts
+++ b/implementations/styx-js/src/types.ts
@@ -10,14 +10,22 @@ export type ScalarKind = "bare" | "quoted" | "raw" | "heredoc";
 /** Path value kind for tracking */
 export type PathValueKind = "object" | "terminal";
 
+/** A key as far as duplicates go: the text of a scalar, or the parts of a tag or unit key */
+export type PathSegment = string | string[];
+
+const pathId = (path: PathSegment[]): string => JSON.stringify(path);
+
+const showPath = (path: PathSegment[]): string =>
+  path.map((s) => (typeof s === "string" ? s : s.join(""))).join(".");
+
 /** Track path state for detecting reopen-path and nest-into-terminal errors */
 export class PathState {
-  currentPath: string[] = [];
+  currentPath: PathSegment[] = [];
   closedPaths = new Set<string>();
   assignedPaths = new Map<string, { kind: PathValueKind; span: Span }>();
 
-  checkAndUpdate(path: string[], span: Span, kind: PathValueKind): void {
-    const fullPath = path.join(".");
+  checkAndUpdate(path: PathSegment[], span: Span, kind: PathValueKind): void {
+    const fullPath = pathId(path);
 
     // 1. Check for duplicate
     const existing = this.assignedPaths.get(fullPath);
@@ -26,25 +34,26 @@ export class PathState {
         throw new ParseError("duplicate key", span);
       }
       // Both are objects - it's a reopen attempt
-      throw new ParseError(`cannot reopen path \`${fullPath}\` after sibling appeared`, span);
+      throw new ParseError(`cannot reopen path \`${showPath(path)}\` after sibling appeared`, span);
     }
 
     // 2. Check if any prefix is closed (has had siblings) or is terminal
     for (let i = 1; i < path.length; i++) {
-      const prefix = path.slice(0, i).join(".");
+      const prefix = pathId(path.slice(0, i));
+      const shown = showPath(path.slice(0, i));
       if (this.closedPaths.has(prefix)) {
-        throw new ParseError(`cannot reopen path \`${prefix}\` after sibling appeared`, span);
+        throw new ParseError(`cannot reopen path \`${shown}\` after sibling appeared`, span);
       }
       const prefixEntry = this.assignedPaths.get(prefix);
       if (prefixEntry && prefixEntry.kind === "terminal") {
-        throw new ParseError(`cannot nest into \`${prefix}\` which has a terminal value`, span);
+        throw new ParseError(`cannot nest into \`${shown}\` which has a terminal value`, span);
       }
     }
 
     // 3. Find common prefix length with current path
     let commonLen = 0;
     for (let i = 0; i < Math.min(path.length, this.currentPath.length); i++) {
-      if (path[i] === this.currentPath[i]) {
+      if (pathId([path[i]]) === pathId([this.currentPath[i]])) {
         commonLen++;
       } else {
         break;
@@ -53,13 +62,12 @@ export class PathState {
 
     // 4. Close all divergent paths from current path
     for (let i = commonLen; i < this.currentPath.length; i++) {
-      const divergent = this.currentPath.slice(0, i + 1).join(".");
-      this.closedPaths.add(divergent);
+      this.closedPaths.add(pathId(this.currentPath.slice(0, i + 1)));
     }
 
     // 5. Record intermediate segments as objects
     for (let i = 0; i < path.length - 1; i++) {
-      const prefix = path.slice(0, i + 1).join(".");
+      const prefix = pathId(path.slice(0, i + 1));
       if (!this.assignedPaths.has(prefix)) {
         this.assignedPaths.set(prefix, { kind: "object", span });
       }
-- 
2.43.0


From 42530d7d55c6c225ea68b203aeab42a648d7e406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:41 +0000
Subject: [PATCH 65/84] fix: the Go lexer reads escapes, heredocs and
 whitespace as the language has them

---
 implementations/styx-go/lexer.go | 125 +++++++++++++++++++++----------
 1 file changed, 85 insertions(+), 40 deletions(-)

diff --git a/implementations/styx-go/lexer.go b/implementations/styx-go/lexer.go
index 41be29a..58a883d 100644
--- a/implementations/styx-go/lexer.go
+++ b/implementations/styx-go/lexer.go
@@ -2,6 +2,7 @@ package styx
 
 import (
 	"strings"
+	"unicode"
 	"unicode/utf8"
 )
 
@@ -100,17 +101,23 @@ func (l *Lexer) skipWhitespaceAndComments() (hadWhitespace, hadNewline bool) {
 	for l.pos < len(l.source) {
 		ch := l.peek(0)
 		switch ch {
-		case ' ', '\t', '\r':
+		case ' ', '\t':
 			hadWhitespace = true
 			l.advance()
-		case '\n':
+		case '\r', '\n':
+			if ch == '\r' {
+				if l.peek(1) != '\n' {
+					return
+				}
+				l.advance()
+			}
 			hadWhitespace = true
 			hadNewline = true
 			l.advance()
 		case '/':
 			if l.peek(1) == '/' {
 				hadWhitespace = true
-				for l.pos < len(l.source) && l.peek(0) != '\n' {
+				for l.pos < len(l.source) && l.peek(0) != '\n' && l.peek(0) != '\r' {
 					l.advance()
 				}
 			} else {
@@ -133,10 +140,10 @@ func isTagChar(ch rune) bool {
 
 func isSpecialChar(ch rune) bool {
 	switch ch {
-	case '{', '}', '(', ')', ',', '"', '>', ' ', '\t', '\n', '\r':
+	case '{', '}', '(', ')', ',', '"', '>':
 		return true
 	}
-	return false
+	return unicode.IsSpace(ch)
 }
 
 func (l *Lexer) nextToken() (*Token, error) {
@@ -182,7 +189,12 @@ func (l *Lexer) nextToken() (*Token, error) {
 		l.advance()
 		if isTagStart(l.peek(0)) {
 			nameStart := l.pos
+			l.advance()
 			for isTagChar(l.peek(0)) {
+				// `@tagr#"raw"#`: the `r` opens the payload
+				if l.peek(0) == 'r' && l.peek(1) == '#' {
+					break
+				}
 				l.advance()
 			}
 			name := l.source[nameStart:l.pos]
@@ -203,11 +215,10 @@ func (l *Lexer) nextToken() (*Token, error) {
 
 	// Heredoc - only if << is followed by uppercase letter
 	if ch == '<' && l.peek(1) == '<' {
-		afterLtLt := l.peek(2)
-		if afterLtLt >= 'A' && afterLtLt <= 'Z' {
+		if n := heredocDelimiterLen(l.source[l.pos+2:]); n > 0 && n <= maxHeredocDelimiter {
 			return l.readHeredoc(start, hadWhitespace, hadNewline)
 		}
-		// << not followed by uppercase - return error at just <<
+		// << not followed by a delimiter - return error at just <<
 		l.advance() // <
 		l.advance() // <
 		errorEnd := l.bytePos
@@ -221,10 +232,35 @@ func (l *Lexer) nextToken() (*Token, error) {
 		}
 	}
 
+	// A bare scalar does not start with `=` or with whitespace other than the above
+	if ch == '=' || unicode.IsSpace(ch) {
+		l.advance()
+		return nil, &ParseError{
+			Message: "unexpected token",
+			Span:    Span{start, l.bytePos},
+		}
+	}
+
 	// Bare scalar
 	return l.readBareScalar(start, hadWhitespace, hadNewline)
 }
 
+const maxHeredocDelimiter = 16
+
+// heredocDelimiterLen returns the length of the heredoc delimiter s starts with.
+func heredocDelimiterLen(s string) int {
+	n := 0
+	for n < len(s) {
+		ch := s[n]
+		if ch >= 'A' && ch <= 'Z' || n > 0 && (ch >= '0' && ch <= '9' || ch == '_') {
+			n++
+		} else {
+			break
+		}
+	}
+	return n
+}
+
 func (l *Lexer) readQuotedString(start int, hadWhitespace, hadNewline bool) (*Token, error) {
 	l.advance() // opening "
 	var text strings.Builder
@@ -251,7 +287,7 @@ func (l *Lexer) readQuotedString(start int, hadWhitespace, hadNewline bool) (*To
 			case '"':
 				text.WriteByte('"')
 			case 'u':
-				r, err := l.readUnicodeEscape()
+				r, err := l.readUnicodeEscape(escapeStart)
 				if err != nil {
 					return nil, err
 				}
@@ -262,13 +298,6 @@ func (l *Lexer) readQuotedString(start int, hadWhitespace, hadNewline bool) (*To
 					Span:    Span{escapeStart, l.bytePos},
 				}
 			}
-		} else if ch == '\n' || ch == '\r' {
-			// Unterminated string - include the newline in the span
-			l.advance()
-			return nil, &ParseError{
-				Message: "unexpected token",
-				Span:    Span{start, l.bytePos},
-			}
 		} else {
 			text.WriteRune(l.advance())
 		}
@@ -281,35 +310,38 @@ func (l *Lexer) readQuotedString(start int, hadWhitespace, hadNewline bool) (*To
 	}
 }
 
-func (l *Lexer) readUnicodeEscape() (rune, error) {
-	if l.peek(0) == '{' {
+func (l *Lexer) readUnicodeEscape(escapeStart int) (rune, error) {
+	var hexStr string
+	valid := false
+	rest := l.source[l.pos:]
+	if strings.HasPrefix(rest, "{") {
 		l.advance()
-		var hexStr strings.Builder
-		for l.peek(0) != '}' && l.pos < len(l.source) {
-			hexStr.WriteRune(l.advance())
+		n := strings.IndexAny(rest, "}\"")
+		if n < 0 {
+			n = len(rest)
 		}
-		l.advance() // }
-		var r rune
-		_, err := parseHex(hexStr.String(), &r)
-		if err != nil {
-			return 0, err
+		hexStr = rest[1:n]
+		for i := l.pos; l.pos < i+len(hexStr); {
+			l.advance()
 		}
-		return r, nil
-	}
-
-	var hexStr strings.Builder
-	for i := 0; i < 4; i++ {
-		hexStr.WriteRune(l.advance())
+		valid = l.advance() == '}' && len(hexStr) <= 6
+	} else {
+		for i := l.pos; l.pos < len(l.source) && l.pos < i+4 && l.peek(0) != '"'; {
+			hexStr += string(l.advance())
+		}
+		valid = len(hexStr) == 4
 	}
-	var r rune
-	_, err := parseHex(hexStr.String(), &r)
-	if err != nil {
-		return 0, err
+	r, ok := parseHex(hexStr)
+	if !valid || !ok || !utf8.ValidRune(r) {
+		return 0, &ParseError{
+			Message: "invalid escape sequence: \\u",
+			Span:    Span{escapeStart, l.bytePos},
+		}
 	}
 	return r, nil
 }
 
-func parseHex(s string, r *rune) (int, error) {
+func parseHex(s string) (rune, bool) {
 	var val rune
 	for _, ch := range s {
 		val *= 16
@@ -320,10 +352,11 @@ func parseHex(s string, r *rune) (int, error) {
 			val += ch - 'a' + 10
 		case ch >= 'A' && ch <= 'F':
 			val += ch - 'A' + 10
+		default:
+			return 0, false
 		}
 	}
-	*r = val
-	return len(s), nil
+	return val, s != ""
 }
 
 func (l *Lexer) readRawString(start int, hadWhitespace, hadNewline bool) (*Token, error) {
@@ -333,6 +366,12 @@ func (l *Lexer) readRawString(start int, hadWhitespace, hadNewline bool) (*Token
 		l.advance()
 		hashes++
 	}
+	if l.peek(0) != '"' {
+		return nil, &ParseError{
+			Message: "unexpected token",
+			Span:    Span{start, l.bytePos},
+		}
+	}
 	l.advance() // opening "
 
 	var text strings.Builder
@@ -371,7 +410,7 @@ func (l *Lexer) readHeredoc(start int, hadWhitespace, hadNewline bool) (*Token,
 
 	var text strings.Builder
 	delimStr := delimiter.String()
-	bareDelimiter := strings.SplitN(delimStr, ",", 2)[0]
+	bareDelimiter := strings.SplitN(strings.TrimSuffix(delimStr, "\r"), ",", 2)[0]
 
 	for l.pos < len(l.source) {
 		var line strings.Builder
@@ -380,6 +419,11 @@ func (l *Lexer) readHeredoc(start int, hadWhitespace, hadNewline bool) (*Token,
 		}
 
 		lineStr := line.String()
+		lineEnd := ""
+		if l.pos < len(l.source) && strings.HasSuffix(lineStr, "\r") {
+			lineStr = strings.TrimSuffix(lineStr, "\r")
+			lineEnd = "\r"
+		}
 
 		// Check for exact match (no indentation)
 		if lineStr == bareDelimiter {
@@ -397,6 +441,7 @@ func (l *Lexer) readHeredoc(start int, hadWhitespace, hadNewline bool) (*Token,
 		}
 
 		text.WriteString(lineStr)
+		text.WriteString(lineEnd)
 		if l.pos < len(l.source) && l.peek(0) == '\n' {
 			l.advance()
 			text.WriteByte('\n')
-- 
2.43.0


From ddc7d9c06af48c39c93c8775024ad4b888dfe2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:20 +0000
Subject: [PATCH 66/84] fix: the Go parser refuses what the language refuses,
 and ends on every text

---
 implementations/styx-go/lexer.go  |  46 +++--
 implementations/styx-go/parser.go | 302 ++++++++++++++++--------------
 2 files changed, 198 insertions(+), 150 deletions(-)

diff --git a/implementations/styx-go/lexer.go b/implementations/styx-go/lexer.go
index 58a883d..8600a5d 100644
--- a/implementations/styx-go/lexer.go
+++ b/implementations/styx-go/lexer.go
@@ -65,6 +65,7 @@ type Token struct {
 	Span                Span
 	HadWhitespaceBefore bool
 	HadNewlineBefore    bool
+	DocBefore           *Span // the doc comment in front of the token
 }
 
 // Lexer tokenizes Styx source code.
@@ -72,6 +73,7 @@ type Lexer struct {
 	source  string
 	pos     int // character position
 	bytePos int // byte position for spans
+	doc     *Span
 }
 
 func newLexer(source string) *Lexer {
@@ -117,9 +119,17 @@ func (l *Lexer) skipWhitespaceAndComments() (hadWhitespace, hadNewline bool) {
 		case '/':
 			if l.peek(1) == '/' {
 				hadWhitespace = true
+				start := l.bytePos
+				isDoc := l.peek(2) == '/'
 				for l.pos < len(l.source) && l.peek(0) != '\n' && l.peek(0) != '\r' {
 					l.advance()
 				}
+				if isDoc {
+					if l.doc != nil {
+						start = l.doc.Start
+					}
+					l.doc = &Span{start, l.bytePos}
+				}
 			} else {
 				return
 			}
@@ -147,6 +157,16 @@ func isSpecialChar(ch rune) bool {
 }
 
 func (l *Lexer) nextToken() (*Token, error) {
+	l.doc = nil
+	tok, err := l.readToken()
+	if err != nil {
+		return nil, err
+	}
+	tok.DocBefore = l.doc
+	return tok, nil
+}
+
+func (l *Lexer) readToken() (*Token, error) {
 	hadWhitespace, hadNewline := l.skipWhitespaceAndComments()
 
 	if l.pos >= len(l.source) {
@@ -166,22 +186,22 @@ func (l *Lexer) nextToken() (*Token, error) {
 	switch ch {
 	case '{':
 		l.advance()
-		return &Token{TokenLBrace, "{", Span{start, l.bytePos}, hadWhitespace, hadNewline}, nil
+		return &Token{TokenLBrace, "{", Span{start, l.bytePos}, hadWhitespace, hadNewline, nil}, nil
 	case '}':
 		l.advance()
-		return &Token{TokenRBrace, "}", Span{start, l.bytePos}, hadWhitespace, hadNewline}, nil
+		return &Token{TokenRBrace, "}", Span{start, l.bytePos}, hadWhitespace, hadNewline, nil}, nil
 	case '(':
 		l.advance()
-		return &Token{TokenLParen, "(", Span{start, l.bytePos}, hadWhitespace, hadNewline}, nil
+		return &Token{TokenLParen, "(", Span{start, l.bytePos}, hadWhitespace, hadNewline, nil}, nil
 	case ')':
 		l.advance()
-		return &Token{TokenRParen, ")", Span{start, l.bytePos}, hadWhitespace, hadNewline}, nil
+		return &Token{TokenRParen, ")", Span{start, l.bytePos}, hadWhitespace, hadNewline, nil}, nil
 	case ',':
 		l.advance()
-		return &Token{TokenComma, ",", Span{start, l.bytePos}, hadWhitespace, hadNewline}, nil
+		return &Token{TokenComma, ",", Span{start, l.bytePos}, hadWhitespace, hadNewline, nil}, nil
 	case '>':
 		l.advance()
-		return &Token{TokenGT, ">", Span{start, l.bytePos}, hadWhitespace, hadNewline}, nil
+		return &Token{TokenGT, ">", Span{start, l.bytePos}, hadWhitespace, hadNewline, nil}, nil
 	}
 
 	// @ - either unit or tag
@@ -198,9 +218,9 @@ func (l *Lexer) nextToken() (*Token, error) {
 				l.advance()
 			}
 			name := l.source[nameStart:l.pos]
-			return &Token{TokenTag, name, Span{start, l.bytePos}, hadWhitespace, hadNewline}, nil
+			return &Token{TokenTag, name, Span{start, l.bytePos}, hadWhitespace, hadNewline, nil}, nil
 		}
-		return &Token{TokenAt, "@", Span{start, l.bytePos}, hadWhitespace, hadNewline}, nil
+		return &Token{TokenAt, "@", Span{start, l.bytePos}, hadWhitespace, hadNewline, nil}, nil
 	}
 
 	// Quoted string
@@ -269,7 +289,7 @@ func (l *Lexer) readQuotedString(start int, hadWhitespace, hadNewline bool) (*To
 		ch := l.peek(0)
 		if ch == '"' {
 			l.advance()
-			return &Token{TokenQuoted, text.String(), Span{start, l.bytePos}, hadWhitespace, hadNewline}, nil
+			return &Token{TokenQuoted, text.String(), Span{start, l.bytePos}, hadWhitespace, hadNewline, nil}, nil
 		}
 		if ch == '\\' {
 			escapeStart := l.bytePos
@@ -382,7 +402,7 @@ func (l *Lexer) readRawString(start int, hadWhitespace, hadNewline bool) (*Token
 			for i := 0; i < len(closePattern); i++ {
 				l.advance()
 			}
-			return &Token{TokenRaw, text.String(), Span{start, l.bytePos}, hadWhitespace, hadNewline}, nil
+			return &Token{TokenRaw, text.String(), Span{start, l.bytePos}, hadWhitespace, hadNewline, nil}, nil
 		}
 		text.WriteRune(l.advance())
 	}
@@ -428,7 +448,7 @@ func (l *Lexer) readHeredoc(start int, hadWhitespace, hadNewline bool) (*Token,
 		// Check for exact match (no indentation)
 		if lineStr == bareDelimiter {
 			result := text.String()
-			return &Token{TokenHeredoc, result, Span{start, l.bytePos}, hadWhitespace, hadNewline}, nil
+			return &Token{TokenHeredoc, result, Span{start, l.bytePos}, hadWhitespace, hadNewline, nil}, nil
 		}
 
 		// Check for indented closing delimiter
@@ -437,7 +457,7 @@ func (l *Lexer) readHeredoc(start int, hadWhitespace, hadNewline bool) (*Token,
 			indentLen := len(lineStr) - len(stripped)
 			// Dedent the content by stripping up to indentLen from each line
 			result := dedentHeredoc(text.String(), indentLen)
-			return &Token{TokenHeredoc, result, Span{start, l.bytePos}, hadWhitespace, hadNewline}, nil
+			return &Token{TokenHeredoc, result, Span{start, l.bytePos}, hadWhitespace, hadNewline, nil}, nil
 		}
 
 		text.WriteString(lineStr)
@@ -485,5 +505,5 @@ func (l *Lexer) readBareScalar(start int, hadWhitespace, hadNewline bool) (*Toke
 		}
 		text.WriteRune(l.advance())
 	}
-	return &Token{TokenScalar, text.String(), Span{start, l.bytePos}, hadWhitespace, hadNewline}, nil
+	return &Token{TokenScalar, text.String(), Span{start, l.bytePos}, hadWhitespace, hadNewline, nil}, nil
 }
diff --git a/implementations/styx-go/parser.go b/implementations/styx-go/parser.go
index dd1d29a..13e6fe3 100644
--- a/implementations/styx-go/parser.go
+++ b/implementations/styx-go/parser.go
@@ -1,6 +1,7 @@
 package styx
 
 import (
+	"strconv"
 	"strings"
 )
 
@@ -12,10 +13,21 @@ const (
 	pathValueTerminal
 )
 
+// pathSegment is a key as far as duplicates go: the text of a scalar, or the parts of a tag or
+// unit key.
+type pathSegment struct {
+	text, tag    string
+	isTag, isTxt bool
+}
+
+func textSegment(text string) pathSegment {
+	return pathSegment{text: text, isTxt: true}
+}
+
 // pathState tracks dotted path state for validation.
 type pathState struct {
-	currentPath   []string
-	closedPaths   map[string]bool // key is joined path
+	currentPath   []pathSegment
+	closedPaths   map[string]bool // key is pathID
 	assignedPaths map[string]struct {
 		kind pathValueKind
 		span Span
@@ -32,14 +44,41 @@ func newPathState() *pathState {
 	}
 }
 
-func joinPath(segments []string) string {
-	return strings.Join(segments, ".")
+// joinPath formats a path for a message.
+func joinPath(segments []pathSegment) string {
+	var parts []string
+	for _, s := range segments {
+		part := s.text
+		if s.isTag {
+			part = "@" + s.tag + part
+		} else if !s.isTxt {
+			part = "@"
+		}
+		parts = append(parts, part)
+	}
+	return strings.Join(parts, ".")
+}
+
+// pathID returns a string that no other path has.
+func pathID(segments []pathSegment) string {
+	var id strings.Builder
+	for _, s := range segments {
+		if s.isTag {
+			id.WriteByte('@')
+			id.WriteString(s.tag)
+		}
+		if s.isTxt {
+			id.WriteString(strconv.Quote(s.text))
+		}
+		id.WriteByte('.')
+	}
+	return id.String()
 }
 
 // checkAndUpdate validates a path and updates the state.
 // Returns an error if the path is invalid.
-func (ps *pathState) checkAndUpdate(path []string, span Span, kind pathValueKind) error {
-	pathKey := joinPath(path)
+func (ps *pathState) checkAndUpdate(path []pathSegment, span Span, kind pathValueKind) error {
+	pathKey := pathID(path)
 
 	// 1. Check for duplicate (exact same path)
 	if _, exists := ps.assignedPaths[pathKey]; exists {
@@ -49,16 +88,16 @@ func (ps *pathState) checkAndUpdate(path []string, span Span, kind pathValueKind
 	// 2. Check if any proper prefix is closed or has a terminal value
 	for i := 1; i < len(path); i++ {
 		prefix := path[:i]
-		prefixKey := joinPath(prefix)
+		prefixKey := pathID(prefix)
 		if ps.closedPaths[prefixKey] {
 			return &ParseError{
-				Message: "cannot reopen path `" + prefixKey + "` after sibling appeared",
+				Message: "cannot reopen path `" + joinPath(prefix) + "` after sibling appeared",
 				Span:    span,
 			}
 		}
 		if assigned, exists := ps.assignedPaths[prefixKey]; exists && assigned.kind == pathValueTerminal {
 			return &ParseError{
-				Message: "cannot nest into `" + prefixKey + "` which has a terminal value",
+				Message: "cannot nest into `" + joinPath(prefix) + "` which has a terminal value",
 				Span:    span,
 			}
 		}
@@ -76,14 +115,13 @@ func (ps *pathState) checkAndUpdate(path []string, span Span, kind pathValueKind
 
 	// 4. Close paths beyond the common prefix
 	for i := commonLen; i < len(ps.currentPath); i++ {
-		closed := joinPath(ps.currentPath[:i+1])
-		ps.closedPaths[closed] = true
+		ps.closedPaths[pathID(ps.currentPath[:i+1])] = true
 	}
 
 	// 5. Record intermediate path segments as objects (if not already assigned)
 	for i := 1; i < len(path); i++ {
 		prefix := path[:i]
-		prefixKey := joinPath(prefix)
+		prefixKey := pathID(prefix)
 		if _, exists := ps.assignedPaths[prefixKey]; !exists {
 			ps.assignedPaths[prefixKey] = struct {
 				kind pathValueKind
@@ -122,6 +160,13 @@ func newParser(source string) *parser {
 	return p
 }
 
+// fail records the first error of the lexer.
+func (p *parser) fail(err error) {
+	if p.err == nil {
+		p.err = err
+	}
+}
+
 func (p *parser) advance() *Token {
 	prev := p.current
 	if p.peeked != nil {
@@ -130,7 +175,7 @@ func (p *parser) advance() *Token {
 	} else {
 		tok, err := p.lexer.nextToken()
 		if err != nil {
-			p.err = err
+			p.fail(err)
 			p.current = &Token{Type: TokenEOF, Span: Span{p.lexer.bytePos, p.lexer.bytePos}}
 		} else {
 			p.current = tok
@@ -143,7 +188,7 @@ func (p *parser) peek() *Token {
 	if p.peeked == nil {
 		tok, err := p.lexer.nextToken()
 		if err != nil {
-			p.err = err
+			p.fail(err)
 			p.peeked = &Token{Type: TokenEOF, Span: Span{p.lexer.bytePos, p.lexer.bytePos}}
 		} else {
 			p.peeked = tok
@@ -172,6 +217,15 @@ func (p *parser) expect(tokenType TokenType) (*Token, error) {
 }
 
 func (p *parser) parse() (*Document, error) {
+	doc, err := p.parseDocument()
+	if p.err != nil {
+		// What the lexer could not read looked like the end of the document
+		return nil, p.err
+	}
+	return doc, err
+}
+
+func (p *parser) parseDocument() (*Document, error) {
 	if p.err != nil {
 		return nil, p.err
 	}
@@ -186,7 +240,7 @@ func (p *parser) parse() (*Document, error) {
 	}
 
 	// Check for explicit root object: { ... } at document start
-	if p.check(TokenLBrace) {
+	if p.check(TokenLBrace) && p.current.DocBefore == nil {
 		// Explicit root object - parse it and check for trailing content
 		obj, err := p.parseObject()
 		if err != nil {
@@ -197,11 +251,6 @@ func (p *parser) parse() (*Document, error) {
 		entries = append(entries, &Entry{Key: unitKey, Value: objValue})
 
 		// After explicit root object, only whitespace/comments/EOF are allowed
-		// Skip commas (they don't count as "content")
-		for p.check(TokenComma) {
-			p.advance()
-		}
-
 		if !p.check(TokenEOF) {
 			// Find the span of trailing content
 			trailingStart := p.current.Span.Start
@@ -227,7 +276,7 @@ func (p *parser) parse() (*Document, error) {
 		if p.err != nil {
 			return nil, p.err
 		}
-		entry, err := p.parseEntryWithPathCheck(ps)
+		entry, err := p.parseEntry(ps, false)
 		if err != nil {
 			return nil, err
 		}
@@ -235,6 +284,9 @@ func (p *parser) parse() (*Document, error) {
 			entries = append(entries, entry)
 		}
 	}
+	if err := p.checkNoDoc(); err != nil {
+		return nil, err
+	}
 
 	return &Document{
 		Entries: entries,
@@ -242,7 +294,30 @@ func (p *parser) parse() (*Document, error) {
 	}, nil
 }
 
-func (p *parser) parseEntryWithPathCheck(ps *pathState) (*Entry, error) {
+// checkNoDoc is for where entries end: no doc comment may be left.
+func (p *parser) checkNoDoc() error {
+	if p.current.DocBefore != nil {
+		return &ParseError{Message: "doc comment not followed by an entry", Span: *p.current.DocBefore}
+	}
+	return nil
+}
+
+// checkEntryEnd checks that an entry ends at a newline, a comma or where its object ends.
+func (p *parser) checkEntryEnd() error {
+	if p.current.HadNewlineBefore || p.check(TokenEOF, TokenRBrace, TokenComma) {
+		return nil
+	}
+	if p.check(TokenGT) {
+		return &ParseError{Message: "expected a value", Span: p.current.Span}
+	}
+	return &ParseError{
+		Message: "unexpected atom after value (entry has too many atoms)",
+		Span:    p.current.Span,
+	}
+}
+
+// parseEntry parses an entry, of the document or of an object.
+func (p *parser) parseEntry(ps *pathState, inObject bool) (*Entry, error) {
 	for p.check(TokenComma) {
 		p.advance()
 	}
@@ -251,7 +326,7 @@ func (p *parser) parseEntryWithPathCheck(ps *pathState) (*Entry, error) {
 		return nil, p.err
 	}
 
-	if p.check(TokenEOF, TokenRBrace) {
+	if p.check(TokenEOF) || inObject && p.check(TokenRBrace) {
 		return nil, nil
 	}
 
@@ -259,131 +334,71 @@ func (p *parser) parseEntryWithPathCheck(ps *pathState) (*Entry, error) {
 	if err != nil {
 		return nil, err
 	}
-	if p.err != nil {
-		return nil, p.err
-	}
-
-	// Special case: object in key position gets implicit unit key
-	if key.PayloadKind == PayloadObject {
-		if !p.current.HadNewlineBefore && !p.check(TokenEOF, TokenRBrace, TokenComma) {
-			p.parseValue() // Drop trailing value
-		}
-		unitKey := &Value{Span: Span{-1, -1}}
-		return &Entry{Key: unitKey, Value: key}, nil
-	}
-
-	// Check for dotted path in bare scalar key
-	if key.PayloadKind == PayloadScalar && key.Scalar.Kind == ScalarBare {
-		text := key.Scalar.Text
-		if strings.Contains(text, ".") {
-			return p.expandDottedPathWithState(text, key.Span, ps)
-		}
-	}
 
 	if err := p.validateKey(key); err != nil {
 		return nil, err
 	}
 
-	// Get key text for path tracking
-	keyText := p.getKeyText(key)
-
-	// Check for implicit unit
-	if p.current.HadNewlineBefore || p.check(TokenEOF, TokenRBrace) {
-		// Validate path
-		if keyText != "" {
-			if err := ps.checkAndUpdate([]string{keyText}, key.Span, pathValueTerminal); err != nil {
-				return nil, err
+	if key.Tag == nil && key.PayloadKind == PayloadScalar && key.Scalar.Kind == ScalarBare {
+		if !p.current.HadWhitespaceBefore && p.check(TokenLBrace, TokenLParen) {
+			return nil, &ParseError{
+				Message: "missing whitespace before `{` or `(` (required after bare scalar to distinguish from tag syntax like `@tag{}`)",
+				Span:    p.current.Span,
 			}
 		}
-		return &Entry{Key: key, Value: &Value{Span: key.Span}}, nil
+		// Dotted path in bare scalar key
+		if strings.Contains(key.Scalar.Text, ".") {
+			return p.expandDottedPath(key.Scalar.Text, key.Span, ps)
+		}
 	}
 
-	value, err := p.parseValue()
+	value, err := p.parseEntryValue(key.Span)
 	if err != nil {
 		return nil, err
 	}
-
-	// Determine value kind and validate path
-	if keyText != "" {
-		kind := pathValueTerminal
-		if value.PayloadKind == PayloadObject {
-			kind = pathValueObject
-		}
-		if err := ps.checkAndUpdate([]string{keyText}, key.Span, kind); err != nil {
-			return nil, err
-		}
+	if err := ps.checkAndUpdate([]pathSegment{keySegment(key)}, key.Span, valueKind(value)); err != nil {
+		return nil, err
 	}
-
 	return &Entry{Key: key, Value: value}, nil
 }
 
-func (p *parser) parseEntryWithDupCheck(seenKeys map[string]Span) (*Entry, error) {
-	for p.check(TokenComma) {
-		p.advance()
-	}
-
-	if p.err != nil {
-		return nil, p.err
-	}
-
-	if p.check(TokenEOF, TokenRBrace) {
-		return nil, nil
+// parseEntryValue parses what follows a key; nothing does if the value is an implicit unit.
+func (p *parser) parseEntryValue(keySpan Span) (*Value, error) {
+	if p.current.HadNewlineBefore || p.check(TokenEOF, TokenRBrace, TokenComma) {
+		return &Value{Span: keySpan}, nil
 	}
-
-	key, err := p.parseValue()
+	value, err := p.parseValue()
 	if err != nil {
 		return nil, err
 	}
-	if p.err != nil {
-		return nil, p.err
-	}
-
-	// Special case: object in key position gets implicit unit key
-	if key.PayloadKind == PayloadObject {
-		if !p.current.HadNewlineBefore && !p.check(TokenEOF, TokenRBrace, TokenComma) {
-			p.parseValue() // Drop trailing value
-		}
-		unitKey := &Value{Span: Span{-1, -1}}
-		return &Entry{Key: unitKey, Value: key}, nil
-	}
-
-	// Check for duplicate key
-	keyText := p.getKeyText(key)
-	if keyText != "" {
-		if _, exists := seenKeys[keyText]; exists {
-			return nil, &ParseError{Message: "duplicate key", Span: key.Span}
-		}
-		seenKeys[keyText] = key.Span
-	}
-
-	if err := p.validateKey(key); err != nil {
+	if err := p.checkEntryEnd(); err != nil {
 		return nil, err
 	}
+	return value, nil
+}
 
-	// Check for implicit unit
-	if p.current.HadNewlineBefore || p.check(TokenEOF, TokenRBrace) {
-		return &Entry{Key: key, Value: &Value{Span: key.Span}}, nil
+// valueKind tells whether more of a path may follow a value.
+func valueKind(value *Value) pathValueKind {
+	if value.Tag == nil && value.PayloadKind == PayloadObject {
+		return pathValueObject
 	}
-
-	value, err := p.parseValue()
-	if err != nil {
-		return nil, err
-	}
-	return &Entry{Key: key, Value: value}, nil
+	return pathValueTerminal
 }
 
-func (p *parser) getKeyText(key *Value) string {
+// keySegment returns what a key is, for duplicate checking.
+func keySegment(key *Value) pathSegment {
+	var s pathSegment
 	if key.PayloadKind == PayloadScalar {
-		return key.Scalar.Text
+		s = textSegment(key.Scalar.Text)
 	}
-	if key.Tag != nil && key.PayloadKind == PayloadNone {
-		return "@" + key.Tag.Name
+	if key.Tag != nil {
+		s.tag, s.isTag = key.Tag.Name, true
 	}
-	return ""
+	return s
 }
 
 func (p *parser) validateKey(key *Value) error {
-	if key.PayloadKind == PayloadSequence {
+	if key.PayloadKind == PayloadSequence || key.PayloadKind == PayloadObject {
 		return &ParseError{Message: "invalid key", Span: key.Span}
 	}
 	if key.PayloadKind == PayloadScalar && key.Scalar.Kind == ScalarHeredoc {
@@ -405,7 +420,7 @@ func (p *parser) heredocStartSpan(heredocSpan Span) Span {
 	return Span{Start: heredocSpan.Start, End: heredocSpan.Start + endOffset}
 }
 
-func (p *parser) expandDottedPathWithState(pathText string, span Span, ps *pathState) (*Entry, error) {
+func (p *parser) expandDottedPath(pathText string, span Span, ps *pathState) (*Entry, error) {
 	segments := strings.Split(pathText, ".")
 
 	for _, s := range segments {
@@ -423,19 +438,17 @@ func (p *parser) expandDottedPathWithState(pathText string, span Span, ps *pathS
 		offset += segmentBytes + 1 // +1 for the dot
 	}
 
-	value, err := p.parseValue()
+	value, err := p.parseEntryValue(span)
 	if err != nil {
 		return nil, err
 	}
 
-	// Determine value kind for path tracking
-	kind := pathValueTerminal
-	if value.PayloadKind == PayloadObject {
-		kind = pathValueObject
-	}
-
 	// Validate path with state
-	if err := ps.checkAndUpdate(segments, span, kind); err != nil {
+	path := make([]pathSegment, len(segments))
+	for i, segment := range segments {
+		path[i] = textSegment(segment)
+	}
+	if err := ps.checkAndUpdate(path, span, valueKind(value)); err != nil {
 		return nil, err
 	}
 
@@ -492,8 +505,7 @@ func (p *parser) parseAttributeValue() (*Value, error) {
 		return p.parseTagValue()
 	}
 	if p.check(TokenAt) {
-		atToken := p.advance()
-		return &Value{Span: atToken.Span}, nil
+		return p.parseUnit()
 	}
 	scalar, err := p.parseScalar()
 	if err != nil {
@@ -540,26 +552,33 @@ func (p *parser) parseTagValue() (*Value, error) {
 			return &Value{Span: scalar.Span, Tag: tag, PayloadKind: PayloadScalar, Scalar: scalar}, nil
 		}
 		if p.check(TokenAt) {
-			atToken := p.advance()
-			return &Value{Span: atToken.Span, Tag: tag}, nil
+			unit, err := p.parseUnit()
+			if err != nil {
+				return nil, err
+			}
+			return &Value{Span: unit.Span, Tag: tag}, nil
 		}
 	}
 
 	return &Value{Span: Span{start, tagToken.Span.End}, Tag: tag}, nil
 }
 
+func (p *parser) parseUnit() (*Value, error) {
+	atToken := p.advance()
+	if !p.current.HadWhitespaceBefore && !p.check(TokenEOF, TokenRBrace, TokenRParen, TokenComma, TokenLBrace, TokenLParen) {
+		// Error span includes the @ (it's part of the tag)
+		return nil, &ParseError{Message: "invalid tag name", Span: Span{atToken.Span.Start, p.current.Span.End}}
+	}
+	return &Value{Span: Span{atToken.Span.Start, atToken.Span.End}}, nil
+}
+
 func (p *parser) parseValue() (*Value, error) {
 	if p.err != nil {
 		return nil, p.err
 	}
 
 	if p.check(TokenAt) {
-		atToken := p.advance()
-		if !p.current.HadWhitespaceBefore && !p.check(TokenEOF, TokenRBrace, TokenRParen, TokenComma, TokenLBrace, TokenLParen) {
-			// Error span includes the @ (it's part of the tag)
-			return nil, &ParseError{Message: "invalid tag name", Span: Span{atToken.Span.Start, p.current.Span.End}}
-		}
-		return &Value{Span: Span{atToken.Span.Start, atToken.Span.End}}, nil
+		return p.parseUnit()
 	}
 
 	if p.check(TokenTag) {
@@ -624,6 +643,7 @@ func (p *parser) parseAttributesAfterGT(firstKeyToken *Token) (*Value, error) {
 	// Same as parseAttributesStartingWith but > was already consumed
 	attrs := []*Entry{}
 	startSpan := firstKeyToken.Span
+	seenKeys := map[string]bool{firstKeyToken.Text: true}
 
 	firstKey := &Value{
 		Span:        firstKeyToken.Span,
@@ -661,6 +681,11 @@ func (p *parser) parseAttributesAfterGT(firstKeyToken *Token) (*Value, error) {
 			}
 		}
 
+		if seenKeys[keyToken.Text] {
+			return nil, &ParseError{Message: "duplicate key", Span: keyToken.Span}
+		}
+		seenKeys[keyToken.Text] = true
+
 		attrKey := &Value{
 			Span:        keyToken.Span,
 			PayloadKind: PayloadScalar,
@@ -718,10 +743,10 @@ func (p *parser) parseObject() (*Object, error) {
 	}
 	start := openBrace.Span.Start
 	entries := []*Entry{}
-	seenKeys := make(map[string]Span)
+	ps := newPathState()
 
 	for !p.check(TokenRBrace, TokenEOF) {
-		entry, err := p.parseEntryWithDupCheck(seenKeys)
+		entry, err := p.parseEntry(ps, true)
 		if err != nil {
 			return nil, err
 		}
@@ -741,6 +766,9 @@ func (p *parser) parseObject() (*Object, error) {
 			Span:    openBrace.Span,
 		}
 	}
+	if err := p.checkNoDoc(); err != nil {
+		return nil, err
+	}
 
 	closeBrace, err := p.expect(TokenRBrace)
 	if err != nil {
-- 
2.43.0


From 62db3a3bc1c4388bf731d82568298c8e272cd86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:13 +0000
Subject: [PATCH 67/84] fix: styx-gen-go writes the same files for the same
 schema every time

---
 crates/styx-gen-go/src/lib.rs   |  6 ++++--
 crates/styx-gen-go/src/types.rs | 13 ++++++++-----
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/crates/styx-gen-go/src/lib.rs b/crates/styx-gen-go/src/lib.rs
index 9cc1eca..e501f36 100644
--- a/crates/styx-gen-go/src/lib.rs
+++ b/crates/styx-gen-go/src/lib.rs
@@ -15,8 +15,10 @@ use types::{GoType, TypeMapper};
 pub fn generate(schema: &SchemaFile, package_name: &str, output_dir: &str) -> Result<(), GenError> {
     let mut mapper = TypeMapper::new();
 
-    // Collect all type definitions from the schema
-    for (name_opt, schema_type) in &schema.schema {
+    // Collect all type definitions from the schema, in a fixed order
+    let mut definitions: Vec<_> = schema.schema.iter().collect();
+    definitions.sort_by_key(|(name, _)| *name);
+    for (name_opt, schema_type) in definitions {
         let type_name = match name_opt {
             Some(name) => name.clone(),
             None => "Root".to_string(), // Root type gets default name
diff --git a/crates/styx-gen-go/src/types.rs b/crates/styx-gen-go/src/types.rs
index 8466740..90be4cd 100644
--- a/crates/styx-gen-go/src/types.rs
+++ b/crates/styx-gen-go/src/types.rs
@@ -2,7 +2,7 @@
 
 use crate::error::GenError;
 use facet_styx::Schema;
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 /// A Go type representation.
 #[derive(Debug, Clone)]
@@ -63,13 +63,13 @@ pub struct EnumVariant {
 
 /// Maps Styx schema types to Go types.
 pub struct TypeMapper {
-    types: HashMap<String, GoType>,
+    types: BTreeMap<String, GoType>,
 }
 
 impl TypeMapper {
     pub fn new() -> Self {
         Self {
-            types: HashMap::new(),
+            types: BTreeMap::new(),
         }
     }
 
@@ -81,7 +81,7 @@ impl TypeMapper {
     }
 
     /// Get all registered types.
-    pub fn types(&self) -> &HashMap<String, GoType> {
+    pub fn types(&self) -> &BTreeMap<String, GoType> {
         &self.types
     }
 
@@ -115,6 +115,8 @@ impl TypeMapper {
                         struct_fields.push(field);
                     }
                 }
+                // The schema keeps fields in a hash map: fix an order.
+                struct_fields.sort_by(|a, b| a.styx_name.cmp(&b.styx_name));
                 Ok(GoType::Struct {
                     fields: struct_fields,
                     doc: None,
@@ -151,7 +153,7 @@ impl TypeMapper {
                 )))
             }
             Schema::Enum(enum_schema) => {
-                let enum_variants = enum_schema
+                let mut enum_variants: Vec<EnumVariant> = enum_schema
                     .0
                     .keys()
                     .map(|documented_name| EnumVariant {
@@ -165,6 +167,7 @@ impl TypeMapper {
                         }),
                     })
                     .collect();
+                enum_variants.sort_by(|a, b| a.name.cmp(&b.name));
                 Ok(GoType::Enum {
                     variants: enum_variants,
                     doc: None,
-- 
2.43.0


From 2c1022491c7fe99785215ec6017b341c3355f4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:29 +0000
Subject: [PATCH 68/84] fix: styx-gen-go gives types, fields and constants
 valid and distinct Go names

---
 crates/styx-gen-go/src/lib.rs   |  31 ++------
 crates/styx-gen-go/src/types.rs | 127 ++++++++++++++++++++++++++------
 2 files changed, 111 insertions(+), 47 deletions(-)

diff --git a/crates/styx-gen-go/src/lib.rs b/crates/styx-gen-go/src/lib.rs
index e501f36..dab3ac8 100644
--- a/crates/styx-gen-go/src/lib.rs
+++ b/crates/styx-gen-go/src/lib.rs
@@ -13,17 +13,12 @@ use types::{GoType, TypeMapper};
 
 /// Generate Go code from a Styx schema.
 pub fn generate(schema: &SchemaFile, package_name: &str, output_dir: &str) -> Result<(), GenError> {
-    let mut mapper = TypeMapper::new();
-
     // Collect all type definitions from the schema, in a fixed order
     let mut definitions: Vec<_> = schema.schema.iter().collect();
     definitions.sort_by_key(|(name, _)| *name);
-    for (name_opt, schema_type) in definitions {
-        let type_name = match name_opt {
-            Some(name) => name.clone(),
-            None => "Root".to_string(), // Root type gets default name
-        };
-        mapper.register_type(&type_name, schema_type)?;
+    let mut mapper = TypeMapper::new(definitions.iter().filter_map(|(name, _)| name.as_deref()));
+    for (name, schema_type) in definitions {
+        mapper.register_type(name.as_deref(), schema_type)?;
     }
 
     // Generate the main types file
@@ -110,13 +105,16 @@ fn generate_type_definition(
             writeln!(out)?;
             writeln!(out, "const (")?;
             for variant in variants {
-                let const_name = format!("{}{}", name, to_pascal_case(&variant.name));
                 if let Some(doc) = &variant.doc {
                     for line in doc.lines() {
                         writeln!(out, "\t// {}", line)?;
                     }
                 }
-                writeln!(out, "\t{} {} = \"{}\"", const_name, name, variant.name)?;
+                writeln!(
+                    out,
+                    "\t{} {} = \"{}\"",
+                    variant.const_name, name, variant.name
+                )?;
             }
             writeln!(out, ")")?;
         }
@@ -443,19 +441,6 @@ fn generate_parse_file(
     Ok(out)
 }
 
-fn to_pascal_case(s: &str) -> String {
-    s.split(['_', '-'])
-        .filter(|s| !s.is_empty())
-        .map(|word| {
-            let mut chars = word.chars();
-            match chars.next() {
-                None => String::new(),
-                Some(first) => first.to_uppercase().chain(chars).collect(),
-            }
-        })
-        .collect()
-}
-
 impl From<std::fmt::Error> for GenError {
     fn from(_: std::fmt::Error) -> Self {
         GenError::Format("formatting error".into())
diff --git a/crates/styx-gen-go/src/types.rs b/crates/styx-gen-go/src/types.rs
index 90be4cd..5423b5c 100644
--- a/crates/styx-gen-go/src/types.rs
+++ b/crates/styx-gen-go/src/types.rs
@@ -2,7 +2,7 @@
 
 use crate::error::GenError;
 use facet_styx::Schema;
-use std::collections::BTreeMap;
+use std::collections::{BTreeMap, HashMap, HashSet};
 
 /// A Go type representation.
 #[derive(Debug, Clone)]
@@ -57,29 +57,90 @@ pub struct FieldConstraints {
 pub struct EnumVariant {
     /// Variant name
     pub name: String,
+    /// Go constant name
+    pub const_name: String,
     /// Variant documentation
     pub doc: Option<String>,
 }
 
+/// Go type name of the schema's root type.
+const ROOT: &str = "Root";
+
+/// Package-level names the generated files declare themselves.
+const RESERVED: [&str; 5] = [
+    ROOT,
+    "ValidationError",
+    "ValidationErrors",
+    "LoadFromFile",
+    "Parse",
+];
+
+/// Hands out distinct Go identifiers within one scope.
+struct Namer {
+    used: HashSet<String>,
+}
+
+impl Namer {
+    fn new(reserved: &[&str]) -> Self {
+        Self {
+            used: reserved.iter().map(|name| name.to_string()).collect(),
+        }
+    }
+
+    /// Returns `wanted`, or `wanted` with a number appended if it is taken.
+    fn pick(&mut self, wanted: String) -> String {
+        let mut name = wanted.clone();
+        let mut n = 2;
+        while !self.used.insert(name.clone()) {
+            name = format!("{wanted}{n}");
+            n += 1;
+        }
+        name
+    }
+}
+
 /// Maps Styx schema types to Go types.
 pub struct TypeMapper {
     types: BTreeMap<String, GoType>,
+    /// Go names of the schema's named types.
+    names: HashMap<String, String>,
+    /// Package-level identifiers.
+    package: Namer,
 }
 
 impl TypeMapper {
-    pub fn new() -> Self {
+    /// Create a mapper for a schema that defines the given named types.
+    pub fn new<'a>(type_names: impl Iterator<Item = &'a str>) -> Self {
+        let mut package = Namer::new(&RESERVED);
+        let names = type_names
+            .map(|name| (name.to_string(), package.pick(to_pascal_case(name))))
+            .collect();
         Self {
             types: BTreeMap::new(),
+            names,
+            package,
         }
     }
 
-    /// Register a named type from the schema.
-    pub fn register_type(&mut self, name: &str, schema: &Schema) -> Result<(), GenError> {
-        let go_type = self.map_schema_type(Some(name), schema)?;
-        self.types.insert(name.to_string(), go_type);
+    /// Register a type from the schema; the root type has no name.
+    pub fn register_type(&mut self, name: Option<&str>, schema: &Schema) -> Result<(), GenError> {
+        let go_name = match name {
+            Some(name) => self.reference(name),
+            None => ROOT.to_string(),
+        };
+        let go_type = self.map_schema_type(Some(&go_name), schema)?;
+        self.types.insert(go_name, go_type);
         Ok(())
     }
 
+    /// Go name of a named type.
+    fn reference(&self, name: &str) -> String {
+        self.names
+            .get(name)
+            .cloned()
+            .unwrap_or_else(|| to_pascal_case(name))
+    }
+
     /// Get all registered types.
     pub fn types(&self) -> &BTreeMap<String, GoType> {
         &self.types
@@ -99,8 +160,12 @@ impl TypeMapper {
             Schema::Unit => Ok(GoType::Primitive("struct{}".to_string())),
             Schema::Any => Ok(GoType::Primitive("interface{}".to_string())),
             Schema::Object(obj_schema) => {
+                // The schema keeps fields in a hash map: fix an order.
+                let mut entries: Vec<_> = obj_schema.0.iter().collect();
+                entries.sort_by_key(|(key, _)| &key.value().value);
+                let mut members = Namer::new(&["Validate"]);
                 let mut struct_fields = Vec::new();
-                for (documented_key, field_schema) in &obj_schema.0 {
+                for (documented_key, field_schema) in entries {
                     let key = documented_key.value();
                     if let Some(field_name) = &key.value {
                         let field_doc = documented_key.doc.as_ref().map(|lines| {
@@ -110,13 +175,12 @@ impl TypeMapper {
                                 .collect::<Vec<_>>()
                                 .join(" ")
                         });
-                        let field =
+                        let mut field =
                             self.map_field(parent_name, field_name, field_schema, field_doc)?;
+                        field.go_name = members.pick(field.go_name);
                         struct_fields.push(field);
                     }
                 }
-                // The schema keeps fields in a hash map: fix an order.
-                struct_fields.sort_by(|a, b| a.styx_name.cmp(&b.styx_name));
                 Ok(GoType::Struct {
                     fields: struct_fields,
                     doc: None,
@@ -158,6 +222,7 @@ impl TypeMapper {
                     .keys()
                     .map(|documented_name| EnumVariant {
                         name: documented_name.value().clone(),
+                        const_name: String::new(),
                         doc: documented_name.doc().map(|lines| {
                             lines
                                 .iter()
@@ -168,6 +233,13 @@ impl TypeMapper {
                     })
                     .collect();
                 enum_variants.sort_by(|a, b| a.name.cmp(&b.name));
+                for variant in &mut enum_variants {
+                    variant.const_name = self.package.pick(format!(
+                        "{}{}",
+                        parent_name.unwrap_or_default(),
+                        to_pascal_case(&variant.name)
+                    ));
+                }
                 Ok(GoType::Enum {
                     variants: enum_variants,
                     doc: None,
@@ -194,7 +266,7 @@ impl TypeMapper {
             Schema::Literal(_) => Ok(GoType::Primitive("string".to_string())),
             Schema::Type { name } => {
                 if let Some(n) = name {
-                    Ok(GoType::Primitive(to_pascal_case(n)))
+                    Ok(GoType::Primitive(self.reference(n)))
                 } else {
                     Ok(GoType::Primitive("interface{}".to_string()))
                 }
@@ -232,17 +304,15 @@ impl TypeMapper {
         // Check if this is a nested object - if so, generate a named type for it
         let type_name = if matches!(inner_schema, Schema::Object(_)) {
             // Generate a type name for the nested object
-            let nested_type_name = if let Some(parent) = parent_name {
-                format!("{}{}", parent, to_pascal_case(field_name))
-            } else {
+            let nested_type_name = self.package.pick(format!(
+                "{}{}",
+                parent_name.unwrap_or_default(),
                 to_pascal_case(field_name)
-            };
+            ));
 
-            // Register the nested type if it doesn't exist yet
-            if !self.types.contains_key(&nested_type_name) {
-                let nested_type = self.map_schema_type(Some(&nested_type_name), inner_schema)?;
-                self.types.insert(nested_type_name.clone(), nested_type);
-            }
+            // Register the nested type
+            let nested_type = self.map_schema_type(Some(&nested_type_name), inner_schema)?;
+            self.types.insert(nested_type_name.clone(), nested_type);
 
             nested_type_name
         } else {
@@ -355,7 +425,7 @@ impl TypeMapper {
             Schema::Literal(_) => Ok("string".to_string()),
             Schema::Type { name } => {
                 if let Some(n) = name {
-                    Ok(to_pascal_case(n))
+                    Ok(self.reference(n))
                 } else {
                     Ok("interface{}".to_string())
                 }
@@ -364,9 +434,12 @@ impl TypeMapper {
     }
 }
 
+/// Turn a Styx name into an exported Go identifier.
 fn to_pascal_case(s: &str) -> String {
-    s.split(['_', '-'])
-        .filter(|s| !s.is_empty())
+    // Anything that cannot be part of a Go identifier separates words.
+    let is_word = |c: char| c.is_ascii_digit() || (c.is_alphanumeric() && !c.is_numeric());
+    let name: String = s
+        .split(|c: char| !is_word(c))
         .map(|word| {
             let mut chars = word.chars();
             match chars.next() {
@@ -374,5 +447,11 @@ fn to_pascal_case(s: &str) -> String {
                 Some(first) => first.to_uppercase().chain(chars).collect(),
             }
         })
-        .collect()
+        .collect();
+    if name.starts_with(char::is_uppercase) {
+        name
+    } else {
+        // A digit, a letter without case, or nothing at all.
+        format!("X{name}")
+    }
 }
-- 
2.43.0


From aacef5723b963a92b417318a7511b8b24b926b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:48 +0000
Subject: [PATCH 69/84] fix: styx-gen-go writes named types that are not
 objects or enums

---
 crates/styx-gen-go/src/lib.rs   | 2 +-
 crates/styx-gen-go/src/types.rs | 1 -
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/styx-gen-go/src/lib.rs b/crates/styx-gen-go/src/lib.rs
index dab3ac8..524dfb3 100644
--- a/crates/styx-gen-go/src/lib.rs
+++ b/crates/styx-gen-go/src/lib.rs
@@ -118,7 +118,7 @@ fn generate_type_definition(
             }
             writeln!(out, ")")?;
         }
-        _ => {}
+        GoType::Primitive(go_type) => writeln!(out, "type {} {}", name, go_type)?,
     }
     Ok(())
 }
diff --git a/crates/styx-gen-go/src/types.rs b/crates/styx-gen-go/src/types.rs
index 5423b5c..fd280a5 100644
--- a/crates/styx-gen-go/src/types.rs
+++ b/crates/styx-gen-go/src/types.rs
@@ -18,7 +18,6 @@ pub enum GoType {
         doc: Option<String>,
     },
     /// A primitive or built-in type
-    #[allow(dead_code)]
     Primitive(String),
 }
 
-- 
2.43.0


From 9bb959666527edfa5913e7e180f9fc62559c28e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:49 +0000
Subject: [PATCH 70/84] fix: styx-gen-go writes validation messages as they are
 meant to read

---
 crates/styx-gen-go/src/lib.rs | 32 ++++++++------------------------
 1 file changed, 8 insertions(+), 24 deletions(-)

diff --git a/crates/styx-gen-go/src/lib.rs b/crates/styx-gen-go/src/lib.rs
index 524dfb3..506af9c 100644
--- a/crates/styx-gen-go/src/lib.rs
+++ b/crates/styx-gen-go/src/lib.rs
@@ -227,8 +227,8 @@ fn generate_validation_function(
                 writeln!(out, "\t\t\t\tField:   \"{}\",", field.styx_name)?;
                 writeln!(
                     out,
-                    "\t\t\t\tMessage: fmt.Sprintf(\"length must be at least {}\", {}),",
-                    min_len, min_len
+                    "\t\t\t\tMessage: \"length must be at least {}\",",
+                    min_len
                 )?;
                 writeln!(out, "\t\t\t}})")?;
                 writeln!(out, "\t\t}}")?;
@@ -249,8 +249,8 @@ fn generate_validation_function(
                 writeln!(out, "\t\t\t\tField:   \"{}\",", field.styx_name)?;
                 writeln!(
                     out,
-                    "\t\t\t\tMessage: fmt.Sprintf(\"length must be at most {}\", {}),",
-                    max_len, max_len
+                    "\t\t\t\tMessage: \"length must be at most {}\",",
+                    max_len
                 )?;
                 writeln!(out, "\t\t\t}})")?;
                 writeln!(out, "\t\t}}")?;
@@ -266,11 +266,7 @@ fn generate_validation_function(
                 writeln!(out, "\t\tif {}v.{} < {} {{", deref, field.go_name, min)?;
                 writeln!(out, "\t\t\terrs = append(errs, &ValidationError{{")?;
                 writeln!(out, "\t\t\t\tField:   \"{}\",", field.styx_name)?;
-                writeln!(
-                    out,
-                    "\t\t\t\tMessage: fmt.Sprintf(\"must be at least {}\", {}),",
-                    min, min
-                )?;
+                writeln!(out, "\t\t\t\tMessage: \"must be at least {}\",", min)?;
                 writeln!(out, "\t\t\t}})")?;
                 writeln!(out, "\t\t}}")?;
             }
@@ -284,11 +280,7 @@ fn generate_validation_function(
                 writeln!(out, "\t\tif {}v.{} > {} {{", deref, field.go_name, max)?;
                 writeln!(out, "\t\t\terrs = append(errs, &ValidationError{{")?;
                 writeln!(out, "\t\t\t\tField:   \"{}\",", field.styx_name)?;
-                writeln!(
-                    out,
-                    "\t\t\t\tMessage: fmt.Sprintf(\"must be at most {}\", {}),",
-                    max, max
-                )?;
+                writeln!(out, "\t\t\t\tMessage: \"must be at most {}\",", max)?;
                 writeln!(out, "\t\t\t}})")?;
                 writeln!(out, "\t\t}}")?;
             }
@@ -303,11 +295,7 @@ fn generate_validation_function(
                 writeln!(out, "\t\tif {}v.{} < {} {{", deref, field.go_name, min)?;
                 writeln!(out, "\t\t\terrs = append(errs, &ValidationError{{")?;
                 writeln!(out, "\t\t\t\tField:   \"{}\",", field.styx_name)?;
-                writeln!(
-                    out,
-                    "\t\t\t\tMessage: fmt.Sprintf(\"must be at least {}\", {}),",
-                    min, min
-                )?;
+                writeln!(out, "\t\t\t\tMessage: \"must be at least {}\",", min)?;
                 writeln!(out, "\t\t\t}})")?;
                 writeln!(out, "\t\t}}")?;
             }
@@ -321,11 +309,7 @@ fn generate_validation_function(
                 writeln!(out, "\t\tif {}v.{} > {} {{", deref, field.go_name, max)?;
                 writeln!(out, "\t\t\terrs = append(errs, &ValidationError{{")?;
                 writeln!(out, "\t\t\t\tField:   \"{}\",", field.styx_name)?;
-                writeln!(
-                    out,
-                    "\t\t\t\tMessage: fmt.Sprintf(\"must be at most {}\", {}),",
-                    max, max
-                )?;
+                writeln!(out, "\t\t\t\tMessage: \"must be at most {}\",", max)?;
                 writeln!(out, "\t\t\t}})")?;
                 writeln!(out, "\t\t}}")?;
             }
-- 
2.43.0


From 543dbaee57ae6c6d287e39f9db7e8684526c86b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:51 +0000
Subject: [PATCH 71/84] fix: styx-gen-go imports nothing into a parse.go
 without helpers

---
 crates/styx-gen-go/src/lib.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/crates/styx-gen-go/src/lib.rs b/crates/styx-gen-go/src/lib.rs
index 506af9c..75dbd07 100644
--- a/crates/styx-gen-go/src/lib.rs
+++ b/crates/styx-gen-go/src/lib.rs
@@ -341,16 +341,6 @@ fn generate_parse_file(
     writeln!(out)?;
     writeln!(out, "package {}", package_name)?;
     writeln!(out)?;
-    writeln!(out, "import (")?;
-    writeln!(out, "\t\"os\"")?;
-    writeln!(out)?;
-    writeln!(
-        out,
-        "\tstyx \"github.com/bearcove/styx/implementations/styx-go\""
-    )?;
-    writeln!(out, ")")?;
-    writeln!(out)?;
-
     // Find the root type - should be "Root" which is the default name for the @ type
     let root_type = mapper
         .types()
@@ -374,6 +364,16 @@ fn generate_parse_file(
         });
 
     if let Some(root_type) = root_type {
+        writeln!(out, "import (")?;
+        writeln!(out, "\t\"os\"")?;
+        writeln!(out)?;
+        writeln!(
+            out,
+            "\tstyx \"github.com/bearcove/styx/implementations/styx-go\""
+        )?;
+        writeln!(out, ")")?;
+        writeln!(out)?;
+
         // LoadFromFile helper
         writeln!(
             out,
-- 
2.43.0


From c3786aa779203f3078a695c2b65daedb1bbde616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:18 +0000
Subject: [PATCH 72/84] fix: styx-gen-go maps @map(@V) and tuples of several
 types to Go types that hold them

---
 crates/styx-gen-go/src/types.rs | 61 ++++++++++++---------------------
 1 file changed, 22 insertions(+), 39 deletions(-)

diff --git a/crates/styx-gen-go/src/types.rs b/crates/styx-gen-go/src/types.rs
index fd280a5..9173a9b 100644
--- a/crates/styx-gen-go/src/types.rs
+++ b/crates/styx-gen-go/src/types.rs
@@ -190,30 +190,8 @@ impl TypeMapper {
                 let item_type = self.type_name(parent_name, item_schema.value())?;
                 Ok(GoType::Primitive(format!("[]{}", item_type)))
             }
-            Schema::Tuple(tuple_schema) => {
-                if tuple_schema.0.is_empty() {
-                    Ok(GoType::Primitive("[]interface{}".to_string()))
-                } else {
-                    let first_type = self.type_name(parent_name, tuple_schema.0[0].value())?;
-                    Ok(GoType::Primitive(format!("[]{}", first_type)))
-                }
-            }
-            Schema::Map(map_schema) => {
-                let schemas = &map_schema.0;
-                let key_type = if schemas.is_empty() {
-                    "string".to_string()
-                } else {
-                    self.type_name(parent_name, schemas[0].value())?
-                };
-                let value_type = if schemas.len() < 2 {
-                    "interface{}".to_string()
-                } else {
-                    self.type_name(parent_name, schemas[1].value())?
-                };
-                Ok(GoType::Primitive(format!(
-                    "map[{}]{}",
-                    key_type, value_type
-                )))
+            Schema::Tuple(_) | Schema::Map(_) => {
+                Ok(GoType::Primitive(self.type_name(parent_name, schema)?))
             }
             Schema::Enum(enum_schema) => {
                 let mut enum_variants: Vec<EnumVariant> = enum_schema
@@ -378,24 +356,29 @@ impl TypeMapper {
                 Ok(format!("[]{}", item_type))
             }
             Schema::Tuple(tuple_schema) => {
-                if tuple_schema.0.is_empty() {
-                    Ok("[]interface{}".to_string())
-                } else {
-                    let first_type = self.type_name(_parent_name, tuple_schema.0[0].value())?;
-                    Ok(format!("[]{}", first_type))
+                let mut item_types = Vec::new();
+                for item in &tuple_schema.0 {
+                    item_types.push(self.type_name(_parent_name, item.value())?);
+                }
+                match item_types.split_first() {
+                    Some((first, rest)) if rest.iter().all(|t| t == first) => {
+                        Ok(format!("[]{}", first))
+                    }
+                    _ => Ok("[]interface{}".to_string()),
                 }
             }
             Schema::Map(map_schema) => {
-                let schemas = &map_schema.0;
-                let key_type = if schemas.is_empty() {
-                    "string".to_string()
-                } else {
-                    self.type_name(_parent_name, schemas[0].value())?
-                };
-                let value_type = if schemas.len() < 2 {
-                    "interface{}".to_string()
-                } else {
-                    self.type_name(_parent_name, schemas[1].value())?
+                // @map(@V) or @map(@K @V)
+                let (key_type, value_type) = match map_schema.0.as_slice() {
+                    [] => ("string".to_string(), "interface{}".to_string()),
+                    [value] => (
+                        "string".to_string(),
+                        self.type_name(_parent_name, value.value())?,
+                    ),
+                    [key, value, ..] => (
+                        self.type_name(_parent_name, key.value())?,
+                        self.type_name(_parent_name, value.value())?,
+                    ),
                 };
                 Ok(format!("map[{}]{}", key_type, value_type))
             }
-- 
2.43.0


From 0225b0f6850aa7a12966234d051b051d7c28e50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:19 +0000
Subject: [PATCH 73/84] fix: styx-gen-go looks through @deprecated when it maps
 a field

---
 crates/styx-gen-go/src/types.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/styx-gen-go/src/types.rs b/crates/styx-gen-go/src/types.rs
index 9173a9b..d1312d2 100644
--- a/crates/styx-gen-go/src/types.rs
+++ b/crates/styx-gen-go/src/types.rs
@@ -259,7 +259,7 @@ impl TypeMapper {
         schema: &Schema,
         doc: Option<String>,
     ) -> Result<StructField, GenError> {
-        // Unwrap Default and Optional wrappers to find the core type
+        // Unwrap Default, Deprecated and Optional wrappers to find the core type
         let mut current = schema;
         let mut is_optional = false;
 
@@ -268,6 +268,9 @@ impl TypeMapper {
                 Schema::Default(default_schema) => {
                     current = default_schema.0.1.value();
                 }
+                Schema::Deprecated(depr_schema) => {
+                    current = depr_schema.0.1.value();
+                }
                 Schema::Optional(opt_schema) => {
                     is_optional = true;
                     current = opt_schema.0.0.value();
-- 
2.43.0


From b3b7ec8952bdcf76d116dcac7670b0eb5f32fc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:21 +0000
Subject: [PATCH 74/84] fix: styx-gen-go keeps integer bounds outside the int64
 range

---
 crates/styx-gen-go/src/types.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/styx-gen-go/src/types.rs b/crates/styx-gen-go/src/types.rs
index d1312d2..7e99bb3 100644
--- a/crates/styx-gen-go/src/types.rs
+++ b/crates/styx-gen-go/src/types.rs
@@ -331,8 +331,8 @@ impl TypeMapper {
                 ..Default::default()
             }),
             Schema::Int(constraints_opt) => constraints_opt.as_ref().map(|c| FieldConstraints {
-                min_int: c.min.map(|v| v as i64),
-                max_int: c.max.map(|v| v as i64),
+                min_int: c.min.map(saturate),
+                max_int: c.max.map(saturate),
                 ..Default::default()
             }),
             Schema::Float(constraints_opt) => constraints_opt.as_ref().map(|c| FieldConstraints {
@@ -419,6 +419,11 @@ impl TypeMapper {
     }
 }
 
+/// The nearest bound a Go int64 can be compared with.
+fn saturate(bound: i128) -> i64 {
+    bound.clamp(i64::MIN.into(), i64::MAX.into()) as i64
+}
+
 /// Turn a Styx name into an exported Go identifier.
 fn to_pascal_case(s: &str) -> String {
     // Anything that cannot be part of a Go identifier separates words.
-- 
2.43.0


From e5077204ec0ef328c95db85b7af73c8018c20ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:23 +0000
Subject: [PATCH 75/84] fix: styx-gen-go quotes names in tags, constants and
 messages

---
 crates/styx-gen-go/src/lib.rs | 58 ++++++++++++++++++++++++++---------
 1 file changed, 44 insertions(+), 14 deletions(-)

diff --git a/crates/styx-gen-go/src/lib.rs b/crates/styx-gen-go/src/lib.rs
index 75dbd07..193dc62 100644
--- a/crates/styx-gen-go/src/lib.rs
+++ b/crates/styx-gen-go/src/lib.rs
@@ -85,12 +85,23 @@ fn generate_type_definition(
                     }
                 }
                 let tags = format!(
-                    "`json:\"{}{}\" styx:\"{}{}\"`",
-                    field.json_name,
-                    if field.optional { ",omitempty" } else { "" },
-                    field.styx_name,
-                    if field.optional { ",optional" } else { "" }
+                    "json:{} styx:{}",
+                    go_quote(&format!(
+                        "{}{}",
+                        field.json_name,
+                        if field.optional { ",omitempty" } else { "" }
+                    )),
+                    go_quote(&format!(
+                        "{}{}",
+                        field.styx_name,
+                        if field.optional { ",optional" } else { "" }
+                    ))
                 );
+                let tags = if tags.contains('`') {
+                    go_quote(&tags)
+                } else {
+                    format!("`{}`", tags)
+                };
                 writeln!(out, "\t{} {} {}", field.go_name, field.type_name, tags)?;
             }
             writeln!(out, "}}")?;
@@ -112,8 +123,10 @@ fn generate_type_definition(
                 }
                 writeln!(
                     out,
-                    "\t{} {} = \"{}\"",
-                    variant.const_name, name, variant.name
+                    "\t{} {} = {}",
+                    variant.const_name,
+                    name,
+                    go_quote(&variant.name)
                 )?;
             }
             writeln!(out, ")")?;
@@ -199,7 +212,7 @@ fn generate_validation_function(
         if !field.optional && field.type_name.starts_with('*') {
             writeln!(out, "\tif v.{} == nil {{", field.go_name)?;
             writeln!(out, "\t\terrs = append(errs, &ValidationError{{")?;
-            writeln!(out, "\t\t\tField:   \"{}\",", field.styx_name)?;
+            writeln!(out, "\t\t\tField:   {},", go_quote(&field.styx_name))?;
             writeln!(out, "\t\t\tMessage: \"required field is missing\",")?;
             writeln!(out, "\t\t}})")?;
             writeln!(out, "\t}}")?;
@@ -224,7 +237,7 @@ fn generate_validation_function(
                     deref, field.go_name, min_len
                 )?;
                 writeln!(out, "\t\t\terrs = append(errs, &ValidationError{{")?;
-                writeln!(out, "\t\t\t\tField:   \"{}\",", field.styx_name)?;
+                writeln!(out, "\t\t\t\tField:   {},", go_quote(&field.styx_name))?;
                 writeln!(
                     out,
                     "\t\t\t\tMessage: \"length must be at least {}\",",
@@ -246,7 +259,7 @@ fn generate_validation_function(
                     deref, field.go_name, max_len
                 )?;
                 writeln!(out, "\t\t\terrs = append(errs, &ValidationError{{")?;
-                writeln!(out, "\t\t\t\tField:   \"{}\",", field.styx_name)?;
+                writeln!(out, "\t\t\t\tField:   {},", go_quote(&field.styx_name))?;
                 writeln!(
                     out,
                     "\t\t\t\tMessage: \"length must be at most {}\",",
@@ -265,7 +278,7 @@ fn generate_validation_function(
                 };
                 writeln!(out, "\t\tif {}v.{} < {} {{", deref, field.go_name, min)?;
                 writeln!(out, "\t\t\terrs = append(errs, &ValidationError{{")?;
-                writeln!(out, "\t\t\t\tField:   \"{}\",", field.styx_name)?;
+                writeln!(out, "\t\t\t\tField:   {},", go_quote(&field.styx_name))?;
                 writeln!(out, "\t\t\t\tMessage: \"must be at least {}\",", min)?;
                 writeln!(out, "\t\t\t}})")?;
                 writeln!(out, "\t\t}}")?;
@@ -279,7 +292,7 @@ fn generate_validation_function(
                 };
                 writeln!(out, "\t\tif {}v.{} > {} {{", deref, field.go_name, max)?;
                 writeln!(out, "\t\t\terrs = append(errs, &ValidationError{{")?;
-                writeln!(out, "\t\t\t\tField:   \"{}\",", field.styx_name)?;
+                writeln!(out, "\t\t\t\tField:   {},", go_quote(&field.styx_name))?;
                 writeln!(out, "\t\t\t\tMessage: \"must be at most {}\",", max)?;
                 writeln!(out, "\t\t\t}})")?;
                 writeln!(out, "\t\t}}")?;
@@ -294,7 +307,7 @@ fn generate_validation_function(
                 };
                 writeln!(out, "\t\tif {}v.{} < {} {{", deref, field.go_name, min)?;
                 writeln!(out, "\t\t\terrs = append(errs, &ValidationError{{")?;
-                writeln!(out, "\t\t\t\tField:   \"{}\",", field.styx_name)?;
+                writeln!(out, "\t\t\t\tField:   {},", go_quote(&field.styx_name))?;
                 writeln!(out, "\t\t\t\tMessage: \"must be at least {}\",", min)?;
                 writeln!(out, "\t\t\t}})")?;
                 writeln!(out, "\t\t}}")?;
@@ -308,7 +321,7 @@ fn generate_validation_function(
                 };
                 writeln!(out, "\t\tif {}v.{} > {} {{", deref, field.go_name, max)?;
                 writeln!(out, "\t\t\terrs = append(errs, &ValidationError{{")?;
-                writeln!(out, "\t\t\t\tField:   \"{}\",", field.styx_name)?;
+                writeln!(out, "\t\t\t\tField:   {},", go_quote(&field.styx_name))?;
                 writeln!(out, "\t\t\t\tMessage: \"must be at most {}\",", max)?;
                 writeln!(out, "\t\t\t}})")?;
                 writeln!(out, "\t\t}}")?;
@@ -425,6 +438,23 @@ fn generate_parse_file(
     Ok(out)
 }
 
+/// Write a string as an interpreted Go string literal.
+fn go_quote(s: &str) -> String {
+    let mut out = String::from("\"");
+    for c in s.chars() {
+        match c {
+            '"' => out.push_str("\\\""),
+            '\\' => out.push_str("\\\\"),
+            c if c.is_control() || c == '\u{feff}' => {
+                out.push_str(&format!("\\U{:08x}", c as u32));
+            }
+            c => out.push(c),
+        }
+    }
+    out.push('"');
+    out
+}
+
 impl From<std::fmt::Error> for GenError {
     fn from(_: std::fmt::Error) -> Self {
         GenError::Format("formatting error".into())
-- 
2.43.0


From e2ea1328254541fc6c4bcefb3505efa9c4012975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:54 +0000
Subject: [PATCH 76/84] fix: an allowed extension command does not allow
 commands it is a prefix of

---
 crates/styx-lsp/src/extensions.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/styx-lsp/src/extensions.rs b/crates/styx-lsp/src/extensions.rs
index f586add..b101f9c 100644
--- a/crates/styx-lsp/src/extensions.rs
+++ b/crates/styx-lsp/src/extensions.rs
@@ -129,8 +129,7 @@ impl ExtensionManager {
     /// Check if an extension is allowed.
     pub async fn is_allowed(&self, command: &str) -> bool {
         let allowlist = self.allowlist.read().await;
-        // For now, allow if the first component of the command is in the allowlist
-        allowlist.iter().any(|allowed| command.starts_with(allowed))
+        allowlist.iter().any(|allowed| allowed == command)
     }
 
     /// Add a command to the allowlist and persist to user config.
-- 
2.43.0


From d093e69e2780a0ce9b34da057b15ea3a884c6b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:05 +0000
Subject: [PATCH 77/84] fix: allowing an extension keeps what the user
 configuration allows already

---
 crates/styx-lsp/src/config.rs     | 48 ++++++++++++++++++++++++++++---
 crates/styx-lsp/src/extensions.rs |  7 ++---
 2 files changed, 46 insertions(+), 9 deletions(-)

diff --git a/crates/styx-lsp/src/config.rs b/crates/styx-lsp/src/config.rs
index 8473db8..7c473a6 100644
--- a/crates/styx-lsp/src/config.rs
+++ b/crates/styx-lsp/src/config.rs
@@ -69,6 +69,36 @@ pub fn load_config() -> Result<Option<StyxUserConfig>, LoadConfigError> {
     Ok(Some(config))
 }
 
+/// Add a command to the allowed extensions of the user configuration on disk.
+///
+/// The file may have been edited, or another server may have added to it, since it was
+/// loaded: everything it allows now stays. A file that cannot be read is left alone.
+pub fn allow_extension(command: &str) -> Result<(), SaveConfigError> {
+    let Some(path) = config_path() else {
+        return Err(SaveConfigError::NoConfigDir);
+    };
+    let io = |error| SaveConfigError::Io {
+        path: path.clone(),
+        error,
+    };
+
+    // One server at a time
+    if let Some(parent) = path.parent() {
+        std::fs::create_dir_all(parent).map_err(io)?;
+    }
+    let lock = std::fs::File::create(path.with_extension("lock")).map_err(io)?;
+    lock.lock().map_err(io)?;
+
+    let mut config = load_config()
+        .map_err(SaveConfigError::Load)?
+        .unwrap_or_default();
+    if config.allowed_extensions.iter().any(|c| c == command) {
+        return Ok(());
+    }
+    config.allowed_extensions.push(command.to_string());
+    save_config(&config)
+}
+
 /// Save the user configuration to disk.
 ///
 /// Creates the config directory if it doesn't exist.
@@ -94,10 +124,18 @@ pub fn save_config(config: &StyxUserConfig) -> Result<(), SaveConfigError> {
         })?
     );
 
-    std::fs::write(&path, &content).map_err(|e| SaveConfigError::Io {
-        path: path.clone(),
-        error: e,
-    })?;
+    // Written whole or not at all, where a link leads
+    let path = path.canonicalize().unwrap_or(path);
+    let partial = path.with_extension(format!("{}.partial", std::process::id()));
+    std::fs::write(&partial, &content)
+        .and_then(|()| std::fs::rename(&partial, &path))
+        .map_err(|e| {
+            let _ = std::fs::remove_file(&partial);
+            SaveConfigError::Io {
+                path: path.clone(),
+                error: e,
+            }
+        })?;
 
     info!(?path, "Saved user config");
     Ok(())
@@ -135,6 +173,7 @@ impl std::error::Error for LoadConfigError {}
 #[derive(Debug)]
 pub enum SaveConfigError {
     NoConfigDir,
+    Load(LoadConfigError),
     Io {
         path: PathBuf,
         error: std::io::Error,
@@ -148,6 +187,7 @@ impl std::fmt::Display for SaveConfigError {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         match self {
             SaveConfigError::NoConfigDir => write!(f, "No config directory available"),
+            SaveConfigError::Load(error) => write!(f, "{error}"),
             SaveConfigError::Io { path, error } => {
                 write!(f, "Failed to write config at {}: {}", path.display(), error)
             }
diff --git a/crates/styx-lsp/src/extensions.rs b/crates/styx-lsp/src/extensions.rs
index b101f9c..9a58c50 100644
--- a/crates/styx-lsp/src/extensions.rs
+++ b/crates/styx-lsp/src/extensions.rs
@@ -37,7 +37,7 @@ use tower_lsp::lsp_types::{Position, Url};
 use tracing::{debug, info, warn};
 use vox_stream::StreamLink;
 
-use crate::config::{self, StyxUserConfig};
+use crate::config;
 use crate::position::{offset_to_position, position_to_offset};
 use crate::schema_validation::resolve_schema;
 use crate::server::DocumentMap;
@@ -139,10 +139,7 @@ impl ExtensionManager {
             allowlist.push(command.clone());
 
             // Persist to user config
-            let config = StyxUserConfig {
-                allowed_extensions: allowlist.clone(),
-            };
-            if let Err(e) = config::save_config(&config) {
+            if let Err(e) = config::allow_extension(&command) {
                 warn!(error = %e, "Failed to save user config");
             }
         }
-- 
2.43.0


From 7bb2cb305d135e5f4fafb0e702f7512105967436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:44 +0000
Subject: [PATCH 78/84] fix: an extension is started once, given up on when it
 does not answer, and ended with the server

---
 crates/styx-lsp/src/extensions.rs | 70 +++++++++++++++++++++----------
 crates/styx-lsp/src/server.rs     |  1 +
 2 files changed, 50 insertions(+), 21 deletions(-)

diff --git a/crates/styx-lsp/src/extensions.rs b/crates/styx-lsp/src/extensions.rs
index 9a58c50..d99ccd6 100644
--- a/crates/styx-lsp/src/extensions.rs
+++ b/crates/styx-lsp/src/extensions.rs
@@ -21,7 +21,9 @@ use std::collections::HashMap;
 use std::io;
 use std::pin::Pin;
 use std::process::Stdio;
+use std::sync::Arc;
 use std::task::{Context, Poll};
+use std::time::Duration;
 
 use facet_styx::LspExtensionConfig;
 pub use styx_lsp_ext::StyxLspExtensionClient;
@@ -32,7 +34,7 @@ use styx_lsp_ext::{
 use styx_tree::Value;
 use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
 use tokio::process::{Child, ChildStdin, ChildStdout, Command};
-use tokio::sync::RwLock;
+use tokio::sync::{OnceCell, RwLock};
 use tower_lsp::lsp_types::{Position, Url};
 use tracing::{debug, info, warn};
 use vox_stream::StreamLink;
@@ -84,10 +86,13 @@ impl AsyncWrite for ChildStdio {
     }
 }
 
+/// How long an extension may take to start and initialize.
+const SPAWN_TIMEOUT: Duration = Duration::from_secs(10);
+
 /// Manages LSP extension processes.
 pub struct ExtensionManager {
-    /// Spawned extensions, keyed by schema ID.
-    extensions: RwLock<HashMap<String, Extension>>,
+    /// Extensions, keyed by schema ID: set once spawning has succeeded or failed.
+    extensions: RwLock<HashMap<String, Arc<OnceCell<Option<Extension>>>>>,
     /// Allowed extensions (from user config).
     allowlist: RwLock<Vec<String>>,
     /// Shared document state for host callbacks.
@@ -138,6 +143,12 @@ impl ExtensionManager {
         if !allowlist.contains(&command) {
             allowlist.push(command.clone());
 
+            // What failed may be tried again
+            self.extensions
+                .write()
+                .await
+                .retain(|_, cell| !matches!(cell.get(), Some(None)));
+
             // Persist to user config
             if let Err(e) = config::allow_extension(&command) {
                 warn!(error = %e, "Failed to save user config");
@@ -156,11 +167,13 @@ impl ExtensionManager {
         document_uri: &str,
     ) -> ExtensionResult {
         // Check if already spawned
+        if let Some(cell) = self.extensions.read().await.get(schema_id)
+            && let Some(spawned) = cell.get()
         {
-            let extensions = self.extensions.read().await;
-            if extensions.contains_key(schema_id) {
-                return ExtensionResult::Running;
-            }
+            return match spawned {
+                Some(_) => ExtensionResult::Running,
+                None => ExtensionResult::Failed,
+            };
         }
 
         // Check if allowed
@@ -174,16 +187,30 @@ impl ExtensionManager {
             };
         }
 
-        // Spawn the extension
-        let Some(extension) = self.spawn_extension(schema_id, config, document_uri).await else {
-            return ExtensionResult::Failed;
-        };
-
-        // Store it
-        let mut extensions = self.extensions.write().await;
-        extensions.insert(schema_id.to_string(), extension);
-
-        ExtensionResult::Running
+        // Spawn the extension, once however many documents ask for it
+        let cell = self
+            .extensions
+            .write()
+            .await
+            .entry(schema_id.to_string())
+            .or_default()
+            .clone();
+        let spawned = cell
+            .get_or_init(|| async {
+                let spawning = self.spawn_extension(schema_id, config, document_uri);
+                match tokio::time::timeout(SPAWN_TIMEOUT, spawning).await {
+                    Ok(extension) => extension,
+                    Err(_) => {
+                        warn!(command, "Extension did not answer, giving up on it");
+                        None
+                    }
+                }
+            })
+            .await;
+        match spawned {
+            Some(_) => ExtensionResult::Running,
+            None => ExtensionResult::Failed,
+        }
     }
 
     /// Get an extension client for a schema.
@@ -191,7 +218,8 @@ impl ExtensionManager {
     /// Returns `None` if no extension is spawned for this schema.
     pub async fn get_client(&self, schema_id: &str) -> Option<StyxLspExtensionClient> {
         let extensions = self.extensions.read().await;
-        extensions.get(schema_id).map(|ext| ext.client.clone())
+        let extension = extensions.get(schema_id)?.get()?.as_ref()?;
+        Some(extension.client.clone())
     }
 
     /// Spawn an extension process, establish vox connection, and initialize it.
@@ -217,6 +245,7 @@ impl ExtensionManager {
             .stdin(Stdio::piped())
             .stdout(Stdio::piped())
             .stderr(Stdio::inherit())
+            .kill_on_drop(true)
             .spawn()
             .map_err(|e| {
                 warn!(command, error = %e, "Failed to spawn extension");
@@ -278,10 +307,9 @@ impl ExtensionManager {
 
     /// Shutdown all extensions.
     pub async fn shutdown_all(&self) {
-        let mut extensions = self.extensions.write().await;
-        for (schema_id, mut ext) in extensions.drain() {
+        // Dropping an extension kills its process
+        for (schema_id, _) in self.extensions.write().await.drain() {
             debug!(schema_id, "Shutting down extension");
-            let _ = ext.process.kill().await;
         }
     }
 }
diff --git a/crates/styx-lsp/src/server.rs b/crates/styx-lsp/src/server.rs
index a4f190f..ce2851a 100644
--- a/crates/styx-lsp/src/server.rs
+++ b/crates/styx-lsp/src/server.rs
@@ -542,6 +542,7 @@ impl LanguageServer for StyxLanguageServer {
     }
 
     async fn shutdown(&self) -> Result<()> {
+        self.extensions.shutdown_all().await;
         Ok(())
     }
 
-- 
2.43.0


From aaff571640ff6bd5382301dcf005fb45c4058958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:43 +0000
Subject: [PATCH 79/84] fix: requests do not hold the documents while an
 extension answers

---
 crates/styx-lsp/src/server.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/styx-lsp/src/server.rs b/crates/styx-lsp/src/server.rs
index ce2851a..ec700a8 100644
--- a/crates/styx-lsp/src/server.rs
+++ b/crates/styx-lsp/src/server.rs
@@ -630,7 +630,8 @@ impl LanguageServer for StyxLanguageServer {
         let uri = params.text_document_position_params.text_document.uri;
         let position = params.text_document_position_params.position;
 
-        let docs = self.documents.read().await;
+        // Release the lock before any extension call: the extension may ask for documents
+        let docs = self.documents.read().await.clone();
         let Some(doc) = docs.get(&uri) else {
             return Ok(None);
         };
@@ -779,8 +780,8 @@ impl LanguageServer for StyxLanguageServer {
         let uri = params.text_document_position_params.text_document.uri;
         let position = params.text_document_position_params.position;
 
-        let docs = self.documents.read().await;
-        let Some(doc) = docs.get(&uri) else {
+        // Release the lock before any extension call: the extension may ask for documents
+        let Some(doc) = self.documents.read().await.get(&uri).cloned() else {
             return Ok(None);
         };
 
@@ -913,8 +914,8 @@ impl LanguageServer for StyxLanguageServer {
         let uri = params.text_document_position.text_document.uri;
         let position = params.text_document_position.position;
 
-        let docs = self.documents.read().await;
-        let Some(doc) = docs.get(&uri) else {
+        // Release the lock before any extension call: the extension may ask for documents
+        let Some(doc) = self.documents.read().await.get(&uri).cloned() else {
             return Ok(None);
         };
 
@@ -1246,7 +1247,7 @@ impl LanguageServer for StyxLanguageServer {
         }
 
         // Try to get code actions from extension
-        let docs = self.documents.read().await;
+        let docs = self.documents.read().await.clone();
         if let Some(doc) = docs.get(&uri)
             && let Some(ref tree) = doc.tree
             && let Ok(schema_file) = load_document_schema(tree, &uri)
-- 
2.43.0


From 67f488dd08585101c9daeaf17e190c95f94f5293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:55 +0000
Subject: [PATCH 80/84] fix: an extension that does not answer does not keep
 the editor waiting

---
 crates/styx-lsp/src/extensions.rs | 13 +++++++++++++
 crates/styx-lsp/src/server.rs     | 14 +++++++-------
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/crates/styx-lsp/src/extensions.rs b/crates/styx-lsp/src/extensions.rs
index d99ccd6..e33bf8b 100644
--- a/crates/styx-lsp/src/extensions.rs
+++ b/crates/styx-lsp/src/extensions.rs
@@ -89,6 +89,19 @@ impl AsyncWrite for ChildStdio {
 /// How long an extension may take to start and initialize.
 const SPAWN_TIMEOUT: Duration = Duration::from_secs(10);
 
+/// How long an extension may take to answer a request.
+const ANSWER_TIMEOUT: Duration = Duration::from_secs(5);
+
+/// Wait for an extension's answer, but not for ever.
+pub async fn answer<T, E: std::fmt::Debug>(
+    call: impl Future<Output = Result<T, E>>,
+) -> Result<T, String> {
+    match tokio::time::timeout(ANSWER_TIMEOUT, call).await {
+        Ok(answer) => answer.map_err(|e| format!("{e:?}")),
+        Err(_) => Err("no answer".to_string()),
+    }
+}
+
 /// Manages LSP extension processes.
 pub struct ExtensionManager {
     /// Extensions, keyed by schema ID: set once spawning has succeeded or failed.
diff --git a/crates/styx-lsp/src/server.rs b/crates/styx-lsp/src/server.rs
index ec700a8..58ee895 100644
--- a/crates/styx-lsp/src/server.rs
+++ b/crates/styx-lsp/src/server.rs
@@ -11,7 +11,7 @@ use tower_lsp::lsp_types::*;
 use tower_lsp::{Client, LanguageServer, LspService, Server};
 
 use crate::edits::{declaration_edit, fill_edit, rename_edit, reorder_edit};
-use crate::extensions::{ExtensionManager, ExtensionResult, get_extension_info};
+use crate::extensions::{ExtensionManager, ExtensionResult, answer, get_extension_info};
 use crate::position::{offset_to_position, position_to_offset};
 use crate::schema_hints::find_matching_hint;
 use crate::schema_validation::{
@@ -190,7 +190,7 @@ impl StyxLanguageServer {
                     content: content.to_string(),
                 };
 
-                match client.diagnostics(ext_params).await {
+                match answer(client.diagnostics(ext_params)).await {
                     Ok(ext_diagnostics) => {
                         tracing::debug!(
                             count = ext_diagnostics.len(),
@@ -723,7 +723,7 @@ impl LanguageServer for StyxLanguageServer {
                     tagged_context,
                 };
 
-                match client.definition(ext_params).await {
+                match answer(client.definition(ext_params)).await {
                     Ok(locations) if !locations.is_empty() => {
                         tracing::debug!(count = locations.len(), "Extension returned definitions");
                         let lsp_locations: Vec<Location> = locations
@@ -839,7 +839,7 @@ impl LanguageServer for StyxLanguageServer {
                     tagged_context,
                 };
 
-                match client.hover(ext_params).await {
+                match answer(client.hover(ext_params)).await {
                     Ok(Some(result)) => {
                         tracing::debug!(contents = %result.contents, "Extension returned hover");
                         let range = result.range.map(|r| Range {
@@ -1109,7 +1109,7 @@ impl LanguageServer for StyxLanguageServer {
                     tagged_context,
                 };
 
-                match client.completions(ext_params).await {
+                match answer(client.completions(ext_params)).await {
                     Ok(ext_items) => {
                         tracing::debug!(count = ext_items.len(), "Got completions from extension");
                         for item in ext_items {
@@ -1293,7 +1293,7 @@ impl LanguageServer for StyxLanguageServer {
                     diagnostics: ext_diagnostics,
                 };
 
-                match client.code_actions(ext_params).await {
+                match answer(client.code_actions(ext_params)).await {
                     Ok(ext_actions) => {
                         tracing::debug!(
                             count = ext_actions.len(),
@@ -1733,7 +1733,7 @@ impl LanguageServer for StyxLanguageServer {
                     context: Some(tree.clone()),
                 };
 
-                match client.inlay_hints(ext_params).await {
+                match answer(client.inlay_hints(ext_params)).await {
                     Ok(ext_hints) => {
                         tracing::debug!(count = ext_hints.len(), "Got inlay hints from extension");
                         for hint in ext_hints {
-- 
2.43.0


From 46a5e3207a30396fc4c2be27291b5190603f431b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:26 +0000
Subject: [PATCH 81/84] fix: the typed syntax tree reads raw keys, unicode
 escapes and heredoc delimiters as the parser does

---
 crates/styx-cst/src/ast.rs        | 52 ++++++++++++++++++++++++++-----
 crates/styx-cst/src/validation.rs |  9 ++++--
 2 files changed, 51 insertions(+), 10 deletions(-)

diff --git a/crates/styx-cst/src/ast.rs b/crates/styx-cst/src/ast.rs
index cfc9952..1fd4e01 100644
--- a/crates/styx-cst/src/ast.rs
+++ b/crates/styx-cst/src/ast.rs
@@ -148,7 +148,7 @@ impl Entry {
 // === Key ===
 
 impl Key {
-    /// Get the text content of this key, processing escapes if quoted.
+    /// Get the text content of this key: escapes processed if quoted, delimiters removed if raw.
     pub fn text_content(&self) -> String {
         // Get the first meaningful token
         for child in self.0.children_with_tokens() {
@@ -157,7 +157,7 @@ impl Key {
                     return match token.kind() {
                         SyntaxKind::BARE_SCALAR => token.text().to_string(),
                         SyntaxKind::QUOTED_SCALAR => unescape_quoted(token.text()),
-                        SyntaxKind::RAW_SCALAR => token.text().to_string(),
+                        SyntaxKind::RAW_SCALAR => raw_content(token.text()).to_string(),
                         _ => continue,
                     };
                 }
@@ -358,7 +358,7 @@ pub enum ScalarKind {
 }
 
 impl Scalar {
-    /// Get the text content, processing escapes for quoted strings.
+    /// Get the text content: escapes processed if quoted, delimiters removed if raw.
     pub fn text_content(&self) -> String {
         for token in self
             .0
@@ -368,7 +368,7 @@ impl Scalar {
             return match token.kind() {
                 SyntaxKind::BARE_SCALAR => token.text().to_string(),
                 SyntaxKind::QUOTED_SCALAR => unescape_quoted(token.text()),
-                SyntaxKind::RAW_SCALAR => token.text().to_string(),
+                SyntaxKind::RAW_SCALAR => raw_content(token.text()).to_string(),
                 _ => continue,
             };
         }
@@ -445,10 +445,11 @@ impl Heredoc {
             .filter_map(|el| el.into_token())
         {
             if token.kind() == SyntaxKind::HEREDOC_START {
-                // Extract delimiter from <<DELIM\n
+                // Extract delimiter from <<DELIM\n or <<DELIM,lang\n
                 let text = token.text();
                 if let Some(rest) = text.strip_prefix("<<") {
-                    return Some(rest.trim_end().to_string());
+                    let delimiter = rest.split(',').next().unwrap_or(rest);
+                    return Some(delimiter.trim_end().to_string());
                 }
             }
         }
@@ -467,7 +468,7 @@ fn unescape_quoted(text: &str) -> String {
         .unwrap_or(text);
 
     let mut result = String::with_capacity(inner.len());
-    let mut chars = inner.chars().peekable();
+    let mut chars = inner.chars();
 
     while let Some(c) = chars.next() {
         if c == '\\' {
@@ -477,6 +478,13 @@ fn unescape_quoted(text: &str) -> String {
                 Some('t') => result.push('\t'),
                 Some('\\') => result.push('\\'),
                 Some('"') => result.push('"'),
+                Some('u') => match unicode_escape(chars.as_str()) {
+                    Some((c, len)) => {
+                        result.push(c);
+                        chars = chars.as_str()[len..].chars();
+                    }
+                    None => result.push_str("\\u"),
+                },
                 Some(c) => {
                     // Unknown escape, keep as-is
                     result.push('\\');
@@ -492,6 +500,36 @@ fn unescape_quoted(text: &str) -> String {
     result
 }
 
+/// The character spelled by `{X...}` or `XXXX` after `\u`, and how many bytes that takes.
+fn unicode_escape(rest: &str) -> Option<(char, usize)> {
+    let (digits, len) = match rest.strip_prefix('{') {
+        Some(braced) => {
+            let end = braced.find('}')?;
+            (&braced[..end], end + 2)
+        }
+        None => (rest.get(..4)?, 4),
+    };
+    if !digits.bytes().all(|b| b.is_ascii_hexdigit()) {
+        return None;
+    }
+    let c = char::from_u32(u32::from_str_radix(digits, 16).ok()?)?;
+    Some((c, len))
+}
+
+/// The content of a raw string `r#"..."#`, without its delimiters.
+fn raw_content(text: &str) -> &str {
+    let Some(rest) = text.strip_prefix('r') else {
+        return text;
+    };
+    let inner = rest.trim_start_matches('#');
+    let hashes = &rest[..rest.len() - inner.len()];
+    inner
+        .strip_suffix(hashes)
+        .and_then(|s| s.strip_prefix('"'))
+        .and_then(|s| s.strip_suffix('"'))
+        .unwrap_or(text)
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/crates/styx-cst/src/validation.rs b/crates/styx-cst/src/validation.rs
index 883df25..ac83f1c 100644
--- a/crates/styx-cst/src/validation.rs
+++ b/crates/styx-cst/src/validation.rs
@@ -111,19 +111,22 @@ fn validate_entries_for_duplicates(
     entries: impl Iterator<Item = Entry>,
     diagnostics: &mut Vec<Diagnostic>,
 ) {
-    let mut seen_keys: HashSet<String> = HashSet::new();
+    let mut seen_keys: HashSet<(bool, String)> = HashSet::new();
 
     for entry in entries {
         if let Some(key) = entry.key() {
             let key_text = key.text_content();
             if !key_text.is_empty() {
-                if seen_keys.contains(&key_text) {
+                // A bare `a.b` is a path, which is not the key a quoted `"a.b"` is.
+                let is_path = key_text.contains('.') && key.raw_text() == key_text;
+                let seen_key = (is_path, key_text.clone());
+                if seen_keys.contains(&seen_key) {
                     diagnostics.push(Diagnostic::warning(
                         key.syntax().text_range(),
                         format!("duplicate key: `{}`", key_text),
                     ));
                 } else {
-                    seen_keys.insert(key_text);
+                    seen_keys.insert(seen_key);
                 }
             }
         }
-- 
2.43.0


From 7a8c98358b5094f7b04537db912a07a00004e22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:57 +0000
Subject: [PATCH 82/84] fix: rendered reports point to the right characters of
 text that is not ASCII, without colours under NO_COLOR

---
 crates/facet-styx/src/error.rs        | 24 +++++++++----
 crates/facet-styx/src/schema_error.rs | 39 +++++++++++++++------
 crates/styx-tree/src/diagnostic.rs    | 50 ++++++++++++++++++++++++---
 3 files changed, 92 insertions(+), 21 deletions(-)

diff --git a/crates/facet-styx/src/error.rs b/crates/facet-styx/src/error.rs
index 97bd380..b0b71f7 100644
--- a/crates/facet-styx/src/error.rs
+++ b/crates/facet-styx/src/error.rs
@@ -13,11 +13,22 @@ fn ariadne_config() -> Config {
     }
 }
 
-/// Convert a facet_reflect::Span to a Range<usize>.
-fn reflect_span_to_range(span: &facet_reflect::Span) -> std::ops::Range<usize> {
+/// Convert a byte range to the character range that ariadne expects.
+pub(crate) fn char_range(source: &str, bytes: std::ops::Range<usize>) -> std::ops::Range<usize> {
+    let chars_before = |offset: usize| {
+        source
+            .char_indices()
+            .take_while(|(at, _)| *at < offset)
+            .count()
+    };
+    chars_before(bytes.start)..chars_before(bytes.end)
+}
+
+/// Convert a facet_reflect::Span to a character range.
+fn reflect_span_to_range(source: &str, span: &facet_reflect::Span) -> std::ops::Range<usize> {
     let start = span.offset as usize;
     let end = start + span.len as usize;
-    start..end
+    char_range(source, start..end)
 }
 
 /// Trait for rendering errors with ariadne diagnostics.
@@ -62,8 +73,8 @@ fn build_deserialize_error_report<'a>(
     let range = err
         .span
         .as_ref()
-        .map(reflect_span_to_range)
-        .unwrap_or(0..source.len().max(1));
+        .map(|span| reflect_span_to_range(source, span))
+        .unwrap_or(0..source.chars().count().max(1));
 
     match &err.kind {
         // Missing field from facet-format
@@ -126,7 +137,8 @@ fn build_deserialize_error_report<'a>(
 
         // Unexpected EOF
         DeserializeErrorKind::UnexpectedEof { expected } => {
-            let eof_range = source.len().saturating_sub(1)..source.len().max(1);
+            let end = source.chars().count();
+            let eof_range = end.saturating_sub(1)..end.max(1);
             Report::build(ReportKind::Error, (filename, eof_range.clone()))
                 .with_config(config)
                 .with_message("unexpected end of input")
diff --git a/crates/facet-styx/src/schema_error.rs b/crates/facet-styx/src/schema_error.rs
index e81aaf9..86f2952 100644
--- a/crates/facet-styx/src/schema_error.rs
+++ b/crates/facet-styx/src/schema_error.rs
@@ -13,6 +13,11 @@ fn ariadne_config() -> Config {
     }
 }
 
+/// Convert a span (in bytes) to the character range that ariadne expects.
+fn span_to_range(source: &str, span: Span) -> std::ops::Range<usize> {
+    crate::error::char_range(source, span.start as usize..span.end as usize)
+}
+
 /// Result of validating a document against a schema.
 #[derive(Debug, Clone)]
 pub struct ValidationResult {
@@ -163,9 +168,8 @@ impl ValidationError {
 
     /// Write the error report to a writer.
     pub fn write_report<W: std::io::Write>(&self, filename: &str, source: &str, writer: W) {
-        let report = self.build_report(filename);
+        let report = self.build_report(filename, source);
         let _ = report
-            .with_config(ariadne_config())
             .finish()
             .write((filename, Source::from(source)), writer);
     }
@@ -174,11 +178,12 @@ impl ValidationError {
     fn build_report<'a>(
         &self,
         filename: &'a str,
+        source: &str,
     ) -> ariadne::ReportBuilder<'static, (&'a str, std::ops::Range<usize>)> {
-        let range = self
-            .span
-            .map(|s| s.start as usize..s.end as usize)
-            .unwrap_or(0..1);
+        let range = self.span.map(|s| span_to_range(source, s)).unwrap_or(0..1);
+        // Config must be applied BEFORE adding labels, because ariadne applies
+        // filter_color when labels are added, not when the report is written.
+        let config = ariadne_config();
 
         let path_info = if self.path.is_empty() {
             String::new()
@@ -189,6 +194,7 @@ impl ValidationError {
         match &self.kind {
             ValidationErrorKind::MissingField { field } => {
                 Report::build(ReportKind::Error, (filename, range.clone()))
+                    .with_config(config)
                     .with_message(format!("missing required field '{}'", field))
                     .with_label(
                         Label::new((filename, range))
@@ -204,6 +210,7 @@ impl ValidationError {
                 suggestion,
             } => {
                 let mut builder = Report::build(ReportKind::Error, (filename, range.clone()))
+                    .with_config(config)
                     .with_message(format!("unknown field '{}'", field))
                     .with_label(
                         Label::new((filename, range.clone()))
@@ -225,6 +232,7 @@ impl ValidationError {
 
             ValidationErrorKind::TypeMismatch { expected, got } => {
                 Report::build(ReportKind::Error, (filename, range.clone()))
+                    .with_config(config)
                     .with_message(format!("type mismatch{}", path_info))
                     .with_label(
                         Label::new((filename, range))
@@ -235,6 +243,7 @@ impl ValidationError {
 
             ValidationErrorKind::InvalidValue { reason } => {
                 Report::build(ReportKind::Error, (filename, range.clone()))
+                    .with_config(config)
                     .with_message(format!("invalid value{}", path_info))
                     .with_label(
                         Label::new((filename, range))
@@ -245,6 +254,7 @@ impl ValidationError {
 
             ValidationErrorKind::UnknownType { name } => {
                 Report::build(ReportKind::Error, (filename, range.clone()))
+                    .with_config(config)
                     .with_message(format!("unknown type '{}'", name))
                     .with_label(
                         Label::new((filename, range))
@@ -256,6 +266,7 @@ impl ValidationError {
             ValidationErrorKind::InvalidVariant { expected, got } => {
                 let expected_list = expected.join(", ");
                 Report::build(ReportKind::Error, (filename, range.clone()))
+                    .with_config(config)
                     .with_message(format!("invalid enum variant '@{}'", got))
                     .with_label(
                         Label::new((filename, range))
@@ -267,6 +278,7 @@ impl ValidationError {
             ValidationErrorKind::UnionMismatch { tried } => {
                 let tried_list = tried.join(", ");
                 Report::build(ReportKind::Error, (filename, range.clone()))
+                    .with_config(config)
                     .with_message(format!(
                         "value doesn't match any union variant{}",
                         path_info
@@ -280,6 +292,7 @@ impl ValidationError {
 
             ValidationErrorKind::ExpectedObject => {
                 Report::build(ReportKind::Error, (filename, range.clone()))
+                    .with_config(config)
                     .with_message(format!("expected object{}", path_info))
                     .with_label(
                         Label::new((filename, range))
@@ -290,6 +303,7 @@ impl ValidationError {
 
             ValidationErrorKind::ExpectedSequence => {
                 Report::build(ReportKind::Error, (filename, range.clone()))
+                    .with_config(config)
                     .with_message(format!("expected sequence{}", path_info))
                     .with_label(
                         Label::new((filename, range))
@@ -300,6 +314,7 @@ impl ValidationError {
 
             ValidationErrorKind::ExpectedScalar => {
                 Report::build(ReportKind::Error, (filename, range.clone()))
+                    .with_config(config)
                     .with_message(format!("expected scalar value{}", path_info))
                     .with_label(
                         Label::new((filename, range))
@@ -310,6 +325,7 @@ impl ValidationError {
 
             ValidationErrorKind::ExpectedTagged => {
                 Report::build(ReportKind::Error, (filename, range.clone()))
+                    .with_config(config)
                     .with_message(format!("expected tagged value{}", path_info))
                     .with_label(
                         Label::new((filename, range))
@@ -320,6 +336,7 @@ impl ValidationError {
 
             ValidationErrorKind::WrongTag { expected, got } => {
                 Report::build(ReportKind::Error, (filename, range.clone()))
+                    .with_config(config)
                     .with_message(format!("wrong tag{}", path_info))
                     .with_label(
                         Label::new((filename, range))
@@ -330,6 +347,7 @@ impl ValidationError {
 
             ValidationErrorKind::SchemaError { reason } => {
                 Report::build(ReportKind::Error, (filename, range.clone()))
+                    .with_config(config)
                     .with_message("schema error")
                     .with_label(
                         Label::new((filename, range))
@@ -424,14 +442,13 @@ impl ValidationWarning {
 
     /// Write the warning report to a writer.
     pub fn write_report<W: std::io::Write>(&self, filename: &str, source: &str, writer: W) {
-        let range = self
-            .span
-            .map(|s| s.start as usize..s.end as usize)
-            .unwrap_or(0..1);
+        let range = self.span.map(|s| span_to_range(source, s)).unwrap_or(0..1);
+        let config = ariadne_config();
 
         let report = match &self.kind {
             ValidationWarningKind::Deprecated { reason } => {
                 Report::build(ReportKind::Warning, (filename, range.clone()))
+                    .with_config(config)
                     .with_message("deprecated")
                     .with_label(
                         Label::new((filename, range))
@@ -441,6 +458,7 @@ impl ValidationWarning {
             }
             ValidationWarningKind::IgnoredField { field } => {
                 Report::build(ReportKind::Warning, (filename, range.clone()))
+                    .with_config(config)
                     .with_message(format!("field '{}' will be ignored", field))
                     .with_label(
                         Label::new((filename, range))
@@ -451,7 +469,6 @@ impl ValidationWarning {
         };
 
         let _ = report
-            .with_config(ariadne_config())
             .finish()
             .write((filename, Source::from(source)), writer);
     }
diff --git a/crates/styx-tree/src/diagnostic.rs b/crates/styx-tree/src/diagnostic.rs
index 84d93da..599a8bb 100644
--- a/crates/styx-tree/src/diagnostic.rs
+++ b/crates/styx-tree/src/diagnostic.rs
@@ -1,8 +1,29 @@
 //! Diagnostic rendering for parser errors.
 
-use ariadne::{Color, Label, Report, ReportKind, Source};
+use ariadne::{Color, Config, Label, Report, ReportKind, Source};
 use styx_parse::{ParseErrorKind, Span};
 
+/// Get ariadne config, respecting NO_COLOR env var.
+fn ariadne_config() -> Config {
+    let no_color = std::env::var("NO_COLOR").is_ok();
+    if no_color {
+        Config::default().with_color(false)
+    } else {
+        Config::default()
+    }
+}
+
+/// Convert a span (in bytes) to the character range that ariadne expects.
+fn char_range(source: &str, span: Span) -> std::ops::Range<usize> {
+    let chars_before = |offset: u32| {
+        source
+            .char_indices()
+            .take_while(|(at, _)| *at < offset as usize)
+            .count()
+    };
+    chars_before(span.start)..chars_before(span.end)
+}
+
 /// A parser error with source location.
 #[derive(Debug, Clone)]
 pub struct ParseError {
@@ -29,7 +50,7 @@ impl ParseError {
 
     /// Write the error report to a writer.
     pub fn write_report<W: std::io::Write>(&self, filename: &str, source: &str, writer: W) {
-        let report = self.build_report(filename);
+        let report = self.build_report(filename, source);
         let _ = report
             .finish()
             .write((filename, Source::from(source)), writer);
@@ -38,14 +59,19 @@ impl ParseError {
     fn build_report<'a>(
         &self,
         filename: &'a str,
+        source: &str,
     ) -> ariadne::ReportBuilder<'static, (&'a str, std::ops::Range<usize>)> {
-        let range = self.span.start as usize..self.span.end as usize;
+        let range = char_range(source, self.span);
+        // Config must be applied BEFORE adding labels, because ariadne applies
+        // filter_color when labels are added, not when the report is written.
+        let config = ariadne_config();
 
         match &self.kind {
             // diag[impl diagnostic.parser.duplicate-key]
             ParseErrorKind::DuplicateKey { original } => {
-                let original_range = original.start as usize..original.end as usize;
+                let original_range = char_range(source, *original);
                 Report::build(ReportKind::Error, (filename, range.clone()))
+                    .with_config(config)
                     .with_message("duplicate key")
                     .with_label(
                         Label::new((filename, original_range))
@@ -62,6 +88,7 @@ impl ParseError {
 
             // diag[impl diagnostic.parser.unclosed]
             ParseErrorKind::UnclosedObject => Report::build(ReportKind::Error, (filename, range.clone()))
+                .with_config(config)
                 .with_message("unclosed object")
                 .with_label(
                     Label::new((filename, range))
@@ -72,6 +99,7 @@ impl ParseError {
 
             // diag[impl diagnostic.parser.unclosed]
             ParseErrorKind::UnclosedSequence => Report::build(ReportKind::Error, (filename, range.clone()))
+                .with_config(config)
                 .with_message("unclosed sequence")
                 .with_label(
                     Label::new((filename, range))
@@ -82,6 +110,7 @@ impl ParseError {
 
             // diag[impl diagnostic.parser.escape]
             ParseErrorKind::InvalidEscape(seq) => Report::build(ReportKind::Error, (filename, range.clone()))
+                .with_config(config)
                 .with_message(format!("invalid escape sequence '{}'", seq))
                 .with_label(
                     Label::new((filename, range))
@@ -92,6 +121,7 @@ impl ParseError {
 
             // diag[impl diagnostic.parser.unexpected]
             ParseErrorKind::UnexpectedToken => Report::build(ReportKind::Error, (filename, range.clone()))
+                .with_config(config)
                 .with_message("unexpected token")
                 .with_label(
                     Label::new((filename, range))
@@ -100,6 +130,7 @@ impl ParseError {
                 ),
 
             ParseErrorKind::ExpectedKey => Report::build(ReportKind::Error, (filename, range.clone()))
+                .with_config(config)
                 .with_message("expected key")
                 .with_label(
                     Label::new((filename, range))
@@ -108,6 +139,7 @@ impl ParseError {
                 ),
 
             ParseErrorKind::ExpectedValue => Report::build(ReportKind::Error, (filename, range.clone()))
+                .with_config(config)
                 .with_message("expected value")
                 .with_label(
                     Label::new((filename, range))
@@ -116,6 +148,7 @@ impl ParseError {
                 ),
 
             ParseErrorKind::UnexpectedEof => Report::build(ReportKind::Error, (filename, range.clone()))
+                .with_config(config)
                 .with_message("unexpected end of input")
                 .with_label(
                     Label::new((filename, range))
@@ -124,6 +157,7 @@ impl ParseError {
                 ),
 
             ParseErrorKind::InvalidTagName => Report::build(ReportKind::Error, (filename, range.clone()))
+                .with_config(config)
                 .with_message("invalid tag name")
                 .with_label(
                     Label::new((filename, range))
@@ -133,6 +167,7 @@ impl ParseError {
                 .with_help("tag names must match @[A-Za-z_][A-Za-z0-9_.-]*"),
 
             ParseErrorKind::InvalidKey => Report::build(ReportKind::Error, (filename, range.clone()))
+                .with_config(config)
                 .with_message("invalid key")
                 .with_label(
                     Label::new((filename, range))
@@ -142,6 +177,7 @@ impl ParseError {
                 .with_help("keys must be scalars or unit, optionally tagged (no objects, sequences, or heredocs)"),
 
             ParseErrorKind::DanglingDocComment => Report::build(ReportKind::Error, (filename, range.clone()))
+                .with_config(config)
                 .with_message("dangling doc comment")
                 .with_label(
                     Label::new((filename, range))
@@ -152,6 +188,7 @@ impl ParseError {
 
             // diag[impl diagnostic.parser.toomany]
             ParseErrorKind::TooManyAtoms => Report::build(ReportKind::Error, (filename, range.clone()))
+                .with_config(config)
                 .with_message("unexpected atom after value")
                 .with_label(
                     Label::new((filename, range))
@@ -164,6 +201,7 @@ impl ParseError {
             ParseErrorKind::ReopenedPath { closed_path } => {
                 let path_str = closed_path.join(".");
                 Report::build(ReportKind::Error, (filename, range.clone()))
+                    .with_config(config)
                     .with_message(format!("cannot reopen path `{}`", path_str))
                     .with_label(
                         Label::new((filename, range))
@@ -177,6 +215,7 @@ impl ParseError {
             ParseErrorKind::NestIntoTerminal { terminal_path } => {
                 let path_str = terminal_path.join(".");
                 Report::build(ReportKind::Error, (filename, range.clone()))
+                    .with_config(config)
                     .with_message(format!("cannot nest into `{}`", path_str))
                     .with_label(
                         Label::new((filename, range))
@@ -188,6 +227,7 @@ impl ParseError {
 
             // diag[impl diagnostic.parser.sequence-comma]
             ParseErrorKind::CommaInSequence => Report::build(ReportKind::Error, (filename, range.clone()))
+                .with_config(config)
                 .with_message("unexpected comma in sequence")
                 .with_label(
                     Label::new((filename, range))
@@ -198,6 +238,7 @@ impl ParseError {
 
             // diag[impl diagnostic.parser.missing-whitespace]
             ParseErrorKind::MissingWhitespaceBeforeBlock => Report::build(ReportKind::Error, (filename, range.clone()))
+                .with_config(config)
                 .with_message("missing whitespace before block")
                 .with_label(
                     Label::new((filename, range))
@@ -207,6 +248,7 @@ impl ParseError {
                 .with_help("bare keys must be separated from `{` or `(` by whitespace (to distinguish from tags like `@tag{}`)"),
 
             ParseErrorKind::TrailingContent => Report::build(ReportKind::Error, (filename, range.clone()))
+                .with_config(config)
                 .with_message("trailing content after explicit root object")
                 .with_label(
                     Label::new((filename, range))
-- 
2.43.0


From ced2d8f032bb7e43bede3148377ed6e857d1aa20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:26 +0000
Subject: [PATCH 83/84] fix: the browser library shows joined paths, tagged
 keys, units and large numbers, and keeps what a tag cannot hold

---
 crates/styx-wasm/src/lib.rs | 95 ++++++++++++++++++++++++++-----------
 1 file changed, 68 insertions(+), 27 deletions(-)

diff --git a/crates/styx-wasm/src/lib.rs b/crates/styx-wasm/src/lib.rs
index 694135d..4525295 100644
--- a/crates/styx-wasm/src/lib.rs
+++ b/crates/styx-wasm/src/lib.rs
@@ -10,9 +10,9 @@ use styx_parse::ScalarKind;
 use styx_tree::{Entry, Object, Payload, Scalar, Sequence, Tag, Value};
 use wasm_bindgen::prelude::*;
 
-/// Serialize a value to JsValue using plain objects (not Maps).
+/// Serialize a value to JsValue using plain objects (not Maps) and nulls (not undefined).
 fn to_js_value<T: Serialize>(value: &T) -> Result<JsValue, serde_wasm_bindgen::Error> {
-    let serializer = serde_wasm_bindgen::Serializer::new().serialize_maps_as_objects(true);
+    let serializer = serde_wasm_bindgen::Serializer::json_compatible();
     value.serialize(&serializer)
 }
 
@@ -119,10 +119,8 @@ fn payload_to_json(payload: &Payload) -> serde_json::Value {
     match payload {
         Payload::Scalar(s) => {
             // Try to parse as number or boolean
-            if let Ok(n) = s.text.parse::<i64>() {
-                json!(n)
-            } else if let Ok(n) = s.text.parse::<f64>() {
-                json!(n)
+            if let Some(n) = number_to_json(&s.text) {
+                n
             } else if s.text == "true" {
                 json!(true)
             } else if s.text == "false" {
@@ -138,6 +136,21 @@ fn payload_to_json(payload: &Payload) -> serde_json::Value {
     }
 }
 
+/// The number a text spells, if JavaScript has it.
+///
+/// Integers that a JavaScript number cannot hold exactly and what has no finite value stay text.
+fn number_to_json(text: &str) -> Option<serde_json::Value> {
+    const MAX_SAFE_INTEGER: u64 = (1 << 53) - 1;
+    if let Ok(n) = text.parse::<i64>() {
+        return (n.unsigned_abs() <= MAX_SAFE_INTEGER).then(|| json!(n));
+    }
+    if !text.contains(['.', 'e', 'E']) {
+        return None;
+    }
+    let n = text.parse::<f64>().ok().filter(|n| n.is_finite())?;
+    Some(json!(n))
+}
+
 /// Convert a Styx Sequence to a JSON array.
 fn sequence_to_json(seq: &Sequence) -> serde_json::Value {
     let items: Vec<serde_json::Value> = seq.items.iter().map(value_to_json).collect();
@@ -148,17 +161,15 @@ fn sequence_to_json(seq: &Sequence) -> serde_json::Value {
 fn object_to_json(obj: &Object) -> serde_json::Value {
     let mut map = serde_json::Map::new();
 
-    for entry in &obj.entries {
-        // Get key as string
-        let key = if entry.key.is_unit() {
-            "@".to_string()
-        } else if let Some(s) = entry.key.as_str() {
-            s.to_string()
-        } else if let Some(tag) = entry.key.tag_name() {
-            format!("@{}", tag)
-        } else {
-            // Complex key - serialize it
-            format!("{:?}", entry.key)
+    // Sibling dotted paths (`a.b 1`, `a.c 2`) are entries of one object
+    for entry in &obj.join_paths().entries {
+        // Keys that are not plain scalars are named the way they are written: `@`, `@tag`, `@tag"text"`
+        let tag = entry.key.tag_name().map(|tag| format!("@{tag}"));
+        let key = match (tag, entry.key.scalar_text()) {
+            (None, Some(text)) => text.to_string(),
+            (Some(tag), Some(text)) => format!("{tag}{}", json!(text)),
+            (Some(tag), None) => tag,
+            (None, None) => "@".to_string(),
         };
 
         map.insert(key, value_to_json(&entry.value));
@@ -301,16 +312,8 @@ fn json_to_value(json: &serde_json::Value) -> Value {
 
         serde_json::Value::Object(obj) => {
             // Check for tagged value: {"$tag": "name", "$value": ...}
-            if let Some(serde_json::Value::String(tag_name)) = obj.get("$tag") {
-                let payload = obj.get("$value").and_then(|v| json_to_value(v).payload);
-                return Value {
-                    tag: Some(Tag {
-                        name: tag_name.clone(),
-                        span: None,
-                    }),
-                    payload,
-                    span: None,
-                };
+            if let Some(tagged) = json_to_tagged(obj) {
+                return tagged;
             }
 
             // Regular object
@@ -347,6 +350,44 @@ fn json_to_value(json: &serde_json::Value) -> Value {
     }
 }
 
+/// Convert `{"$tag": "name", "$value": ...}` to a tagged value.
+///
+/// Returns `None` for objects that say more than a Styx tag can.
+fn json_to_tagged(obj: &serde_json::Map<String, serde_json::Value>) -> Option<Value> {
+    let name = obj.get("$tag")?.as_str()?;
+    if !is_tag_name(name) {
+        return None;
+    }
+    let payload = match (obj.len(), obj.get("$value")) {
+        (1, None) => None,
+        (2, Some(value)) => {
+            let value = json_to_value(value);
+            // A value has one tag
+            if value.tag.is_some() {
+                return None;
+            }
+            value.payload
+        }
+        _ => return None,
+    };
+    Some(Value {
+        tag: Some(Tag {
+            name: name.to_string(),
+            span: None,
+        }),
+        payload,
+        span: None,
+    })
+}
+
+/// Check if a string is a tag name: `[A-Za-z_][A-Za-z0-9_-]*`.
+fn is_tag_name(name: &str) -> bool {
+    name.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_')
+        && name
+            .chars()
+            .all(|c| c.is_ascii_alphanumeric() || matches!(c, '_' | '-'))
+}
+
 /// Check if a string needs quoting in Styx.
 fn needs_quoting(s: &str) -> bool {
     if s.is_empty() {
-- 
2.43.0


From edacbdd3794cae5200a4cf71e37782381fb95827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:33 +0000
Subject: [PATCH 84/84] fix: schema comparison sees changed fields, types and
 variants, and crate names and versions are checked

---
 crates/styx-cli/src/main.rs | 194 ++++++++++++++++++++++++++++--------
 1 file changed, 153 insertions(+), 41 deletions(-)

diff --git a/crates/styx-cli/src/main.rs b/crates/styx-cli/src/main.rs
index 187c318..e676971 100644
--- a/crates/styx-cli/src/main.rs
+++ b/crates/styx-cli/src/main.rs
@@ -1587,6 +1587,8 @@ fn run_package(
     version: &str,
     output: Option<&str>,
 ) -> Result<(), CliError> {
+    check_crate(name, version)?;
+
     let output_dir = output.unwrap_or(name);
     let output_path = Path::new(output_dir);
 
@@ -1617,6 +1619,25 @@ fn run_package(
     Ok(())
 }
 
+/// Crate names and versions become parts of paths, manifests and commands.
+fn check_crate(name: &str, version: &str) -> Result<(), CliError> {
+    if !name.starts_with(|c: char| c.is_ascii_alphabetic())
+        || !name
+            .chars()
+            .all(|c| c.is_ascii_alphanumeric() || matches!(c, '-' | '_'))
+    {
+        return Err(CliError::Usage(format!("invalid crate name: {name}")));
+    }
+    if !version.starts_with(|c: char| c.is_ascii_digit())
+        || !version
+            .chars()
+            .all(|c| c.is_ascii_alphanumeric() || matches!(c, '.' | '-' | '+'))
+    {
+        return Err(CliError::Usage(format!("invalid crate version: {version}")));
+    }
+    Ok(())
+}
+
 fn generate_cargo_toml(name: &str, version: &str) -> String {
     format!(
         r#"[package]
@@ -1689,6 +1710,7 @@ fn run_publish(schema_file: &str, yes: bool) -> Result<(), CliError> {
     let name = extract_meta_field(&local_tree, "crate").ok_or_else(|| {
         CliError::Usage("schema must have meta.crate field for publishing".into())
     })?;
+    check_crate(&name, "0.1.0")?;
 
     let (version, _changes) = match fetch_latest_version(&name) {
         Ok(latest_version) => {
@@ -1869,6 +1891,7 @@ fn run_diff(schema_file: &str, crate_name: &str, baseline: Option<&str>) -> Resu
     let local_tree = styx_tree::parse(&local_content)
         .map_err(|e| CliError::Parse(format!("invalid schema: {e}")))?;
 
+    check_crate(crate_name, "0.1.0")?;
     let version = match baseline {
         Some(v) => v.to_string(),
         None => fetch_latest_version(crate_name)?,
@@ -1945,6 +1968,8 @@ fn fetch_latest_version(crate_name: &str) -> Result<String, CliError> {
 }
 
 fn fetch_crate_schema(crate_name: &str, version: &str) -> Result<String, CliError> {
+    check_crate(crate_name, version)?;
+
     let url = format!("{STAGING_DOWNLOAD}/{crate_name}/{version}/download");
     let temp_dir =
         std::env::temp_dir().join(format!("styx-diff-{}-{}", crate_name, std::process::id()));
@@ -2014,11 +2039,20 @@ fn compare_schemas(baseline: &Value, local: &Value) -> SchemaChanges {
         }
     }
 
+    if changes.breaking.is_empty()
+        && changes.additive.is_empty()
+        && !same_value(baseline, local, true)
+    {
+        changes
+            .patch
+            .push("changed documentation, defaults, order or metadata".into());
+    }
+
     changes
 }
 
-fn extract_schema_map(value: &Value) -> std::collections::HashMap<Option<String>, &Value> {
-    let mut map = std::collections::HashMap::new();
+fn extract_schema_map(value: &Value) -> std::collections::BTreeMap<Option<String>, &Value> {
+    let mut map = std::collections::BTreeMap::new();
 
     if let Some(Payload::Object(obj)) = &value.payload {
         for entry in &obj.entries {
@@ -2058,13 +2092,60 @@ fn compare_type_definitions(
         return;
     }
 
-    if baseline_tag == Some("object") {
-        compare_object_fields(type_name, baseline, local, changes);
+    compare_types(type_name, baseline, local, changes);
+}
+
+/// Compare two type expressions. What is not known to accept at least the same values is breaking.
+fn compare_types(path: &str, baseline: &Value, local: &Value, changes: &mut SchemaChanges) {
+    if same_value(baseline, local, false) {
+        return;
     }
 
-    if baseline_tag == Some("enum") {
-        compare_enum_variants(type_name, baseline, local, changes);
+    let tag = baseline.tag_name();
+    if tag == local.tag_name() {
+        match (tag, &baseline.payload, &local.payload) {
+            (Some("object"), Some(Payload::Object(_)), Some(Payload::Object(_))) => {
+                return compare_object_fields(path, baseline, local, changes);
+            }
+            (Some("enum"), Some(Payload::Object(_)), Some(Payload::Object(_))) => {
+                return compare_enum_variants(path, baseline, local, changes);
+            }
+            (
+                Some("seq" | "map" | "tuple" | "union" | "optional"),
+                Some(Payload::Sequence(a)),
+                Some(Payload::Sequence(b)),
+            ) if a.len() == b.len() => {
+                for (a, b) in a.iter().zip(b.iter()) {
+                    compare_types(path, a, b, changes);
+                }
+                return;
+            }
+            _ => {}
+        }
     }
+
+    changes.breaking.push(format!("type of `{path}` changed"));
+}
+
+/// Whether two values are written the same, layout (and doc comments, unless asked for) aside.
+fn same_value(a: &Value, b: &Value, docs: bool) -> bool {
+    let payload = match (&a.payload, &b.payload) {
+        (None, None) => true,
+        (Some(Payload::Scalar(a)), Some(Payload::Scalar(b))) => a.text == b.text,
+        (Some(Payload::Sequence(a)), Some(Payload::Sequence(b))) => {
+            a.len() == b.len() && a.iter().zip(b.iter()).all(|(a, b)| same_value(a, b, docs))
+        }
+        (Some(Payload::Object(a)), Some(Payload::Object(b))) => {
+            a.len() == b.len()
+                && a.entries.iter().zip(&b.entries).all(|(a, b)| {
+                    same_value(&a.key, &b.key, docs)
+                        && same_value(&a.value, &b.value, docs)
+                        && (!docs || a.doc_comment == b.doc_comment)
+                })
+        }
+        _ => false,
+    };
+    payload && a.tag_name() == b.tag_name()
 }
 
 fn compare_object_fields(
@@ -2084,10 +2165,36 @@ fn compare_object_fields(
         }
     }
 
+    // In an open object the name of a new field may be in use already
+    let open = baseline_fields.iter().any(|(name, field_type)| {
+        name.starts_with('@') || field_type.tag_name() == Some("flatten")
+    });
+
     for (field_name, field_type) in &local_fields {
-        if !baseline_fields.contains_key(field_name) {
-            let is_optional = is_optional_field(field_type);
-            if is_optional {
+        if let Some(baseline_type) = baseline_fields.get(field_name) {
+            let field_path = format!("{type_name}.{field_name}");
+            let (was_optional, was_nullable, was) = unwrap_field(baseline_type);
+            let (is_optional, is_nullable, is) = unwrap_field(field_type);
+            if was_optional && !is_optional {
+                changes
+                    .breaking
+                    .push(format!("field `{field_path}` became required"));
+            } else if was_nullable && !is_nullable {
+                changes
+                    .breaking
+                    .push(format!("field `{field_path}` can no longer be @"));
+            } else if is_optional && !was_optional || is_nullable && !was_nullable {
+                changes
+                    .additive
+                    .push(format!("field `{field_path}` became optional"));
+            }
+            compare_types(&field_path, was, is, changes);
+        } else if open {
+            changes.breaking.push(format!(
+                "added field `{field_name}` to open object `{type_name}`"
+            ));
+        } else {
+            if unwrap_field(field_type).0 {
                 changes.additive.push(format!(
                     "added optional field `{field_name}` to `{type_name}`"
                 ));
@@ -2100,26 +2207,38 @@ fn compare_object_fields(
     }
 }
 
-fn extract_object_fields(value: &Value) -> std::collections::HashMap<String, &Value> {
-    let mut fields = std::collections::HashMap::new();
+/// The fields of an object or variants of an enum, by name. A key with a tag, such as that of
+/// additional fields, is named `@tag`.
+fn extract_object_fields(value: &Value) -> std::collections::BTreeMap<String, &Value> {
+    let mut fields = std::collections::BTreeMap::new();
 
     if let Some(Payload::Object(obj)) = &value.payload {
         for entry in &obj.entries {
-            if let Some(name) = entry.key.as_str() {
-                fields.insert(name.to_string(), &entry.value);
-            }
+            let tag = entry.key.tag_name().map(|tag| format!("@{tag}"));
+            let name = match (tag, entry.key.scalar_text()) {
+                (None, Some(name)) => name.to_string(),
+                (tag, name) => tag.unwrap_or("@".into()) + name.unwrap_or_default(),
+            };
+            fields.insert(name, &entry.value);
         }
     }
 
     fields
 }
 
-fn is_optional_field(value: &Value) -> bool {
-    value
-        .tag
-        .as_ref()
-        .map(|t| t.name == "optional" || t.name == "default")
-        .unwrap_or(false)
+/// Whether a field may be left out, whether it may be a unit then, and its type.
+fn unwrap_field(mut value: &Value) -> (bool, bool, &Value) {
+    let mut optional = false;
+    let mut nullable = false;
+    while let Some(tag @ ("optional" | "default" | "deprecated")) = value.tag_name()
+        && let Some(Payload::Sequence(seq)) = &value.payload
+        && let Some(inner) = seq.items.last()
+    {
+        optional |= tag != "deprecated";
+        nullable |= tag == "optional";
+        value = inner;
+    }
+    (optional, nullable, value)
 }
 
 fn compare_enum_variants(
@@ -2128,19 +2247,26 @@ fn compare_enum_variants(
     local: &Value,
     changes: &mut SchemaChanges,
 ) {
-    let baseline_variants = extract_enum_variants(baseline);
-    let local_variants = extract_enum_variants(local);
-
-    for variant in &baseline_variants {
-        if !local_variants.contains(variant) {
+    let baseline_variants = extract_object_fields(baseline);
+    let local_variants = extract_object_fields(local);
+
+    for (variant, baseline_type) in &baseline_variants {
+        if let Some(local_type) = local_variants.get(variant) {
+            compare_types(
+                &format!("{type_name}.{variant}"),
+                baseline_type,
+                local_type,
+                changes,
+            );
+        } else {
             changes
                 .breaking
                 .push(format!("removed variant `{variant}` from `{type_name}`"));
         }
     }
 
-    for variant in &local_variants {
-        if !baseline_variants.contains(variant) {
+    for variant in local_variants.keys() {
+        if !baseline_variants.contains_key(variant) {
             changes
                 .additive
                 .push(format!("added variant `{variant}` to `{type_name}`"));
@@ -2148,20 +2274,6 @@ fn compare_enum_variants(
     }
 }
 
-fn extract_enum_variants(value: &Value) -> Vec<String> {
-    let mut variants = Vec::new();
-
-    if let Some(Payload::Object(obj)) = &value.payload {
-        for entry in &obj.entries {
-            if let Some(name) = entry.key.as_str() {
-                variants.push(name.to_string());
-            }
-        }
-    }
-
-    variants
-}
-
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0

