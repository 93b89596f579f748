From 1645bc70050531c938f09e0b4f77f8dd17fb4eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:38 +0000
Subject: [PATCH 01/72] fix: do not re-check escapes in already unescaped
 tagged key payloads

---
 crates/styx-parse/src/parser/mod.rs | 18 +-----------------
 1 file changed, 1 insertion(+), 17 deletions(-)

diff --git a/crates/styx-parse/src/parser/mod.rs b/crates/styx-parse/src/parser/mod.rs
index 7fd353a..b5708ed 100644
--- a/crates/styx-parse/src/parser/mod.rs
+++ b/crates/styx-parse/src/parser/mod.rs
@@ -1196,9 +1196,7 @@ impl<'src> Parser<'src> {
                     }
                     Some(inner) => match &inner.content {
                         AtomContent::Scalar { value, kind } => {
-                            if *kind == ScalarKind::Quoted {
-                                self.emit_escape_errors(value, inner.span);
-                            }
+                            // The lexer already processed escape sequences.
                             self.event_queue.push_back(Event {
                                 span: atom.span,
                                 kind: EventKind::Key {
@@ -1502,20 +1500,6 @@ impl<'src> Parser<'src> {
             }
         }
     }
-
-    /// Emit escape errors.
-    fn emit_escape_errors(&mut self, text: &str, span: Span) {
-        for (offset, seq) in validate_escapes(text) {
-            let error_start = span.start + offset as u32;
-            let error_span = Span::new(error_start, error_start + seq.len() as u32);
-            self.event_queue.push_back(Event {
-                span: error_span,
-                kind: EventKind::Error {
-                    kind: ParseErrorKind::InvalidEscape(seq),
-                },
-            });
-        }
-    }
 }
 
 // ============================================================================
-- 
2.43.0


From c0a4420851b112b26c913932bbc40e29674e8c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:36 +0000
Subject: [PATCH 02/72] fix: report every invalid unicode escape, and without
 slicing inside a character

---
 crates/styx-parse/src/lexer.rs      |  4 ++--
 crates/styx-parse/src/parser/mod.rs | 33 +++++++++++++++--------------
 2 files changed, 19 insertions(+), 18 deletions(-)

diff --git a/crates/styx-parse/src/lexer.rs b/crates/styx-parse/src/lexer.rs
index ecc01e0..e8bd9be 100644
--- a/crates/styx-parse/src/lexer.rs
+++ b/crates/styx-parse/src/lexer.rs
@@ -447,7 +447,7 @@ fn process_escapes(s: &str) -> Result<Cow<'_, str>, &'static str> {
                         }
                         let code =
                             u32::from_str_radix(&hex, 16).map_err(|_| "invalid unicode escape")?;
-                        let ch = char::from_u32(code).ok_or("invalid unicode code point")?;
+                        let ch = char::from_u32(code).ok_or("invalid unicode escape")?;
                         result.push(ch);
                     }
                     Some(_) => {
@@ -461,7 +461,7 @@ fn process_escapes(s: &str) -> Result<Cow<'_, str>, &'static str> {
                         }
                         let code =
                             u32::from_str_radix(&hex, 16).map_err(|_| "invalid unicode escape")?;
-                        let ch = char::from_u32(code).ok_or("invalid unicode code point")?;
+                        let ch = char::from_u32(code).ok_or("invalid unicode escape")?;
                         result.push(ch);
                     }
                     None => return Err("invalid unicode escape"),
diff --git a/crates/styx-parse/src/parser/mod.rs b/crates/styx-parse/src/parser/mod.rs
index b5708ed..e1be79d 100644
--- a/crates/styx-parse/src/parser/mod.rs
+++ b/crates/styx-parse/src/parser/mod.rs
@@ -1914,6 +1914,12 @@ fn unescape_quoted(text: &str) -> Cow<'_, str> {
     Cow::Owned(result)
 }
 
+/// Whether the digits of a `\uXXXX` or `\u{X...}` escape name a Unicode scalar value.
+fn is_unicode_escape(hex: &str) -> bool {
+    hex.chars().all(|c| c.is_ascii_hexdigit())
+        && u32::from_str_radix(hex, 16).is_ok_and(|code| char::from_u32(code).is_some())
+}
+
 fn validate_escapes(text: &str) -> Vec<(usize, String)> {
     let mut errors = Vec::new();
     let mut chars = text.char_indices().peekable();
@@ -1926,35 +1932,30 @@ fn validate_escapes(text: &str) -> Vec<(usize, String)> {
                 Some((_, 'u')) => match chars.peek() {
                     Some((_, '{')) => {
                         chars.next();
-                        let mut valid = true;
+                        let mut hex = String::new();
                         let mut found_close = false;
                         for (_, c) in chars.by_ref() {
                             if c == '}' {
                                 found_close = true;
                                 break;
                             }
-                            if !c.is_ascii_hexdigit() {
-                                valid = false;
-                            }
+                            hex.push(c);
                         }
-                        if !found_close || !valid {
+                        if !found_close || !is_unicode_escape(&hex) {
                             let end = chars.peek().map(|(i, _)| *i).unwrap_or(text.len());
-                            let seq = &text[escape_start..end.min(escape_start + 12)];
-                            errors.push((escape_start, seq.to_string()));
+                            let seq = text[escape_start..end].chars().take(12).collect();
+                            errors.push((escape_start, seq));
                         }
                     }
                     Some((_, c)) if c.is_ascii_hexdigit() => {
-                        let mut count = 1;
-                        while count < 4 {
-                            match chars.peek() {
-                                Some((_, c)) if c.is_ascii_hexdigit() => {
-                                    chars.next();
-                                    count += 1;
-                                }
-                                _ => break,
+                        let mut hex = String::with_capacity(4);
+                        while hex.len() < 4 {
+                            match chars.next_if(|(_, c)| c.is_ascii_hexdigit()) {
+                                Some((_, c)) => hex.push(c),
+                                None => break,
                             }
                         }
-                        if count != 4 {
+                        if hex.len() != 4 || !is_unicode_escape(&hex) {
                             let end = chars.peek().map(|(i, _)| *i).unwrap_or(text.len());
                             let seq = &text[escape_start..end];
                             errors.push((escape_start, seq.to_string()));
-- 
2.43.0


From 57271999fb925f1feaa97af757049ad85a6c2f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:19 +0000
Subject: [PATCH 03/72] fix: count all hashes of a raw string delimiter

---
 crates/styx-tokenizer/src/tokenizer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/styx-tokenizer/src/tokenizer.rs b/crates/styx-tokenizer/src/tokenizer.rs
index 5f1cdac..46b0588 100644
--- a/crates/styx-tokenizer/src/tokenizer.rs
+++ b/crates/styx-tokenizer/src/tokenizer.rs
@@ -533,9 +533,9 @@ impl<'src> Tokenizer<'src> {
         self.advance();
 
         // Count and consume `#` marks
-        let mut hash_count: u8 = 0;
+        let mut hash_count = 0usize;
         while self.peek() == Some('#') {
-            hash_count = hash_count.saturating_add(1);
+            hash_count += 1;
             self.advance();
         }
 
@@ -556,7 +556,7 @@ impl<'src> Tokenizer<'src> {
                 }
                 Some('"') => {
                     // Check for closing sequence
-                    let mut matched_hashes = 0u8;
+                    let mut matched_hashes = 0usize;
                     let mut lookahead = 1;
                     while matched_hashes < hash_count {
                         if self.peek_nth(lookahead) == Some('#') {
-- 
2.43.0


From a39894f6425e3a1ea5caa5fc22cbfa32f9161c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:53 +0000
Subject: [PATCH 04/72] fix: detect repeated root keys that are not adjacent,
 and compare root keys by value

---
 crates/styx-parse/src/parser/mod.rs | 59 ++++++++++++++++++-----------
 1 file changed, 37 insertions(+), 22 deletions(-)

diff --git a/crates/styx-parse/src/parser/mod.rs b/crates/styx-parse/src/parser/mod.rs
index e1be79d..6c4890f 100644
--- a/crates/styx-parse/src/parser/mod.rs
+++ b/crates/styx-parse/src/parser/mod.rs
@@ -493,8 +493,7 @@ impl<'src> Parser<'src> {
 
         if let ParserState::DocumentRoot { path_state, .. } = &mut self.state {
             // Check path state - this handles duplicates for us
-            let key_text = key_value.to_key_string();
-            let path = vec![key_text];
+            let path = vec![key_value];
             let value_kind = if atoms.len() >= 2 {
                 match &atoms[1].content {
                     AtomContent::Object { .. } | AtomContent::Attributes(_) => {
@@ -1040,7 +1039,10 @@ impl<'src> Parser<'src> {
             let first_key_value = KeyValue::Scalar(segments[0].to_string());
             seen_keys.entry(first_key_value).or_insert(path_span);
 
-            let path: Vec<String> = segments.iter().map(|s| s.to_string()).collect();
+            let path: Vec<KeyValue> = segments
+                .iter()
+                .map(|s| KeyValue::Scalar(s.to_string()))
+                .collect();
             let value_kind = if atoms.len() >= 2 {
                 match &atoms[1].content {
                     AtomContent::Object { .. } | AtomContent::Attributes(_) => {
@@ -1633,13 +1635,13 @@ enum PathError {
 /// - Which child keys have been "closed" (can't be reopened)
 #[derive(Debug, Clone)]
 struct PathSegment {
-    key: String,
+    key: KeyValue,
     span: Span,
     value_kind: PathValueKind,
     /// Keys that have been closed at this level. When we move from a.b.c to a.b.d,
     /// we add "c" to the closed_children of the "b" segment. This is O(siblings at this level)
     /// rather than O(all paths ever seen).
-    closed_children: HashMap<String, Span>,
+    closed_children: HashMap<KeyValue, Span>,
 }
 
 /// Path state tracker with O(depth) memory usage.
@@ -1653,12 +1655,14 @@ struct PathSegment {
 struct PathState {
     /// The current path, as a stack of segments. Length is O(max depth).
     segments: Vec<PathSegment>,
+    /// Root keys that have been closed: they can be neither repeated nor reopened.
+    closed_roots: HashMap<KeyValue, Span>,
 }
 
 impl PathState {
     fn check_and_update(
         &mut self,
-        path: &[String],
+        path: &[KeyValue],
         span: Span,
         value_kind: PathValueKind,
     ) -> Result<(), PathError> {
@@ -1675,14 +1679,11 @@ impl PathState {
             .count();
 
         // Special case: if the entire path matches, check for duplicate
-        // This happens when we see `a 1` then `a 2` - the path ["a"] fully matches
-        if common_len == path.len()
-            && common_len == self.segments.len()
-            && !self.segments.is_empty()
-        {
-            // Exact same path - this is a duplicate
+        // This happens when we see `a 1` (or `a.b 1`) then `a 2` - the path ["a"] fully matches
+        if common_len == path.len() {
+            // Same path as the current one or one of its parents - this is a duplicate
             return Err(PathError::Duplicate {
-                original: self.segments.last().unwrap().span,
+                original: self.segments[common_len - 1].span,
             });
         }
 
@@ -1691,12 +1692,12 @@ impl PathState {
         while self.segments.len() > common_len {
             let closed_segment = self.segments.pop().unwrap();
 
-            // Add this key to parent's closed_children (if there is a parent)
-            if let Some(parent) = self.segments.last_mut() {
-                parent
-                    .closed_children
-                    .insert(closed_segment.key, closed_segment.span);
-            }
+            // Add this key to its parent's closed children
+            let closed = match self.segments.last_mut() {
+                Some(parent) => &mut parent.closed_children,
+                None => &mut self.closed_roots,
+            };
+            closed.insert(closed_segment.key, closed_segment.span);
         }
 
         // Now process each new segment of the path
@@ -1733,6 +1734,16 @@ impl PathState {
                     // Continue using existing segment
                     continue;
                 }
+                // Check if this root key was already closed
+                if let Some(&original) = self.closed_roots.get(key) {
+                    return Err(if is_last {
+                        PathError::Duplicate { original }
+                    } else {
+                        PathError::Reopened {
+                            closed_path: vec![key.to_key_string()],
+                        }
+                    });
+                }
                 // New root segment
                 self.segments.push(PathSegment {
                     key: key.clone(),
@@ -1747,7 +1758,11 @@ impl PathState {
                 // Check if parent is terminal (can't nest into it)
                 if parent.value_kind == PathValueKind::Terminal {
                     return Err(PathError::NestIntoTerminal {
-                        terminal_path: self.segments.iter().map(|s| s.key.clone()).collect(),
+                        terminal_path: self
+                            .segments
+                            .iter()
+                            .map(|s| s.key.to_key_string())
+                            .collect(),
                     });
                 }
 
@@ -1756,8 +1771,8 @@ impl PathState {
                     return Err(PathError::Reopened {
                         closed_path: self.segments[..i]
                             .iter()
-                            .map(|s| s.key.clone())
-                            .chain(std::iter::once(key.clone()))
+                            .map(|s| s.key.to_key_string())
+                            .chain(std::iter::once(key.to_key_string()))
                             .collect(),
                     });
                 }
-- 
2.43.0


From b9ae3371bf68a26e3219facd8a88226da8197b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:36 +0000
Subject: [PATCH 05/72] fix: apply the path rules of the implicit root to an
 explicit root object

---
 crates/styx-parse/src/parser/mod.rs | 91 ++++++++++++-----------------
 1 file changed, 36 insertions(+), 55 deletions(-)

diff --git a/crates/styx-parse/src/parser/mod.rs b/crates/styx-parse/src/parser/mod.rs
index 6c4890f..0fbd238 100644
--- a/crates/styx-parse/src/parser/mod.rs
+++ b/crates/styx-parse/src/parser/mod.rs
@@ -60,7 +60,6 @@ enum ParserState {
 
     /// At implicit document root.
     DocumentRoot {
-        seen_keys: HashMap<KeyValue, Span>,
         pending_doc_comment: Option<Span>,
         path_state: PathState,
         /// Whether we've emitted ObjectStart for the implicit root object.
@@ -70,7 +69,7 @@ enum ParserState {
     /// Inside explicit object { ... }.
     InObject {
         start_span: Span,
-        seen_keys: HashMap<KeyValue, Span>,
+        path_state: PathState,
         pending_doc_comment: Option<Span>,
         /// Parent state to restore when we pop.
         parent: Box<ParserState>,
@@ -139,7 +138,6 @@ impl<'src> Parser<'src> {
         match &self.state {
             ParserState::BeforeDocument => {
                 self.state = ParserState::DocumentRoot {
-                    seen_keys: HashMap::new(),
                     pending_doc_comment: None,
                     path_state: PathState::default(),
                     emitted_object_start: false,
@@ -284,7 +282,7 @@ impl<'src> Parser<'src> {
                     // Explicit root object - after it closes, document is done
                     self.state = ParserState::InObject {
                         start_span: span,
-                        seen_keys: HashMap::new(),
+                        path_state: PathState::default(),
                         pending_doc_comment: None,
                         parent: Box::new(ParserState::AfterDocument),
                     };
@@ -483,37 +481,15 @@ impl<'src> Parser<'src> {
         } = &key_atom.content
             && value.contains('.')
         {
-            self.emit_dotted_path_entry(value.clone(), key_atom.span, atoms, true);
+            self.emit_dotted_path_entry(value.clone(), key_atom.span, atoms);
             return;
         }
 
-        // Simple key - use path state for duplicate detection at root level
-        // (path_state handles both simple and dotted paths uniformly)
-        let key_value = KeyValue::from_atom(key_atom);
-
-        if let ParserState::DocumentRoot { path_state, .. } = &mut self.state {
-            // Check path state - this handles duplicates for us
-            let path = vec![key_value];
-            let value_kind = if atoms.len() >= 2 {
-                match &atoms[1].content {
-                    AtomContent::Object { .. } | AtomContent::Attributes(_) => {
-                        PathValueKind::Object
-                    }
-                    _ => PathValueKind::Terminal,
-                }
-            } else {
-                PathValueKind::Terminal
-            };
-
-            if let Err(err) = path_state.check_and_update(&path, key_atom.span, value_kind) {
-                self.emit_path_error(err, key_atom.span);
-            }
-        }
-
+        self.check_simple_key(atoms);
         self.emit_simple_entry(atoms);
     }
 
-    /// Emit entry inside an object (no path state).
+    /// Emit entry inside the explicit root object (with path state).
     fn emit_entry_in_object(&mut self, atoms: &[Atom<'src>]) {
         if atoms.is_empty() {
             return;
@@ -542,29 +518,42 @@ impl<'src> Parser<'src> {
         } = &key_atom.content
             && value.contains('.')
         {
-            self.emit_dotted_path_entry(value.clone(), key_atom.span, atoms, false);
+            self.emit_dotted_path_entry(value.clone(), key_atom.span, atoms);
             return;
         }
 
-        // Simple key - check for duplicates
+        self.check_simple_key(atoms);
+        self.emit_simple_entry(atoms);
+    }
+
+    /// Check a simple (non-dotted) key of the root object against the entries before it.
+    fn check_simple_key(&mut self, atoms: &[Atom<'src>]) {
+        let key_atom = &atoms[0];
+
+        // Simple key - use path state for duplicate detection at root level
+        // (path_state handles both simple and dotted paths uniformly)
         let key_value = KeyValue::from_atom(key_atom);
 
-        if let ParserState::InObject { seen_keys, .. } = &mut self.state {
-            if let Some(&original_span) = seen_keys.get(&key_value) {
-                self.event_queue.push_back(Event {
-                    span: key_atom.span,
-                    kind: EventKind::Error {
-                        kind: ParseErrorKind::DuplicateKey {
-                            original: original_span,
-                        },
-                    },
-                });
+        if let ParserState::DocumentRoot { path_state, .. }
+        | ParserState::InObject { path_state, .. } = &mut self.state
+        {
+            // Check path state - this handles duplicates for us
+            let path = vec![key_value];
+            let value_kind = if atoms.len() >= 2 {
+                match &atoms[1].content {
+                    AtomContent::Object { .. } | AtomContent::Attributes(_) => {
+                        PathValueKind::Object
+                    }
+                    _ => PathValueKind::Terminal,
+                }
             } else {
-                seen_keys.insert(key_value, key_atom.span);
+                PathValueKind::Terminal
+            };
+
+            if let Err(err) = path_state.check_and_update(&path, key_atom.span, value_kind) {
+                self.emit_path_error(err, key_atom.span);
             }
         }
-
-        self.emit_simple_entry(atoms);
     }
 
     /// Emit a simple (non-dotted) entry.
@@ -1006,7 +995,6 @@ impl<'src> Parser<'src> {
         path_text: Cow<'src, str>,
         path_span: Span,
         atoms: &[Atom<'src>],
-        check_path_state: bool,
     ) {
         let segments: Vec<&str> = path_text.split('.').collect();
 
@@ -1028,17 +1016,10 @@ impl<'src> Parser<'src> {
             return;
         }
 
-        // Check path state at root
-        if check_path_state
-            && let ParserState::DocumentRoot {
-                seen_keys,
-                path_state,
-                ..
-            } = &mut self.state
+        // Check path state of the root object
+        if let ParserState::DocumentRoot { path_state, .. }
+        | ParserState::InObject { path_state, .. } = &mut self.state
         {
-            let first_key_value = KeyValue::Scalar(segments[0].to_string());
-            seen_keys.entry(first_key_value).or_insert(path_span);
-
             let path: Vec<KeyValue> = segments
                 .iter()
                 .map(|s| KeyValue::Scalar(s.to_string()))
-- 
2.43.0


From 4b64385734c0177824c8d92ff625fca2b367001a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:21 +0000
Subject: [PATCH 06/72] fix: detect repeated attribute keys

---
 crates/styx-parse/src/parser/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/styx-parse/src/parser/mod.rs b/crates/styx-parse/src/parser/mod.rs
index 0fbd238..8bae625 100644
--- a/crates/styx-parse/src/parser/mod.rs
+++ b/crates/styx-parse/src/parser/mod.rs
@@ -1420,7 +1420,17 @@ impl<'src> Parser<'src> {
                     kind: EventKind::ObjectStart,
                 });
 
+                let mut seen_keys: HashMap<&str, Span> = HashMap::new();
                 for attr in attrs {
+                    let original = *seen_keys.entry(attr.key).or_insert(attr.key_span);
+                    if original != attr.key_span {
+                        self.event_queue.push_back(Event {
+                            span: attr.key_span,
+                            kind: EventKind::Error {
+                                kind: ParseErrorKind::DuplicateKey { original },
+                            },
+                        });
+                    }
                     self.event_queue.push_back(Event {
                         span: attr.key_span,
                         kind: EventKind::EntryStart,
-- 
2.43.0


From 7d48bac7b13f8e399c7f82a3d8bc482d217c17c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:57 +0000
Subject: [PATCH 07/72] fix: accept a heredoc directly after a tag as its
 payload

---
 crates/styx-parse/src/lexer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/styx-parse/src/lexer.rs b/crates/styx-parse/src/lexer.rs
index e8bd9be..82ed22b 100644
--- a/crates/styx-parse/src/lexer.rs
+++ b/crates/styx-parse/src/lexer.rs
@@ -192,7 +192,7 @@ impl<'src> Lexer<'src> {
                 let is_chained = name.contains("/@");
 
                 // Check if payload follows immediately (no whitespace)
-                // Payload can be: { ( " r#" @ or Tag
+                // Payload can be: { ( " r#" << @ or Tag
                 let payload_tok = self.peek_token();
                 let is_adjacent = payload_tok.span.start == tok.span.end;
                 let is_valid_payload = matches!(
@@ -201,6 +201,7 @@ impl<'src> Lexer<'src> {
                         | TokenKind::LParen
                         | TokenKind::QuotedScalar
                         | TokenKind::RawScalar
+                        | TokenKind::HeredocStart
                         | TokenKind::At
                         | TokenKind::Tag
                 );
-- 
2.43.0


From dfcc5a1a5c29b8e9a55ecd477516001c9d062c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:49 +0000
Subject: [PATCH 08/72] fix: an object after other root entries is an invalid
 key, not a second root

---
 crates/styx-parse/src/parser/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/styx-parse/src/parser/mod.rs b/crates/styx-parse/src/parser/mod.rs
index 8bae625..d898163 100644
--- a/crates/styx-parse/src/parser/mod.rs
+++ b/crates/styx-parse/src/parser/mod.rs
@@ -278,7 +278,15 @@ impl<'src> Parser<'src> {
                     });
                     return self.event_queue.pop_front();
                 }
-                Lexeme::ObjectStart { span } => {
+                Lexeme::ObjectStart { span }
+                    if !matches!(
+                        self.state,
+                        ParserState::DocumentRoot {
+                            emitted_object_start: true,
+                            ..
+                        }
+                    ) =>
+                {
                     // Explicit root object - after it closes, document is done
                     self.state = ParserState::InObject {
                         start_span: span,
-- 
2.43.0


From cfd4e1ae403cc1f204dc90b0963f580a57fd0e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:33 +0000
Subject: [PATCH 09/72] fix: reject heredocs as keys of nested objects and as
 payloads of tagged keys

---
 crates/styx-parse/src/parser/mod.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/styx-parse/src/parser/mod.rs b/crates/styx-parse/src/parser/mod.rs
index d898163..40937e7 100644
--- a/crates/styx-parse/src/parser/mod.rs
+++ b/crates/styx-parse/src/parser/mod.rs
@@ -1186,7 +1186,7 @@ impl<'src> Parser<'src> {
                         });
                     }
                     Some(inner) => match &inner.content {
-                        AtomContent::Scalar { value, kind } => {
+                        AtomContent::Scalar { value, kind } if *kind != ScalarKind::Heredoc => {
                             // The lexer already processed escape sequences.
                             self.event_queue.push_back(Event {
                                 span: atom.span,
@@ -1361,6 +1361,18 @@ impl<'src> Parser<'src> {
                         span: entry.key.span,
                         kind: EventKind::EntryStart,
                     });
+                    if let AtomContent::Scalar {
+                        kind: ScalarKind::Heredoc,
+                        ..
+                    } = &entry.key.content
+                    {
+                        self.event_queue.push_back(Event {
+                            span: self.heredoc_start_span(entry.key.span),
+                            kind: EventKind::Error {
+                                kind: ParseErrorKind::InvalidKey,
+                            },
+                        });
+                    }
                     self.emit_atom_as_key(&entry.key);
                     self.emit_atom_as_value(&entry.value);
 
-- 
2.43.0


From fa8bab01a51dcbb907ab0047196da8668fa6af2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:28 +0000
Subject: [PATCH 10/72] fix: a doc comment after an entry belongs to the next
 entry

---
 crates/styx-parse/src/parser/mod.rs | 24 ++++--------------------
 1 file changed, 4 insertions(+), 20 deletions(-)

diff --git a/crates/styx-parse/src/parser/mod.rs b/crates/styx-parse/src/parser/mod.rs
index 40937e7..814540e 100644
--- a/crates/styx-parse/src/parser/mod.rs
+++ b/crates/styx-parse/src/parser/mod.rs
@@ -619,29 +619,13 @@ impl<'src> Parser<'src> {
                 | Lexeme::Newline { .. }
                 | Lexeme::Comma { .. }
                 | Lexeme::ObjectEnd { .. }
-                | Lexeme::SeqEnd { .. } => {
+                | Lexeme::SeqEnd { .. }
+                // Comments end the entry, and are emitted after it
+                | Lexeme::Comment { .. }
+                | Lexeme::DocComment { .. } => {
                     self.source.stash(lexeme);
                     break;
                 }
-                Lexeme::Comment { span, text } => {
-                    self.event_queue.push_back(Event {
-                        span,
-                        kind: EventKind::Comment { text },
-                    });
-                    break;
-                }
-                Lexeme::DocComment { span, text } => {
-                    // Strip `/// ` or `///` prefix
-                    let line = text
-                        .strip_prefix("/// ")
-                        .or_else(|| text.strip_prefix("///"))
-                        .unwrap_or(text);
-                    self.event_queue.push_back(Event {
-                        span,
-                        kind: EventKind::DocComment { lines: vec![line] },
-                    });
-                    break;
-                }
                 Lexeme::ObjectStart { span } | Lexeme::SeqStart { span } => {
                     // Check for MissingWhitespaceBeforeBlock: bare scalar immediately
                     // followed by { or ( with no whitespace
-- 
2.43.0


From 6d9ab42ec74b70894d0440bb6f788d356b4a42c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:25 +0000
Subject: [PATCH 11/72] fix: a separator without an entry before it is not an
 empty entry of the syntax tree

---
 crates/styx-cst/src/parser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/styx-cst/src/parser.rs b/crates/styx-cst/src/parser.rs
index c8cc148..4a6fd43 100644
--- a/crates/styx-cst/src/parser.rs
+++ b/crates/styx-cst/src/parser.rs
@@ -238,6 +238,12 @@ impl<'src> CstParser<'src> {
                 break;
             }
 
+            // A separator without an entry before it
+            if self.peek() == TokenKind::Comma {
+                self.bump();
+                continue;
+            }
+
             // Parse an entry
             self.parse_entry(closing);
 
-- 
2.43.0


From b8965ef5fb16eba975bd150a821114b7243783b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:17 +0000
Subject: [PATCH 12/72] fix: the formatter does not delete entries that are
 attributes alone

---
 crates/styx-format/src/cst_format.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/styx-format/src/cst_format.rs b/crates/styx-format/src/cst_format.rs
index 541307a..6e88f7a 100644
--- a/crates/styx-format/src/cst_format.rs
+++ b/crates/styx-format/src/cst_format.rs
@@ -253,6 +253,11 @@ impl CstFormatter {
 
         if let Some(key) = entry.key() {
             self.format_node(key.syntax());
+        } else {
+            // An entry that consists of attributes alone
+            for child in node.children() {
+                self.format_node(&child);
+            }
         }
 
         // Space between key and value
-- 
2.43.0


From b2b4d2bec1faa8bf53855547e0a70699f36d7d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:02 +0000
Subject: [PATCH 13/72] fix: a line comment after a doc comment is not an empty
 entry of the syntax tree

---
 crates/styx-cst/src/parser.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/styx-cst/src/parser.rs b/crates/styx-cst/src/parser.rs
index 4a6fd43..c1d70bb 100644
--- a/crates/styx-cst/src/parser.rs
+++ b/crates/styx-cst/src/parser.rs
@@ -224,10 +224,8 @@ impl<'src> CstParser<'src> {
             // Check for doc comments - they attach to the next entry
             while self.peek() == TokenKind::DocComment {
                 self.bump();
-                // Skip whitespace/newlines after doc comment
-                while matches!(self.peek(), TokenKind::Whitespace | TokenKind::Newline) {
-                    self.bump();
-                }
+                // Skip whitespace, newlines and line comments after doc comment
+                self.skip_trivia();
             }
 
             // Check for closing or EOF
-- 
2.43.0


From 481024fc585ddeb28f021e60ecef077afa86eacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:50 +0000
Subject: [PATCH 14/72] fix: the formatter keeps a heredoc's closing line apart
 from a closing parenthesis

---
 crates/styx-format/src/cst_format.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/styx-format/src/cst_format.rs b/crates/styx-format/src/cst_format.rs
index 6e88f7a..7250dcc 100644
--- a/crates/styx-format/src/cst_format.rs
+++ b/crates/styx-format/src/cst_format.rs
@@ -389,8 +389,11 @@ impl CstFormatter {
 
         // Determine if we need multiline format
         // But collapse trivial sequences: single simple element should be inline
-        let should_collapse =
-            !has_comments && entries.len() == 1 && !contains_block_object(entries[0].syntax());
+        // (a heredoc's closing delimiter has to stay alone on its line)
+        let should_collapse = !has_comments
+            && entries.len() == 1
+            && !contains_block_object(entries[0].syntax())
+            && !contains_heredoc(entries[0].syntax());
 
         // Special case: single entry that is a tag with block payload - format inline with paren
         // e.g., @optional(@object{...}) should format as (@object{\n...\n}) not (\n@object{...}\n)
@@ -671,6 +674,11 @@ fn contains_block_object(node: &SyntaxNode) -> bool {
     false
 }
 
+/// Recursively check if a node contains a heredoc.
+fn contains_heredoc(node: &SyntaxNode) -> bool {
+    node.descendants().any(|n| n.kind() == SyntaxKind::HEREDOC)
+}
+
 /// Check if an entry is a schema declaration (@schema tag as key).
 fn is_schema_declaration(entry: &Entry) -> bool {
     if let Some(key) = entry.key() {
-- 
2.43.0


From 1463b68bf27a49967f1d728ae55b66f7667a69ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:10 +0000
Subject: [PATCH 15/72] fix: the syntax tree's accessors decode unicode escapes
 and raw strings

---
 crates/styx-cst/src/ast.rs | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/crates/styx-cst/src/ast.rs b/crates/styx-cst/src/ast.rs
index d42af1a..b7824be 100644
--- a/crates/styx-cst/src/ast.rs
+++ b/crates/styx-cst/src/ast.rs
@@ -157,7 +157,7 @@ impl Key {
                     return match token.kind() {
                         SyntaxKind::BARE_SCALAR => token.text().to_string(),
                         SyntaxKind::QUOTED_SCALAR => unescape_quoted(token.text()),
-                        SyntaxKind::RAW_SCALAR => token.text().to_string(),
+                        SyntaxKind::RAW_SCALAR => raw_content(token.text()),
                         _ => continue,
                     };
                 }
@@ -367,7 +367,7 @@ impl Scalar {
             return match token.kind() {
                 SyntaxKind::BARE_SCALAR => token.text().to_string(),
                 SyntaxKind::QUOTED_SCALAR => unescape_quoted(token.text()),
-                SyntaxKind::RAW_SCALAR => token.text().to_string(),
+                SyntaxKind::RAW_SCALAR => raw_content(token.text()),
                 _ => continue,
             };
         }
@@ -457,6 +457,16 @@ impl Heredoc {
 
 // === Helpers ===
 
+/// The text between the delimiters of a raw string.
+fn raw_content(text: &str) -> String {
+    let inner = text.strip_prefix('r').unwrap_or(text).trim_matches('#');
+    inner
+        .strip_prefix('"')
+        .and_then(|s| s.strip_suffix('"'))
+        .unwrap_or(text)
+        .to_string()
+}
+
 /// Process escape sequences in a quoted string.
 fn unescape_quoted(text: &str) -> String {
     // Remove surrounding quotes
@@ -476,6 +486,30 @@ fn unescape_quoted(text: &str) -> String {
                 Some('t') => result.push('\t'),
                 Some('\\') => result.push('\\'),
                 Some('"') => result.push('"'),
+                Some('u') => {
+                    // `\uXXXX` or `\u{X...}`
+                    let rest = chars.clone().collect::<String>();
+                    let (digits, len) = match rest.strip_prefix('{') {
+                        Some(braced) => match braced.find('}') {
+                            Some(end) => (&braced[..end], end + 2),
+                            None => ("", 0),
+                        },
+                        None => (rest.get(..4).unwrap_or(""), 4),
+                    };
+                    let code = if digits.bytes().all(|b| b.is_ascii_hexdigit()) {
+                        u32::from_str_radix(digits, 16).ok()
+                    } else {
+                        None
+                    };
+                    match code.and_then(char::from_u32) {
+                        Some(c) => {
+                            result.push(c);
+                            chars.nth(len - 1);
+                        }
+                        // Invalid escape, keep as-is
+                        None => result.push_str("\\u"),
+                    }
+                }
                 Some(c) => {
                     // Unknown escape, keep as-is
                     result.push('\\');
-- 
2.43.0


From cf072ae5a841634f8689ea47ec6b1e5c5940d781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:01 +0000
Subject: [PATCH 16/72] fix: scalars with `>` and keys with dots are not
 written bare

---
 crates/styx-format/src/lib.rs          |  4 +++-
 crates/styx-format/src/scalar.rs       | 15 ++++++++++++---
 crates/styx-format/src/value_format.rs |  2 +-
 crates/styx-format/src/writer.rs       |  6 +++---
 4 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/crates/styx-format/src/lib.rs b/crates/styx-format/src/lib.rs
index 6f0b349..af1f9c4 100644
--- a/crates/styx-format/src/lib.rs
+++ b/crates/styx-format/src/lib.rs
@@ -12,6 +12,8 @@ mod writer;
 
 pub use cst_format::{format_cst, format_source};
 pub use options::FormatOptions;
-pub use scalar::{can_be_bare, count_escapes, count_newlines, escape_quoted, unescape_quoted};
+pub use scalar::{
+    can_be_bare, can_be_bare_key, count_escapes, count_newlines, escape_quoted, unescape_quoted,
+};
 pub use value_format::{format_object_braced, format_value, format_value_default};
 pub use writer::StyxWriter;
diff --git a/crates/styx-format/src/scalar.rs b/crates/styx-format/src/scalar.rs
index 0fb0a1a..3eb1d47 100644
--- a/crates/styx-format/src/scalar.rs
+++ b/crates/styx-format/src/scalar.rs
@@ -10,7 +10,7 @@ use std::borrow::Cow;
 /// A bare scalar is valid when:
 /// 1. It's not empty
 /// 2. It doesn't start with characters that look like other syntax (`//`, `r#`, `<<`)
-/// 3. It doesn't contain special characters: `{}(),"=@` or whitespace
+/// 3. It doesn't contain special characters: `{}(),"=@>` or whitespace
 pub fn can_be_bare(s: &str) -> bool {
     if s.is_empty() {
         return false;
@@ -20,8 +20,17 @@ pub fn can_be_bare(s: &str) -> bool {
         return false;
     }
     // Cannot contain special characters
-    !s.chars()
-        .any(|c| matches!(c, '{' | '}' | '(' | ')' | ',' | '"' | '=' | '@') || c.is_whitespace())
+    !s.chars().any(|c| {
+        matches!(c, '{' | '}' | '(' | ')' | ',' | '"' | '=' | '@' | '>') || c.is_whitespace()
+    })
+}
+
+/// Check if a string can be written as a bare key.
+///
+/// On top of the rules for bare scalars a bare key must not contain dots, which would make
+/// it a path of several keys.
+pub fn can_be_bare_key(s: &str) -> bool {
+    can_be_bare(s) && !s.contains('.')
 }
 
 /// Count escape sequences needed for a quoted string.
diff --git a/crates/styx-format/src/value_format.rs b/crates/styx-format/src/value_format.rs
index f4240ae..e6fe71e 100644
--- a/crates/styx-format/src/value_format.rs
+++ b/crates/styx-format/src/value_format.rs
@@ -187,7 +187,7 @@ impl ValueFormatter {
             }
             Some(Payload::Scalar(s)) => {
                 // Always check if the text can be bare, regardless of original ScalarKind
-                if crate::scalar::can_be_bare(&s.text) {
+                if crate::scalar::can_be_bare_key(&s.text) {
                     result.push_str(&s.text);
                 } else {
                     result.push('"');
diff --git a/crates/styx-format/src/writer.rs b/crates/styx-format/src/writer.rs
index 23cab09..ed3fd41 100644
--- a/crates/styx-format/src/writer.rs
+++ b/crates/styx-format/src/writer.rs
@@ -4,7 +4,7 @@
 //! independent of any serialization framework.
 
 use crate::options::{ForceStyle, FormatOptions};
-use crate::scalar::{can_be_bare, count_escapes, count_newlines, escape_quoted};
+use crate::scalar::{can_be_bare, can_be_bare_key, count_escapes, count_newlines, escape_quoted};
 
 /// Context for tracking serialization state.
 #[derive(Debug, Clone)]
@@ -356,7 +356,7 @@ impl StyxWriter {
         }
 
         // Write the key - keys are typically bare identifiers
-        if can_be_bare(key) {
+        if can_be_bare_key(key) {
             self.out.extend_from_slice(key.as_bytes());
         } else {
             self.write_quoted_string(key);
@@ -614,7 +614,7 @@ impl StyxWriter {
         }
 
         // Write the key
-        if can_be_bare(key) {
+        if can_be_bare_key(key) {
             self.out.extend_from_slice(key.as_bytes());
         } else {
             self.write_quoted_string(key);
-- 
2.43.0


From d210b7f2a6b69a2d69dbb905465b969d48f017fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:06 +0000
Subject: [PATCH 17/72] fix: formatted values separate what follows a tag, and
 quote payloads of tagged keys

---
 crates/styx-format/src/value_format.rs | 9 ++++++---
 crates/styx-format/src/writer.rs       | 4 ++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/crates/styx-format/src/value_format.rs b/crates/styx-format/src/value_format.rs
index e6fe71e..888a247 100644
--- a/crates/styx-format/src/value_format.rs
+++ b/crates/styx-format/src/value_format.rs
@@ -79,9 +79,11 @@ impl ValueFormatter {
             None => {
                 // No payload - if no tag either, this is unit (@)
                 if !has_tag {
-                    self.writer.write_str("@");
+                    self.writer.write_null();
                 }
-                // If there's a tag but no payload, tag was already written
+                // If there's a tag but no payload, tag was already written; what follows
+                // does not belong to it
+                self.writer.clear_skip_before_value();
             }
             Some(Payload::Scalar(s)) => {
                 // If tagged, wrap scalar in parens: @tag(scalar)
@@ -187,7 +189,8 @@ impl ValueFormatter {
             }
             Some(Payload::Scalar(s)) => {
                 // Always check if the text can be bare, regardless of original ScalarKind
-                if crate::scalar::can_be_bare_key(&s.text) {
+                // (a bare payload would run into the tag's name)
+                if key.tag.is_none() && crate::scalar::can_be_bare_key(&s.text) {
                     result.push_str(&s.text);
                 } else {
                     result.push('"');
diff --git a/crates/styx-format/src/writer.rs b/crates/styx-format/src/writer.rs
index ed3fd41..457883c 100644
--- a/crates/styx-format/src/writer.rs
+++ b/crates/styx-format/src/writer.rs
@@ -226,7 +226,7 @@ impl StyxWriter {
     pub fn begin_struct_after_tag(&mut self, force_multiline: bool) {
         // Don't call before_value() - we want no space after the tag
         // Clear the force_quote flag since the tag's payload is a struct, not a scalar
-        self.force_quote_next_scalar = false;
+        self.clear_skip_before_value();
         self.out.push(b'{');
         let open_pos = self.out.len(); // Position right after '{'
         self.stack.push(Context::Struct {
@@ -553,7 +553,7 @@ impl StyxWriter {
     /// Begin a sequence directly after a tag (no space before the paren).
     pub fn begin_seq_after_tag(&mut self) {
         // Clear the force_quote flag since the tag's payload is a sequence, not a scalar
-        self.force_quote_next_scalar = false;
+        self.clear_skip_before_value();
         self.out.push(b'(');
         // Sequences after tags always start inline
         self.stack.push(Context::Seq {
-- 
2.43.0


From 2debae4abf3daffaaf264a5957bed4004632c0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:46 +0000
Subject: [PATCH 18/72] fix: heredocs are only written where they read back as
 the same value

---
 crates/styx-format/src/writer.rs | 41 ++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/crates/styx-format/src/writer.rs b/crates/styx-format/src/writer.rs
index 457883c..d6d6742 100644
--- a/crates/styx-format/src/writer.rs
+++ b/crates/styx-format/src/writer.rs
@@ -885,8 +885,12 @@ impl StyxWriter {
         let escape_count = count_escapes(s);
 
         // Rule 3: Use heredocs for multi-line text
-        if newline_count >= self.options.heredoc_line_threshold {
-            self.write_heredoc(s);
+        if newline_count >= self.options.heredoc_line_threshold
+            && s.ends_with('\n')
+            && self.newline_follows_value()
+            && let Some(delimiter) = heredoc_delimiter(s)
+        {
+            self.write_heredoc(s, delimiter);
             return;
         }
 
@@ -930,26 +934,37 @@ impl StyxWriter {
         }
     }
 
-    /// Write a heredoc string.
-    fn write_heredoc(&mut self, s: &str) {
-        // Find a delimiter that doesn't appear in the string
-        let delimiters = ["TEXT", "END", "HEREDOC", "DOC", "STR", "CONTENT"];
-        let delimiter = delimiters
-            .iter()
-            .find(|d| !s.contains(*d))
-            .unwrap_or(&"TEXT");
+    /// Is whatever follows the value about to be written certain to start on a new line?
+    ///
+    /// The closing delimiter of a heredoc has to stay alone on its line.
+    fn newline_follows_value(&self) -> bool {
+        match self.stack.last() {
+            None => true,
+            Some(Context::Struct { is_root: true, .. }) => true,
+            Some(Context::Struct {
+                force_multiline, ..
+            }) => *force_multiline && !self.should_inline(),
+            Some(Context::Seq { .. }) => false,
+        }
+    }
 
+    /// Write a heredoc string. Its last line must end in a newline.
+    fn write_heredoc(&mut self, s: &str, delimiter: &str) {
         self.out.extend_from_slice(b"<<");
         self.out.extend_from_slice(delimiter.as_bytes());
         self.out.push(b'\n');
         self.out.extend_from_slice(s.as_bytes());
-        if !s.ends_with('\n') {
-            self.out.push(b'\n');
-        }
         self.out.extend_from_slice(delimiter.as_bytes());
     }
 }
 
+/// Find a heredoc delimiter that doesn't appear in the string.
+fn heredoc_delimiter(s: &str) -> Option<&'static str> {
+    ["TEXT", "END", "HEREDOC", "DOC", "STR", "CONTENT"]
+        .into_iter()
+        .find(|d| !s.contains(d))
+}
+
 impl Default for StyxWriter {
     fn default() -> Self {
         Self::new()
-- 
2.43.0


From a74b6e0e2d0c6ed969bfefe67aa8da3e7c607886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:48 +0000
Subject: [PATCH 19/72] fix: the syntax tree accepts attributes in sequences,
 nested attributes and doc comments after an entry

---
 crates/styx-cst/src/parser.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/styx-cst/src/parser.rs b/crates/styx-cst/src/parser.rs
index c1d70bb..d4609ad 100644
--- a/crates/styx-cst/src/parser.rs
+++ b/crates/styx-cst/src/parser.rs
@@ -173,6 +173,7 @@ impl<'src> CstParser<'src> {
         kind == TokenKind::Eof
             || kind == TokenKind::Newline
             || kind == TokenKind::LineComment
+            || kind == TokenKind::DocComment
             || kind == TokenKind::Comma
             || closing.is_some_and(|c| kind == c)
     }
@@ -356,7 +357,12 @@ impl<'src> CstParser<'src> {
             self.skip_whitespace();
         }
 
-        self.parse_atom();
+        if self.at_attribute() {
+            // `a>b>c`: the value is an attribute object itself
+            self.parse_attributes(None);
+        } else {
+            self.parse_atom();
+        }
 
         self.builder.finish_node();
     }
@@ -435,7 +441,11 @@ impl<'src> CstParser<'src> {
             // In sequences, each element is wrapped in an ENTRY with just a KEY
             self.builder.start_node(SyntaxKind::ENTRY.into());
             self.builder.start_node(SyntaxKind::KEY.into());
-            self.parse_atom();
+            if self.at_attribute() {
+                self.parse_attributes(Some(TokenKind::RParen));
+            } else {
+                self.parse_atom();
+            }
             self.builder.finish_node();
             self.builder.finish_node();
 
-- 
2.43.0


From 39bd61a1f4f010c0e9c287380b95c4bd6c7c4228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:48 +0000
Subject: [PATCH 20/72] fix: the formatter counts an object of nothing but
 layout as inline

---
 crates/styx-format/src/cst_format.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/crates/styx-format/src/cst_format.rs b/crates/styx-format/src/cst_format.rs
index 7250dcc..8123bc4 100644
--- a/crates/styx-format/src/cst_format.rs
+++ b/crates/styx-format/src/cst_format.rs
@@ -651,7 +651,21 @@ fn contains_block_object(node: &SyntaxNode) -> bool {
     if node.kind() == SyntaxKind::OBJECT
         && let Some(obj) = Object::cast(node.clone())
     {
+        // An object of nothing but layout is written as `{}`
+        let is_empty = node.children_with_tokens().all(|el| {
+            matches!(
+                el.kind(),
+                SyntaxKind::L_BRACE
+                    | SyntaxKind::R_BRACE
+                    | SyntaxKind::WHITESPACE
+                    | SyntaxKind::NEWLINE
+                    | SyntaxKind::COMMA
+            )
+        });
         let sep = obj.separator();
+        if is_empty {
+            return false;
+        }
         if matches!(sep, Separator::Newline | Separator::Mixed) {
             return true;
         }
-- 
2.43.0


From ee2e333f033ec11fa04cfc725bbc51210ab12a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:20 +0000
Subject: [PATCH 21/72] fix: facet-styx attaches sequences and objects to the
 tag they are the payload of

---
 crates/facet-styx/src/serializer.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/crates/facet-styx/src/serializer.rs b/crates/facet-styx/src/serializer.rs
index bd7c684..5f208e8 100644
--- a/crates/facet-styx/src/serializer.rs
+++ b/crates/facet-styx/src/serializer.rs
@@ -226,7 +226,10 @@ impl FormatSerializer for StyxSerializer {
         let is_root = self.at_root;
         trace!(is_root, "begin_struct");
         self.at_root = false;
-        self.just_wrote_tag = false;
+        if self.just_wrote_tag {
+            // The payload of a tag is attached to it
+            return self.begin_struct_after_tag();
+        }
         self.writer.clear_skip_before_value();
         self.writer.begin_struct(is_root);
         Ok(())
@@ -324,7 +327,10 @@ impl FormatSerializer for StyxSerializer {
     fn begin_seq(&mut self) -> Result<(), Self::Error> {
         trace!("begin_seq");
         self.at_root = false;
-        self.just_wrote_tag = false;
+        if self.just_wrote_tag {
+            // The payload of a tag is attached to it
+            return self.begin_seq_after_tag();
+        }
         self.writer.clear_skip_before_value();
         self.writer.begin_seq();
         Ok(())
@@ -658,8 +664,11 @@ impl FormatSerializer for CompactStyxSerializer {
     type Error = StyxSerializeError;
 
     fn begin_struct(&mut self) -> Result<(), Self::Error> {
+        if self.just_wrote_tag {
+            // The payload of a tag is attached to it
+            return self.begin_struct_after_tag();
+        }
         // Never treat as root in compact mode
-        self.just_wrote_tag = false;
         self.writer.clear_skip_before_value();
         self.writer.begin_struct(false);
         Ok(())
@@ -676,7 +685,10 @@ impl FormatSerializer for CompactStyxSerializer {
     }
 
     fn begin_seq(&mut self) -> Result<(), Self::Error> {
-        self.just_wrote_tag = false;
+        if self.just_wrote_tag {
+            // The payload of a tag is attached to it
+            return self.begin_seq_after_tag();
+        }
         self.writer.clear_skip_before_value();
         self.writer.begin_seq();
         Ok(())
-- 
2.43.0


From 7c742cce892ddf0085caf526c24c2981e553fb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:29 +0000
Subject: [PATCH 22/72] fix: a tag name ending in r keeps its r before a quoted
 payload

`@err"x"` was tokenized as the tag `er` with the raw payload r"x".
---
 crates/styx-format/src/writer.rs       | 10 ++++++----
 crates/styx-tokenizer/src/tokenizer.rs |  5 +++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/styx-format/src/writer.rs b/crates/styx-format/src/writer.rs
index d6d6742..64e0539 100644
--- a/crates/styx-format/src/writer.rs
+++ b/crates/styx-format/src/writer.rs
@@ -896,7 +896,7 @@ impl StyxWriter {
 
         // Rule 2: Use raw strings for complex escaping (> 3 escapes)
         if escape_count > 3 && !s.contains("\"#") {
-            self.write_raw_string(s);
+            self.write_raw_string(s, force_quote);
             return;
         }
 
@@ -913,10 +913,12 @@ impl StyxWriter {
     }
 
     /// Write a raw string (r#"..."#).
-    fn write_raw_string(&mut self, s: &str) {
+    ///
+    /// Directly after a tag an `r"` would read as the end of the tag's name.
+    fn write_raw_string(&mut self, s: &str, after_tag: bool) {
         // Find the minimum number of # needed
-        let mut hashes = 0;
-        let mut check = String::from("\"");
+        let mut hashes = usize::from(after_tag);
+        let mut check = format!("\"{}", "#".repeat(hashes));
         while s.contains(&check) {
             hashes += 1;
             check = format!("\"{}#", "#".repeat(hashes - 1));
diff --git a/crates/styx-tokenizer/src/tokenizer.rs b/crates/styx-tokenizer/src/tokenizer.rs
index 46b0588..c10fe89 100644
--- a/crates/styx-tokenizer/src/tokenizer.rs
+++ b/crates/styx-tokenizer/src/tokenizer.rs
@@ -252,10 +252,11 @@ impl<'src> Tokenizer<'src> {
     /// Consume one tag name segment after the leading `@`.
     fn consume_tag_segment(&mut self) {
         // Tag name: consume [A-Za-z0-9_-]*
-        // But stop before `r#` or `r"` which starts a raw string payload.
+        // But stop before `r#` which starts a raw string payload. An `r` followed by a quote
+        // belongs to the tag: `@error"..."` is the tag `error` with a quoted payload.
         self.advance();
         while let Some(c) = self.peek() {
-            if c == 'r' && matches!(self.peek_nth(1), Some('#' | '"')) {
+            if c == 'r' && self.peek_nth(1) == Some('#') {
                 break;
             }
             if c.is_ascii_alphanumeric() || c == '_' || c == '-' {
-- 
2.43.0


From 73bf5df5cd8dd152e01f271d6ca845bcd2d6394b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:29 +0000
Subject: [PATCH 23/72] fix: schema validation accepts only JSON number syntax
 for @float

`inf`, `NaN`, `.5` and `+1` passed.
---
 crates/facet-styx/src/schema_validate.rs | 25 +++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/crates/facet-styx/src/schema_validate.rs b/crates/facet-styx/src/schema_validate.rs
index fca8df7..ec6282a 100644
--- a/crates/facet-styx/src/schema_validate.rs
+++ b/crates/facet-styx/src/schema_validate.rs
@@ -54,6 +54,24 @@ fn suggest_similar<'a>(unknown: &str, valid: &'a [String]) -> Option<&'a str> {
         .map(|(v, _)| v)
 }
 
+/// Is this a float as schemas define it (JSON number syntax)?
+fn is_float_syntax(text: &str) -> bool {
+    let digits = |s: &str| !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit());
+    let number = text.strip_prefix('-').unwrap_or(text);
+    let (number, exponent) = match number.split_once(['e', 'E']) {
+        Some((number, exponent)) => (number, Some(exponent)),
+        None => (number, None),
+    };
+    let (integer, fraction) = match number.split_once('.') {
+        Some((integer, fraction)) => (integer, Some(fraction)),
+        None => (number, None),
+    };
+    digits(integer)
+        && (integer == "0" || !integer.starts_with('0'))
+        && fraction.is_none_or(digits)
+        && exponent.is_none_or(|e| digits(e.strip_prefix(['+', '-']).unwrap_or(e)))
+}
+
 use crate::schema_error::{
     ValidationError, ValidationErrorKind, ValidationResult, ValidationWarning,
     ValidationWarningKind,
@@ -319,9 +337,10 @@ impl<'a> Validator<'a> {
             }
         };
 
-        let parsed = match text.parse::<f64>() {
-            Ok(n) => n,
-            Err(_) => {
+        let number = is_float_syntax(text).then(|| text.parse::<f64>());
+        let parsed = match number {
+            Some(Ok(n)) => n,
+            _ => {
                 result.error(
                     ValidationError::new(
                         path,
-- 
2.43.0


From c9a8d741dceef1a38f393605a597c56ff059a69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:29 +0000
Subject: [PATCH 24/72] fix: an enum variant without payload satisfies schemas
 that accept unit

`@enum{a @optional(@int)}`, `@any` and named types of those kinds demanded a payload.
---
 crates/facet-styx/src/schema_validate.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/facet-styx/src/schema_validate.rs b/crates/facet-styx/src/schema_validate.rs
index ec6282a..eee2907 100644
--- a/crates/facet-styx/src/schema_validate.rs
+++ b/crates/facet-styx/src/schema_validate.rs
@@ -838,6 +838,13 @@ impl<'a> Validator<'a> {
                         };
                         result.merge(self.validate_value(p, variant_schema, &variant_path));
                     }
+                    (None, _)
+                        if self
+                            .validate_value(&Value::unit(), variant_schema, path)
+                            .is_valid() =>
+                    {
+                        // @variant whose schema accepts the implied unit payload - OK
+                    }
                     (None, _) => {
                         result.error(
                             ValidationError::new(
-- 
2.43.0


From fa187840d98e9a6ea098df27d98a89dab08246c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:29 +0000
Subject: [PATCH 25/72] fix: deprecated and named optional fields may be absent

Only a literal `@optional` or `@default` counted; `@deprecated("..." @optional(@T))` and an alias of an optional type were reported as missing.
---
 crates/facet-styx/src/schema_validate.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/crates/facet-styx/src/schema_validate.rs b/crates/facet-styx/src/schema_validate.rs
index eee2907..c4340f1 100644
--- a/crates/facet-styx/src/schema_validate.rs
+++ b/crates/facet-styx/src/schema_validate.rs
@@ -545,7 +545,7 @@ impl<'a> Validator<'a> {
 
             if !seen_fields.contains(&Some(name)) {
                 // Optional and Default fields are not required
-                if !matches!(field_schema, Schema::Optional(_) | Schema::Default(_)) {
+                if !self.accepts_absence(field_schema, &mut Vec::new()) {
                     let field_path = if path.is_empty() {
                         name.to_string()
                     } else {
@@ -568,6 +568,22 @@ impl<'a> Validator<'a> {
         result
     }
 
+    /// Can a field with this schema be left out?
+    fn accepts_absence<'s>(&'s self, schema: &'s Schema, seen: &mut Vec<&'s str>) -> bool {
+        match schema {
+            Schema::Optional(_) | Schema::Default(_) => true,
+            Schema::Deprecated(deprecated) => self.accepts_absence(&deprecated.0.1.value, seen),
+            Schema::Type { name: Some(name) } if !seen.contains(&name.as_str()) => {
+                seen.push(name);
+                self.schema_file
+                    .schema
+                    .get(&Some(name.clone()))
+                    .is_some_and(|named| self.accepts_absence(named, seen))
+            }
+            _ => false,
+        }
+    }
+
     fn validate_seq(&self, value: &Value, schema: &SeqSchema, path: &str) -> ValidationResult {
         let mut result = ValidationResult::ok();
 
-- 
2.43.0


From 1e1307debf43b69e939a7ac7bf5e6f249120e709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:29 +0000
Subject: [PATCH 26/72] fix: a map's key schema decides about unit keys

The meta schema itself declares `@map(@union(@string @unit) @Schema)`, which rejected every unit key.
---
 crates/facet-styx/src/schema_validate.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/facet-styx/src/schema_validate.rs b/crates/facet-styx/src/schema_validate.rs
index c4340f1..eddcd14 100644
--- a/crates/facet-styx/src/schema_validate.rs
+++ b/crates/facet-styx/src/schema_validate.rs
@@ -702,6 +702,8 @@ impl<'a> Validator<'a> {
         for entry in &obj.entries {
             let key_str = match entry.key.as_str() {
                 Some(s) => s,
+                // The key schema decides whether a unit key is allowed
+                None if entry.key.is_unit() && key_schema.is_some() => "@",
                 None => {
                     result.error(
                         ValidationError::new(
-- 
2.43.0


From 00984e926d49b287ea506174525ab442eec91697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:29 +0000
Subject: [PATCH 27/72] fix: the fallback variant of an enum does not depend on
 hash order

With several scalar variants an arbitrary one was tried, so the same document was valid in one run and invalid in the next.
---
 crates/facet-styx/src/schema_validate.rs | 47 ++++++++++++++++--------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/crates/facet-styx/src/schema_validate.rs b/crates/facet-styx/src/schema_validate.rs
index eddcd14..532edb1 100644
--- a/crates/facet-styx/src/schema_validate.rs
+++ b/crates/facet-styx/src/schema_validate.rs
@@ -808,9 +808,8 @@ impl<'a> Validator<'a> {
             Some(t) => t.name.as_str(),
             None => {
                 // No tag - try to find a fallback variant that accepts this value type
-                if let Some(fallback_schema) = self.find_enum_fallback(value, schema) {
-                    // Validate against the fallback variant's schema
-                    return self.validate_value(value, fallback_schema, path);
+                if let Some(fallback) = self.validate_enum_fallback(value, schema, path) {
+                    return fallback;
                 }
                 result.error(
                     ValidationError::new(
@@ -899,30 +898,46 @@ impl<'a> Validator<'a> {
         result
     }
 
-    /// Find a fallback variant in an enum that can accept an untagged value.
+    /// Validate an untagged value against the fallback variants of an enum.
     ///
     /// For example, if the enum has `eq @string` variant and the value is a bare string,
-    /// this returns the `@string` schema so the value can be validated against it.
-    fn find_enum_fallback<'s>(&self, value: &Value, schema: &'s EnumSchema) -> Option<&'s Schema> {
+    /// the value is validated against the `@string` schema. One matching variant is enough,
+    /// whatever order the variants are in.
+    fn validate_enum_fallback(
+        &self,
+        value: &Value,
+        schema: &EnumSchema,
+        path: &str,
+    ) -> Option<ValidationResult> {
         // Only scalars can fall back
         let text = value.scalar_text()?;
 
-        // Look for a variant whose schema matches this value
-        for variant_schema in schema.0.values() {
-            match variant_schema {
+        let mut candidates: Vec<_> = schema
+            .0
+            .iter()
+            .filter(|(_, variant_schema)| match variant_schema {
                 // @string accepts any scalar
-                Schema::String(_) => return Some(variant_schema),
+                Schema::String(_) => true,
                 // @int accepts scalars that parse as integers
-                Schema::Int(_) if text.parse::<i64>().is_ok() => return Some(variant_schema),
+                Schema::Int(_) => text.parse::<i128>().is_ok(),
                 // @float accepts scalars that parse as floats
-                Schema::Float(_) if text.parse::<f64>().is_ok() => return Some(variant_schema),
+                Schema::Float(_) => is_float_syntax(text),
                 // @bool accepts "true" or "false"
-                Schema::Bool if text == "true" || text == "false" => return Some(variant_schema),
-                _ => continue,
+                Schema::Bool => text == "true" || text == "false",
+                _ => false,
+            })
+            .collect();
+        candidates.sort_by(|a, b| a.0.value.cmp(&b.0.value));
+
+        let mut rejected = None;
+        for (_, variant_schema) in candidates {
+            let result = self.validate_value(value, variant_schema, path);
+            if result.is_valid() {
+                return Some(result);
             }
+            rejected.get_or_insert(result);
         }
-
-        None
+        rejected
     }
 
     fn validate_one_of(&self, value: &Value, schema: &OneOfSchema, path: &str) -> ValidationResult {
-- 
2.43.0


From 901e8f2afba6da0fbd91ede2c7aeeca9a94aa4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:29 +0000
Subject: [PATCH 28/72] fix: one-of compares with the text of quoted allowed
 values

`@one-of(@string ("b c"))` only matched a scalar that itself contained the quotes.
---
 crates/facet-styx/src/schema_validate.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/crates/facet-styx/src/schema_validate.rs b/crates/facet-styx/src/schema_validate.rs
index 532edb1..cbc0d23 100644
--- a/crates/facet-styx/src/schema_validate.rs
+++ b/crates/facet-styx/src/schema_validate.rs
@@ -78,7 +78,7 @@ use crate::schema_error::{
 };
 use crate::schema_types::{
     DefaultSchema, DeprecatedSchema, Documented, EnumSchema, FlattenSchema, FloatConstraints,
-    IntConstraints, MapSchema, ObjectKey, ObjectSchema, OneOfSchema, OptionalSchema, Schema,
+    IntConstraints, MapSchema, ObjectKey, ObjectSchema, OneOfSchema, OptionalSchema, RawStyx, Schema,
     SchemaFile, SeqSchema, StringConstraints, TupleSchema, UnionSchema,
 };
 
@@ -978,11 +978,10 @@ impl<'a> Validator<'a> {
         };
 
         // Check if the value is in the allowed list
-        let allowed_strings: Vec<&str> = allowed_values.iter().map(|v| v.as_str()).collect();
-        if !allowed_strings.contains(&value_text) {
+        let allowed_strings: Vec<String> = allowed_values.iter().map(scalar_of_raw).collect();
+        if !allowed_strings.iter().any(|allowed| allowed == value_text) {
             // Try to find a similar value for suggestions
-            let allowed_owned: Vec<String> = allowed_values.iter().map(|v| v.0.clone()).collect();
-            let suggestion = suggest_similar(value_text, &allowed_owned).map(String::from);
+            let suggestion = suggest_similar(value_text, &allowed_strings).map(String::from);
 
             result.error(
                 ValidationError::new(
@@ -1141,6 +1140,14 @@ impl<'a> Validator<'a> {
     }
 }
 
+/// The text of an allowed value, which the schema holds as it is spelled.
+fn scalar_of_raw(raw: &RawStyx) -> String {
+    styx_tree::parse(&format!("v {raw}"))
+        .ok()
+        .and_then(|doc| Some(doc.get("v")?.as_str()?.to_string()))
+        .unwrap_or_else(|| raw.0.clone())
+}
+
 /// Get a human-readable name for a value type.
 fn value_type_name(value: &Value) -> &'static str {
     if value.is_unit() {
-- 
2.43.0


From 40108b8f81c58d3ec609b23186753ad8059c81c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:29 +0000
Subject: [PATCH 29/72] fix: a type defined as itself is a schema error, not a
 stack overflow

`A @A` or `A @union(@A @int)` recursed without end.
---
 crates/facet-styx/src/schema_validate.rs | 27 ++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/crates/facet-styx/src/schema_validate.rs b/crates/facet-styx/src/schema_validate.rs
index cbc0d23..bd8c7a6 100644
--- a/crates/facet-styx/src/schema_validate.rs
+++ b/crates/facet-styx/src/schema_validate.rs
@@ -2,6 +2,7 @@
 //!
 //! Validates `styx_tree::Value` instances against `Schema` definitions.
 
+use std::cell::RefCell;
 use std::collections::HashSet;
 
 use styx_tree::{Payload, Value};
@@ -86,12 +87,17 @@ use crate::schema_types::{
 pub struct Validator<'a> {
     /// The schema file containing type definitions.
     schema_file: &'a SchemaFile,
+    /// The type references being followed, with the value each is applied to.
+    following: RefCell<Vec<(*const Value, String)>>,
 }
 
 impl<'a> Validator<'a> {
     /// Create a new validator with the given schema.
     pub fn new(schema_file: &'a SchemaFile) -> Self {
-        Self { schema_file }
+        Self {
+            schema_file,
+            following: RefCell::new(Vec::new()),
+        }
     }
 
     /// Validate a document against the schema's root type.
@@ -1121,8 +1127,25 @@ impl<'a> Validator<'a> {
             }
             Some(name) => {
                 // Named type reference - look up in schema
-                if let Some(type_schema) = self.schema_file.schema.get(&Some(name.to_string())) {
+                let step = (value as *const Value, name.to_string());
+                if self.following.borrow().contains(&step) {
+                    // Recursive types are fine as long as every round consumes some of the value
+                    result.error(
+                        ValidationError::new(
+                            path,
+                            ValidationErrorKind::SchemaError {
+                                reason: format!("type '{name}' is defined in terms of itself"),
+                            },
+                            format!("type '{name}' is defined in terms of itself"),
+                        )
+                        .with_span(value.span),
+                    );
+                } else if let Some(type_schema) =
+                    self.schema_file.schema.get(&Some(name.to_string()))
+                {
+                    self.following.borrow_mut().push(step);
                     result.merge(self.validate_value(value, type_schema, path));
+                    self.following.borrow_mut().pop();
                 } else {
                     result.error(
                         ValidationError::new(
-- 
2.43.0


From 2ede8a0c3b4c63a7bb627a01e603b160f4ceda80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:29 +0000
Subject: [PATCH 30/72] fix: schema validation inlines flattened fields

An entry with `@flatten(@T)` demanded a field of its own name and rejected the fields of T. A field named `""` no longer stands for a unit key either.
---
 crates/facet-styx/src/schema_validate.rs | 91 ++++++++++++++++++------
 1 file changed, 70 insertions(+), 21 deletions(-)

diff --git a/crates/facet-styx/src/schema_validate.rs b/crates/facet-styx/src/schema_validate.rs
index bd8c7a6..f6ce7d2 100644
--- a/crates/facet-styx/src/schema_validate.rs
+++ b/crates/facet-styx/src/schema_validate.rs
@@ -3,7 +3,7 @@
 //! Validates `styx_tree::Value` instances against `Schema` definitions.
 
 use std::cell::RefCell;
-use std::collections::HashSet;
+use std::collections::{BTreeMap, HashSet};
 
 use styx_tree::{Payload, Value};
 
@@ -79,7 +79,7 @@ use crate::schema_error::{
 };
 use crate::schema_types::{
     DefaultSchema, DeprecatedSchema, Documented, EnumSchema, FlattenSchema, FloatConstraints,
-    IntConstraints, MapSchema, ObjectKey, ObjectSchema, OneOfSchema, OptionalSchema, RawStyx, Schema,
+    IntConstraints, MapSchema, ObjectSchema, OneOfSchema, OptionalSchema, RawStyx, Schema,
     SchemaFile, SeqSchema, StringConstraints, TupleSchema, UnionSchema,
 };
 
@@ -476,11 +476,25 @@ impl<'a> Validator<'a> {
         };
 
         let mut seen_fields: HashSet<Option<&str>> = HashSet::new();
-        // Look up catch-all schema - find any key that is a typed pattern or unit
-        let additional_schema = schema
-            .0
-            .iter()
-            .find_map(|(k, v)| if k.value.tag.is_some() { Some(v) } else { None });
+        // Named fields, including those of flattened types, and the catch-all schema - any key
+        // that is a typed pattern or unit
+        let mut fields = BTreeMap::new();
+        let mut additional_schema = None;
+        if let Err(reason) =
+            self.collect_fields(schema, &mut fields, &mut additional_schema, &mut Vec::new())
+        {
+            result.error(
+                ValidationError::new(
+                    path,
+                    ValidationErrorKind::SchemaError {
+                        reason: reason.clone(),
+                    },
+                    reason,
+                )
+                .with_span(value.span),
+            );
+            return result;
+        }
 
         for entry in &obj.entries {
             let key_opt: Option<&str> = if entry.key.is_unit() {
@@ -510,19 +524,13 @@ impl<'a> Validator<'a> {
 
             seen_fields.insert(key_opt);
 
-            // Look up by Documented<ObjectKey> - for named fields
-            let lookup_key = Documented::new(ObjectKey::named(key_opt.unwrap_or("")));
-            if let Some(field_schema) = schema.0.get(&lookup_key) {
+            if let Some(field_schema) = key_opt.and_then(|key| fields.get(key)) {
                 result.merge(self.validate_value(&entry.value, field_schema, &field_path));
             } else if let Some(add_schema) = additional_schema {
                 result.merge(self.validate_value(&entry.value, add_schema, &field_path));
             } else {
                 // Collect valid field names for error message
-                let valid_fields: Vec<String> = schema
-                    .0
-                    .keys()
-                    .filter_map(|k| k.value.name().map(|s| s.to_string()))
-                    .collect();
+                let valid_fields: Vec<String> = fields.keys().map(|s| s.to_string()).collect();
 
                 // Try to find a similar field name (typo detection)
                 let suggestion = suggest_similar(key_display, &valid_fields).map(String::from);
@@ -543,12 +551,7 @@ impl<'a> Validator<'a> {
         }
 
         // Check for missing required fields
-        for (field_name_doc, field_schema) in &schema.0 {
-            // Skip catch-all fields (typed patterns like @string)
-            let Some(name) = field_name_doc.value.name() else {
-                continue;
-            };
-
+        for (&name, &field_schema) in &fields {
             if !seen_fields.contains(&Some(name)) {
                 // Optional and Default fields are not required
                 if !self.accepts_absence(field_schema, &mut Vec::new()) {
@@ -574,6 +577,52 @@ impl<'a> Validator<'a> {
         result
     }
 
+    /// Collect the fields of an object schema, with those of flattened types in place of the
+    /// entries that flatten them.
+    fn collect_fields<'s>(
+        &'s self,
+        schema: &'s ObjectSchema,
+        fields: &mut BTreeMap<&'s str, &'s Schema>,
+        additional: &mut Option<&'s Schema>,
+        flattening: &mut Vec<*const ObjectSchema>,
+    ) -> Result<(), String> {
+        if flattening.contains(&(schema as *const _)) {
+            return Err("an object type is flattened into itself".into());
+        }
+        flattening.push(schema);
+        for (key, field_schema) in &schema.0 {
+            if let Schema::Flatten(flatten) = field_schema {
+                let Some(inner) = self.resolve_object(&flatten.0.0.value) else {
+                    return Err("only object types can be flattened".into());
+                };
+                self.collect_fields(inner, fields, additional, flattening)?;
+            } else if let Some(name) = key.value.name() {
+                if fields.insert(name, field_schema).is_some() {
+                    return Err(format!("flattened field '{name}' is defined twice"));
+                }
+            } else {
+                additional.get_or_insert(field_schema);
+            }
+        }
+        flattening.pop();
+        Ok(())
+    }
+
+    /// The object schema a schema stands for, if it is one or names one.
+    fn resolve_object<'s>(&'s self, mut schema: &'s Schema) -> Option<&'s ObjectSchema> {
+        // A chain of aliases longer than there are types goes in circles
+        for _ in 0..=self.schema_file.schema.len() {
+            match schema {
+                Schema::Object(object) => return Some(object),
+                Schema::Type { name: Some(name) } => {
+                    schema = self.schema_file.schema.get(&Some(name.clone()))?;
+                }
+                _ => return None,
+            }
+        }
+        None
+    }
+
     /// Can a field with this schema be left out?
     fn accepts_absence<'s>(&'s self, schema: &'s Schema, seen: &mut Vec<&'s str>) -> bool {
         match schema {
-- 
2.43.0


From dbbc81cf1b9a8d31cbff3d950b684c264d413f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:07 +0000
Subject: [PATCH 31/72] fix: numbers and booleans are quoted when they are the
 payload of a tag

---
 crates/styx-format/src/writer.rs | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/crates/styx-format/src/writer.rs b/crates/styx-format/src/writer.rs
index 64e0539..d904ca8 100644
--- a/crates/styx-format/src/writer.rs
+++ b/crates/styx-format/src/writer.rs
@@ -448,42 +448,42 @@ impl StyxWriter {
 
     /// Write a boolean value.
     pub fn write_bool(&mut self, v: bool) {
-        self.before_value();
-        if v {
-            self.out.extend_from_slice(b"true");
-        } else {
-            self.out.extend_from_slice(b"false");
-        }
+        self.write_literal(if v { "true" } else { "false" });
     }
 
     /// Write an i64 value.
     pub fn write_i64(&mut self, v: i64) {
-        self.before_value();
-        self.out.extend_from_slice(v.to_string().as_bytes());
+        self.write_literal(&v.to_string());
     }
 
     /// Write a u64 value.
     pub fn write_u64(&mut self, v: u64) {
-        self.before_value();
-        self.out.extend_from_slice(v.to_string().as_bytes());
+        self.write_literal(&v.to_string());
     }
 
     /// Write an i128 value.
     pub fn write_i128(&mut self, v: i128) {
-        self.before_value();
-        self.out.extend_from_slice(v.to_string().as_bytes());
+        self.write_literal(&v.to_string());
     }
 
     /// Write a u128 value.
     pub fn write_u128(&mut self, v: u128) {
-        self.before_value();
-        self.out.extend_from_slice(v.to_string().as_bytes());
+        self.write_literal(&v.to_string());
     }
 
     /// Write an f64 value.
     pub fn write_f64(&mut self, v: f64) {
+        self.write_literal(&v.to_string());
+    }
+
+    /// Write a number or boolean: bare, except that the payload of a tag must be quoted.
+    fn write_literal(&mut self, text: &str) {
         self.before_value();
-        self.out.extend_from_slice(v.to_string().as_bytes());
+        if std::mem::take(&mut self.force_quote_next_scalar) {
+            self.write_quoted_string(text);
+        } else {
+            self.out.extend_from_slice(text.as_bytes());
+        }
     }
 
     /// Write a string value with appropriate quoting.
-- 
2.43.0


From 8d2f77006b477396e99e8ca85fe78bc9cf842ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:07 +0000
Subject: [PATCH 32/72] fix: generated schemas describe tuples, newtype structs
 and unit structs as they are written

---
 crates/facet-styx/src/schema_gen.rs | 32 +++++++++++++++++------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/crates/facet-styx/src/schema_gen.rs b/crates/facet-styx/src/schema_gen.rs
index 48cc54e..a9d89ff 100644
--- a/crates/facet-styx/src/schema_gen.rs
+++ b/crates/facet-styx/src/schema_gen.rs
@@ -360,6 +360,12 @@ impl SchemaGenerator {
                 let type_id = shape.type_identifier;
                 self.generating.insert(type_id);
                 let result = match user {
+                    // A transparent struct is written as its only field
+                    UserType::Struct(struct_type)
+                        if shape.is_transparent() && struct_type.fields.len() == 1 =>
+                    {
+                        Some(self.shape_to_schema(struct_type.fields[0].shape()))
+                    }
                     UserType::Struct(struct_type) => Some(self.struct_to_schema(struct_type)),
                     UserType::Enum(enum_type) => Some(self.enum_to_schema(enum_type)),
                     _ => None,
@@ -511,6 +517,10 @@ impl SchemaGenerator {
         }
 
         match user {
+            // Tuples have no name to refer to
+            UserType::Struct(st) if st.kind == facet_core::StructKind::Tuple => {
+                self.struct_to_schema(st)
+            }
             // For structs and enums, always emit a type reference and queue for definition
             // This gives all complex types their own named definitions
             UserType::Struct(_) | UserType::Enum(_) => {
@@ -538,20 +548,16 @@ impl SchemaGenerator {
         use facet_core::StructKind;
 
         match struct_type.kind {
-            StructKind::Unit => Schema::Unit,
+            // A unit struct is written as an object without entries
+            StructKind::Unit => Schema::Object(ObjectSchema(HashMap::new())),
             StructKind::Tuple | StructKind::TupleStruct => {
-                if struct_type.fields.len() == 1 {
-                    // Newtype - unwrap
-                    self.shape_to_schema(struct_type.fields[0].shape())
-                } else {
-                    // Tuple with multiple fields - each position has a distinct type
-                    let elements: Vec<Documented<Schema>> = struct_type
-                        .fields
-                        .iter()
-                        .map(|field| Documented::new(self.shape_to_schema(field.shape())))
-                        .collect();
-                    Schema::Tuple(TupleSchema(elements))
-                }
+                // Each position has a distinct type
+                let elements: Vec<Documented<Schema>> = struct_type
+                    .fields
+                    .iter()
+                    .map(|field| Documented::new(self.shape_to_schema(field.shape())))
+                    .collect();
+                Schema::Tuple(TupleSchema(elements))
             }
             StructKind::Struct => {
                 let mut fields: HashMap<Documented<ObjectKey>, Schema> = HashMap::new();
-- 
2.43.0


From 51b4c4b9cf97543fb287454c4ec78a836a18823b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:24 +0000
Subject: [PATCH 33/72] fix: generated schemas inline the fields of flattened
 structs

---
 crates/facet-styx/src/schema_gen.rs | 42 ++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/crates/facet-styx/src/schema_gen.rs b/crates/facet-styx/src/schema_gen.rs
index a9d89ff..36d1976 100644
--- a/crates/facet-styx/src/schema_gen.rs
+++ b/crates/facet-styx/src/schema_gen.rs
@@ -544,6 +544,42 @@ impl SchemaGenerator {
         }
     }
 
+    /// The schema of a flattened field, whose entries become entries of the enclosing struct:
+    /// those of a struct are needed in place, not as a reference to its name.
+    fn flattened_to_schema(&mut self, shape: &'static Shape) -> Schema {
+        if let Def::Option(option) = &shape.def {
+            // None of the entries need to be there
+            return match self.flattened_to_schema(option.t) {
+                Schema::Object(ObjectSchema(fields)) => Schema::Object(ObjectSchema(
+                    fields
+                        .into_iter()
+                        .map(|(key, schema)| match schema {
+                            Schema::Optional(_) | Schema::Default(_) => (key, schema),
+                            _ if key.value.value.is_none() => (key, schema),
+                            _ => (
+                                key,
+                                Schema::Optional(OptionalSchema((Documented::new(Box::new(
+                                    schema,
+                                )),))),
+                            ),
+                        })
+                        .collect(),
+                )),
+                other => other,
+            };
+        }
+        match &shape.ty {
+            Type::User(UserType::Struct(_))
+                if matches!(shape.def, Def::Undefined)
+                    && facet_reflect::get_metadata_container_value_shape(shape).is_none()
+                    && !self.generating.contains(shape.type_identifier) =>
+            {
+                self.generate_type_definition(shape).unwrap_or(Schema::Any)
+            }
+            _ => self.shape_to_schema(shape),
+        }
+    }
+
     fn struct_to_schema(&mut self, struct_type: &facet_core::StructType) -> Schema {
         use facet_core::StructKind;
 
@@ -564,7 +600,11 @@ impl SchemaGenerator {
 
                 for field in struct_type.fields {
                     let field_name = field.effective_name();
-                    let field_schema = self.shape_to_schema(field.shape());
+                    let field_schema = if field.is_flattened() {
+                        self.flattened_to_schema(field.shape())
+                    } else {
+                        self.shape_to_schema(field.shape())
+                    };
 
                     // Extract doc comments from field
                     let doc = if field.doc.is_empty() {
-- 
2.43.0


From edd3b079a86cb949f29b42b16944543f7d2434a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:19 +0000
Subject: [PATCH 34/72] fix: generated schemas keep types with the same
 identifier apart

---
 crates/facet-styx/src/schema_gen.rs | 43 ++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/crates/facet-styx/src/schema_gen.rs b/crates/facet-styx/src/schema_gen.rs
index 36d1976..f1ebd7c 100644
--- a/crates/facet-styx/src/schema_gen.rs
+++ b/crates/facet-styx/src/schema_gen.rs
@@ -4,7 +4,7 @@
 //! that implement `Facet`.
 
 use facet_core::{
-    Def, DefaultSource, Facet, Field, NumericType, PrimitiveType, PtrConst, PtrMut, PtrUninit,
+    ConstTypeId, Def, DefaultSource, Facet, Field, NumericType, PrimitiveType, PtrConst, PtrMut, PtrUninit,
     Shape, ShapeLayout, Type, UserType,
 };
 use facet_reflect::Peek;
@@ -253,7 +253,7 @@ fn generate_schema_file_inner<T: facet_core::Facet<'static>>(
             continue;
         }
 
-        let type_name = pending_shape.type_identifier.to_string();
+        let type_name = generator.type_name(pending_shape);
         // Only add if not already defined
         if !schema_map.contains_key(&Some(type_name.clone()))
             && let Some(type_schema) = generator.generate_type_definition(pending_shape)
@@ -317,9 +317,11 @@ fn schema_to_tag_name(schema: &Schema) -> String {
 /// Internal schema generator that builds typed Schema structs.
 struct SchemaGenerator {
     /// Types currently being generated (for cycle detection)
-    generating: HashSet<&'static str>,
+    generating: HashSet<ConstTypeId>,
     /// Types that have been queued for definition
-    queued_types: HashSet<&'static str>,
+    queued_types: HashSet<ConstTypeId>,
+    /// Names of the types referred to; different types never share one
+    names: HashMap<ConstTypeId, String>,
     /// Types pending generation (shapes to process)
     pending_types: Vec<&'static Shape>,
 }
@@ -329,6 +331,7 @@ impl SchemaGenerator {
         Self {
             generating: HashSet::new(),
             queued_types: HashSet::new(),
+            names: HashMap::new(),
             pending_types: Vec::new(),
         }
     }
@@ -340,13 +343,27 @@ impl SchemaGenerator {
             return;
         }
 
-        let type_id = shape.type_identifier;
-        if !self.queued_types.contains(type_id) {
-            self.queued_types.insert(type_id);
+        if self.queued_types.insert(shape.id) {
             self.pending_types.push(shape);
         }
     }
 
+    /// The name of a type in the schema: its identifier, made unique where types with the same
+    /// identifier (from different modules, or with different generic arguments) meet.
+    fn type_name(&mut self, shape: &'static Shape) -> String {
+        if let Some(name) = self.names.get(&shape.id) {
+            return name.clone();
+        }
+        let mut name = shape.type_identifier.to_string();
+        let mut n = 1;
+        while self.names.values().any(|used| *used == name) {
+            n += 1;
+            name = format!("{}-{n}", shape.type_identifier);
+        }
+        self.names.insert(shape.id, name.clone());
+        name
+    }
+
     /// Take the next pending type to generate, if any.
     fn take_pending(&mut self) -> Option<&'static Shape> {
         self.pending_types.pop()
@@ -357,7 +374,7 @@ impl SchemaGenerator {
     fn generate_type_definition(&mut self, shape: &'static Shape) -> Option<Schema> {
         match &shape.ty {
             Type::User(user) => {
-                let type_id = shape.type_identifier;
+                let type_id = shape.id;
                 self.generating.insert(type_id);
                 let result = match user {
                     // A transparent struct is written as its only field
@@ -370,7 +387,7 @@ impl SchemaGenerator {
                     UserType::Enum(enum_type) => Some(self.enum_to_schema(enum_type)),
                     _ => None,
                 };
-                self.generating.remove(type_id);
+                self.generating.remove(&type_id);
                 result
             }
             _ => None,
@@ -509,10 +526,10 @@ impl SchemaGenerator {
         }
 
         // Cycle detection - if we're already generating this type, return a reference
-        if self.generating.contains(type_id) {
+        if self.generating.contains(&shape.id) {
             self.queue_type(shape);
             return Schema::Type {
-                name: Some(type_id.to_string()),
+                name: Some(self.type_name(shape)),
             };
         }
 
@@ -526,7 +543,7 @@ impl SchemaGenerator {
             UserType::Struct(_) | UserType::Enum(_) => {
                 self.queue_type(shape);
                 Schema::Type {
-                    name: Some(type_id.to_string()),
+                    name: Some(self.type_name(shape)),
                 }
             }
             UserType::Union(_) => Schema::Any,
@@ -572,7 +589,7 @@ impl SchemaGenerator {
             Type::User(UserType::Struct(_))
                 if matches!(shape.def, Def::Undefined)
                     && facet_reflect::get_metadata_container_value_shape(shape).is_none()
-                    && !self.generating.contains(shape.type_identifier) =>
+                    && !self.generating.contains(&shape.id) =>
             {
                 self.generate_type_definition(shape).unwrap_or(Schema::Any)
             }
-- 
2.43.0


From 2ba354db84af6c0d1180c3991d6052603a56fb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:41 +0000
Subject: [PATCH 35/72] fix: generated schemas describe results as they are
 written

---
 crates/facet-styx/src/schema_gen.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/crates/facet-styx/src/schema_gen.rs b/crates/facet-styx/src/schema_gen.rs
index f1ebd7c..ed5d1b1 100644
--- a/crates/facet-styx/src/schema_gen.rs
+++ b/crates/facet-styx/src/schema_gen.rs
@@ -4,8 +4,8 @@
 //! that implement `Facet`.
 
 use facet_core::{
-    ConstTypeId, Def, DefaultSource, Facet, Field, NumericType, PrimitiveType, PtrConst, PtrMut, PtrUninit,
-    Shape, ShapeLayout, Type, UserType,
+    ConstTypeId, Def, DefaultSource, Facet, Field, NumericType, PrimitiveType, PtrConst, PtrMut,
+    PtrUninit, Shape, ShapeLayout, Type, UserType,
 };
 use facet_reflect::Peek;
 use std::collections::{HashMap, HashSet};
@@ -16,7 +16,7 @@ use std::ptr::NonNull;
 use crate::peek_to_string_expr;
 use crate::schema_types::{
     DefaultSchema, Documented, EnumSchema, LspExtensionConfig, MapSchema, Meta, ObjectKey,
-    ObjectSchema, OptionalSchema, RawStyx, Schema, SchemaFile, SeqSchema, TupleSchema,
+    ObjectSchema, OptionalSchema, RawStyx, Schema, SchemaFile, SeqSchema, TupleSchema, UnionSchema,
 };
 
 /// Strip exactly one leading space from a doc line if present.
@@ -430,10 +430,12 @@ impl SchemaGenerator {
             Def::Result(result_def) => {
                 let ok = self.shape_to_schema(result_def.t);
                 let err = self.shape_to_schema(result_def.e);
-                let mut variants = HashMap::new();
-                variants.insert(Documented::new("ok".to_string()), ok);
-                variants.insert(Documented::new("err".to_string()), err);
-                Schema::Enum(EnumSchema(variants))
+                // A result is written as an object with one entry
+                let side = |name: &str, schema| {
+                    let key = Documented::new(ObjectKey::named(name));
+                    Documented::new(Schema::Object(ObjectSchema(HashMap::from([(key, schema)]))))
+                };
+                Schema::Union(UnionSchema(vec![side("Ok", ok), side("Err", err)]))
             }
             Def::Pointer(ptr_def) => {
                 if let Some(pointee) = ptr_def.pointee {
-- 
2.43.0


From a6c9650a67a59f817a22ac64bc400093c14e459f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:32 +0000
Subject: [PATCH 36/72] fix: integers wider than 128 bits validate as integers

---
 crates/facet-styx/src/schema_validate.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/crates/facet-styx/src/schema_validate.rs b/crates/facet-styx/src/schema_validate.rs
index f6ce7d2..abde1c9 100644
--- a/crates/facet-styx/src/schema_validate.rs
+++ b/crates/facet-styx/src/schema_validate.rs
@@ -55,6 +55,21 @@ fn suggest_similar<'a>(unknown: &str, valid: &'a [String]) -> Option<&'a str> {
         .map(|(v, _)| v)
 }
 
+/// Parse an integer. Integers have arbitrary precision: one that is out of
+/// range for `i128` is clamped to it, to be compared with constraints.
+fn parse_integer(text: &str) -> Option<i128> {
+    let digits = text.strip_prefix(['-', '+']).unwrap_or(text);
+    if digits.is_empty() || !digits.bytes().all(|b| b.is_ascii_digit()) {
+        return None;
+    }
+    // All that is left to fail is the range
+    Some(text.parse::<i128>().unwrap_or(if text.starts_with('-') {
+        i128::MIN
+    } else {
+        i128::MAX
+    }))
+}
+
 /// Is this a float as schemas define it (JSON number syntax)?
 fn is_float_syntax(text: &str) -> bool {
     let digits = |s: &str| !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit());
@@ -268,9 +283,9 @@ impl<'a> Validator<'a> {
             }
         };
 
-        let parsed = match text.parse::<i128>() {
-            Ok(n) => n,
-            Err(_) => {
+        let parsed = match parse_integer(text) {
+            Some(n) => n,
+            None => {
                 result.error(
                     ValidationError::new(
                         path,
@@ -974,7 +989,7 @@ impl<'a> Validator<'a> {
                 // @string accepts any scalar
                 Schema::String(_) => true,
                 // @int accepts scalars that parse as integers
-                Schema::Int(_) => text.parse::<i128>().is_ok(),
+                Schema::Int(_) => parse_integer(text).is_some(),
                 // @float accepts scalars that parse as floats
                 Schema::Float(_) => is_float_syntax(text),
                 // @bool accepts "true" or "false"
-- 
2.43.0


From d51be83b41374bfe1b32b04fc81c23cdaa9d6e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:23 +0000
Subject: [PATCH 37/72] fix: content after an expression is an error

---
 crates/styx-parse/src/parser/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/styx-parse/src/parser/mod.rs b/crates/styx-parse/src/parser/mod.rs
index 814540e..009b733 100644
--- a/crates/styx-parse/src/parser/mod.rs
+++ b/crates/styx-parse/src/parser/mod.rs
@@ -148,7 +148,7 @@ impl<'src> Parser<'src> {
                 })
             }
             ParserState::BeforeExpression => self.advance_expression(),
-            ParserState::AfterExpression => None,
+            ParserState::AfterExpression => self.check_trailing_content(),
             ParserState::AfterDocument => self.check_trailing_content(),
             ParserState::DocumentRoot { .. } => self.advance_document_root(),
             ParserState::InObject { .. } => self.advance_in_object(),
@@ -177,7 +177,7 @@ impl<'src> Parser<'src> {
         }
     }
 
-    /// Check for trailing content after explicit root object.
+    /// Check for trailing content after an explicit root object or an expression.
     /// Returns an error event if there's non-whitespace content, otherwise None.
     fn check_trailing_content(&mut self) -> Option<Event<'src>> {
         loop {
-- 
2.43.0


From b9ccda6a9ef1211289a1185202e24c59aea8884c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:23 +0000
Subject: [PATCH 38/72] fix: serde_styx reads documents as the parser does

---
 crates/serde_styx/src/de.rs  | 764 +++++++++++++++--------------------
 crates/serde_styx/src/lib.rs |   4 +-
 2 files changed, 326 insertions(+), 442 deletions(-)

diff --git a/crates/serde_styx/src/de.rs b/crates/serde_styx/src/de.rs
index 8527351..dbd4397 100644
--- a/crates/serde_styx/src/de.rs
+++ b/crates/serde_styx/src/de.rs
@@ -1,317 +1,243 @@
 //! Serde deserializer for Styx.
 
-use serde::de::{self, Visitor};
-use styx_parse::{ScalarKind, Span, Token, TokenKind, Tokenizer};
+use std::borrow::Cow;
+use std::collections::VecDeque;
+
+use serde::de::value::{CowStrDeserializer, StrDeserializer};
+use serde::de::{self, IntoDeserializer, Visitor};
+use styx_parse::{EventKind, Parser, ScalarKind};
 
 use crate::error::{Error, Result};
 
 /// Styx deserializer implementing serde::Deserializer.
+///
+/// Reads the events of [`styx_parse::Parser`], so that a document means the
+/// same here as everywhere else.
 pub struct Deserializer<'de> {
-    lexer: Tokenizer<'de>,
-    /// Peeked token (if any).
-    peeked_token: Option<Token<'de>>,
-    /// Current span for error reporting.
-    current_span: Option<Span>,
-    /// Whether we've started the implicit root struct.
-    root_started: bool,
+    source: &'de str,
+    /// The events that are left, once reading has started.
+    events: Option<VecDeque<EventKind<'de>>>,
+}
+
+/// Collect the events that matter to values, or the first error.
+fn events<'de>(parser: Parser<'de>) -> Result<VecDeque<EventKind<'de>>> {
+    let mut events = VecDeque::new();
+    for event in parser.parse_to_vec() {
+        match event.kind {
+            EventKind::Error { kind } => {
+                return Err(Error::new(format!(
+                    "{kind} at {}..{}",
+                    event.span.start, event.span.end
+                )));
+            }
+            EventKind::DocumentStart
+            | EventKind::DocumentEnd
+            | EventKind::EntryStart
+            | EventKind::EntryEnd
+            | EventKind::Comment { .. }
+            | EventKind::DocComment { .. } => {}
+            kind => events.push_back(kind),
+        }
+    }
+    Ok(events)
 }
 
 impl<'de> Deserializer<'de> {
     /// Create a new deserializer for the given source.
     pub fn new(source: &'de str) -> Self {
         Self {
-            lexer: Tokenizer::new(source),
-            peeked_token: None,
-            current_span: None,
-            root_started: false,
+            source,
+            events: None,
         }
     }
 
-    /// Peek at the next token without consuming it.
-    fn peek_token(&mut self) -> Option<&Token<'de>> {
-        if self.peeked_token.is_none() {
-            loop {
-                let token = self.lexer.next_token();
-                match token.kind {
-                    TokenKind::Whitespace | TokenKind::LineComment | TokenKind::Newline => continue,
-                    TokenKind::Eof => {
-                        self.peeked_token = Some(token);
-                        break;
-                    }
-                    _ => {
-                        self.peeked_token = Some(token);
-                        break;
-                    }
-                }
+    /// Start reading the source as a document.
+    fn start_document(&mut self) -> Result<()> {
+        if self.events.is_none() {
+            let mut events = events(Parser::new(self.source))?;
+            if events.is_empty() {
+                // A document without entries is an empty object
+                events.extend([EventKind::ObjectStart, EventKind::ObjectEnd]);
             }
+            self.events = Some(events);
         }
-        self.peeked_token.as_ref()
+        Ok(())
     }
 
-    /// Consume the next token.
-    fn next_token(&mut self) -> Token<'de> {
-        if let Some(token) = self.peeked_token.take() {
-            self.current_span = Some(token.span);
-            return token;
-        }
-        loop {
-            let token = self.lexer.next_token();
-            match token.kind {
-                TokenKind::Whitespace | TokenKind::LineComment | TokenKind::Newline => continue,
-                _ => {
-                    self.current_span = Some(token.span);
-                    return token;
-                }
+    /// The events that are left. The source is a single value if possible,
+    /// unless it has been started as a document.
+    fn events(&mut self) -> Result<&mut VecDeque<EventKind<'de>>> {
+        if self.events.is_none() {
+            let value = events(Parser::new_expr(self.source)).ok();
+            match value.filter(|events| value_len(events) == events.len()) {
+                Some(value) => self.events = Some(value),
+                None => self.start_document()?,
             }
         }
+        Ok(self.events.get_or_insert_default())
     }
 
-    /// Skip commas between entries.
-    fn skip_comma(&mut self) {
-        if let Some(token) = self.peek_token()
-            && token.kind == TokenKind::Comma
-        {
-            self.next_token();
-        }
+    /// Peek at the next event without consuming it.
+    fn peek(&mut self) -> Result<Option<&EventKind<'de>>> {
+        Ok(self.events()?.front())
     }
 
-    /// Parse a scalar value.
-    fn parse_scalar(&self, text: &'de str, kind: ScalarKind) -> ScalarValue<'de> {
-        match kind {
-            ScalarKind::Bare => {
-                if text == "true" {
-                    ScalarValue::Bool(true)
-                } else if text == "false" {
-                    ScalarValue::Bool(false)
-                } else if text == "null" {
-                    ScalarValue::Null
-                } else if let Ok(n) = text.parse::<i64>() {
-                    ScalarValue::I64(n)
-                } else if let Ok(n) = text.parse::<u64>() {
-                    ScalarValue::U64(n)
-                } else if let Ok(n) = text.parse::<f64>() {
-                    ScalarValue::F64(n)
-                } else {
-                    ScalarValue::Str(text)
-                }
-            }
-            ScalarKind::Quoted => {
-                let inner = self.unescape_quoted(text);
-                ScalarValue::String(inner)
-            }
-            ScalarKind::Raw | ScalarKind::Heredoc => ScalarValue::Str(text),
-        }
+    /// Consume the next event.
+    fn next(&mut self) -> Result<EventKind<'de>> {
+        self.events()?
+            .pop_front()
+            .ok_or_else(|| Error::new("unexpected end of input"))
     }
 
-    /// Unescape a quoted string.
-    fn unescape_quoted(&self, text: &'de str) -> String {
-        // Remove surrounding quotes
-        let inner = if text.starts_with('"') && text.ends_with('"') && text.len() >= 2 {
-            &text[1..text.len() - 1]
+    /// Consume the next event, which must be the given one.
+    fn expect(&mut self, event: EventKind<'de>, message: &str) -> Result<()> {
+        if self.next()? == event {
+            Ok(())
         } else {
-            text
-        };
-
-        styx_format::unescape_quoted(inner).into_owned()
-    }
-
-    fn error(&self, msg: impl Into<String>) -> Error {
-        Error::new(msg)
-    }
-}
-
-/// Internal scalar value representation.
-enum ScalarValue<'de> {
-    Null,
-    Bool(bool),
-    I64(i64),
-    U64(u64),
-    F64(f64),
-    Str(&'de str),
-    String(String),
-}
-
-impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
-    type Error = Error;
-
-    fn deserialize_any<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        let token = self.peek_token().cloned();
-        match token {
-            Some(token) => match token.kind {
-                TokenKind::LBrace => self.deserialize_map(visitor),
-                TokenKind::LParen => self.deserialize_seq(visitor),
-                TokenKind::At => {
-                    self.next_token();
-                    // Check if it's a tag or unit
-                    if let Some(next) = self.peek_token() {
-                        if next.kind == TokenKind::BareScalar && next.span.start == token.span.end {
-                            // It's a tag - treat as enum
-                            let name_token = self.next_token();
-                            visitor.visit_enum(EnumAccess {
-                                de: self,
-                                variant: name_token.text,
-                            })
-                        } else {
-                            visitor.visit_unit()
-                        }
-                    } else {
-                        visitor.visit_unit()
-                    }
-                }
-                TokenKind::BareScalar => {
-                    let token = self.next_token();
-                    match self.parse_scalar(token.text, ScalarKind::Bare) {
-                        ScalarValue::Null => visitor.visit_unit(),
-                        ScalarValue::Bool(v) => visitor.visit_bool(v),
-                        ScalarValue::I64(v) => visitor.visit_i64(v),
-                        ScalarValue::U64(v) => visitor.visit_u64(v),
-                        ScalarValue::F64(v) => visitor.visit_f64(v),
-                        ScalarValue::Str(s) => visitor.visit_borrowed_str(s),
-                        ScalarValue::String(s) => visitor.visit_string(s),
-                    }
-                }
-                TokenKind::QuotedScalar => {
-                    let token = self.next_token();
-                    let s = self.unescape_quoted(token.text);
-                    visitor.visit_string(s)
-                }
-                TokenKind::RawScalar => {
-                    let token = self.next_token();
-                    // Extract content from r#"..."#
-                    let text = token.text;
-                    let start = text.find('"').map(|i| i + 1).unwrap_or(0);
-                    let end = text.rfind('"').unwrap_or(text.len());
-                    visitor.visit_borrowed_str(&text[start..end])
-                }
-                TokenKind::HeredocStart => {
-                    self.next_token();
-                    let mut content = String::new();
-                    loop {
-                        let next = self.next_token();
-                        match next.kind {
-                            TokenKind::HeredocContent => content.push_str(next.text),
-                            TokenKind::HeredocEnd => break,
-                            _ => break,
-                        }
-                    }
-                    visitor.visit_string(content)
-                }
-                TokenKind::Eof => {
-                    // At EOF, try to deserialize as empty struct if at root
-                    if !self.root_started {
-                        self.root_started = true;
-                        visitor.visit_map(MapAccess { de: self })
-                    } else {
-                        Err(self.error("unexpected end of input"))
-                    }
-                }
-                _ => {
-                    // At root level, start implicit struct
-                    if !self.root_started {
-                        self.root_started = true;
-                        visitor.visit_map(MapAccess { de: self })
-                    } else {
-                        Err(self.error(format!("unexpected token: {:?}", token.kind)))
-                    }
-                }
-            },
-            None => Err(self.error("unexpected end of input")),
+            Err(Error::new(message))
         }
     }
 
-    fn deserialize_bool<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        let token = self.next_token();
-        match token.text {
-            "true" => visitor.visit_bool(true),
-            "false" => visitor.visit_bool(false),
-            _ => Err(self.error(format!("expected bool, got {:?}", token.text))),
+    /// Check that everything has been read.
+    pub(crate) fn end(&mut self) -> Result<()> {
+        match self.peek()? {
+            None => Ok(()),
+            Some(_) => Err(Error::new("unexpected content after the value")),
         }
     }
 
-    fn deserialize_i8<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        self.deserialize_i64(visitor)
+    /// Consume a scalar.
+    fn scalar(&mut self, expected: &str) -> Result<Cow<'de, str>> {
+        match self.next()? {
+            EventKind::Scalar { value, .. } => Ok(value),
+            _ => Err(Error::new(format!("expected {expected}"))),
+        }
     }
 
-    fn deserialize_i16<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        self.deserialize_i64(visitor)
+    /// Consume a scalar and parse it.
+    fn parse<T: std::str::FromStr>(&mut self, expected: &str) -> Result<T> {
+        parse(&self.scalar(expected)?, expected)
     }
 
-    fn deserialize_i32<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        self.deserialize_i64(visitor)
+    fn read_seq<V: Visitor<'de>>(&mut self, visitor: V) -> Result<V::Value> {
+        let mut ended = false;
+        let value = visitor.visit_seq(SeqAccess {
+            de: self,
+            ended: &mut ended,
+        })?;
+        if !ended {
+            self.expect(EventKind::SequenceEnd, "too many elements in sequence")?;
+        }
+        Ok(value)
     }
 
-    fn deserialize_i64<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        let token = self.next_token();
-        let n: i64 = token
-            .text
-            .parse()
-            .map_err(|_| self.error(format!("expected integer, got {:?}", token.text)))?;
-        visitor.visit_i64(n)
+    fn read_map<V: Visitor<'de>>(&mut self, visitor: V) -> Result<V::Value> {
+        let mut ended = false;
+        let value = visitor.visit_map(MapAccess {
+            de: self,
+            ended: &mut ended,
+        })?;
+        if !ended {
+            self.expect(EventKind::ObjectEnd, "too many entries in object")?;
+        }
+        Ok(value)
     }
+}
 
-    fn deserialize_u8<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        self.deserialize_u64(visitor)
+/// The number of events of the first value.
+fn value_len(events: &VecDeque<EventKind<'_>>) -> usize {
+    let mut depth = 0;
+    for (i, event) in events.iter().enumerate() {
+        match event {
+            EventKind::ObjectStart | EventKind::SequenceStart | EventKind::TagStart { .. } => {
+                depth += 1
+            }
+            EventKind::ObjectEnd | EventKind::SequenceEnd | EventKind::TagEnd => depth -= 1,
+            _ => {}
+        }
+        if depth == 0 {
+            return i + 1;
+        }
     }
+    0
+}
 
-    fn deserialize_u16<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        self.deserialize_u64(visitor)
-    }
+fn parse<T: std::str::FromStr>(text: &str, expected: &str) -> Result<T> {
+    text.parse()
+        .map_err(|_| Error::new(format!("expected {expected}, got {text:?}")))
+}
 
-    fn deserialize_u32<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        self.deserialize_u64(visitor)
+fn visit_text<'de, V: Visitor<'de>>(text: Cow<'de, str>, visitor: V) -> Result<V::Value> {
+    match text {
+        Cow::Borrowed(text) => visitor.visit_borrowed_str(text),
+        Cow::Owned(text) => visitor.visit_string(text),
     }
+}
 
-    fn deserialize_u64<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        let token = self.next_token();
-        let n: u64 = token
-            .text
-            .parse()
-            .map_err(|_| self.error(format!("expected unsigned integer, got {:?}", token.text)))?;
-        visitor.visit_u64(n)
-    }
+macro_rules! deserialize_parsed {
+    ($($method:ident $visit:ident $expected:literal)*) => {
+        $(fn $method<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
+            visitor.$visit(self.parse($expected)?)
+        })*
+    };
+}
 
-    fn deserialize_f32<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        self.deserialize_f64(visitor)
-    }
+impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
+    type Error = Error;
 
-    fn deserialize_f64<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        let token = self.next_token();
-        let n: f64 = token
-            .text
-            .parse()
-            .map_err(|_| self.error(format!("expected float, got {:?}", token.text)))?;
-        visitor.visit_f64(n)
+    fn deserialize_any<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
+        match self.next()? {
+            EventKind::ObjectStart => self.read_map(visitor),
+            EventKind::SequenceStart => self.read_seq(visitor),
+            EventKind::TagStart { name } => visitor.visit_enum(EnumAccess {
+                de: self,
+                variant: name,
+            }),
+            EventKind::Unit => visitor.visit_unit(),
+            EventKind::Scalar {
+                value,
+                kind: ScalarKind::Bare,
+            } => {
+                if value == "true" {
+                    visitor.visit_bool(true)
+                } else if value == "false" {
+                    visitor.visit_bool(false)
+                } else if value == "null" {
+                    visitor.visit_unit()
+                } else if let Ok(n) = value.parse::<i64>() {
+                    visitor.visit_i64(n)
+                } else if let Ok(n) = value.parse::<u64>() {
+                    visitor.visit_u64(n)
+                } else if let Ok(n) = value.parse::<f64>() {
+                    visitor.visit_f64(n)
+                } else {
+                    visit_text(value, visitor)
+                }
+            }
+            EventKind::Scalar { value, .. } => visit_text(value, visitor),
+            _ => Err(Error::new("expected a value")),
+        }
     }
 
-    fn deserialize_char<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        let token = self.next_token();
-        let s = if token.kind == TokenKind::QuotedScalar {
-            self.unescape_quoted(token.text)
-        } else {
-            token.text.to_string()
-        };
-        let c = s
-            .chars()
-            .next()
-            .ok_or_else(|| self.error("expected char"))?;
-        visitor.visit_char(c)
+    deserialize_parsed! {
+        deserialize_bool visit_bool "bool"
+        deserialize_i8 visit_i8 "integer"
+        deserialize_i16 visit_i16 "integer"
+        deserialize_i32 visit_i32 "integer"
+        deserialize_i64 visit_i64 "integer"
+        deserialize_i128 visit_i128 "integer"
+        deserialize_u8 visit_u8 "unsigned integer"
+        deserialize_u16 visit_u16 "unsigned integer"
+        deserialize_u32 visit_u32 "unsigned integer"
+        deserialize_u64 visit_u64 "unsigned integer"
+        deserialize_u128 visit_u128 "unsigned integer"
+        deserialize_f32 visit_f32 "float"
+        deserialize_f64 visit_f64 "float"
+        deserialize_char visit_char "char"
     }
 
     fn deserialize_str<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        let token = self.next_token();
-        match token.kind {
-            TokenKind::QuotedScalar => {
-                let s = self.unescape_quoted(token.text);
-                visitor.visit_string(s)
-            }
-            TokenKind::RawScalar => {
-                let text = token.text;
-                let start = text.find('"').map(|i| i + 1).unwrap_or(0);
-                let end = text.rfind('"').unwrap_or(text.len());
-                visitor.visit_borrowed_str(&text[start..end])
-            }
-            _ => visitor.visit_borrowed_str(token.text),
-        }
+        visit_text(self.scalar("string")?, visitor)
     }
 
     fn deserialize_string<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
@@ -320,21 +246,16 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
 
     fn deserialize_bytes<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
         // Decode hex string
-        let token = self.next_token();
-        let text = if token.kind == TokenKind::QuotedScalar {
-            &token.text[1..token.text.len() - 1]
-        } else {
-            token.text
-        };
-
+        let text = self.scalar("bytes")?;
         let mut bytes = Vec::with_capacity(text.len() / 2);
-        let mut chars = text.chars();
-        while let (Some(a), Some(b)) = (chars.next(), chars.next()) {
-            let byte = u8::from_str_radix(&format!("{}{}", a, b), 16)
-                .map_err(|_| self.error("invalid hex in bytes"))?;
-            bytes.push(byte);
+        let mut digits = text.chars().map(|c| c.to_digit(16));
+        while let Some(high) = digits.next() {
+            match (high, digits.next().flatten()) {
+                (Some(high), Some(low)) => bytes.push((high * 16 + low) as u8),
+                _ => return Err(Error::new("invalid hex in bytes")),
+            }
         }
-        visitor.visit_bytes(&bytes)
+        visitor.visit_byte_buf(bytes)
     }
 
     fn deserialize_byte_buf<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
@@ -342,35 +263,16 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
     }
 
     fn deserialize_option<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        if let Some(token) = self.peek_token()
-            && token.kind == TokenKind::At
-        {
-            // Check if it's just @ (unit/none) or @tag
-            let token = self.next_token();
-            if let Some(next) = self.peek_token()
-                && next.kind == TokenKind::BareScalar
-                && next.span.start == token.span.end
-            {
-                // It's a tag - put back and deserialize as Some
-                self.peeked_token = Some(Token {
-                    kind: TokenKind::At,
-                    text: "@",
-                    span: token.span,
-                });
-                return visitor.visit_some(self);
-            }
+        if self.peek()? == Some(&EventKind::Unit) {
+            self.next()?;
             return visitor.visit_none();
         }
         visitor.visit_some(self)
     }
 
     fn deserialize_unit<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        let token = self.next_token();
-        if token.kind == TokenKind::At {
-            visitor.visit_unit()
-        } else {
-            Err(self.error("expected unit (@)"))
-        }
+        self.expect(EventKind::Unit, "expected unit (@)")?;
+        visitor.visit_unit()
     }
 
     fn deserialize_unit_struct<V: Visitor<'de>>(
@@ -390,11 +292,8 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
     }
 
     fn deserialize_seq<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        let token = self.next_token();
-        if token.kind != TokenKind::LParen {
-            return Err(self.error("expected sequence ("));
-        }
-        visitor.visit_seq(SeqAccess { de: self })
+        self.expect(EventKind::SequenceStart, "expected sequence (")?;
+        self.read_seq(visitor)
     }
 
     fn deserialize_tuple<V: Visitor<'de>>(self, _len: usize, visitor: V) -> Result<V::Value> {
@@ -411,12 +310,9 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
     }
 
     fn deserialize_map<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        if let Some(token) = self.peek_token()
-            && token.kind == TokenKind::LBrace
-        {
-            self.next_token();
-        }
-        visitor.visit_map(MapAccess { de: self })
+        self.start_document()?;
+        self.expect(EventKind::ObjectStart, "expected object {")?;
+        self.read_map(visitor)
     }
 
     fn deserialize_struct<V: Visitor<'de>>(
@@ -425,19 +321,7 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
         _fields: &'static [&'static str],
         visitor: V,
     ) -> Result<V::Value> {
-        // Check if we're at root level (no braces) or explicit struct
-        if let Some(token) = self.peek_token()
-            && token.kind == TokenKind::LBrace
-        {
-            self.next_token();
-            return visitor.visit_map(MapAccess { de: self });
-        }
-
-        // Implicit root struct
-        if !self.root_started {
-            self.root_started = true;
-        }
-        visitor.visit_map(MapAccess { de: self })
+        self.deserialize_map(visitor)
     }
 
     fn deserialize_enum<V: Visitor<'de>>(
@@ -446,106 +330,37 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
         _variants: &'static [&'static str],
         visitor: V,
     ) -> Result<V::Value> {
-        let token = self.next_token();
-        if token.kind == TokenKind::At {
-            // Tagged enum
-            let name_token = self.next_token();
-            if name_token.kind != TokenKind::BareScalar {
-                return Err(self.error("expected variant name after @"));
-            }
-            visitor.visit_enum(EnumAccess {
+        match self.next()? {
+            EventKind::TagStart { name } => visitor.visit_enum(EnumAccess {
                 de: self,
-                variant: name_token.text,
-            })
-        } else if token.kind == TokenKind::BareScalar {
+                variant: name,
+            }),
             // Untagged string variant
-            visitor.visit_enum(EnumAccess {
-                de: self,
-                variant: token.text,
-            })
-        } else {
-            Err(self.error("expected enum variant"))
+            EventKind::Scalar {
+                value,
+                kind: ScalarKind::Bare,
+            } => visitor.visit_enum(CowStrDeserializer::new(value)),
+            _ => Err(Error::new("expected enum variant")),
         }
     }
 
     fn deserialize_identifier<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
-        let token = self.next_token();
-        match token.kind {
-            TokenKind::BareScalar => visitor.visit_borrowed_str(token.text),
-            TokenKind::QuotedScalar => {
-                let s = self.unescape_quoted(token.text);
-                visitor.visit_string(s)
-            }
-            _ => Err(self.error("expected identifier")),
-        }
+        self.deserialize_str(visitor)
     }
 
     fn deserialize_ignored_any<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
         // Skip the next value
-        self.skip_value()?;
+        let events = self.events()?;
+        let len = value_len(events);
+        events.drain(..len);
         visitor.visit_unit()
     }
 }
 
-impl<'de> Deserializer<'de> {
-    fn skip_value(&mut self) -> Result<()> {
-        let token = self.next_token();
-        match token.kind {
-            TokenKind::LBrace => {
-                let mut depth = 1;
-                while depth > 0 {
-                    let t = self.next_token();
-                    match t.kind {
-                        TokenKind::LBrace => depth += 1,
-                        TokenKind::RBrace => depth -= 1,
-                        TokenKind::Eof => break,
-                        _ => {}
-                    }
-                }
-            }
-            TokenKind::LParen => {
-                let mut depth = 1;
-                while depth > 0 {
-                    let t = self.next_token();
-                    match t.kind {
-                        TokenKind::LParen => depth += 1,
-                        TokenKind::RParen => depth -= 1,
-                        TokenKind::Eof => break,
-                        _ => {}
-                    }
-                }
-            }
-            TokenKind::At => {
-                // Could be unit or tag with value
-                if let Some(next) = self.peek_token()
-                    && next.kind == TokenKind::BareScalar
-                {
-                    self.next_token();
-                    // Check for payload
-                    if let Some(next) = self.peek_token()
-                        && !matches!(
-                            next.kind,
-                            TokenKind::RBrace
-                                | TokenKind::RParen
-                                | TokenKind::Comma
-                                | TokenKind::Eof
-                        )
-                    {
-                        self.skip_value()?;
-                    }
-                }
-            }
-            _ => {
-                // Scalar - already consumed
-            }
-        }
-        Ok(())
-    }
-}
-
 /// Sequence access for serde.
 struct SeqAccess<'a, 'de> {
     de: &'a mut Deserializer<'de>,
+    ended: &'a mut bool,
 }
 
 impl<'a, 'de> de::SeqAccess<'de> for SeqAccess<'a, 'de> {
@@ -555,18 +370,13 @@ impl<'a, 'de> de::SeqAccess<'de> for SeqAccess<'a, 'de> {
     where
         T: de::DeserializeSeed<'de>,
     {
-        self.de.skip_comma();
-
-        if let Some(token) = self.de.peek_token() {
-            if token.kind == TokenKind::RParen {
-                self.de.next_token();
-                return Ok(None);
-            }
-            if token.kind == TokenKind::Eof {
-                return Err(self.de.error("unexpected end of sequence"));
-            }
+        if self.de.peek()? == Some(&EventKind::SequenceEnd) {
+            self.de.next()?;
+            *self.ended = true;
+        }
+        if *self.ended {
+            return Ok(None);
         }
-
         seed.deserialize(&mut *self.de).map(Some)
     }
 }
@@ -574,6 +384,7 @@ impl<'a, 'de> de::SeqAccess<'de> for SeqAccess<'a, 'de> {
 /// Map access for serde.
 struct MapAccess<'a, 'de> {
     de: &'a mut Deserializer<'de>,
+    ended: &'a mut bool,
 }
 
 impl<'a, 'de> de::MapAccess<'de> for MapAccess<'a, 'de> {
@@ -583,31 +394,25 @@ impl<'a, 'de> de::MapAccess<'de> for MapAccess<'a, 'de> {
     where
         K: de::DeserializeSeed<'de>,
     {
-        self.de.skip_comma();
-
-        let token_kind = self.de.peek_token().map(|t| t.kind);
-        match token_kind {
-            Some(TokenKind::RBrace) => {
-                self.de.next_token();
-                return Ok(None);
-            }
-            Some(TokenKind::Eof) | None => {
-                return Ok(None);
-            }
-            Some(TokenKind::BareScalar) | Some(TokenKind::QuotedScalar) => {
-                // This is a key
-            }
-            Some(TokenKind::DocComment) => {
-                // Skip doc comments
-                self.de.next_token();
-                return self.next_key_seed(seed);
+        if *self.ended {
+            return Ok(None);
+        }
+        match self.de.next()? {
+            EventKind::Key { tag, payload, .. } => {
+                let text = match (tag, payload) {
+                    (None, Some(payload)) => payload,
+                    (None, None) => Cow::Borrowed("@"),
+                    (Some(tag), payload) => {
+                        Cow::Owned(format!("@{tag}{}", payload.unwrap_or_default()))
+                    }
+                };
+                seed.deserialize(KeyDeserializer { text }).map(Some)
             }
-            Some(kind) => {
-                return Err(self.de.error(format!("expected key, got {:?}", kind)));
+            _ => {
+                *self.ended = true;
+                Ok(None)
             }
         }
-
-        seed.deserialize(&mut *self.de).map(Some)
     }
 
     fn next_value_seed<V>(&mut self, seed: V) -> Result<V::Value>
@@ -618,6 +423,70 @@ impl<'a, 'de> de::MapAccess<'de> for MapAccess<'a, 'de> {
     }
 }
 
+/// Deserializer for the keys of objects.
+struct KeyDeserializer<'de> {
+    text: Cow<'de, str>,
+}
+
+macro_rules! deserialize_parsed_key {
+    ($($method:ident $visit:ident $expected:literal)*) => {
+        $(fn $method<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
+            visitor.$visit(parse(&self.text, $expected)?)
+        })*
+    };
+}
+
+impl<'de> de::Deserializer<'de> for KeyDeserializer<'de> {
+    type Error = Error;
+
+    fn deserialize_any<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
+        visit_text(self.text, visitor)
+    }
+
+    deserialize_parsed_key! {
+        deserialize_bool visit_bool "bool"
+        deserialize_i8 visit_i8 "integer"
+        deserialize_i16 visit_i16 "integer"
+        deserialize_i32 visit_i32 "integer"
+        deserialize_i64 visit_i64 "integer"
+        deserialize_i128 visit_i128 "integer"
+        deserialize_u8 visit_u8 "unsigned integer"
+        deserialize_u16 visit_u16 "unsigned integer"
+        deserialize_u32 visit_u32 "unsigned integer"
+        deserialize_u64 visit_u64 "unsigned integer"
+        deserialize_u128 visit_u128 "unsigned integer"
+        deserialize_f32 visit_f32 "float"
+        deserialize_f64 visit_f64 "float"
+        deserialize_char visit_char "char"
+    }
+
+    fn deserialize_option<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
+        visitor.visit_some(self)
+    }
+
+    fn deserialize_newtype_struct<V: Visitor<'de>>(
+        self,
+        _name: &'static str,
+        visitor: V,
+    ) -> Result<V::Value> {
+        visitor.visit_newtype_struct(self)
+    }
+
+    fn deserialize_enum<V: Visitor<'de>>(
+        self,
+        _name: &'static str,
+        _variants: &'static [&'static str],
+        visitor: V,
+    ) -> Result<V::Value> {
+        visitor.visit_enum(CowStrDeserializer::new(self.text))
+    }
+
+    serde::forward_to_deserialize_any! {
+        str string bytes byte_buf unit unit_struct seq tuple tuple_struct map
+        struct identifier ignored_any
+    }
+}
+
 /// Enum access for serde.
 struct EnumAccess<'a, 'de> {
     de: &'a mut Deserializer<'de>,
@@ -632,8 +501,8 @@ impl<'a, 'de> de::EnumAccess<'de> for EnumAccess<'a, 'de> {
     where
         V: de::DeserializeSeed<'de>,
     {
-        let variant = seed.deserialize(de::value::BorrowedStrDeserializer::new(self.variant))?;
-        Ok((variant, VariantAccess { de: self.de }))
+        let variant: StrDeserializer<'_, Error> = self.variant.into_deserializer();
+        Ok((seed.deserialize(variant)?, VariantAccess { de: self.de }))
     }
 }
 
@@ -642,31 +511,44 @@ struct VariantAccess<'a, 'de> {
     de: &'a mut Deserializer<'de>,
 }
 
+impl<'a, 'de> VariantAccess<'a, 'de> {
+    /// Read the payload of the tag, which is unit if there is none.
+    fn payload<T>(self, read: impl FnOnce(&mut Deserializer<'de>) -> Result<T>) -> Result<T> {
+        if self.de.peek()? == Some(&EventKind::TagEnd) {
+            self.de.events()?.push_front(EventKind::Unit);
+        }
+        let value = read(self.de)?;
+        self.de
+            .expect(EventKind::TagEnd, "unexpected payload of a tag")?;
+        Ok(value)
+    }
+}
+
 impl<'a, 'de> de::VariantAccess<'de> for VariantAccess<'a, 'de> {
     type Error = Error;
 
     fn unit_variant(self) -> Result<()> {
-        Ok(())
+        self.payload(|de| de.expect(EventKind::Unit, "unexpected payload of a unit variant"))
     }
 
     fn newtype_variant_seed<T>(self, seed: T) -> Result<T::Value>
     where
         T: de::DeserializeSeed<'de>,
     {
-        seed.deserialize(self.de)
+        self.payload(|de| seed.deserialize(de))
     }
 
     fn tuple_variant<V>(self, _len: usize, visitor: V) -> Result<V::Value>
     where
         V: Visitor<'de>,
     {
-        de::Deserializer::deserialize_seq(self.de, visitor)
+        self.payload(|de| de::Deserializer::deserialize_seq(de, visitor))
     }
 
     fn struct_variant<V>(self, _fields: &'static [&'static str], visitor: V) -> Result<V::Value>
     where
         V: Visitor<'de>,
     {
-        de::Deserializer::deserialize_map(self.de, visitor)
+        self.payload(|de| de::Deserializer::deserialize_map(de, visitor))
     }
 }
diff --git a/crates/serde_styx/src/lib.rs b/crates/serde_styx/src/lib.rs
index a73e871..3885910 100644
--- a/crates/serde_styx/src/lib.rs
+++ b/crates/serde_styx/src/lib.rs
@@ -72,7 +72,9 @@ where
     T: serde::de::Deserialize<'de>,
 {
     let mut deserializer = Deserializer::new(s);
-    T::deserialize(&mut deserializer)
+    let value = T::deserialize(&mut deserializer)?;
+    deserializer.end()?;
+    Ok(value)
 }
 
 /// Serialize a value to a Styx string.
-- 
2.43.0


From 59a1a741996b84bede5654dc4067e3da02e5a729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:23 +0000
Subject: [PATCH 39/72] fix: serde_styx attaches the payload of a tag to it, as
 facet-styx does

---
 crates/serde_styx/src/ser.rs     |  4 ++--
 crates/styx-format/src/writer.rs | 11 +++++++++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/serde_styx/src/ser.rs b/crates/serde_styx/src/ser.rs
index 1e4af34..1432a3e 100644
--- a/crates/serde_styx/src/ser.rs
+++ b/crates/serde_styx/src/ser.rs
@@ -159,6 +159,7 @@ impl<'a> ser::Serializer for &'a mut Serializer {
     ) -> Result<()> {
         self.at_root = false;
         self.writer.write_variant_tag(variant);
+        self.writer.clear_skip_before_value();
         Ok(())
     }
 
@@ -179,7 +180,6 @@ impl<'a> ser::Serializer for &'a mut Serializer {
     ) -> Result<()> {
         self.at_root = false;
         self.writer.write_variant_tag(variant);
-        self.writer.write_byte(b' ');
         value.serialize(&mut *self)
     }
 
@@ -680,6 +680,7 @@ impl<'a> ser::Serializer for &'a mut CompactSerializer {
         variant: &'static str,
     ) -> Result<()> {
         self.writer.write_variant_tag(variant);
+        self.writer.clear_skip_before_value();
         Ok(())
     }
 
@@ -699,7 +700,6 @@ impl<'a> ser::Serializer for &'a mut CompactSerializer {
         value: &T,
     ) -> Result<()> {
         self.writer.write_variant_tag(variant);
-        self.writer.write_byte(b' ');
         value.serialize(&mut *self)
     }
 
diff --git a/crates/styx-format/src/writer.rs b/crates/styx-format/src/writer.rs
index d904ca8..3ae30e7 100644
--- a/crates/styx-format/src/writer.rs
+++ b/crates/styx-format/src/writer.rs
@@ -194,6 +194,7 @@ impl StyxWriter {
     /// If `force_multiline` is true, the struct will never be inlined.
     pub fn begin_struct_with_options(&mut self, is_root: bool, force_multiline: bool) {
         self.before_value();
+        self.force_quote_next_scalar = false;
 
         // A struct starts inline if it's appearing as a value on the same line as its key
         // (i.e., not the root and the opening brace is on the same line)
@@ -408,6 +409,7 @@ impl StyxWriter {
     /// Begin a sequence.
     pub fn begin_seq(&mut self) {
         self.before_value();
+        self.force_quote_next_scalar = false;
         self.out.push(b'(');
         // Sequences always start inline (on the same line as their key)
         self.stack.push(Context::Seq {
@@ -442,6 +444,11 @@ impl StyxWriter {
 
     /// Write a null/unit value.
     pub fn write_null(&mut self) {
+        if self.skip_next_before_value {
+            // A tag without payload has the unit payload
+            self.clear_skip_before_value();
+            return;
+        }
         self.before_value();
         self.out.push(b'@');
     }
@@ -516,6 +523,10 @@ impl StyxWriter {
 
     /// Write a variant tag (e.g., `@some`).
     pub fn write_variant_tag(&mut self, name: &str) {
+        if self.skip_next_before_value {
+            // The payload of a tag is chained to it
+            return self.write_tag_chain_segment(name);
+        }
         self.before_value();
         self.out.push(b'@');
         self.out.extend_from_slice(name.as_bytes());
-- 
2.43.0


From aebd5177e891a988e46c16d0d13fe8790fcde946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:26 +0000
Subject: [PATCH 40/72] fix: facet-styx reads a document without entries as an
 empty object

---
 crates/facet-styx/src/parser.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/facet-styx/src/parser.rs b/crates/facet-styx/src/parser.rs
index 9837d33..4593037 100644
--- a/crates/facet-styx/src/parser.rs
+++ b/crates/facet-styx/src/parser.rs
@@ -270,9 +270,15 @@ impl<'de> StyxParser<'de> {
 
             EventKind::DocumentEnd => {
                 if self.at_implicit_root {
-                    Ok(None)
+                    // There was no root object: a document without entries
+                    // is an empty object
+                    self.at_implicit_root = false;
+                    self.peeked_events
+                        .push(self.event(ParseEventKind::StructEnd));
+                    Ok(Some(self.event(ParseEventKind::StructStart(
+                        ContainerKind::Object,
+                    ))))
                 } else {
-                    // Expression mode - no implicit root, skip DocumentEnd
                     Ok(None)
                 }
             }
-- 
2.43.0


From e4d5126140b68cf656b68737522cb9dcda686d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:45 +0000
Subject: [PATCH 41/72] fix: section headers that claim a range past the
 address space must not panic schema extraction

---
 crates/styx-embed/src/lib.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/crates/styx-embed/src/lib.rs b/crates/styx-embed/src/lib.rs
index 70969f8..118ad1d 100644
--- a/crates/styx-embed/src/lib.rs
+++ b/crates/styx-embed/src/lib.rs
@@ -347,6 +347,11 @@ fn find_schema_section<'a>(object: &goblin::Object, data: &'a [u8]) -> Option<&'
     }
 }
 
+/// The `size` bytes at `start`, if the file has them (headers can claim anything).
+fn subslice(data: &[u8], start: usize, size: usize) -> Option<&[u8]> {
+    data.get(start..start.checked_add(size)?)
+}
+
 /// Find the .styx_schemas section in an ELF binary.
 fn find_elf_section<'a>(elf: &goblin::elf::Elf, data: &'a [u8]) -> Option<&'a [u8]> {
     for section in &elf.section_headers {
@@ -355,8 +360,8 @@ fn find_elf_section<'a>(elf: &goblin::elf::Elf, data: &'a [u8]) -> Option<&'a [u
         {
             let start = section.sh_offset as usize;
             let size = section.sh_size as usize;
-            if start + size <= data.len() {
-                return Some(&data[start..start + size]);
+            if let Some(bytes) = subslice(data, start, size) {
+                return Some(bytes);
             }
         }
     }
@@ -374,8 +379,7 @@ fn find_macho_section<'a>(mach: &goblin::mach::Mach, data: &'a [u8]) -> Option<&
             for arch in fat.iter_arches().flatten() {
                 let start = arch.offset as usize;
                 let size = arch.size as usize;
-                if start + size <= data.len() {
-                    let arch_data = &data[start..start + size];
+                if let Some(arch_data) = subslice(data, start, size) {
                     if let Ok(goblin::Object::Mach(Mach::Binary(macho))) =
                         goblin::Object::parse(arch_data)
                         && let Some(section) = find_macho_section_in_binary(&macho, arch_data)
@@ -404,8 +408,8 @@ fn find_macho_section_in_binary<'a>(
                 {
                     let start = section.offset as usize;
                     let size = section.size as usize;
-                    if start + size <= data.len() {
-                        return Some(&data[start..start + size]);
+                    if let Some(bytes) = subslice(data, start, size) {
+                        return Some(bytes);
                     }
                 }
             }
@@ -422,8 +426,8 @@ fn find_pe_section<'a>(pe: &goblin::pe::PE, data: &'a [u8]) -> Option<&'a [u8]>
         {
             let start = section.pointer_to_raw_data as usize;
             let size = section.size_of_raw_data as usize;
-            if start + size <= data.len() {
-                return Some(&data[start..start + size]);
+            if let Some(bytes) = subslice(data, start, size) {
+                return Some(bytes);
             }
         }
     }
-- 
2.43.0


From c12b57137657e98dae0efd0901194b678f792c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:10 +0000
Subject: [PATCH 42/72] fix: extracting a damaged embedded schema must not
 allocate whatever size it claims

---
 crates/styx-embed/src/lib.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/crates/styx-embed/src/lib.rs b/crates/styx-embed/src/lib.rs
index 118ad1d..f820b3d 100644
--- a/crates/styx-embed/src/lib.rs
+++ b/crates/styx-embed/src/lib.rs
@@ -183,6 +183,21 @@ pub fn extract_schemas(data: &[u8]) -> Result<Vec<String>, ExtractError> {
     }
 }
 
+/// Decompress a size-prefixed LZ4 block that should yield `decompressed_len` bytes.
+///
+/// The sizes come from the file: check that they agree and that the block can hold that much
+/// (LZ4 expands a byte to at most 255) before allocating for it.
+fn decompress(compressed: &[u8], decompressed_len: usize) -> Result<Vec<u8>, ExtractError> {
+    match lz4_flex::block::uncompressed_size(compressed) {
+        Ok((size, block))
+            if size == decompressed_len && size <= block.len().saturating_mul(255) =>
+        {
+            lz4_flex::block::decompress(block, size).map_err(|_| ExtractError::DecompressFailed)
+        }
+        _ => Err(ExtractError::DecompressFailed),
+    }
+}
+
 /// Try to extract a single schema from V2 format at a specific position.
 fn try_extract_v2_at(data: &[u8], magic_pos: usize) -> Result<String, ExtractError> {
     let mut pos = magic_pos + MAGIC_V2.len();
@@ -212,8 +227,7 @@ fn try_extract_v2_at(data: &[u8], magic_pos: usize) -> Result<String, ExtractErr
     let compressed = &data[pos..pos + compressed_len];
 
     // Decompress
-    let decompressed = lz4_flex::decompress_size_prepended(compressed)
-        .map_err(|_| ExtractError::DecompressFailed)?;
+    let decompressed = decompress(compressed, decompressed_len)?;
 
     // Verify length
     if decompressed.len() != decompressed_len {
@@ -270,8 +284,7 @@ fn try_extract_v1_at(data: &[u8], magic_pos: usize) -> Result<Vec<String>, Extra
         pos += compressed_len;
 
         // Decompress
-        let decompressed = lz4_flex::decompress_size_prepended(compressed)
-            .map_err(|_| ExtractError::DecompressFailed)?;
+        let decompressed = decompress(compressed, decompressed_len)?;
 
         // Verify length
         if decompressed.len() != decompressed_len {
-- 
2.43.0


From 03ed93c70b18d86874ee15bbc5ca7d18e1c5b9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:47 +0000
Subject: [PATCH 43/72] fix: the language server counts columns in UTF-16 code
 units, and splits semantic tokens at line ends

---
 crates/styx-lsp/src/semantic_tokens.rs | 27 +++++++++++++++-----------
 crates/styx-lsp/src/server.rs          | 10 +++++-----
 2 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/crates/styx-lsp/src/semantic_tokens.rs b/crates/styx-lsp/src/semantic_tokens.rs
index c062977..1fc7a84 100644
--- a/crates/styx-lsp/src/semantic_tokens.rs
+++ b/crates/styx-lsp/src/semantic_tokens.rs
@@ -572,20 +572,25 @@ fn add_token_from_syntax(
     modifiers: u32,
 ) {
     let start: usize = token.text_range().start().into();
-    let end: usize = token.text_range().end().into();
     let (line, start_char) = offset_to_line_col(content, start);
-    let length = (end - start) as u32;
 
-    tokens.push(RawToken {
-        line,
-        start_char,
-        length,
-        token_type,
-        modifiers,
-    });
+    // A semantic token cannot span lines: emit one per line
+    for (i, text) in token.text().split('\n').enumerate() {
+        let text = text.strip_suffix('\r').unwrap_or(text);
+        if text.is_empty() {
+            continue;
+        }
+        tokens.push(RawToken {
+            line: line + i as u32,
+            start_char: if i == 0 { start_char } else { 0 },
+            length: text.encode_utf16().count() as u32,
+            token_type,
+            modifiers,
+        });
+    }
 }
 
-/// Convert byte offset to (line, column)
+/// Convert byte offset to (line, column), the column in UTF-16 code units
 fn offset_to_line_col(content: &str, offset: usize) -> (u32, u32) {
     let mut line = 0u32;
     let mut col = 0u32;
@@ -598,7 +603,7 @@ fn offset_to_line_col(content: &str, offset: usize) -> (u32, u32) {
             line += 1;
             col = 0;
         } else {
-            col += 1;
+            col += ch.len_utf16() as u32;
         }
     }
 
diff --git a/crates/styx-lsp/src/server.rs b/crates/styx-lsp/src/server.rs
index dee83b1..5a366e5 100644
--- a/crates/styx-lsp/src/server.rs
+++ b/crates/styx-lsp/src/server.rs
@@ -2145,7 +2145,7 @@ fn find_schema_declaration_range(tree: &Value, content: &str) -> Option<Range> {
     None
 }
 
-/// Convert byte offset to LSP Position
+/// Convert byte offset to LSP Position (columns count UTF-16 code units)
 fn offset_to_position(content: &str, offset: usize) -> Position {
     let mut line = 0u32;
     let mut col = 0u32;
@@ -2158,20 +2158,20 @@ fn offset_to_position(content: &str, offset: usize) -> Position {
             line += 1;
             col = 0;
         } else {
-            col += 1;
+            col += ch.len_utf16() as u32;
         }
     }
 
     Position::new(line, col)
 }
 
-/// Convert LSP Position to byte offset
+/// Convert LSP Position (columns count UTF-16 code units) to byte offset
 fn position_to_offset(content: &str, position: Position) -> usize {
     let mut current_line = 0u32;
     let mut current_col = 0u32;
 
     for (i, ch) in content.char_indices() {
-        if current_line == position.line && current_col == position.character {
+        if current_line == position.line && current_col >= position.character {
             return i;
         }
         if ch == '\n' {
@@ -2182,7 +2182,7 @@ fn position_to_offset(content: &str, position: Position) -> usize {
             current_line += 1;
             current_col = 0;
         } else {
-            current_col += 1;
+            current_col += ch.len_utf16() as u32;
         }
     }
 
-- 
2.43.0


From c8d56779a9c73b51b34ca198c88cc21f4ba787c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:47 +0000
Subject: [PATCH 44/72] fix: positions given to and taken from LSP extensions
 are UTF-16 positions like the editor's

---
 crates/styx-lsp-ext/src/lib.rs    | 19 ++++++++--------
 crates/styx-lsp/src/extensions.rs | 38 ++++++++++---------------------
 crates/styx-lsp/src/server.rs     |  4 ++--
 3 files changed, 23 insertions(+), 38 deletions(-)

diff --git a/crates/styx-lsp-ext/src/lib.rs b/crates/styx-lsp-ext/src/lib.rs
index b8d03b9..279fe56 100644
--- a/crates/styx-lsp-ext/src/lib.rs
+++ b/crates/styx-lsp-ext/src/lib.rs
@@ -149,23 +149,22 @@ impl Position {
 
     /// Convert a byte offset to a position using document content.
     ///
+    /// Like every position exchanged with an editor, the result counts UTF-16 code units.
+    ///
     /// This is useful in `diagnostics()` where `DiagnosticParams` includes
     /// the document content, allowing offset→position conversion without
     /// an RPC call back to the host.
     pub fn from_offset(content: &str, offset: u32) -> Self {
-        let offset = offset as usize;
-        if offset > content.len() {
-            // Past end of content - return last position
-            let line = content.chars().filter(|&c| c == '\n').count() as u32;
-            let last_newline = content.rfind('\n').map(|i| i + 1).unwrap_or(0);
-            let character = (content.len() - last_newline) as u32;
-            return Self { line, character };
+        // The last character boundary at or before the offset
+        let mut end = (offset as usize).min(content.len());
+        while !content.is_char_boundary(end) {
+            end -= 1;
         }
 
-        let before = &content[..offset];
-        let line = before.chars().filter(|&c| c == '\n').count() as u32;
+        let before = &content[..end];
+        let line = before.matches('\n').count() as u32;
         let last_newline = before.rfind('\n').map(|i| i + 1).unwrap_or(0);
-        let character = (offset - last_newline) as u32;
+        let character = before[last_newline..].encode_utf16().count() as u32;
         Self { line, character }
     }
 }
diff --git a/crates/styx-lsp/src/extensions.rs b/crates/styx-lsp/src/extensions.rs
index 6d46ff3..603be6b 100644
--- a/crates/styx-lsp/src/extensions.rs
+++ b/crates/styx-lsp/src/extensions.rs
@@ -384,12 +384,12 @@ impl StyxLspHost for StyxLspHostImpl {
             return None;
         }
 
-        let content = &doc.content[..offset];
-        let line = content.chars().filter(|&c| c == '\n').count() as u32;
-        let last_newline = content.rfind('\n').map(|i| i + 1).unwrap_or(0);
-        let character = (offset - last_newline) as u32;
+        let position = crate::server::offset_to_position(&doc.content, offset);
 
-        Some(styx_lsp_ext::Position { line, character })
+        Some(styx_lsp_ext::Position {
+            line: position.line,
+            character: position.character,
+        })
     }
 
     async fn position_to_offset(&self, params: PositionToOffsetParams) -> Option<u32> {
@@ -397,28 +397,14 @@ impl StyxLspHost for StyxLspHostImpl {
         let docs = self.documents.read().await;
         let doc = docs.get(&uri)?;
 
-        let mut offset = 0;
-        let mut current_line = 0;
-
-        for ch in doc.content.chars() {
-            if current_line == params.position.line {
-                for (char_offset, c) in doc.content[offset..].chars().enumerate() {
-                    if char_offset == params.position.character as usize {
-                        return Some(offset as u32);
-                    }
-                    if c == '\n' {
-                        break;
-                    }
-                    offset += c.len_utf8();
-                }
-                return Some(offset as u32);
-            }
-            if ch == '\n' {
-                current_line += 1;
-            }
-            offset += ch.len_utf8();
+        let position = tower_lsp::lsp_types::Position {
+            line: params.position.line,
+            character: params.position.character,
+        };
+        if position.line as usize > doc.content.matches('\n').count() {
+            return None;
         }
 
-        None
+        Some(crate::server::position_to_offset(&doc.content, position) as u32)
     }
 }
diff --git a/crates/styx-lsp/src/server.rs b/crates/styx-lsp/src/server.rs
index 5a366e5..a426644 100644
--- a/crates/styx-lsp/src/server.rs
+++ b/crates/styx-lsp/src/server.rs
@@ -2146,7 +2146,7 @@ fn find_schema_declaration_range(tree: &Value, content: &str) -> Option<Range> {
 }
 
 /// Convert byte offset to LSP Position (columns count UTF-16 code units)
-fn offset_to_position(content: &str, offset: usize) -> Position {
+pub(crate) fn offset_to_position(content: &str, offset: usize) -> Position {
     let mut line = 0u32;
     let mut col = 0u32;
 
@@ -2166,7 +2166,7 @@ fn offset_to_position(content: &str, offset: usize) -> Position {
 }
 
 /// Convert LSP Position (columns count UTF-16 code units) to byte offset
-fn position_to_offset(content: &str, position: Position) -> usize {
+pub(crate) fn position_to_offset(content: &str, position: Position) -> usize {
     let mut current_line = 0u32;
     let mut current_col = 0u32;
 
-- 
2.43.0


From 50bca29fab4c0649b5628cebc829b2c09bb96798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:47 +0000
Subject: [PATCH 45/72] fix: completing a word after a multi-byte space must
 not panic

---
 crates/styx-lsp/src/server.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/styx-lsp/src/server.rs b/crates/styx-lsp/src/server.rs
index a426644..60a0582 100644
--- a/crates/styx-lsp/src/server.rs
+++ b/crates/styx-lsp/src/server.rs
@@ -2991,8 +2991,9 @@ fn get_word_range_at_position(content: &str, position: Position) -> Option<(Stri
     // Find the start of the current word by scanning backwards
     let before = &content[..offset];
     let word_start = before
-        .rfind(|c: char| c.is_whitespace() || c == '{' || c == '}')
-        .map(|i| i + 1)
+        .char_indices()
+        .rfind(|(_, c)| c.is_whitespace() || matches!(c, '{' | '}'))
+        .map(|(i, c)| i + c.len_utf8())
         .unwrap_or(0);
 
     let word = &before[word_start..];
-- 
2.43.0


From 393f0a9df1dd922730049a64bc2dd70369cc9406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:43 +0000
Subject: [PATCH 46/72] fix: formatting in the editor replaces the whole
 document, its last line end included

---
 crates/styx-lsp/src/server.rs | 45 ++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 25 deletions(-)

diff --git a/crates/styx-lsp/src/server.rs b/crates/styx-lsp/src/server.rs
index 60a0582..5a23e9e 100644
--- a/crates/styx-lsp/src/server.rs
+++ b/crates/styx-lsp/src/server.rs
@@ -1883,31 +1883,7 @@ impl LanguageServer for StyxLanguageServer {
             Box::leak(indent.into_boxed_str()),
         );
 
-        let formatted = styx_format::format_source(&doc.content, options);
-
-        // Only return an edit if the content changed
-        if formatted == doc.content {
-            return Ok(None);
-        }
-
-        // Replace the entire document
-        let lines: Vec<&str> = doc.content.lines().collect();
-        let last_line = lines.len().saturating_sub(1);
-        let last_char = lines.last().map(|l| l.len()).unwrap_or(0);
-
-        Ok(Some(vec![TextEdit {
-            range: Range {
-                start: Position {
-                    line: 0,
-                    character: 0,
-                },
-                end: Position {
-                    line: last_line as u32,
-                    character: last_char as u32,
-                },
-            },
-            new_text: formatted,
-        }]))
+        Ok(format_edit(&doc.content, options).map(|edit| vec![edit]))
     }
 
     async fn document_symbol(
@@ -1984,6 +1960,25 @@ impl LanguageServer for StyxLanguageServer {
     }
 }
 
+/// The edit that formats a whole document; None if it is formatted already
+fn format_edit(content: &str, options: styx_format::FormatOptions) -> Option<TextEdit> {
+    let formatted = styx_format::format_source(content, options);
+
+    // Only return an edit if the content changed
+    if formatted == content {
+        return None;
+    }
+
+    // Replace the entire document, including the line end of its last line
+    Some(TextEdit {
+        range: Range {
+            start: Position::new(0, 0),
+            end: offset_to_position(content, content.len()),
+        },
+        new_text: formatted,
+    })
+}
+
 /// Find the nesting depth (number of objects/sequences) containing the given offset.
 ///
 /// Uses the CST for accurate position information. Counts OBJECT and SEQUENCE
-- 
2.43.0


From 91ff7a112f09474d49a7989ddc17a8662518efef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:56 +0000
Subject: [PATCH 47/72] hook: styx-lsp feature verification-hooks opens the
 server's document functions to checks

---
 crates/styx-lsp/Cargo.toml    |  4 +++
 crates/styx-lsp/src/lib.rs    |  3 ++
 crates/styx-lsp/src/server.rs | 53 +++++++++++++++++++++++++++++++++++
 3 files changed, 60 insertions(+)

diff --git a/crates/styx-lsp/Cargo.toml b/crates/styx-lsp/Cargo.toml
index 85cdc73..f54f369 100644
--- a/crates/styx-lsp/Cargo.toml
+++ b/crates/styx-lsp/Cargo.toml
@@ -11,6 +11,10 @@ description = "Language server for Styx configuration language"
 [package.metadata."docs.rs"]
 rustdoc-args = ["--html-in-header", "arborium-header.html"]
 
+[features]
+# Opens the parts of the server that work on one document to outside checks
+verification-hooks = []
+
 [dependencies]
 tower-lsp = "0.20"
 tokio = { version = "1", features = ["full"] }
diff --git a/crates/styx-lsp/src/lib.rs b/crates/styx-lsp/src/lib.rs
index 12db026..853a58d 100644
--- a/crates/styx-lsp/src/lib.rs
+++ b/crates/styx-lsp/src/lib.rs
@@ -19,3 +19,6 @@ pub mod testing;
 
 pub use semantic_tokens::{HighlightSpan, TokenType, compute_highlight_spans};
 pub use server::{DocumentMap, DocumentState, StyxLanguageServer, run};
+
+#[cfg(feature = "verification-hooks")]
+pub use server::hooks;
diff --git a/crates/styx-lsp/src/server.rs b/crates/styx-lsp/src/server.rs
index 5a23e9e..767d805 100644
--- a/crates/styx-lsp/src/server.rs
+++ b/crates/styx-lsp/src/server.rs
@@ -3396,6 +3396,59 @@ pub async fn run() -> eyre::Result<()> {
     Ok(())
 }
 
+/// The parts of the server that work on one document, for outside checks
+#[cfg(feature = "verification-hooks")]
+pub mod hooks {
+    use super::*;
+
+    pub use tower_lsp::lsp_types::{
+        DocumentSymbol, Position, Range, SemanticToken, SymbolKind, TextEdit,
+    };
+
+    pub fn offset_to_position(content: &str, offset: usize) -> Position {
+        super::offset_to_position(content, offset)
+    }
+
+    pub fn position_to_offset(content: &str, position: Position) -> usize {
+        super::position_to_offset(content, position)
+    }
+
+    pub fn collect_document_symbols(value: &Value, content: &str) -> Vec<DocumentSymbol> {
+        super::collect_document_symbols(value, content)
+    }
+
+    pub fn find_schema_declaration_range(tree: &Value, content: &str) -> Option<Range> {
+        super::find_schema_declaration_range(tree, content)
+    }
+
+    pub fn find_field_in_doc(tree: &Value, field_name: &str, content: &str) -> Option<Range> {
+        super::find_field_in_doc(tree, field_name, content)
+    }
+
+    pub fn find_field_in_schema_source(schema_source: &str, field_name: &str) -> Option<Range> {
+        super::find_field_in_schema_source(schema_source, field_name)
+    }
+
+    pub fn find_field_path_at_offset(tree: &Value, offset: usize) -> Option<Vec<String>> {
+        super::find_field_path_at_offset(tree, offset)
+    }
+
+    pub fn get_word_range_at_position(
+        content: &str,
+        position: Position,
+    ) -> Option<(String, Range)> {
+        super::get_word_range_at_position(content, position)
+    }
+
+    pub fn format_edit(content: &str, options: styx_format::FormatOptions) -> Option<TextEdit> {
+        super::format_edit(content, options)
+    }
+
+    pub fn find_nesting_depth_cst(parse: &styx_cst::Parse, offset: usize) -> usize {
+        super::find_nesting_depth_cst(parse, offset)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 4f2fc0164121a3a4a91d740ec92c960eaec4a22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:11 +0000
Subject: [PATCH 48/72] fix: highlight every scalar, tag and comment: comments
 in sequences, unit keys, payloads of keys, attribute keys

---
 crates/styx-lsp/src/semantic_tokens.rs | 78 +++++++++++++++-----------
 1 file changed, 45 insertions(+), 33 deletions(-)

diff --git a/crates/styx-lsp/src/semantic_tokens.rs b/crates/styx-lsp/src/semantic_tokens.rs
index 1fc7a84..98ed988 100644
--- a/crates/styx-lsp/src/semantic_tokens.rs
+++ b/crates/styx-lsp/src/semantic_tokens.rs
@@ -173,6 +173,8 @@ fn walk_node_for_spans(node: &SyntaxNode, spans: &mut Vec<HighlightSpan>, ctx: W
             for child in node.children_with_tokens() {
                 if let Some(child_node) = child.as_node() {
                     walk_node_for_spans(child_node, spans, seq_ctx);
+                } else if let Some(token) = child.as_token() {
+                    add_comment_span(spans, token);
                 }
             }
         }
@@ -214,6 +216,9 @@ fn walk_node_for_spans(node: &SyntaxNode, spans: &mut Vec<HighlightSpan>, ctx: W
                 if let Some(token) = child.as_token() {
                     if token.kind() == SyntaxKind::GT {
                         add_span_from_syntax(spans, token, TokenType::Operator, false);
+                    } else if is_scalar_token(token.kind()) {
+                        // The key is a token of its own, the value is a node
+                        add_span_from_syntax(spans, token, TokenType::Property, false);
                     }
                 } else if let Some(child_node) = child.as_node() {
                     if child_node.kind() == SyntaxKind::KEY {
@@ -228,15 +233,7 @@ fn walk_node_for_spans(node: &SyntaxNode, spans: &mut Vec<HighlightSpan>, ctx: W
             // Handle comments at token level
             for child in node.children_with_tokens() {
                 if let Some(token) = child.as_token() {
-                    match token.kind() {
-                        SyntaxKind::LINE_COMMENT => {
-                            add_span_from_syntax(spans, token, TokenType::Comment, false);
-                        }
-                        SyntaxKind::DOC_COMMENT => {
-                            add_span_from_syntax(spans, token, TokenType::Comment, true);
-                        }
-                        _ => {}
-                    }
+                    add_comment_span(spans, token);
                 } else if let Some(child_node) = child.as_node() {
                     walk_node_for_spans(child_node, spans, ctx);
                 }
@@ -266,6 +263,8 @@ fn collect_key_spans(node: &SyntaxNode, spans: &mut Vec<HighlightSpan>) {
                             && token.kind() == SyntaxKind::TAG_TOKEN
                         {
                             add_span_from_syntax(spans, token, TokenType::Property, false);
+                        } else if let Some(tag_node) = t.as_node() {
+                            walk_node_for_spans(tag_node, spans, WalkContext::default());
                         }
                     }
                 }
@@ -279,7 +278,7 @@ fn collect_key_spans(node: &SyntaxNode, spans: &mut Vec<HighlightSpan>) {
                         }
                     }
                 }
-                _ => {}
+                _ => walk_node_for_spans(child_node, spans, WalkContext::default()),
             }
         }
     }
@@ -300,7 +299,7 @@ fn collect_key_spans_as_values(node: &SyntaxNode, spans: &mut Vec<HighlightSpan>
                     }
                 }
                 SyntaxKind::TAG => {
-                    walk_node_for_spans(child_node, spans, WalkContext { in_sequence: true });
+                    walk_node_for_spans(child_node, spans, WalkContext::default());
                 }
                 SyntaxKind::UNIT => {
                     for t in child_node.children_with_tokens() {
@@ -315,15 +314,25 @@ fn collect_key_spans_as_values(node: &SyntaxNode, spans: &mut Vec<HighlightSpan>
                 SyntaxKind::SEQUENCE => {
                     walk_node_for_spans(child_node, spans, WalkContext { in_sequence: true });
                 }
-                SyntaxKind::OBJECT => {
-                    walk_node_for_spans(child_node, spans, WalkContext::default());
-                }
-                _ => {}
+                _ => walk_node_for_spans(child_node, spans, WalkContext::default()),
             }
         }
     }
 }
 
+/// Add a highlight span if the token is a comment
+fn add_comment_span(spans: &mut Vec<HighlightSpan>, token: &SyntaxToken) {
+    match token.kind() {
+        SyntaxKind::LINE_COMMENT => {
+            add_span_from_syntax(spans, token, TokenType::Comment, false);
+        }
+        SyntaxKind::DOC_COMMENT => {
+            add_span_from_syntax(spans, token, TokenType::Comment, true);
+        }
+        _ => {}
+    }
+}
+
 /// Add a highlight span from a syntax token
 fn add_span_from_syntax(
     spans: &mut Vec<HighlightSpan>,
@@ -376,6 +385,8 @@ fn walk_node(node: &SyntaxNode, content: &str, tokens: &mut Vec<RawToken>, ctx:
             for child in node.children_with_tokens() {
                 if let Some(child_node) = child.as_node() {
                     walk_node(child_node, content, tokens, seq_ctx);
+                } else if let Some(token) = child.as_token() {
+                    add_comment_token(tokens, content, token);
                 }
             }
         }
@@ -441,22 +452,7 @@ fn walk_node(node: &SyntaxNode, content: &str, tokens: &mut Vec<RawToken>, ctx:
             for child in node.children_with_tokens() {
                 if let Some(token) = child.as_token() {
                     // Handle comments at any level
-                    match token.kind() {
-                        SyntaxKind::LINE_COMMENT => {
-                            add_token_from_syntax(tokens, content, token, TokenType::Comment, 0);
-                        }
-                        SyntaxKind::DOC_COMMENT => {
-                            let modifiers = 1 << TokenModifier::Documentation as u32;
-                            add_token_from_syntax(
-                                tokens,
-                                content,
-                                token,
-                                TokenType::Comment,
-                                modifiers,
-                            );
-                        }
-                        _ => {}
-                    }
+                    add_comment_token(tokens, content, token);
                 } else if let Some(child_node) = child.as_node() {
                     walk_node(child_node, content, tokens, ctx);
                 }
@@ -493,10 +489,12 @@ fn collect_key_tokens(node: &SyntaxNode, content: &str, tokens: &mut Vec<RawToke
                             && token.kind() == SyntaxKind::TAG_TOKEN
                         {
                             add_token_from_syntax(tokens, content, token, TokenType::Property, 0);
+                        } else if let Some(tag_node) = tag_child.as_node() {
+                            walk_node(tag_node, content, tokens, WalkContext::default());
                         }
                     }
                 }
-                _ => {}
+                _ => walk_node(child_node, content, tokens, WalkContext::default()),
             }
         }
     }
@@ -549,7 +547,7 @@ fn collect_key_tokens_as_values(node: &SyntaxNode, content: &str, tokens: &mut V
                     // Objects should use regular object context (keys are properties)
                     walk_node(child_node, content, tokens, WalkContext::default());
                 }
-                _ => {}
+                _ => walk_node(child_node, content, tokens, WalkContext::default()),
             }
         }
     }
@@ -563,6 +561,20 @@ fn is_scalar_token(kind: SyntaxKind) -> bool {
     )
 }
 
+/// Add a token from a syntax token if it is a comment
+fn add_comment_token(tokens: &mut Vec<RawToken>, content: &str, token: &SyntaxToken) {
+    match token.kind() {
+        SyntaxKind::LINE_COMMENT => {
+            add_token_from_syntax(tokens, content, token, TokenType::Comment, 0);
+        }
+        SyntaxKind::DOC_COMMENT => {
+            let modifiers = 1 << TokenModifier::Documentation as u32;
+            add_token_from_syntax(tokens, content, token, TokenType::Comment, modifiers);
+        }
+        _ => {}
+    }
+}
+
 /// Add a token from a syntax token
 fn add_token_from_syntax(
     tokens: &mut Vec<RawToken>,
-- 
2.43.0


From 82a8f0756f081ae6eaa32256e06c1ab762dbcf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:11 +0000
Subject: [PATCH 49/72] fix: a column past the end of a line that ends in CR LF
 is before the CR

---
 crates/styx-lsp/src/server.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/styx-lsp/src/server.rs b/crates/styx-lsp/src/server.rs
index 767d805..d7a4f41 100644
--- a/crates/styx-lsp/src/server.rs
+++ b/crates/styx-lsp/src/server.rs
@@ -2169,6 +2169,10 @@ pub(crate) fn position_to_offset(content: &str, position: Position) -> usize {
         if current_line == position.line && current_col >= position.character {
             return i;
         }
+        if current_line == position.line && content[i..].starts_with("\r\n") {
+            // Position is past end of line
+            return i;
+        }
         if ch == '\n' {
             if current_line == position.line {
                 // Position is past end of line
-- 
2.43.0


From fa856bd1a33b2b0ae5e72fbf99f03bca808d7e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:11 +0000
Subject: [PATCH 50/72] fix: the symbol of an object written as a path contains
 the symbols in it

---
 crates/styx-lsp/src/server.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/styx-lsp/src/server.rs b/crates/styx-lsp/src/server.rs
index d7a4f41..fad2e8b 100644
--- a/crates/styx-lsp/src/server.rs
+++ b/crates/styx-lsp/src/server.rs
@@ -2098,9 +2098,11 @@ fn collect_document_symbols(value: &Value, content: &str) -> Vec<DocumentSymbol>
             end: offset_to_position(content, key_span.end as usize),
         };
 
+        // What is in an object written as a path (`a.b 1`) lies after it
+        let val_end = offset_to_position(content, val_span.end as usize);
         let range = Range {
             start: offset_to_position(content, key_span.start as usize),
-            end: offset_to_position(content, val_span.end as usize),
+            end: children.iter().map(|c| c.range.end).fold(val_end, Position::max),
         };
 
         #[allow(deprecated)]
-- 
2.43.0


From 2faac50bd4b4a78d46a21edf4a5efc7399d3638f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:54 +0000
Subject: [PATCH 51/72] fix: filling in fields writes them into the object, in
 its own style, and names that need it quoted

---
 crates/styx-lsp/src/schema_validation.rs |   4 -
 crates/styx-lsp/src/server.rs            | 245 +++++++++++++++--------
 2 files changed, 157 insertions(+), 92 deletions(-)

diff --git a/crates/styx-lsp/src/schema_validation.rs b/crates/styx-lsp/src/schema_validation.rs
index 90edee3..16f15ab 100644
--- a/crates/styx-lsp/src/schema_validation.rs
+++ b/crates/styx-lsp/src/schema_validation.rs
@@ -486,8 +486,6 @@ pub struct ObjectContext {
     pub path: Vec<String>,
     /// The object value itself
     pub object: styx_tree::Object,
-    /// Span of the object in the source
-    pub span: Option<styx_tree::Span>,
 }
 
 /// Find the innermost object containing the given offset.
@@ -592,7 +590,6 @@ fn find_object_at_offset_recursive(
             return Some(ObjectContext {
                 path: nested_path,
                 object: nested_obj.clone(),
-                span: entry.value.span,
             });
         }
     }
@@ -600,7 +597,6 @@ fn find_object_at_offset_recursive(
     Some(ObjectContext {
         path,
         object: obj.clone(),
-        span: obj.span,
     })
 }
 
diff --git a/crates/styx-lsp/src/server.rs b/crates/styx-lsp/src/server.rs
index fad2e8b..9abf28f 100644
--- a/crates/styx-lsp/src/server.rs
+++ b/crates/styx-lsp/src/server.rs
@@ -1457,42 +1457,19 @@ impl LanguageServer for StyxLanguageServer {
                     .filter(|f| f.optional && !existing_fields.contains(&f.name))
                     .collect();
 
-                // Find insert position and indentation within the current object
-                let insert_info = if let Some(ref ctx) = object_ctx {
-                    if let Some(span) = ctx.span {
-                        // Find insertion point within this object
-                        let obj_content = &doc.content[span.start as usize..span.end as usize];
-                        let obj_insert = find_field_insert_position(obj_content);
-                        // Adjust position to be relative to document start
-                        let obj_start_pos = offset_to_position(&doc.content, span.start as usize);
-                        InsertPosition {
-                            position: Position {
-                                line: obj_start_pos.line + obj_insert.position.line,
-                                character: if obj_insert.position.line == 0 {
-                                    obj_start_pos.character + obj_insert.position.character
-                                } else {
-                                    obj_insert.position.character
-                                },
-                            },
-                            indent: obj_insert.indent,
-                        }
-                    } else {
-                        find_field_insert_position(&doc.content)
-                    }
-                } else {
-                    find_field_insert_position(&doc.content)
-                };
+                // Find where new fields of the current object go
+                let object = object_ctx
+                    .as_ref()
+                    .map(|ctx| &ctx.object)
+                    .or_else(|| tree.as_object());
+                let insert_info = object
+                    .and_then(|obj| find_field_insert_position(&doc.parse, &doc.content, obj));
 
                 // Action: Fill required fields
-                if !missing_required.is_empty() {
-                    let new_text = generate_fields_text(&missing_required, &insert_info.indent);
-                    let edit = TextEdit {
-                        range: Range {
-                            start: insert_info.position,
-                            end: insert_info.position,
-                        },
-                        new_text,
-                    };
+                if let Some(insert_info) = &insert_info
+                    && !missing_required.is_empty()
+                {
+                    let edit = insert_fields_edit(&doc.content, insert_info, &missing_required);
 
                     let mut changes = std::collections::HashMap::new();
                     changes.insert(uri.clone(), vec![edit]);
@@ -1519,15 +1496,10 @@ impl LanguageServer for StyxLanguageServer {
                     .filter(|f| !existing_fields.contains(&f.name))
                     .collect();
 
-                if !all_missing.is_empty() && !missing_optional.is_empty() {
-                    let new_text = generate_fields_text(&all_missing, &insert_info.indent);
-                    let edit = TextEdit {
-                        range: Range {
-                            start: insert_info.position,
-                            end: insert_info.position,
-                        },
-                        new_text,
-                    };
+                if let Some(insert_info) = &insert_info
+                    && !missing_optional.is_empty()
+                {
+                    let edit = insert_fields_edit(&doc.content, insert_info, &all_missing);
 
                     let mut changes = std::collections::HashMap::new();
                     changes.insert(uri.clone(), vec![edit]);
@@ -2102,7 +2074,10 @@ fn collect_document_symbols(value: &Value, content: &str) -> Vec<DocumentSymbol>
         let val_end = offset_to_position(content, val_span.end as usize);
         let range = Range {
             start: offset_to_position(content, key_span.start as usize),
-            end: children.iter().map(|c| c.range.end).fold(val_end, Position::max),
+            end: children
+                .iter()
+                .map(|c| c.range.end)
+                .fold(val_end, Position::max),
         };
 
         #[allow(deprecated)]
@@ -3220,65 +3195,159 @@ fn find_field_in_doc(tree: &Value, field_name: &str, content: &str) -> Option<Ra
     None
 }
 
-/// Info about where to insert new fields
+/// Where the new fields of an object go, and how they are set apart
+#[derive(Debug, PartialEq)]
 struct InsertPosition {
-    position: Position,
-    indent: String,
+    offset: usize,
+    /// What comes before the first new field
+    lead: String,
+    /// What comes between two new fields
+    separator: String,
 }
 
-/// Find the position where new fields should be inserted and the indentation to use.
-fn find_field_insert_position(content: &str) -> InsertPosition {
-    let lines: Vec<&str> = content.lines().collect();
-
-    // Find the last non-empty, non-comment line
-    for (i, line) in lines.iter().enumerate().rev() {
-        let trimmed = line.trim();
-        if !trimmed.is_empty() && !trimmed.starts_with("//") && !trimmed.starts_with('#') {
-            // Detect indentation from this line
-            let indent_len = line.len() - line.trim_start().len();
-            let indent = line[..indent_len].to_string();
-
-            return InsertPosition {
-                position: Position {
-                    line: i as u32,
-                    character: line.len() as u32,
+/// Find the position where new fields of an object should be inserted.
+///
+/// Returns None if the object cannot take any more fields where it is written:
+/// as a path (`a.b 1`) or as attributes (`a>1`).
+fn find_field_insert_position(
+    parse: &Parse,
+    content: &str,
+    object: &styx_tree::Object,
+) -> Option<InsertPosition> {
+    use styx_cst::{NodeOrToken, SyntaxKind, TextSize};
+
+    // The node that holds the entries: an OBJECT, or the DOCUMENT
+    let root = parse.syntax();
+    let container = if let Some(entry) = object.entries.last() {
+        let start = TextSize::new(entry.key.span?.start);
+        let key = root.token_at_offset(start).right_biased()?;
+        let entry = key
+            .parent_ancestors()
+            .find(|n| matches!(n.kind(), SyntaxKind::ENTRY | SyntaxKind::ATTRIBUTE))?;
+        if entry.kind() != SyntaxKind::ENTRY || entry.text_range().start() != start {
+            return None;
+        }
+        entry.parent()?
+    } else if let Some(span) = object.span {
+        let brace = root.token_at_offset(TextSize::new(span.start));
+        brace.right_biased()?.parent()?
+    } else {
+        let braced = root.descendants().find(|n| n.kind() == SyntaxKind::OBJECT);
+        braced.unwrap_or(root)
+    };
+    let braced = match container.kind() {
+        SyntaxKind::OBJECT => true,
+        SyntaxKind::DOCUMENT => false,
+        _ => return None,
+    };
+    let has = |kind| {
+        container
+            .children_with_tokens()
+            .any(|child| child.kind() == kind)
+    };
+    let inline = has(SyntaxKind::COMMA) || (braced && !has(SyntaxKind::NEWLINE));
+
+    let indent_at = |offset: usize| {
+        let line = &content[content[..offset].rfind('\n').map_or(0, |i| i + 1)..];
+        &line[..line.len() - line.trim_start_matches([' ', '\t']).len()]
+    };
+
+    // The last thing that belongs to the last entry
+    let last = container
+        .children()
+        .filter(|n| n.kind() == SyntaxKind::ENTRY)
+        .last();
+    let Some(last) = last else {
+        let brace = container.first_token().filter(|_| braced);
+        return Some(match brace {
+            Some(brace) => {
+                let offset = usize::from(brace.text_range().end());
+                let line = format!("\n{}    ", indent_at(offset));
+                InsertPosition {
+                    offset,
+                    lead: if inline { String::new() } else { line.clone() },
+                    separator: if inline { ", ".to_string() } else { line },
+                }
+            }
+            None => InsertPosition {
+                offset: content.len(),
+                lead: if content.is_empty() || content.ends_with('\n') {
+                    String::new()
+                } else {
+                    "\n".to_string()
                 },
-                indent,
+                separator: "\n".to_string(),
+            },
+        });
+    };
+    let mut end = last
+        .descendants_with_tokens()
+        .filter_map(NodeOrToken::into_token)
+        .filter(|t| !t.kind().is_trivia())
+        .last()?;
+    if !inline {
+        // A comment on the line of the last entry is about that entry
+        let mut next = end.next_token();
+        while let Some(token) = next {
+            next = match token.kind() {
+                SyntaxKind::WHITESPACE => token.next_token(),
+                SyntaxKind::LINE_COMMENT => {
+                    end = token;
+                    None
+                }
+                _ => None,
             };
         }
     }
+    let separator = if inline {
+        ", ".to_string()
+    } else {
+        format!("\n{}", indent_at(last.text_range().start().into()))
+    };
+    Some(InsertPosition {
+        offset: end.text_range().end().into(),
+        lead: separator.clone(),
+        separator,
+    })
+}
 
-    // Fallback: end of document, no indentation
-    InsertPosition {
-        position: Position {
-            line: lines.len().saturating_sub(1) as u32,
-            character: lines.last().map(|l| l.len()).unwrap_or(0) as u32,
-        },
-        indent: String::new(),
+/// How a field's name is written in a document
+fn key_text(name: &str) -> String {
+    if styx_format::can_be_bare_key(name) {
+        name.to_string()
+    } else {
+        format!("\"{}\"", styx_format::escape_quoted(name))
     }
 }
 
-/// Generate text for inserting missing fields.
-fn generate_fields_text(fields: &[&crate::schema_validation::SchemaField], indent: &str) -> String {
+/// The edit that inserts missing fields.
+fn insert_fields_edit(
+    content: &str,
+    insert: &InsertPosition,
+    fields: &[&crate::schema_validation::SchemaField],
+) -> TextEdit {
     use crate::schema_validation::generate_placeholder;
 
-    let mut result = String::new();
-
-    for field in fields {
-        result.push('\n');
-        result.push_str(indent);
-        result.push_str(&field.name);
-        result.push(' ');
+    let entries: Vec<String> = fields
+        .iter()
+        .map(|field| {
+            // Use default value if available, otherwise generate placeholder
+            let value = field
+                .default_value
+                .clone()
+                .unwrap_or_else(|| generate_placeholder(&field.schema));
+            format!("{} {}", key_text(&field.name), value)
+        })
+        .collect();
 
-        // Use default value if available, otherwise generate placeholder
-        let value = field
-            .default_value
-            .clone()
-            .unwrap_or_else(|| generate_placeholder(&field.schema));
-        result.push_str(&value);
+    let position = offset_to_position(content, insert.offset);
+    TextEdit {
+        range: Range {
+            start: position,
+            end: position,
+        },
+        new_text: format!("{}{}", insert.lead, entries.join(&insert.separator)),
     }
-
-    result
 }
 
 /// Generate a text edit to reorder fields to match schema order.
-- 
2.43.0


From 44037074507345cadb022345247ee6bde712b9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:54 +0000
Subject: [PATCH 52/72] fix: completions, renames and placeholders are spelled
 so that they mean what they say

---
 crates/styx-lsp/src/schema_validation.rs | 5 +++--
 crates/styx-lsp/src/server.rs            | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/styx-lsp/src/schema_validation.rs b/crates/styx-lsp/src/schema_validation.rs
index 16f15ab..a177138 100644
--- a/crates/styx-lsp/src/schema_validation.rs
+++ b/crates/styx-lsp/src/schema_validation.rs
@@ -420,7 +420,7 @@ pub fn generate_placeholder(schema: &Schema) -> String {
         Schema::Bool => "false".to_string(),
         Schema::Unit => "@".to_string(),
         Schema::Any => "@".to_string(),
-        Schema::Seq(_) => "[]".to_string(),
+        Schema::Seq(_) => "()".to_string(),
         Schema::Map(_) => "{}".to_string(),
         Schema::Object(_) => "{}".to_string(),
         Schema::Optional(opt) => generate_placeholder(&opt.0.0.value),
@@ -445,7 +445,8 @@ pub fn generate_placeholder(schema: &Schema) -> String {
                 .unwrap_or_else(|| generate_placeholder(&o.0.0.value))
         }
         Schema::Flatten(f) => generate_placeholder(&f.0.0.value),
-        Schema::Literal(lit) => lit.clone(),
+        Schema::Literal(lit) if styx_format::can_be_bare(lit) => lit.clone(),
+        Schema::Literal(lit) => format!("\"{}\"", styx_format::escape_quoted(lit)),
         Schema::Type { name } => name
             .as_ref()
             .map(|n| format!("@{}", n))
diff --git a/crates/styx-lsp/src/server.rs b/crates/styx-lsp/src/server.rs
index 9abf28f..2b84842 100644
--- a/crates/styx-lsp/src/server.rs
+++ b/crates/styx-lsp/src/server.rs
@@ -1103,7 +1103,7 @@ impl LanguageServer for StyxLanguageServer {
                     detail: Some(type_str),
                     text_edit: Some(CompletionTextEdit::Edit(TextEdit {
                         range: edit_range,
-                        new_text: format!("{} ", name),
+                        new_text: format!("{} ", key_text(&name)),
                     })),
                     filter_text: Some(name.clone()),
                     sort_text: Some(if is_optional {
@@ -1271,7 +1271,7 @@ impl LanguageServer for StyxLanguageServer {
                 // Create a text edit to rename the field
                 let edit = TextEdit {
                     range: diag.range,
-                    new_text: to.to_string(),
+                    new_text: key_text(to),
                 };
 
                 let mut changes = std::collections::HashMap::new();
-- 
2.43.0


From 221869326d93ac7850f0c12b4020e7af0e6ecd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:48 +0000
Subject: [PATCH 53/72] fix: beginning a line within a scalar or heredoc must
 not indent its text

---
 crates/styx-lsp/src/server.rs | 56 +++++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 22 deletions(-)

diff --git a/crates/styx-lsp/src/server.rs b/crates/styx-lsp/src/server.rs
index 2b84842..70c83a0 100644
--- a/crates/styx-lsp/src/server.rs
+++ b/crates/styx-lsp/src/server.rs
@@ -1899,12 +1899,6 @@ impl LanguageServer for StyxLanguageServer {
             return Ok(None);
         }
 
-        // Convert position to byte offset
-        let offset = position_to_offset(&doc.content, position);
-
-        // Find the nesting depth at this offset using the CST
-        let depth = find_nesting_depth_cst(&doc.parse, offset);
-
         // Build indent string from editor preferences
         let indent_unit = if params.options.insert_spaces {
             " ".repeat(params.options.tab_size as usize)
@@ -1912,24 +1906,42 @@ impl LanguageServer for StyxLanguageServer {
             "\t".to_string()
         };
 
-        // Build the indentation string based on nesting depth
-        let indent_str = indent_unit.repeat(depth);
+        let edit = newline_edit(&doc.content, &doc.parse, position, &indent_unit);
+        Ok(edit.map(|edit| vec![edit]))
+    }
+}
 
-        // Insert indentation at the start of the current line
-        Ok(Some(vec![TextEdit {
-            range: Range {
-                start: Position {
-                    line: position.line,
-                    character: 0,
-                },
-                end: Position {
-                    line: position.line,
-                    character: 0,
-                },
-            },
-            new_text: indent_str,
-        }]))
+/// The edit that indents a line that was just begun; None if it is begun within
+/// a scalar or heredoc, whose text is its own
+fn newline_edit(
+    content: &str,
+    parse: &Parse,
+    position: Position,
+    indent_unit: &str,
+) -> Option<TextEdit> {
+    use styx_cst::{SyntaxKind, TextSize};
+
+    // Insert indentation at the start of the current line
+    let line_start = Position::new(position.line, 0);
+    let start = TextSize::new(position_to_offset(content, line_start) as u32);
+    let within_text = parse.syntax().descendants().any(|n| {
+        matches!(n.kind(), SyntaxKind::SCALAR | SyntaxKind::HEREDOC)
+            && n.text_range().start() < start
+            && start < n.text_range().end()
+    });
+    if within_text {
+        return None;
     }
+
+    // Find the nesting depth at the position using the CST
+    let depth = find_nesting_depth_cst(parse, position_to_offset(content, position));
+    Some(TextEdit {
+        range: Range {
+            start: line_start,
+            end: line_start,
+        },
+        new_text: indent_unit.repeat(depth),
+    })
 }
 
 /// The edit that formats a whole document; None if it is formatted already
-- 
2.43.0


From f6936c6bd5b1b709d36b7e6be4fa1556f8446e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:50 +0000
Subject: [PATCH 54/72] hook: open the server's editing functions to checks

---
 crates/styx-lsp/src/server.rs | 40 +++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/crates/styx-lsp/src/server.rs b/crates/styx-lsp/src/server.rs
index 70c83a0..3600bb1 100644
--- a/crates/styx-lsp/src/server.rs
+++ b/crates/styx-lsp/src/server.rs
@@ -3531,6 +3531,46 @@ pub mod hooks {
         super::format_edit(content, options)
     }
 
+    pub fn newline_edit(
+        content: &str,
+        parse: &styx_cst::Parse,
+        position: Position,
+        indent_unit: &str,
+    ) -> Option<TextEdit> {
+        super::newline_edit(content, parse, position, indent_unit)
+    }
+
+    /// The edit that fills fields, given with their values, into the object at an offset
+    pub fn insert_fields_edit(
+        content: &str,
+        parse: &styx_cst::Parse,
+        tree: &Value,
+        offset: usize,
+        fields: &[(String, String)],
+    ) -> Option<TextEdit> {
+        let object = find_object_at_offset(tree, offset)?.object;
+        let insert = find_field_insert_position(parse, content, &object)?;
+        let fields: Vec<_> = fields
+            .iter()
+            .map(|(name, value)| crate::schema_validation::SchemaField {
+                name: name.clone(),
+                optional: false,
+                default_value: Some(value.clone()),
+                schema: facet_styx::Schema::Any,
+            })
+            .collect();
+        let fields: Vec<_> = fields.iter().collect();
+        Some(super::insert_fields_edit(content, &insert, &fields))
+    }
+
+    pub fn key_text(name: &str) -> String {
+        super::key_text(name)
+    }
+
+    pub fn generate_placeholder(schema: &facet_styx::Schema) -> String {
+        crate::schema_validation::generate_placeholder(schema)
+    }
+
     pub fn find_nesting_depth_cst(parse: &styx_cst::Parse, offset: usize) -> usize {
         super::find_nesting_depth_cst(parse, offset)
     }
-- 
2.43.0


From 3bcf63b3731b31271c1e31567defaf6669b4654b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:47 +0000
Subject: [PATCH 55/72] fix: a place before an opening delimiter is not nested
 in it

---
 crates/styx-lsp/src/server.rs | 49 +++++++++++------------------------
 1 file changed, 15 insertions(+), 34 deletions(-)

diff --git a/crates/styx-lsp/src/server.rs b/crates/styx-lsp/src/server.rs
index 3600bb1..653457d 100644
--- a/crates/styx-lsp/src/server.rs
+++ b/crates/styx-lsp/src/server.rs
@@ -1976,25 +1976,7 @@ fn find_nesting_depth_cst(parse: &styx_cst::Parse, offset: usize) -> usize {
     // Find the token at this offset
     let token = match root.token_at_offset(offset) {
         TokenAtOffset::None => return 0,
-        TokenAtOffset::Single(t) => {
-            // If we're exactly at the end of a closing delimiter, we're semantically outside
-            if matches!(t.kind(), SyntaxKind::R_BRACE | SyntaxKind::R_PAREN)
-                && t.text_range().end() == offset
-            {
-                // We're at the end of a closing brace - count depth excluding this container
-                let mut depth: usize = 0;
-                let mut node = t.parent();
-                while let Some(n) = node {
-                    if matches!(n.kind(), SyntaxKind::OBJECT | SyntaxKind::SEQUENCE) {
-                        depth += 1;
-                    }
-                    node = n.parent();
-                }
-                // Subtract 1 because we're outside the innermost container
-                return depth.saturating_sub(1);
-            }
-            t
-        }
+        TokenAtOffset::Single(t) => t,
         TokenAtOffset::Between(left, right) => {
             // When between two tokens, choose based on what makes semantic sense:
             // - If left is a closing delimiter (} or )), cursor is OUTSIDE, prefer right
@@ -2006,21 +1988,20 @@ fn find_nesting_depth_cst(parse: &styx_cst::Parse, offset: usize) -> usize {
         }
     };
 
-    // Walk up the ancestor chain, counting OBJECT and SEQUENCE nodes
-    let mut depth = 0;
-    let mut node = token.parent();
-
-    while let Some(n) = node {
-        match n.kind() {
-            SyntaxKind::OBJECT | SyntaxKind::SEQUENCE => {
-                depth += 1;
-            }
-            _ => {}
-        }
-        node = n.parent();
-    }
-
-    depth
+    // Walk up the ancestor chain, counting the OBJECT and SEQUENCE nodes whose
+    // delimiters are around the offset (the closing one may not be there yet)
+    token
+        .parent_ancestors()
+        .filter(|n| {
+            let range = n.text_range();
+            let closed = n.last_child_or_token().is_some_and(|last| {
+                matches!(last.kind(), SyntaxKind::R_BRACE | SyntaxKind::R_PAREN)
+            });
+            matches!(n.kind(), SyntaxKind::OBJECT | SyntaxKind::SEQUENCE)
+                && range.start() < offset
+                && (offset < range.end() || !closed)
+        })
+        .count()
 }
 
 /// Collect document symbols recursively from a value tree
-- 
2.43.0


From cd4d2bdb913c862e5a9add56875b4952e4d12800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:47 +0000
Subject: [PATCH 56/72] fix: fields filled in before a comment are set apart
 from it

---
 crates/styx-lsp/src/server.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/styx-lsp/src/server.rs b/crates/styx-lsp/src/server.rs
index 653457d..fdf0c85 100644
--- a/crates/styx-lsp/src/server.rs
+++ b/crates/styx-lsp/src/server.rs
@@ -3334,12 +3334,17 @@ fn insert_fields_edit(
         .collect();
 
     let position = offset_to_position(content, insert.offset);
+    let mut new_text = format!("{}{}", insert.lead, entries.join(&insert.separator));
+    if content[insert.offset..].starts_with('/') {
+        // Keep the comment that follows a comment
+        new_text.push(' ');
+    }
     TextEdit {
         range: Range {
             start: position,
             end: position,
         },
-        new_text: format!("{}{}", insert.lead, entries.join(&insert.separator)),
+        new_text,
     }
 }
 
-- 
2.43.0


From 537291b833e62fcadf15b3447c3ec135b485b443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:26 +0000
Subject: [PATCH 57/72] fix: @tag and @tag@ are the same key

---
 crates/styx-parse/src/parser/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/styx-parse/src/parser/mod.rs b/crates/styx-parse/src/parser/mod.rs
index 009b733..acfcd52 100644
--- a/crates/styx-parse/src/parser/mod.rs
+++ b/crates/styx-parse/src/parser/mod.rs
@@ -1583,7 +1583,12 @@ impl KeyValue {
             AtomContent::Unit => KeyValue::Unit,
             AtomContent::Tag { name, payload, .. } => KeyValue::Tagged {
                 name: (*name).to_string(),
-                payload: payload.as_ref().map(|p| Box::new(KeyValue::from_atom(p))),
+                // `@tag` and `@tag@` are the same key: both carry unit.
+                payload: payload
+                    .as_ref()
+                    .map(|p| KeyValue::from_atom(p))
+                    .filter(|p| *p != KeyValue::Unit)
+                    .map(Box::new),
             },
             AtomContent::Object { .. } => KeyValue::Scalar("{}".into()),
             AtomContent::Sequence { .. } => KeyValue::Scalar("()".into()),
-- 
2.43.0


From 83111508d1b840d7a2d6605f0fd5a369ef7c494e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:26 +0000
Subject: [PATCH 58/72] fix: deprecation warnings within unions, one-of and
 variants without payload are not dropped

---
 crates/facet-styx/src/schema_validate.rs | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/crates/facet-styx/src/schema_validate.rs b/crates/facet-styx/src/schema_validate.rs
index abde1c9..86bc7a6 100644
--- a/crates/facet-styx/src/schema_validate.rs
+++ b/crates/facet-styx/src/schema_validate.rs
@@ -831,7 +831,7 @@ impl<'a> Validator<'a> {
         for variant in &schema.0 {
             let variant_result = self.validate_value(value, &variant.value, path);
             if variant_result.is_valid() {
-                return ValidationResult::ok();
+                return variant_result;
             }
             tried.push(schema_type_name(&variant.value));
         }
@@ -925,14 +925,13 @@ impl<'a> Validator<'a> {
                         };
                         result.merge(self.validate_value(p, variant_schema, &variant_path));
                     }
-                    (None, _)
-                        if self
-                            .validate_value(&Value::unit(), variant_schema, path)
-                            .is_valid() =>
-                    {
-                        // @variant whose schema accepts the implied unit payload - OK
-                    }
                     (None, _) => {
+                        let unit_result = self.validate_value(&Value::unit(), variant_schema, path);
+                        if unit_result.is_valid() {
+                            // @variant whose schema accepts the implied unit payload - OK
+                            result.merge(unit_result);
+                            return result;
+                        }
                         result.error(
                             ValidationError::new(
                                 path,
@@ -1011,13 +1010,11 @@ impl<'a> Validator<'a> {
     }
 
     fn validate_one_of(&self, value: &Value, schema: &OneOfSchema, path: &str) -> ValidationResult {
-        let mut result = ValidationResult::ok();
-
         // First validate against the base type
         let base_type = &schema.0.0.value;
-        let base_result = self.validate_value(value, base_type, path);
-        if !base_result.is_valid() {
-            return base_result;
+        let mut result = self.validate_value(value, base_type, path);
+        if !result.is_valid() {
+            return result;
         }
 
         // Then check if the value matches one of the allowed values
-- 
2.43.0


From bf2407959c88a01d7564c37e8a6fc6d751ec3fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:44 +0000
Subject: [PATCH 59/72] hook: open the command line's conversions to checks

---
 crates/styx-cli/Cargo.toml  |  4 ++++
 crates/styx-cli/src/main.rs | 45 +++++++++++++++++++++++++++++++++++++
 2 files changed, 49 insertions(+)

diff --git a/crates/styx-cli/Cargo.toml b/crates/styx-cli/Cargo.toml
index d0e49d6..9457212 100644
--- a/crates/styx-cli/Cargo.toml
+++ b/crates/styx-cli/Cargo.toml
@@ -16,6 +16,10 @@ rustdoc-args = ["--html-in-header", "arborium-header.html"]
 name = "styx"
 path = "src/main.rs"
 
+[features]
+# Opens private functions to checks outside this crate
+verification-hooks = []
+
 [dependencies]
 styx-tree.workspace = true
 styx-parse.workspace = true
diff --git a/crates/styx-cli/src/main.rs b/crates/styx-cli/src/main.rs
index bb47ebf..555b674 100644
--- a/crates/styx-cli/src/main.rs
+++ b/crates/styx-cli/src/main.rs
@@ -1982,6 +1982,51 @@ fn extract_enum_variants(value: &Value) -> Vec<String> {
     variants
 }
 
+/// Private functions opened to checks outside this crate.
+#[cfg(feature = "verification-hooks")]
+#[allow(dead_code)]
+pub mod hooks {
+    use super::*;
+
+    pub fn json_output(value: &Value) -> serde_json::Value {
+        value_to_json(value)
+    }
+
+    pub fn highlighted(source: &str) -> String {
+        highlight_styx(source)
+    }
+
+    pub fn without_schema_declaration(value: &Value) -> Value {
+        strip_schema_declaration(value)
+    }
+
+    /// The schema a document declares: a path, or an id and a program.
+    pub fn declared_schema(value: &Value) -> Option<Result<String, (Option<String>, String)>> {
+        match find_schema_declaration(value) {
+            Ok(SchemaRef::External(path)) => Some(Ok(path)),
+            Ok(SchemaRef::Embedded { id, cli }) => Some(Err((id, cli))),
+            Err(_) => None,
+        }
+    }
+
+    /// Breaking, additive and other changes between two schema files.
+    pub fn schema_changes(
+        baseline: &Value,
+        local: &Value,
+    ) -> (Vec<String>, Vec<String>, Vec<String>) {
+        let changes = compare_schemas(baseline, local);
+        (changes.breaking, changes.additive, changes.patch)
+    }
+
+    pub fn next_version(current: &str, baseline: &Value, local: &Value) -> Option<String> {
+        calculate_next_version(current, &compare_schemas(baseline, local)).ok()
+    }
+
+    pub fn meta_field(value: &Value, field: &str) -> Option<String> {
+        extract_meta_field(value, field)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From f2321e0335e79ec7edbbdea385fec750ba4c01cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:44 +0000
Subject: [PATCH 60/72] fix: JSON output keeps sibling paths and names tagged
 keys as they are written

---
 crates/styx-cli/src/main.rs | 42 ++++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/crates/styx-cli/src/main.rs b/crates/styx-cli/src/main.rs
index 555b674..b842f90 100644
--- a/crates/styx-cli/src/main.rs
+++ b/crates/styx-cli/src/main.rs
@@ -1382,21 +1382,43 @@ fn payload_to_json(payload: &Payload) -> serde_json::Value {
         }
         Payload::Object(o) => {
             let mut obj = serde_json::Map::new();
-            for entry in &o.entries {
-                let key = if entry.key.is_unit() {
-                    "@".to_string()
-                } else if let Some(s) = entry.key.as_str() {
-                    s.to_string()
-                } else {
-                    format!("{:?}", entry.key)
-                };
-                obj.insert(key, value_to_json(&entry.value));
-            }
+            insert_entries(&mut obj, o);
             serde_json::Value::Object(obj)
         }
     }
 }
 
+/// Add an object's entries. Sibling paths (`a.b 1`, `a.c 2`) are entries of the same name,
+/// and become one object.
+fn insert_entries(
+    obj: &mut serde_json::Map<String, serde_json::Value>,
+    entries: &styx_tree::Object,
+) {
+    for entry in &entries.entries {
+        let key = json_key(&entry.key);
+        if entry.value.tag.is_none()
+            && let Some(Payload::Object(inner)) = &entry.value.payload
+            && let Some(serde_json::Value::Object(existing)) = obj.get_mut(&key)
+        {
+            insert_entries(existing, inner);
+        } else {
+            obj.insert(key, value_to_json(&entry.value));
+        }
+    }
+}
+
+/// Keys that are not text are named as they are spelled: `@`, `@tag`, `@tag"text"`.
+fn json_key(key: &Value) -> String {
+    match (key.tag_name(), key.scalar_text()) {
+        (None, Some(text)) => text.to_string(),
+        (None, None) => "@".to_string(),
+        (Some(tag), None) => format!("@{tag}"),
+        (Some(tag), Some(text)) => {
+            format!("@{tag}\"{}\"", styx_format::escape_quoted(text))
+        }
+    }
+}
+
 // ============================================================================
 // Package command
 // ============================================================================
-- 
2.43.0


From 58c4328d9c96bf0f05aed6d3d3497f2b02860ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:44 +0000
Subject: [PATCH 61/72] fix: schema comparison overlooks changed fields,
 catch-alls and payloads of variants

---
 crates/styx-cli/src/main.rs | 170 ++++++++++++++++++++++++++++++------
 1 file changed, 145 insertions(+), 25 deletions(-)

diff --git a/crates/styx-cli/src/main.rs b/crates/styx-cli/src/main.rs
index b842f90..a189a20 100644
--- a/crates/styx-cli/src/main.rs
+++ b/crates/styx-cli/src/main.rs
@@ -1888,24 +1888,94 @@ fn compare_type_definitions(
     local: &Value,
     changes: &mut SchemaChanges,
 ) {
+    if same_type(baseline, local) {
+        return;
+    }
+
     let baseline_tag = baseline.tag.as_ref().map(|t| t.name.as_str());
     let local_tag = local.tag.as_ref().map(|t| t.name.as_str());
 
-    if baseline_tag != local_tag {
-        changes.breaking.push(format!(
-            "type `{type_name}` changed from @{} to @{}",
-            baseline_tag.unwrap_or("(none)"),
-            local_tag.unwrap_or("(none)")
-        ));
-        return;
+    match (baseline_tag, local_tag) {
+        (Some("object"), Some("object")) => {
+            compare_object_fields(type_name, baseline, local, changes);
+        }
+        (Some("enum"), Some("enum")) => {
+            compare_enum_variants(type_name, baseline, local, changes);
+        }
+        (_, Some(wrapper @ ("optional" | "default" | "deprecated")))
+            if wrapped_type(local).is_some_and(|t| same_type(baseline, t)) =>
+        {
+            let change = format!("`{type_name}` became @{wrapper}");
+            if wrapper == "deprecated" {
+                changes.patch.push(change);
+            } else {
+                changes.additive.push(change);
+            }
+        }
+        (Some("optional"), Some("optional")) | (Some("seq"), Some("seq"))
+            if wrapped_type(baseline).is_some() && wrapped_type(local).is_some() =>
+        {
+            if let (Some(baseline), Some(local)) = (wrapped_type(baseline), wrapped_type(local)) {
+                compare_type_definitions(type_name, baseline, local, changes);
+            }
+        }
+        _ if baseline_tag != local_tag => {
+            changes.breaking.push(format!(
+                "type `{type_name}` changed from @{} to @{}",
+                baseline_tag.unwrap_or("(none)"),
+                local_tag.unwrap_or("(none)")
+            ));
+        }
+        // whether the type accepts more or less than before is not decided
+        _ => {
+            changes.breaking.push(format!(
+                "definition of type `{type_name}` (@{}) changed",
+                baseline_tag.unwrap_or("(none)")
+            ));
+        }
     }
+}
 
-    if baseline_tag == Some("object") {
-        compare_object_fields(type_name, baseline, local, changes);
+/// Whether two types are spelled alike, documentation and layout aside.
+fn same_type(a: &Value, b: &Value) -> bool {
+    if a.tag_name() != b.tag_name() {
+        return false;
     }
+    match (&a.payload, &b.payload) {
+        (None, None) => true,
+        (Some(Payload::Scalar(a)), Some(Payload::Scalar(b))) => a.text == b.text,
+        (Some(Payload::Sequence(a)), Some(Payload::Sequence(b))) => {
+            a.items.len() == b.items.len()
+                && a.items.iter().zip(&b.items).all(|(a, b)| same_type(a, b))
+        }
+        (Some(Payload::Object(a)), Some(Payload::Object(b))) => {
+            a.entries.len() == b.entries.len()
+                && a.entries
+                    .iter()
+                    .zip(&b.entries)
+                    .all(|(a, b)| same_type(&a.key, &b.key) && same_type(&a.value, &b.value))
+        }
+        _ => false,
+    }
+}
 
-    if baseline_tag == Some("enum") {
-        compare_enum_variants(type_name, baseline, local, changes);
+/// The type in `@optional(type)`, `@default(value type)` or `@deprecated("reason" type)`.
+fn wrapped_type(value: &Value) -> Option<&Value> {
+    match &value.payload {
+        Some(Payload::Sequence(seq)) => seq.items.last(),
+        _ => None,
+    }
+}
+
+/// Entries of an object type whose keys are no field names: its catch-alls.
+fn extract_catch_alls(value: &Value) -> Vec<&styx_tree::Entry> {
+    match &value.payload {
+        Some(Payload::Object(obj)) => obj
+            .entries
+            .iter()
+            .filter(|entry| entry.key.as_str().is_none())
+            .collect(),
+        _ => Vec::new(),
     }
 }
 
@@ -1917,22 +1987,39 @@ fn compare_object_fields(
 ) {
     let baseline_fields = extract_object_fields(baseline);
     let local_fields = extract_object_fields(local);
-
-    for field_name in baseline_fields.keys() {
-        if !local_fields.contains_key(field_name) {
-            changes
+    let baseline_catch_alls = extract_catch_alls(baseline);
+    let local_catch_alls = extract_catch_alls(local);
+    // what an added field accepts may have been accepted as something else
+    let open = !baseline_catch_alls.is_empty()
+        || baseline_fields
+            .values()
+            .any(|field| field.tag_name() == Some("flatten"));
+
+    for (field_name, baseline_type) in &baseline_fields {
+        match local_fields.get(field_name) {
+            Some(local_type) => compare_type_definitions(
+                &format!("{type_name}.{field_name}"),
+                baseline_type,
+                local_type,
+                changes,
+            ),
+            None => changes
                 .breaking
-                .push(format!("removed field `{field_name}` from `{type_name}`"));
+                .push(format!("removed field `{field_name}` from `{type_name}`")),
         }
     }
 
     for (field_name, field_type) in &local_fields {
         if !baseline_fields.contains_key(field_name) {
             let is_optional = is_optional_field(field_type);
-            if is_optional {
+            if is_optional && !open {
                 changes.additive.push(format!(
                     "added optional field `{field_name}` to `{type_name}`"
                 ));
+            } else if is_optional {
+                changes.breaking.push(format!(
+                    "added field `{field_name}` to `{type_name}`, which accepted other fields"
+                ));
             } else {
                 changes.breaking.push(format!(
                     "added required field `{field_name}` to `{type_name}`"
@@ -1940,6 +2027,22 @@ fn compare_object_fields(
             }
         }
     }
+
+    let same = |a: &styx_tree::Entry, b: &styx_tree::Entry| {
+        same_type(&a.key, &b.key) && same_type(&a.value, &b.value)
+    };
+    if baseline_catch_alls
+        .iter()
+        .any(|a| !local_catch_alls.iter().any(|b| same(a, b)))
+    {
+        changes
+            .breaking
+            .push(format!("additional fields of `{type_name}` changed"));
+    } else if local_catch_alls.len() > baseline_catch_alls.len() {
+        changes
+            .additive
+            .push(format!("`{type_name}` accepts additional fields"));
+    }
 }
 
 fn extract_object_fields(value: &Value) -> std::collections::HashMap<String, &Value> {
@@ -1973,16 +2076,33 @@ fn compare_enum_variants(
     let baseline_variants = extract_enum_variants(baseline);
     let local_variants = extract_enum_variants(local);
 
-    for variant in &baseline_variants {
-        if !local_variants.contains(variant) {
-            changes
+    for (variant, baseline_type) in &baseline_variants {
+        match local_variants.iter().find(|(name, _)| name == variant) {
+            // a variant of such a type stands for values without a tag, too
+            Some((_, local_type))
+                if matches!(
+                    baseline_type.tag_name(),
+                    Some("string" | "int" | "float" | "bool")
+                ) && local_type.tag_name() != baseline_type.tag_name() =>
+            {
+                changes.breaking.push(format!(
+                    "type of variant `{variant}` of `{type_name}` changed"
+                ));
+            }
+            Some((_, local_type)) => compare_type_definitions(
+                &format!("{type_name}.{variant}"),
+                baseline_type,
+                local_type,
+                changes,
+            ),
+            None => changes
                 .breaking
-                .push(format!("removed variant `{variant}` from `{type_name}`"));
+                .push(format!("removed variant `{variant}` from `{type_name}`")),
         }
     }
 
-    for variant in &local_variants {
-        if !baseline_variants.contains(variant) {
+    for (variant, _) in &local_variants {
+        if !baseline_variants.iter().any(|(name, _)| name == variant) {
             changes
                 .additive
                 .push(format!("added variant `{variant}` to `{type_name}`"));
@@ -1990,13 +2110,13 @@ fn compare_enum_variants(
     }
 }
 
-fn extract_enum_variants(value: &Value) -> Vec<String> {
+fn extract_enum_variants(value: &Value) -> Vec<(String, &Value)> {
     let mut variants = Vec::new();
 
     if let Some(Payload::Object(obj)) = &value.payload {
         for entry in &obj.entries {
             if let Some(name) = entry.key.as_str() {
-                variants.push(name.to_string());
+                variants.push((name.to_string(), &entry.value));
             }
         }
     }
-- 
2.43.0


From 574d42384e2aba902f015fc5fec244c848f4b980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:44 +0000
Subject: [PATCH 62/72] hook: open the browser bindings' conversions to checks

---
 crates/styx-wasm/Cargo.toml |  4 ++++
 crates/styx-wasm/src/lib.rs | 14 ++++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/crates/styx-wasm/Cargo.toml b/crates/styx-wasm/Cargo.toml
index bebfd79..acafad4 100644
--- a/crates/styx-wasm/Cargo.toml
+++ b/crates/styx-wasm/Cargo.toml
@@ -14,6 +14,10 @@ rustdoc-args = ["--html-in-header", "arborium-header.html"]
 [lib]
 crate-type = ["cdylib", "rlib"]
 
+[features]
+# Opens private functions to checks outside this crate
+verification-hooks = []
+
 [dependencies]
 wasm-bindgen = "0.2"
 serde = { version = "1", features = ["derive"] }
diff --git a/crates/styx-wasm/src/lib.rs b/crates/styx-wasm/src/lib.rs
index 694135d..1d1b09f 100644
--- a/crates/styx-wasm/src/lib.rs
+++ b/crates/styx-wasm/src/lib.rs
@@ -367,3 +367,17 @@ fn needs_quoting(s: &str) -> bool {
 pub fn version() -> String {
     env!("CARGO_PKG_VERSION").to_string()
 }
+
+/// Private functions opened to checks outside this crate.
+#[cfg(feature = "verification-hooks")]
+pub mod hooks {
+    use super::*;
+
+    pub fn to_json(value: &Value) -> serde_json::Value {
+        value_to_json(value)
+    }
+
+    pub fn from_json(json: &serde_json::Value) -> Value {
+        json_to_value(json)
+    }
+}
-- 
2.43.0


From 43a0217ece2c909d780dcda21ddae1b50569853c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:44 +0000
Subject: [PATCH 63/72] fix: browser conversions lose sibling paths, large
 numbers, infinities and members beside $tag

---
 crates/styx-wasm/src/lib.rs | 83 +++++++++++++++++++++++++++----------
 1 file changed, 60 insertions(+), 23 deletions(-)

diff --git a/crates/styx-wasm/src/lib.rs b/crates/styx-wasm/src/lib.rs
index 1d1b09f..9782ea6 100644
--- a/crates/styx-wasm/src/lib.rs
+++ b/crates/styx-wasm/src/lib.rs
@@ -121,7 +121,9 @@ fn payload_to_json(payload: &Payload) -> serde_json::Value {
             // Try to parse as number or boolean
             if let Ok(n) = s.text.parse::<i64>() {
                 json!(n)
-            } else if let Ok(n) = s.text.parse::<f64>() {
+            } else if let Ok(n) = s.text.parse::<u64>() {
+                json!(n)
+            } else if let Some(n) = parse_float(&s.text) {
                 json!(n)
             } else if s.text == "true" {
                 json!(true)
@@ -138,6 +140,16 @@ fn payload_to_json(payload: &Payload) -> serde_json::Value {
     }
 }
 
+/// The number a text spells, if JSON has it: no infinities, and no integers that would be
+/// rounded.
+fn parse_float(text: &str) -> Option<f64> {
+    let digits = text.strip_prefix(['+', '-']).unwrap_or(text);
+    if digits.bytes().all(|b| b.is_ascii_digit()) {
+        return None;
+    }
+    text.parse::<f64>().ok().filter(|n| n.is_finite())
+}
+
 /// Convert a Styx Sequence to a JSON array.
 fn sequence_to_json(seq: &Sequence) -> serde_json::Value {
     let items: Vec<serde_json::Value> = seq.items.iter().map(value_to_json).collect();
@@ -147,24 +159,34 @@ fn sequence_to_json(seq: &Sequence) -> serde_json::Value {
 /// Convert a Styx Object to a JSON object.
 fn object_to_json(obj: &Object) -> serde_json::Value {
     let mut map = serde_json::Map::new();
+    insert_entries(&mut map, obj);
+    serde_json::Value::Object(map)
+}
 
+/// Add an object's entries. Sibling paths (`a.b 1`, `a.c 2`) are entries of the same name,
+/// and become one object.
+fn insert_entries(map: &mut serde_json::Map<String, serde_json::Value>, obj: &Object) {
     for entry in &obj.entries {
-        // Get key as string
-        let key = if entry.key.is_unit() {
-            "@".to_string()
-        } else if let Some(s) = entry.key.as_str() {
-            s.to_string()
-        } else if let Some(tag) = entry.key.tag_name() {
-            format!("@{}", tag)
+        let key = key_to_json(&entry.key);
+        if entry.value.tag.is_none()
+            && let Some(Payload::Object(inner)) = &entry.value.payload
+            && let Some(serde_json::Value::Object(existing)) = map.get_mut(&key)
+        {
+            insert_entries(existing, inner);
         } else {
-            // Complex key - serialize it
-            format!("{:?}", entry.key)
-        };
-
-        map.insert(key, value_to_json(&entry.value));
+            map.insert(key, value_to_json(&entry.value));
+        }
     }
+}
 
-    serde_json::Value::Object(map)
+/// Keys that are not text are named as they are spelled: `@`, `@tag`, `@tag"text"`.
+fn key_to_json(key: &Value) -> String {
+    match (key.tag_name(), key.scalar_text()) {
+        (None, Some(text)) => text.to_string(),
+        (None, None) => "@".to_string(),
+        (Some(tag), None) => format!("@{tag}"),
+        (Some(tag), Some(text)) => format!("@{tag}\"{}\"", styx_format::escape_quoted(text)),
+    }
 }
 
 /// Format a parse error kind into a human-readable message.
@@ -301,16 +323,22 @@ fn json_to_value(json: &serde_json::Value) -> Value {
 
         serde_json::Value::Object(obj) => {
             // Check for tagged value: {"$tag": "name", "$value": ...}
-            if let Some(serde_json::Value::String(tag_name)) = obj.get("$tag") {
-                let payload = obj.get("$value").and_then(|v| json_to_value(v).payload);
-                return Value {
-                    tag: Some(Tag {
-                        name: tag_name.clone(),
+            if let Some(serde_json::Value::String(tag_name)) = obj.get("$tag")
+                && is_tag_name(tag_name)
+                && obj.keys().all(|k| k == "$tag" || k == "$value")
+            {
+                let inner = obj.get("$value").map(json_to_value);
+                // a tag cannot have a tagged payload
+                if inner.as_ref().is_none_or(|v| v.tag.is_none()) {
+                    return Value {
+                        tag: Some(Tag {
+                            name: tag_name.clone(),
+                            span: None,
+                        }),
+                        payload: inner.and_then(|v| v.payload),
                         span: None,
-                    }),
-                    payload,
-                    span: None,
-                };
+                    };
+                }
             }
 
             // Regular object
@@ -347,6 +375,15 @@ fn json_to_value(json: &serde_json::Value) -> Value {
     }
 }
 
+/// Check if a string can be the name of a tag.
+fn is_tag_name(s: &str) -> bool {
+    let mut chars = s.chars();
+    chars
+        .next()
+        .is_some_and(|c| c.is_ascii_alphabetic() || c == '_')
+        && chars.all(|c| c.is_ascii_alphanumeric() || matches!(c, '_' | '-'))
+}
+
 /// Check if a string needs quoting in Styx.
 fn needs_quoting(s: &str) -> bool {
     if s.is_empty() {
-- 
2.43.0


From 5eb9e3a232d3cc87ea5402bc96b0039b7fbadeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:40 +0000
Subject: [PATCH 64/72] fix: reports marked the wrong text in sources with
 characters outside ASCII

Spans are in bytes; ariadne counts in characters.
---
 crates/facet-styx/src/error.rs        | 15 ++++++++++++++-
 crates/facet-styx/src/schema_error.rs |  7 ++++++-
 crates/styx-tree/src/diagnostic.rs    | 18 +++++++++++++++---
 3 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/crates/facet-styx/src/error.rs b/crates/facet-styx/src/error.rs
index 97bd380..5c21805 100644
--- a/crates/facet-styx/src/error.rs
+++ b/crates/facet-styx/src/error.rs
@@ -13,6 +13,17 @@ fn ariadne_config() -> Config {
     }
 }
 
+/// The range of characters a range of bytes covers, which is what ariadne counts in.
+pub(crate) fn char_range(source: &str, bytes: std::ops::Range<usize>) -> std::ops::Range<usize> {
+    let chars_before = |offset: usize| {
+        source
+            .char_indices()
+            .take_while(|(at, _)| *at < offset)
+            .count()
+    };
+    chars_before(bytes.start)..chars_before(bytes.end)
+}
+
 /// Convert a facet_reflect::Span to a Range<usize>.
 fn reflect_span_to_range(span: &facet_reflect::Span) -> std::ops::Range<usize> {
     let start = span.offset as usize;
@@ -64,6 +75,7 @@ fn build_deserialize_error_report<'a>(
         .as_ref()
         .map(reflect_span_to_range)
         .unwrap_or(0..source.len().max(1));
+    let range = char_range(source, range);
 
     match &err.kind {
         // Missing field from facet-format
@@ -126,7 +138,8 @@ fn build_deserialize_error_report<'a>(
 
         // Unexpected EOF
         DeserializeErrorKind::UnexpectedEof { expected } => {
-            let eof_range = source.len().saturating_sub(1)..source.len().max(1);
+            let chars = source.chars().count();
+            let eof_range = chars.saturating_sub(1)..chars.max(1);
             Report::build(ReportKind::Error, (filename, eof_range.clone()))
                 .with_config(config)
                 .with_message("unexpected end of input")
diff --git a/crates/facet-styx/src/schema_error.rs b/crates/facet-styx/src/schema_error.rs
index e81aaf9..440359d 100644
--- a/crates/facet-styx/src/schema_error.rs
+++ b/crates/facet-styx/src/schema_error.rs
@@ -3,6 +3,8 @@
 use ariadne::{Color, Config, Label, Report, ReportKind, Source};
 use styx_parse::Span;
 
+use crate::error::char_range;
+
 /// Get ariadne config, respecting NO_COLOR env var.
 fn ariadne_config() -> Config {
     let no_color = std::env::var("NO_COLOR").is_ok();
@@ -163,7 +165,7 @@ impl ValidationError {
 
     /// Write the error report to a writer.
     pub fn write_report<W: std::io::Write>(&self, filename: &str, source: &str, writer: W) {
-        let report = self.build_report(filename);
+        let report = self.build_report(filename, source);
         let _ = report
             .with_config(ariadne_config())
             .finish()
@@ -174,11 +176,13 @@ impl ValidationError {
     fn build_report<'a>(
         &self,
         filename: &'a str,
+        source: &str,
     ) -> ariadne::ReportBuilder<'static, (&'a str, std::ops::Range<usize>)> {
         let range = self
             .span
             .map(|s| s.start as usize..s.end as usize)
             .unwrap_or(0..1);
+        let range = char_range(source, range);
 
         let path_info = if self.path.is_empty() {
             String::new()
@@ -428,6 +432,7 @@ impl ValidationWarning {
             .span
             .map(|s| s.start as usize..s.end as usize)
             .unwrap_or(0..1);
+        let range = char_range(source, range);
 
         let report = match &self.kind {
             ValidationWarningKind::Deprecated { reason } => {
diff --git a/crates/styx-tree/src/diagnostic.rs b/crates/styx-tree/src/diagnostic.rs
index 84d93da..89b9656 100644
--- a/crates/styx-tree/src/diagnostic.rs
+++ b/crates/styx-tree/src/diagnostic.rs
@@ -29,7 +29,7 @@ impl ParseError {
 
     /// Write the error report to a writer.
     pub fn write_report<W: std::io::Write>(&self, filename: &str, source: &str, writer: W) {
-        let report = self.build_report(filename);
+        let report = self.build_report(filename, source);
         let _ = report
             .finish()
             .write((filename, Source::from(source)), writer);
@@ -38,13 +38,14 @@ impl ParseError {
     fn build_report<'a>(
         &self,
         filename: &'a str,
+        source: &str,
     ) -> ariadne::ReportBuilder<'static, (&'a str, std::ops::Range<usize>)> {
-        let range = self.span.start as usize..self.span.end as usize;
+        let range = char_range(source, self.span);
 
         match &self.kind {
             // diag[impl diagnostic.parser.duplicate-key]
             ParseErrorKind::DuplicateKey { original } => {
-                let original_range = original.start as usize..original.end as usize;
+                let original_range = char_range(source, *original);
                 Report::build(ReportKind::Error, (filename, range.clone()))
                     .with_message("duplicate key")
                     .with_label(
@@ -218,6 +219,17 @@ impl ParseError {
     }
 }
 
+/// The range of characters a span of bytes covers, which is what ariadne counts in.
+fn char_range(source: &str, span: Span) -> std::ops::Range<usize> {
+    let chars_before = |offset: u32| {
+        source
+            .char_indices()
+            .take_while(|(at, _)| *at < offset as usize)
+            .count()
+    };
+    chars_before(span.start)..chars_before(span.end)
+}
+
 impl std::fmt::Display for ParseError {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         match &self.kind {
-- 
2.43.0


From bea43609c48c5c2917c2cbc5743bedd7f10b2e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:40 +0000
Subject: [PATCH 65/72] fix: what cannot be a key was reported as a repeated
 key as well

Two sequences, objects, stray delimiters or heredocs in key position were
taken for the same key.
---
 crates/styx-parse/src/parser/mod.rs | 55 ++++++++++++++++-------------
 1 file changed, 31 insertions(+), 24 deletions(-)

diff --git a/crates/styx-parse/src/parser/mod.rs b/crates/styx-parse/src/parser/mod.rs
index acfcd52..5a5d461 100644
--- a/crates/styx-parse/src/parser/mod.rs
+++ b/crates/styx-parse/src/parser/mod.rs
@@ -540,7 +540,9 @@ impl<'src> Parser<'src> {
 
         // Simple key - use path state for duplicate detection at root level
         // (path_state handles both simple and dotted paths uniformly)
-        let key_value = KeyValue::from_atom(key_atom);
+        let Some(key_value) = KeyValue::from_atom(key_atom) else {
+            return;
+        };
 
         if let ParserState::DocumentRoot { path_state, .. }
         | ParserState::InObject { path_state, .. } = &mut self.state
@@ -852,12 +854,13 @@ impl<'src> Parser<'src> {
 
                     if !entry_atoms.is_empty() {
                         let key = entry_atoms[0].clone();
-                        let key_value = KeyValue::from_atom(&key);
 
-                        if let Some(&original_span) = seen_keys.get(&key_value) {
-                            duplicate_key_spans.push((original_span, key.span));
-                        } else {
-                            seen_keys.insert(key_value, key.span);
+                        if let Some(key_value) = KeyValue::from_atom(&key) {
+                            if let Some(&original_span) = seen_keys.get(&key_value) {
+                                duplicate_key_spans.push((original_span, key.span));
+                            } else {
+                                seen_keys.insert(key_value, key.span);
+                            }
                         }
 
                         let (value, too_many_atoms_span) = if entry_atoms.len() == 1 {
@@ -1577,27 +1580,31 @@ enum KeyValue {
 }
 
 impl KeyValue {
-    fn from_atom(atom: &Atom<'_>) -> Self {
+    /// The value an atom has as a key, or `None` if it cannot be one (which is reported where
+    /// the key is emitted).
+    fn from_atom(atom: &Atom<'_>) -> Option<Self> {
         match &atom.content {
-            AtomContent::Scalar { value, .. } => KeyValue::Scalar(value.to_string()),
-            AtomContent::Unit => KeyValue::Unit,
-            AtomContent::Tag { name, payload, .. } => KeyValue::Tagged {
+            AtomContent::Scalar {
+                kind: ScalarKind::Heredoc,
+                ..
+            } => None,
+            AtomContent::Scalar { value, .. } => Some(KeyValue::Scalar(value.to_string())),
+            AtomContent::Unit => Some(KeyValue::Unit),
+            AtomContent::Tag { name, payload, .. } => Some(KeyValue::Tagged {
                 name: (*name).to_string(),
                 // `@tag` and `@tag@` are the same key: both carry unit.
-                payload: payload
-                    .as_ref()
-                    .map(|p| KeyValue::from_atom(p))
-                    .filter(|p| *p != KeyValue::Unit)
-                    .map(Box::new),
-            },
-            AtomContent::Object { .. } => KeyValue::Scalar("{}".into()),
-            AtomContent::Sequence { .. } => KeyValue::Scalar("()".into()),
-            AtomContent::Attributes(_) => KeyValue::Scalar("{}".into()),
-            AtomContent::InvalidEscapeScalar { raw_inner } => {
-                // This is raw text that failed escape processing - just use it as-is
-                KeyValue::Scalar(raw_inner.to_string())
-            }
-            AtomContent::Error { .. } => KeyValue::Scalar("<error>".into()),
+                payload: match payload {
+                    Some(payload) => Some(KeyValue::from_atom(payload)?)
+                        .filter(|p| *p != KeyValue::Unit)
+                        .map(Box::new),
+                    None => None,
+                },
+            }),
+            AtomContent::Object { .. }
+            | AtomContent::Sequence { .. }
+            | AtomContent::Attributes(_)
+            | AtomContent::InvalidEscapeScalar { .. }
+            | AtomContent::Error { .. } => None,
         }
     }
 
-- 
2.43.0


From 6b28451b06a4aac962a8625aa8982ba04429d7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:40 +0000
Subject: [PATCH 66/72] fix: errors within the payload of an enum variant had
 no place

---
 crates/facet-styx/src/schema_validate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/facet-styx/src/schema_validate.rs b/crates/facet-styx/src/schema_validate.rs
index 86bc7a6..697ec5e 100644
--- a/crates/facet-styx/src/schema_validate.rs
+++ b/crates/facet-styx/src/schema_validate.rs
@@ -900,7 +900,7 @@ impl<'a> Validator<'a> {
         let payload_value = value.payload.as_ref().map(|p| Value {
             tag: None,
             payload: Some(p.clone()),
-            span: None,
+            span: value.span,
         });
 
         let expected_variants: Vec<String> = schema.0.keys().map(|k| k.value.clone()).collect();
-- 
2.43.0


From f02ecc17fd26a343969e2f4ed799cae1ac59cdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:42 +0000
Subject: [PATCH 67/72] fix: a schema of @ was written back as @type

---
 crates/facet-styx/src/schema_types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/facet-styx/src/schema_types.rs b/crates/facet-styx/src/schema_types.rs
index 813f088..43ebec1 100644
--- a/crates/facet-styx/src/schema_types.rs
+++ b/crates/facet-styx/src/schema_types.rs
@@ -132,7 +132,7 @@ pub enum Schema {
 
     /// User-defined type reference (fallback for unknown tags)
     /// e.g., @MyCustomType becomes Type { name: "MyCustomType" }
-    #[facet(other)]
+    #[facet(other, rename = "")]
     Type {
         #[facet(tag)]
         name: Option<String>,
-- 
2.43.0


From 53a09adcfa1f54d3978be0458c8202e0d42607e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:42 +0000
Subject: [PATCH 68/72] fix: documentation lost its last line where that is
 empty

---
 crates/styx-format/src/writer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/styx-format/src/writer.rs b/crates/styx-format/src/writer.rs
index 3ae30e7..1747694 100644
--- a/crates/styx-format/src/writer.rs
+++ b/crates/styx-format/src/writer.rs
@@ -609,7 +609,7 @@ impl StyxWriter {
         // For non-first fields, or non-root structs, add newline before doc
         let need_leading_newline = !is_first || !is_root;
 
-        for (i, line) in doc.lines().enumerate() {
+        for (i, line) in doc.split('\n').enumerate() {
             if i > 0 || need_leading_newline {
                 self.write_newline_indent();
             }
@@ -669,7 +669,7 @@ impl StyxWriter {
         // For non-first fields, or non-root structs, add newline before doc
         let need_leading_newline = !is_first || !is_root;
 
-        for (i, line) in doc.lines().enumerate() {
+        for (i, line) in doc.split('\n').enumerate() {
             if i > 0 || need_leading_newline {
                 self.write_newline_indent();
             }
-- 
2.43.0


From 8c05bfe4a4db31be979e5445821b577db78d5a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:42 +0000
Subject: [PATCH 69/72] fix: the payload of a tagged key was written unescaped

---
 crates/facet-styx/src/serializer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/facet-styx/src/serializer.rs b/crates/facet-styx/src/serializer.rs
index 5f208e8..72a4639 100644
--- a/crates/facet-styx/src/serializer.rs
+++ b/crates/facet-styx/src/serializer.rs
@@ -8,7 +8,7 @@ use facet_format::{
     FieldKey, FieldLocationHint, FormatSerializer, ScalarValue, SerializeError, serialize_root,
 };
 use facet_reflect::{HasFields, Peek};
-use styx_format::{FormatOptions, StyxWriter};
+use styx_format::{FormatOptions, StyxWriter, escape_quoted};
 
 // Re-export FormatOptions as SerializeOptions for backwards compatibility
 pub use styx_format::FormatOptions as SerializeOptions;
@@ -263,6 +263,7 @@ impl FormatSerializer for StyxSerializer {
         ) {
             (Some(tag), Some(name)) => {
                 // @tag"name" - tagged with value
+                let name = escape_quoted(name);
                 let key_str = if tag.is_empty() {
                     format!("@\"{}\"", name)
                 } else {
-- 
2.43.0


From 2839a156d3370f15b7871e698eaafcb3db8ca83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:56 +0000
Subject: [PATCH 70/72] fix: compact output of schema files lost documentation,
 tagged keys and raw values

---
 crates/facet-styx/src/serializer.rs | 146 +++-------------------------
 1 file changed, 12 insertions(+), 134 deletions(-)

diff --git a/crates/facet-styx/src/serializer.rs b/crates/facet-styx/src/serializer.rs
index 72a4639..c16204b 100644
--- a/crates/facet-styx/src/serializer.rs
+++ b/crates/facet-styx/src/serializer.rs
@@ -207,6 +207,14 @@ impl StyxSerializer {
         }
     }
 
+    /// Create a serializer that always wraps objects in braces, the root as well.
+    fn embedded(options: FormatOptions) -> Self {
+        Self {
+            at_root: false,
+            ..Self::with_options(options)
+        }
+    }
+
     /// Consume the serializer and return the output bytes, ensuring trailing newline.
     pub fn finish(self) -> Vec<u8> {
         self.writer.finish_document()
@@ -585,9 +593,9 @@ where
 {
     // For compact mode, we don't want the root to be unwrapped
     let options = FormatOptions::default().inline();
-    let mut serializer = CompactStyxSerializer::with_options(options);
+    let mut serializer = StyxSerializer::embedded(options);
     serialize_root(&mut serializer, Peek::new(value))?;
-    let bytes = serializer.finish();
+    let bytes = serializer.writer.finish();
     Ok(String::from_utf8(bytes).expect("Styx output should always be valid UTF-8"))
 }
 
@@ -631,142 +639,12 @@ pub fn peek_to_string_expr<'input, 'facet>(
     peek: Peek<'input, 'facet>,
 ) -> Result<String, SerializeError<StyxSerializeError>> {
     let options = FormatOptions::default().inline();
-    let mut serializer = CompactStyxSerializer::with_options(options);
+    let mut serializer = StyxSerializer::embedded(options);
     serialize_root(&mut serializer, peek)?;
-    let bytes = serializer.finish();
+    let bytes = serializer.writer.finish();
     Ok(String::from_utf8(bytes).expect("Styx output should always be valid UTF-8"))
 }
 
-// ─────────────────────────────────────────────────────────────────────────────
-// Compact serializer (always uses braces, never unwraps root)
-// ─────────────────────────────────────────────────────────────────────────────
-
-/// A variant of StyxSerializer that always wraps in braces (for compact mode).
-struct CompactStyxSerializer {
-    writer: StyxWriter,
-    just_wrote_tag: bool,
-}
-
-impl CompactStyxSerializer {
-    fn with_options(options: FormatOptions) -> Self {
-        Self {
-            writer: StyxWriter::with_options(options),
-            just_wrote_tag: false,
-        }
-    }
-
-    fn finish(self) -> Vec<u8> {
-        // Compact mode is for inline embedding - no trailing newline
-        self.writer.finish()
-    }
-}
-
-impl FormatSerializer for CompactStyxSerializer {
-    type Error = StyxSerializeError;
-
-    fn begin_struct(&mut self) -> Result<(), Self::Error> {
-        if self.just_wrote_tag {
-            // The payload of a tag is attached to it
-            return self.begin_struct_after_tag();
-        }
-        // Never treat as root in compact mode
-        self.writer.clear_skip_before_value();
-        self.writer.begin_struct(false);
-        Ok(())
-    }
-
-    fn field_key(&mut self, key: &str) -> Result<(), Self::Error> {
-        self.just_wrote_tag = false;
-        self.writer.clear_skip_before_value();
-        self.writer.field_key(key).map_err(StyxSerializeError::new)
-    }
-
-    fn end_struct(&mut self) -> Result<(), Self::Error> {
-        self.writer.end_struct().map_err(StyxSerializeError::new)
-    }
-
-    fn begin_seq(&mut self) -> Result<(), Self::Error> {
-        if self.just_wrote_tag {
-            // The payload of a tag is attached to it
-            return self.begin_seq_after_tag();
-        }
-        self.writer.clear_skip_before_value();
-        self.writer.begin_seq();
-        Ok(())
-    }
-
-    fn end_seq(&mut self) -> Result<(), Self::Error> {
-        self.writer.end_seq().map_err(StyxSerializeError::new)
-    }
-
-    fn scalar(&mut self, scalar: ScalarValue<'_>) -> Result<(), Self::Error> {
-        if self.just_wrote_tag && matches!(scalar, ScalarValue::Unit | ScalarValue::Null) {
-            self.just_wrote_tag = false;
-            self.writer.clear_skip_before_value();
-            return Ok(());
-        }
-        self.just_wrote_tag = false;
-        match scalar {
-            ScalarValue::Unit | ScalarValue::Null => self.writer.write_null(),
-            ScalarValue::Bool(v) => self.writer.write_bool(v),
-            ScalarValue::Char(c) => self.writer.write_char(c),
-            ScalarValue::I64(v) => self.writer.write_i64(v),
-            ScalarValue::U64(v) => self.writer.write_u64(v),
-            ScalarValue::I128(v) => self.writer.write_i128(v),
-            ScalarValue::U128(v) => self.writer.write_u128(v),
-            ScalarValue::F64(v) => self.writer.write_f64(v),
-            ScalarValue::Str(s) => self.writer.write_string(&s),
-            ScalarValue::Bytes(bytes) => self.writer.write_bytes(&bytes),
-            // facet's ScalarValue is #[non_exhaustive]; a kind we don't recognize can't be
-            // written to styx, so fail loudly rather than silently drop or mis-encode it.
-            _ => {
-                return Err(StyxSerializeError::new(
-                    "facet-styx: unsupported scalar value variant",
-                ));
-            }
-        }
-        Ok(())
-    }
-
-    fn serialize_none(&mut self) -> Result<(), Self::Error> {
-        if self.just_wrote_tag {
-            self.just_wrote_tag = false;
-            self.writer.clear_skip_before_value();
-            return Ok(());
-        }
-        self.writer.write_null();
-        Ok(())
-    }
-
-    fn write_variant_tag(&mut self, variant_name: &str) -> Result<bool, Self::Error> {
-        if self.just_wrote_tag {
-            self.writer.write_tag_chain_segment(variant_name);
-        } else {
-            self.writer.write_tag(variant_name);
-        }
-        self.just_wrote_tag = true;
-        Ok(true)
-    }
-
-    fn begin_struct_after_tag(&mut self) -> Result<(), Self::Error> {
-        self.just_wrote_tag = false;
-        self.writer.begin_struct_after_tag(false);
-        Ok(())
-    }
-
-    fn begin_seq_after_tag(&mut self) -> Result<(), Self::Error> {
-        self.just_wrote_tag = false;
-        self.writer.begin_seq_after_tag();
-        Ok(())
-    }
-
-    fn finish_variant_tag_unit_payload(&mut self) -> Result<(), Self::Error> {
-        self.just_wrote_tag = false;
-        self.writer.clear_skip_before_value();
-        Ok(())
-    }
-}
-
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 4832cad36e73286407eaa8df32c132b293c5709d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:06 +0000
Subject: [PATCH 71/72] fix: documentation in a nested object after a sibling
 tore a key apart in braced output

---
 crates/styx-format/src/writer.rs | 87 +++++---------------------------
 1 file changed, 13 insertions(+), 74 deletions(-)

diff --git a/crates/styx-format/src/writer.rs b/crates/styx-format/src/writer.rs
index 1747694..3e09c98 100644
--- a/crates/styx-format/src/writer.rs
+++ b/crates/styx-format/src/writer.rs
@@ -696,62 +696,8 @@ impl StyxWriter {
     /// Propagate multiline formatting up to all parent structs that started inline.
     /// This is called when doc comments force the current struct to be multiline.
     fn propagate_multiline_to_parents(&mut self) {
-        // First, collect all comma positions from parent structs that will go multiline
-        // We need to fix these before inserting newlines
-        let mut all_comma_positions: Vec<usize> = Vec::new();
-        let mut structs_to_fix: Vec<usize> = Vec::new(); // indices in stack
-
-        for (idx, ctx) in self.stack.iter().enumerate() {
-            if let Context::Struct {
-                inline_start,
-                force_multiline,
-                is_root,
-                comma_positions,
-                ..
-            } = ctx
-                && !*is_root
-                && *inline_start
-                && !*force_multiline
-            {
-                structs_to_fix.push(idx);
-                all_comma_positions.extend(comma_positions.iter().copied());
-            }
-        }
-
-        // Fix all comma separators first (before we insert newlines which would shift positions)
-        if !all_comma_positions.is_empty() {
-            // Sort and process from end to start
-            all_comma_positions.sort_unstable();
-            for &comma_pos in all_comma_positions.iter().rev() {
-                // Replace ", " with newline + appropriate indent
-                if comma_pos + 2 <= self.out.len()
-                    && self.out[comma_pos] == b','
-                    && self.out[comma_pos + 1] == b' '
-                {
-                    // Calculate indent for this position
-                    let indent = self.options.indent.repeat(self.indent_depth());
-                    let newline_indent = format!("\n{}", indent);
-                    self.out.drain(comma_pos..comma_pos + 2);
-                    let bytes = newline_indent.as_bytes();
-                    for (i, &b) in bytes.iter().enumerate() {
-                        self.out.insert(comma_pos + i, b);
-                    }
-                }
-            }
-        }
-
-        // Clear comma positions from structs we're fixing
-        for &idx in &structs_to_fix {
-            if let Some(Context::Struct {
-                comma_positions, ..
-            }) = self.stack.get_mut(idx)
-            {
-                comma_positions.clear();
-            }
-        }
-
-        // Now collect positions and effective depths of structs that need newline after brace
-        let mut fixes: Vec<(usize, usize)> = Vec::new(); // (open_brace_pos, effective_depth)
+        // Collect what to replace by a newline: (position, bytes replaced, depth)
+        let mut fixes: Vec<(usize, usize, usize)> = Vec::new();
 
         let mut effective_depth = 0;
         for ctx in self.stack.iter_mut() {
@@ -759,6 +705,7 @@ impl StyxWriter {
                 inline_start,
                 force_multiline,
                 is_root,
+                comma_positions,
                 open_brace_pos: Some(pos),
                 ..
             } = ctx
@@ -769,7 +716,9 @@ impl StyxWriter {
                     if *inline_start && !*force_multiline {
                         *force_multiline = true;
                         // Content inside this struct should be at effective_depth + 1
-                        fixes.push((*pos, effective_depth + 1));
+                        let depth = effective_depth + 1;
+                        fixes.push((*pos, 0, depth));
+                        fixes.extend(comma_positions.drain(..).map(|pos| (pos, 2, depth)));
                     }
                     // After forcing multiline, this struct now contributes to depth
                     effective_depth += 1;
@@ -778,30 +727,20 @@ impl StyxWriter {
         }
 
         // Apply fixes from end to start (so positions stay valid)
-        for (pos, indent_depth) in fixes.into_iter().rev() {
-            // Insert newline + indent after the opening brace
-            let indent = self.options.indent.repeat(indent_depth);
-            let insert = format!("\n{}", indent);
-            for (i, b) in insert.bytes().enumerate() {
-                self.out.insert(pos + i, b);
-            }
+        fixes.sort_unstable();
+        for (pos, len, depth) in fixes.into_iter().rev() {
+            let insert = format!("\n{}", self.options.indent.repeat(depth));
+            self.out.splice(pos..pos + len, insert.bytes());
 
-            // Update all positions in the stack that come after this insertion
+            // Update the positions in the stack that come after this replacement
             for ctx in self.stack.iter_mut() {
                 if let Context::Struct {
                     open_brace_pos: Some(p),
-                    comma_positions,
                     ..
                 } = ctx
+                    && *p > pos
                 {
-                    if *p > pos {
-                        *p += insert.len();
-                    }
-                    for cp in comma_positions.iter_mut() {
-                        if *cp >= pos {
-                            *cp += insert.len();
-                        }
-                    }
+                    *p = *p + insert.len() - len;
                 }
             }
         }
-- 
2.43.0


From e2253ac331acfd688918e101c6f0e400f090003e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:27:21 +0000
Subject: [PATCH 72/72] fix: a heredoc kept as raw text swallowed what was
 written after it

---
 crates/facet-styx/src/serializer.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/crates/facet-styx/src/serializer.rs b/crates/facet-styx/src/serializer.rs
index c16204b..60162c1 100644
--- a/crates/facet-styx/src/serializer.rs
+++ b/crates/facet-styx/src/serializer.rs
@@ -163,6 +163,20 @@ fn extract_name_and_tag<'mem, 'facet>(
     (None, None)
 }
 
+/// Rewrite a value that is a heredoc (possibly tagged) as a quoted string.
+///
+/// What follows a value is written on the same line, where a heredoc can't end.
+fn quote_heredoc(content: &str) -> Cow<'_, str> {
+    if let Some((tag, heredoc)) = content.split_once("<<")
+        && !tag.contains(|c: char| !(c.is_alphanumeric() || "@-_".contains(c)))
+        && let Ok(value) = styx_tree::parse(&format!("value <<{heredoc}\n"))
+        && let Some(text) = value.get("value").and_then(|v| v.as_str())
+    {
+        return Cow::Owned(format!("{tag}\"{}\"", escape_quoted(text)));
+    }
+    Cow::Borrowed(content)
+}
+
 /// Error type for Styx serialization.
 #[derive(Debug)]
 pub struct StyxSerializeError {
@@ -441,7 +455,7 @@ impl FormatSerializer for StyxSerializer {
         self.at_root = false;
         self.just_wrote_tag = false;
         self.writer.before_value();
-        self.writer.write_str(content);
+        self.writer.write_str(&quote_heredoc(content));
         Ok(())
     }
 
-- 
2.43.0

