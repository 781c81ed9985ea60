From b8671b7cdfe324aa879ddcbcd3a4fef85d34b20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:37 +0000
Subject: [PATCH 01/11] fix: do not read a bracket in a value as an array
 header

An unquoted key cannot contain a colon, so in 'msg: "[2]: hello"' the bracket
belongs to the value. It was taken for an array header, which made documents
written by the encoder fail to decode or decode to another value.
---
 src/decode/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/decode/parser.rs b/src/decode/parser.rs
index 33af40a..175bffe 100644
--- a/src/decode/parser.rs
+++ b/src/decode/parser.rs
@@ -50,7 +50,11 @@ pub fn parse_array_header_line(
             .find(OPEN_BRACKET)
             .map(|idx| key_end + idx)
     } else {
-        content.find(OPEN_BRACKET)
+        // An unquoted key cannot contain a colon, so a bracket that only appears
+        // after the first colon belongs to the value and not to a header.
+        content
+            .find(OPEN_BRACKET)
+            .filter(|&bracket| content.find(COLON).is_none_or(|colon| bracket < colon))
     };
 
     let Some(bracket_start) = bracket_start else {
-- 
2.43.0


From 3b75d93f991b034c5aa0cf604b7e5a02df94e632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:01 +0000
Subject: [PATCH 02/11] fix: allow braces inside quoted field names of a
 tabular header

The field list ended at the first closing brace even inside a quoted name, so
the encoder's own '[1]{"a}b"}:' could not be decoded.
---
 src/decode/parser.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/decode/parser.rs b/src/decode/parser.rs
index 175bffe..23cac3c 100644
--- a/src/decode/parser.rs
+++ b/src/decode/parser.rs
@@ -76,9 +76,8 @@ pub fn parse_array_header_line(
 
     if let (Some(brace_start), Some(colon_after_bracket)) = (brace_start, colon_after_bracket)
         && brace_start < colon_after_bracket
-        && let Some(found_end) = content[brace_start..].find(CLOSE_BRACE)
+        && let Some(found_end) = find_fields_end(content, brace_start)
     {
-        let found_end = brace_start + found_end;
         brace_end = found_end + 1;
     }
 
@@ -118,9 +117,8 @@ pub fn parse_array_header_line(
     let mut fields: Option<Vec<FieldName>> = None;
     if let Some(brace_start) = brace_start
         && brace_start < colon_index
-        && let Some(found_end) = content[brace_start..].find(CLOSE_BRACE)
+        && let Some(found_end) = find_fields_end(content, brace_start)
     {
-        let found_end = brace_start + found_end;
         if found_end < colon_index {
             let fields_content = &content[brace_start + 1..found_end];
             let parsed_fields = parse_delimited_values(fields_content, delimiter)
@@ -152,6 +150,18 @@ pub fn parse_array_header_line(
     }))
 }
 
+/// Find the brace that closes the field list, skipping braces inside quoted names.
+///
+/// An unterminated quoted name falls back to the first closing brace, so that
+/// parsing the field list reports the malformed name.
+fn find_fields_end(content: &str, brace_start: usize) -> Option<usize> {
+    find_unquoted_char(content, CLOSE_BRACE, brace_start).or_else(|| {
+        content[brace_start..]
+            .find(CLOSE_BRACE)
+            .map(|idx| brace_start + idx)
+    })
+}
+
 /// Hard cap on the declared length that appears inside an array header `[N]`.
 ///
 /// A TOON file claiming e.g. `[9999999999]` should not be allowed to drive
-- 
2.43.0


From 2106eec8b83d20257848c83bfe08a095cdd531c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:05 +0000
Subject: [PATCH 03/11] fix: count a bare '-' as an extra list item in strict
 mode

A bare '-' is a list item (an empty object), but the check for items beyond
the declared count only knew '- ', so such items were dropped silently.
---
 src/decode/validation.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decode/validation.rs b/src/decode/validation.rs
index 30e0ffe..301c193 100644
--- a/src/decode/validation.rs
+++ b/src/decode/validation.rs
@@ -1,7 +1,7 @@
 use crate::decode::parser::ArrayHeaderInfo;
 use crate::decode::scanner::{BlankLineInfo, Depth, ParsedLine};
 use crate::error::{Result, ToonError};
-use crate::shared::constants::{COLON, LIST_ITEM_PREFIX};
+use crate::shared::constants::{COLON, LIST_ITEM_MARKER, LIST_ITEM_PREFIX};
 use crate::shared::string_utils::find_unquoted_char;
 
 /// Assert the expected count in strict mode.
@@ -37,7 +37,7 @@ pub fn validate_no_extra_list_items(
     if strict
         && let Some(line) = next_line
         && line.depth == item_depth
-        && line.content.starts_with(LIST_ITEM_PREFIX)
+        && (line.content.starts_with(LIST_ITEM_PREFIX) || line.content == LIST_ITEM_MARKER)
     {
         return Err(ToonError::message(format!(
             "Expected {expected_count} list array items, but found more"
-- 
2.43.0


From 782adf4719296ef25ec3335777986d914fecf614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:26 +0000
Subject: [PATCH 04/11] fix: report a failed write of the output file

The buffered writer was dropped without a flush, which discards the error:
'toon in.json -o /dev/full' reported success and exited 0.
---
 src/cli/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cli/mod.rs b/src/cli/mod.rs
index 2eaa758..07b50d9 100644
--- a/src/cli/mod.rs
+++ b/src/cli/mod.rs
@@ -172,6 +172,10 @@ fn write_lines(args: &Args, lines: &[String]) -> Result<()> {
         writer
             .write_all(b"\n")
             .map_err(|e| ToonError::file_write(path.clone(), e))?;
+        // Dropping the writer would discard the error of the last write
+        writer
+            .flush()
+            .map_err(|e| ToonError::file_write(path.clone(), e))?;
     } else {
         let stdout = io::stdout();
         let mut handle = stdout.lock();
@@ -204,6 +208,10 @@ fn write_chunks(args: &Args, chunks: &[String]) -> Result<()> {
         writer
             .write_all(b"\n")
             .map_err(|e| ToonError::file_write(path.clone(), e))?;
+        // Dropping the writer would discard the error of the last write
+        writer
+            .flush()
+            .map_err(|e| ToonError::file_write(path.clone(), e))?;
     } else {
         let stdout = io::stdout();
         let mut handle = stdout.lock();
-- 
2.43.0


From 1161318cc65a00b2575468cfe6498e4d03c6825c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:05 +0000
Subject: [PATCH 05/11] fix: make AsyncDecodeStream yield the events of the
 synchronous decoder

The stream emitted unbalanced or wrong events for nested content and for
arrays after other fields, took 'tags[3]: a,b' for a string, lost blank lines
and line numbers, ignored lines after a root primitive, and yielded an error
again on every poll. It now emits leading 'key: value' fields as their lines
arrive, decodes the rest in one batch, and ends after an error.
---
 src/decode/async_decode.rs | 290 +++++++++++--------------------------
 src/decode/decoders.rs     |  24 ++-
 2 files changed, 104 insertions(+), 210 deletions(-)

diff --git a/src/decode/async_decode.rs b/src/decode/async_decode.rs
index 2d4241e..c5273bb 100644
--- a/src/decode/async_decode.rs
+++ b/src/decode/async_decode.rs
@@ -23,18 +23,16 @@
 //! ```
 
 use crate::JsonStreamEvent;
-use crate::decode::decoders as decoder_impl;
+use crate::decode::decoders::{self as decoder_impl, DecoderContext};
 use crate::decode::parser::{
-    is_array_header_content, is_key_value_content, parse_array_header_line, parse_key_token,
-    parse_primitive_token,
+    is_array_header_content, parse_array_header_line, parse_key_token, parse_primitive_token,
 };
 use crate::decode::scanner::{
-    Depth, ParsedLine, StreamingScanState, create_scan_state, parse_line_incremental,
+    ParsedLine, StreamingLineCursor, StreamingScanState, create_scan_state, parse_line_incremental,
 };
-use crate::error::{Result, ToonError};
+use crate::error::Result;
 use crate::options::DecodeStreamOptions;
-use crate::shared::constants::{COLON, DEFAULT_DELIMITER, LIST_ITEM_PREFIX};
-use crate::shared::string_utils::find_closing_quote;
+use crate::shared::constants::DEFAULT_DELIMITER;
 use asupersync::stream::{Stream, StreamExt, iter};
 use std::collections::VecDeque;
 use std::pin::Pin;
@@ -45,18 +43,16 @@ use std::task::{Context, Poll};
 enum DecoderState {
     /// Haven't seen any lines yet
     Initial,
-    /// Processing simple key-value pairs (can emit incrementally)
-    SimpleObject { base_depth: Depth },
-    /// Saw an array header, need to process array specially
-    ArrayMode,
+    /// Inside the root object, every line so far was emitted incrementally
+    SimpleObject,
+    /// Buffering a document of which nothing was emitted yet
+    BatchDocument,
+    /// Buffering the rest of the root object
+    BatchObjectRest,
     /// Processing is complete
     Finished,
 }
 
-/// Context for tracking nested object structures.
-/// Arrays fall back to batch processing, so we only track object depth incrementally.
-type ObjectDepth = Depth;
-
 /// Async stream that yields `JsonStreamEvent` items from TOON input lines.
 ///
 /// This stream processes TOON input line-by-line, yielding events as they are
@@ -66,9 +62,13 @@ type ObjectDepth = Depth;
 /// # Incremental Processing
 ///
 /// The stream emits events incrementally when possible:
-/// - Simple flat objects emit Key + Primitive events as lines arrive
-/// - Nested objects push/pop context and emit events at structure boundaries
-/// - Arrays with headers require buffering until all items are processed
+/// - Leading `key: value` fields of the root object emit Key + Primitive events
+///   as their lines arrive
+/// - From the first line that opens a nested object or an array, the lines are
+///   buffered and decoded in one batch when the input ends
+///
+/// Collected, the events are those of the synchronous decoder. After an error
+/// the stream ends.
 pub struct AsyncDecodeStream<I: Iterator<Item = String>> {
     /// The underlying line iterator
     lines: I,
@@ -80,16 +80,10 @@ pub struct AsyncDecodeStream<I: Iterator<Item = String>> {
     event_queue: VecDeque<JsonStreamEvent>,
     /// Decoder state machine
     state: DecoderState,
-    /// Stack of object depths for tracking nested structures
-    context_stack: Vec<ObjectDepth>,
-    /// Buffer for lines that need batch processing (arrays)
+    /// Buffer for lines that need batch processing
     line_buffer: Vec<ParsedLine>,
     /// Whether we've finished reading all lines
     lines_exhausted: bool,
-    /// Error encountered during processing
-    error: Option<ToonError>,
-    /// Last emitted depth for tracking structure boundaries
-    last_depth: Option<Depth>,
 }
 
 impl<I: Iterator<Item = String>> AsyncDecodeStream<I> {
@@ -102,11 +96,8 @@ impl<I: Iterator<Item = String>> AsyncDecodeStream<I> {
             scan_state: create_scan_state(),
             event_queue: VecDeque::new(),
             state: DecoderState::Initial,
-            context_stack: Vec::new(),
             line_buffer: Vec::new(),
             lines_exhausted: false,
-            error: None,
-            last_depth: None,
         }
     }
 
@@ -127,22 +118,21 @@ impl<I: Iterator<Item = String>> AsyncDecodeStream<I> {
             return Ok(Some(event));
         }
 
-        // Check for stored error
-        if let Some(err) = self.error.take() {
-            return Err(err);
-        }
-
         // If finished, nothing more to do
         if self.state == DecoderState::Finished {
             return Ok(None);
         }
 
-        // If lines are exhausted, finalize
-        if self.lines_exhausted {
-            return self.finalize();
+        let result = self.process_next_line();
+        if result.is_err() {
+            // An error ends the stream
+            self.state = DecoderState::Finished;
         }
+        result
+    }
 
-        // Get next line
+    /// Read and process the next line, or finish when there is none
+    fn process_next_line(&mut self) -> Result<Option<JsonStreamEvent>> {
         let Some(raw_line) = self.lines.next() else {
             self.lines_exhausted = true;
             return self.finalize();
@@ -158,14 +148,19 @@ impl<I: Iterator<Item = String>> AsyncDecodeStream<I> {
             return Ok(None);
         };
 
-        // Process based on current state
         match self.state {
-            DecoderState::Initial => self.process_initial_line(line),
-            DecoderState::SimpleObject { base_depth } => {
-                self.process_simple_object_line(line, base_depth)
+            DecoderState::Initial | DecoderState::SimpleObject => {
+                if !self.emit_simple_field(&line)? {
+                    self.state = if self.state == DecoderState::Initial {
+                        DecoderState::BatchDocument
+                    } else {
+                        DecoderState::BatchObjectRest
+                    };
+                    self.line_buffer.push(line);
+                }
+                Ok(self.event_queue.pop_front())
             }
-            DecoderState::ArrayMode => {
-                // In array mode, buffer lines for batch processing
+            DecoderState::BatchDocument | DecoderState::BatchObjectRest => {
                 self.line_buffer.push(line);
                 Ok(None)
             }
@@ -173,190 +168,71 @@ impl<I: Iterator<Item = String>> AsyncDecodeStream<I> {
         }
     }
 
-    /// Process the first line to determine document structure
-    fn process_initial_line(&mut self, line: ParsedLine) -> Result<Option<JsonStreamEvent>> {
-        // Check if it's an array header at root level
-        if is_array_header_content(&line.content)
-            && parse_array_header_line(&line.content, DEFAULT_DELIMITER)?.is_some()
-        {
-            // Array at root - need batch processing
-            self.state = DecoderState::ArrayMode;
-            self.line_buffer.push(line);
-            return Ok(None);
-        }
-
-        // Check if it's a key-value line (object)
-        if Self::is_key_value_line(&line) {
-            let depth = line.depth;
-            self.state = DecoderState::SimpleObject { base_depth: 0 };
-            self.context_stack.push(0);
-            self.event_queue.push_back(JsonStreamEvent::StartObject);
-            self.process_key_value_line(&line)?;
-            self.last_depth = Some(depth);
-            return Ok(self.event_queue.pop_front());
-        }
-
-        // Single primitive value
-        self.state = DecoderState::Finished;
-        Ok(Some(JsonStreamEvent::Primitive {
-            value: parse_primitive_token(line.content.trim())?,
-        }))
-    }
-
-    /// Process a line in simple object mode
-    fn process_simple_object_line(
-        &mut self,
-        line: ParsedLine,
-        base_depth: Depth,
-    ) -> Result<Option<JsonStreamEvent>> {
-        let current_depth = line.depth;
-
-        // Handle depth changes - emit EndObject for decreased depth
-        if let Some(last_depth) = self.last_depth
-            && current_depth < last_depth
-        {
-            // Pop contexts until we match the current depth
-            while let Some(&obj_depth) = self.context_stack.last() {
-                if obj_depth >= current_depth && obj_depth > base_depth {
-                    self.context_stack.pop();
-                    // Emit EndObject for closed nested object
-                    self.event_queue.push_back(JsonStreamEvent::EndObject);
-                } else {
-                    break;
-                }
-            }
+    /// Queue the events of a `key: value` field of the root object.
+    ///
+    /// Returns false, and queues nothing, for any other line.
+    fn emit_simple_field(&mut self, line: &ParsedLine) -> Result<bool> {
+        let content = &line.content;
+        if line.depth != 0 {
+            return Ok(false);
         }
 
-        // Check if this line starts an array
-        if is_array_header_content(&line.content)
-            && parse_array_header_line(&line.content, DEFAULT_DELIMITER)?.is_some()
+        // Array headers (at the root, or after a key) need their rows or items
+        if let Some(parsed) = parse_array_header_line(content, DEFAULT_DELIMITER)?
+            && (parsed.header.key.is_some()
+                || (self.state == DecoderState::Initial && is_array_header_content(content)))
         {
-            // Switch to array mode for batch processing
-            self.state = DecoderState::ArrayMode;
-            self.line_buffer.push(line);
-            // Return any pending EndObject events first
-            return Ok(self.event_queue.pop_front());
+            return Ok(false);
         }
 
-        // Process key-value line
-        self.process_key_value_line(&line)?;
-        self.last_depth = Some(current_depth);
-
-        Ok(self.event_queue.pop_front())
-    }
-
-    /// Process a key-value line and queue events
-    fn process_key_value_line(&mut self, line: &ParsedLine) -> Result<()> {
-        let content = &line.content;
-
-        // Handle list items specially
-        if content.starts_with(LIST_ITEM_PREFIX) {
-            // List items indicate we need batch processing for proper array handling
-            self.state = DecoderState::ArrayMode;
-            self.line_buffer.push(line.clone());
-            return Ok(());
-        }
+        // A first line without a key may be a root primitive
+        let Ok((key, end, was_quoted)) = parse_key_token(content, 0) else {
+            return Ok(false);
+        };
 
-        // Parse key-value
-        let (key, end, is_quoted) = parse_key_token(content, 0)?;
+        // A key without a value may open a nested object
         let rest = content[end..].trim();
-
         if rest.is_empty() {
-            // Key without value - nested content follows
-            // We can't know yet if it's an array or object, so switch to batch mode
-            // This ensures correct Start{Array,Object} emission
-            self.state = DecoderState::ArrayMode;
-            self.line_buffer.push(line.clone());
-            return Ok(());
-        }
-
-        // Key with inline value - can emit incrementally
-        self.event_queue.push_back(JsonStreamEvent::Key {
-            key,
-            was_quoted: is_quoted,
-        });
-        self.event_queue.push_back(JsonStreamEvent::Primitive {
-            value: parse_primitive_token(rest)?,
-        });
-
-        Ok(())
-    }
-
-    /// Check if a line is a key-value line
-    fn is_key_value_line(line: &ParsedLine) -> bool {
-        let content = line.content.as_str();
-
-        // Handle list items
-        if content.starts_with(LIST_ITEM_PREFIX) {
-            return false;
+            return Ok(false);
         }
 
-        // Handle quoted keys
-        if content.starts_with('"') {
-            if let Some(closing) = find_closing_quote(content, 0) {
-                return content[closing + 1..].contains(COLON);
-            }
-            return false;
+        let value = parse_primitive_token(rest)?;
+        if self.state == DecoderState::Initial {
+            self.state = DecoderState::SimpleObject;
+            self.event_queue.push_back(JsonStreamEvent::StartObject);
         }
-
-        // Regular key-value check
-        content.contains(COLON) && is_key_value_content(content)
+        self.event_queue
+            .push_back(JsonStreamEvent::Key { key, was_quoted });
+        self.event_queue
+            .push_back(JsonStreamEvent::Primitive { value });
+        Ok(true)
     }
 
     /// Finalize decoding when all lines are read
     fn finalize(&mut self) -> Result<Option<JsonStreamEvent>> {
-        // If we have buffered lines (array mode), do batch processing
-        if !self.line_buffer.is_empty() || self.state == DecoderState::ArrayMode {
-            return self.batch_decode_remaining();
-        }
-
-        // Close any remaining open object contexts
-        while self.context_stack.pop().is_some() {
-            self.event_queue.push_back(JsonStreamEvent::EndObject);
-        }
-
-        // If we haven't emitted anything for an empty document
-        if self.state == DecoderState::Initial {
-            self.state = DecoderState::Finished;
-            self.event_queue.push_back(JsonStreamEvent::StartObject);
-            self.event_queue.push_back(JsonStreamEvent::EndObject);
-        } else {
-            self.state = DecoderState::Finished;
-        }
-
-        Ok(self.event_queue.pop_front())
-    }
+        let context = DecoderContext {
+            indent: self.indent_size(),
+            strict: self.strict(),
+        };
+        let mut cursor = StreamingLineCursor::new(
+            std::mem::take(&mut self.line_buffer),
+            std::mem::take(&mut self.scan_state.blank_lines),
+        );
 
-    /// Fall back to batch decoding for complex structures
-    fn batch_decode_remaining(&mut self) -> Result<Option<JsonStreamEvent>> {
-        // Collect all remaining lines (capture values before borrowing scan_state)
-        let indent_size = self.indent_size();
-        let strict = self.strict();
-        for raw_line in self.lines.by_ref() {
-            if let Some(line) =
-                parse_line_incremental(&raw_line, &mut self.scan_state, indent_size, strict)?
-            {
-                self.line_buffer.push(line);
+        let events = match self.state {
+            // Nothing was emitted yet
+            DecoderState::Initial | DecoderState::BatchDocument => {
+                decoder_impl::decode_document_sync(&mut cursor, context)?
             }
-        }
-
-        // Use sync decoder on buffered lines
-        let raw_lines: Vec<String> = self.line_buffer.iter().map(|p| p.raw.clone()).collect();
-
-        let events = decoder_impl::decode_stream_sync(
-            raw_lines,
-            Some(DecodeStreamOptions {
-                indent: self.options.indent,
-                strict: self.options.strict,
-            }),
-        )?;
+            // The root object is open
+            DecoderState::SimpleObject | DecoderState::BatchObjectRest => {
+                decoder_impl::decode_root_object_rest_sync(&mut cursor, context)?
+            }
+            DecoderState::Finished => Vec::new(),
+        };
 
-        // Queue all events
         self.event_queue.extend(events);
-        self.line_buffer.clear();
-        self.context_stack.clear();
         self.state = DecoderState::Finished;
-
         Ok(self.event_queue.pop_front())
     }
 }
diff --git a/src/decode/decoders.rs b/src/decode/decoders.rs
index a72bb42..cec7f24 100644
--- a/src/decode/decoders.rs
+++ b/src/decode/decoders.rs
@@ -44,6 +44,14 @@ pub fn decode_stream_sync(
     let lines = parse_lines_sync(source, context.indent, context.strict, &mut scan_state)?;
     let mut cursor = StreamingLineCursor::new(lines, scan_state.blank_lines);
 
+    decode_document_sync(&mut cursor, context)
+}
+
+/// Decode a whole document from scanned lines.
+pub(crate) fn decode_document_sync(
+    cursor: &mut StreamingLineCursor,
+    context: DecoderContext,
+) -> Result<Vec<JsonStreamEvent>> {
     let mut events = Vec::new();
 
     let first = cursor.peek_sync().cloned();
@@ -57,7 +65,7 @@ pub fn decode_stream_sync(
         && let Some(header_info) = parse_array_header_line(&first.content, DEFAULT_DELIMITER)?
     {
         cursor.advance_sync();
-        decode_array_from_header_sync(&mut events, header_info, &mut cursor, 0, context)?;
+        decode_array_from_header_sync(&mut events, header_info, cursor, 0, context)?;
         return Ok(events);
     }
 
@@ -71,7 +79,17 @@ pub fn decode_stream_sync(
     }
 
     events.push(JsonStreamEvent::StartObject);
-    decode_key_value_sync(&mut events, &first.content, &mut cursor, 0, context)?;
+    decode_key_value_sync(&mut events, &first.content, cursor, 0, context)?;
+    events.extend(decode_root_object_rest_sync(cursor, context)?);
+    Ok(events)
+}
+
+/// Decode the remaining fields of the root object, up to and including its end.
+pub(crate) fn decode_root_object_rest_sync(
+    cursor: &mut StreamingLineCursor,
+    context: DecoderContext,
+) -> Result<Vec<JsonStreamEvent>> {
+    let mut events = Vec::new();
 
     while !cursor.at_end_sync() {
         let line = cursor.peek_sync().cloned();
@@ -82,7 +100,7 @@ pub fn decode_stream_sync(
             break;
         }
         cursor.advance_sync();
-        decode_key_value_sync(&mut events, &line.content, &mut cursor, 0, context)?;
+        decode_key_value_sync(&mut events, &line.content, cursor, 0, context)?;
     }
 
     events.push(JsonStreamEvent::EndObject);
-- 
2.43.0


From 4e97f82a0bab8e861fd7b08a9641196a03444489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:16 +0000
Subject: [PATCH 06/11] fix: count the first key of a list item as a folding
 sibling of the others

---
 src/encode/encoders.rs | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/encode/encoders.rs b/src/encode/encoders.rs
index 210720d..d0eab79 100644
--- a/src/encode/encoders.rs
+++ b/src/encode/encoders.rs
@@ -365,13 +365,7 @@ fn encode_object_as_list_item_lines(
         return;
     }
 
-    let first = obj[0].clone();
-    let rest = if obj.len() > 1 {
-        obj[1..].to_vec()
-    } else {
-        Vec::new()
-    };
-    let (first_key, first_value) = first;
+    let (first_key, first_value) = obj[0].clone();
 
     if let JsonValue::Array(items) = &first_value
         && is_array_of_objects(items)
@@ -385,9 +379,7 @@ fn encode_object_as_list_item_lines(
         );
         out.push(indented_list_item(depth, &formatted, options.indent));
         write_tabular_rows_lines(items, &header, depth + 2, options, out);
-        if !rest.is_empty() {
-            encode_object_lines(&rest, depth + 1, options, None, None, None, out);
-        }
+        encode_list_item_rest_lines(obj, depth + 1, options, out);
         return;
     }
 
@@ -445,8 +437,30 @@ fn encode_object_as_list_item_lines(
         }
     }
 
-    if !rest.is_empty() {
-        encode_object_lines(&rest, depth + 1, options, None, None, None, out);
+    encode_list_item_rest_lines(obj, depth + 1, options, out);
+}
+
+/// Encodes the fields of a list-item object after the first one. The first field
+/// still counts as a sibling of the others when they are folded.
+fn encode_list_item_rest_lines(
+    obj: &JsonObject,
+    depth: usize,
+    options: &ResolvedEncodeOptions,
+    out: &mut Vec<String>,
+) {
+    let siblings: Vec<&str> = obj.iter().map(|(key, _)| key.as_str()).collect();
+    for (key, value) in obj.iter().skip(1) {
+        encode_key_value_pair_lines(
+            key,
+            value,
+            depth,
+            options,
+            &siblings,
+            None,
+            None,
+            options.flatten_depth,
+            out,
+        );
     }
 }
 
-- 
2.43.0


From 52363bf5f9ae4b038bbffd05fb0f7a7fe45f19b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:25 +0000
Subject: [PATCH 07/11] fix: reject events that are not one JSON value in the
 event printer

---
 src/cli/json_stream.rs | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/cli/json_stream.rs b/src/cli/json_stream.rs
index 59dadee..e332adb 100644
--- a/src/cli/json_stream.rs
+++ b/src/cli/json_stream.rs
@@ -17,7 +17,8 @@ enum JsonContext {
 /// # Errors
 ///
 /// Returns an error if the event stream is malformed (mismatched start/end
-/// events or primitives without keys in an object).
+/// events, values without keys or keys without values in an object) or is not
+/// exactly one value.
 #[allow(clippy::too_many_lines)]
 pub fn json_stream_from_events(
     events: impl IntoIterator<Item = JsonStreamEvent>,
@@ -28,6 +29,11 @@ pub fn json_stream_from_events(
     let mut out = Vec::new();
 
     for event in events {
+        if stack.is_empty() && !out.is_empty() {
+            return Err(ToonError::message(
+                "Unexpected event after the end of the root value",
+            ));
+        }
         let parent = stack.last_mut();
         match event {
             JsonStreamEvent::StartObject => {
@@ -42,7 +48,13 @@ pub fn json_stream_from_events(
                                 out.push(" ".repeat(depth * indent));
                             }
                         }
-                        JsonContext::Object { .. } => {}
+                        JsonContext::Object { expect_value, .. } => {
+                            if !*expect_value {
+                                return Err(ToonError::message(
+                                    "Object event in object without preceding key",
+                                ));
+                            }
+                        }
                     }
                 }
 
@@ -57,8 +69,11 @@ pub fn json_stream_from_events(
                 let Some(context) = stack.pop() else {
                     return Err(ToonError::message("Mismatched endObject event"));
                 };
-                if !matches!(context, JsonContext::Object { .. }) {
+                let JsonContext::Object { expect_value, .. } = context else {
                     return Err(ToonError::message("Mismatched endObject event"));
+                };
+                if expect_value {
+                    return Err(ToonError::message("Key event without a value"));
                 }
                 depth = depth.saturating_sub(1);
                 if indent > 0
@@ -97,7 +112,13 @@ pub fn json_stream_from_events(
                                 out.push(" ".repeat(depth * indent));
                             }
                         }
-                        JsonContext::Object { .. } => {}
+                        JsonContext::Object { expect_value, .. } => {
+                            if !*expect_value {
+                                return Err(ToonError::message(
+                                    "Array event in object without preceding key",
+                                ));
+                            }
+                        }
                     }
                 }
 
@@ -146,6 +167,10 @@ pub fn json_stream_from_events(
                     return Err(ToonError::message("Key event outside of object context"));
                 };
 
+                if *expect_value {
+                    return Err(ToonError::message("Key event without a value"));
+                }
+
                 if *needs_comma {
                     out.push(",".to_string());
                 }
@@ -203,6 +228,9 @@ pub fn json_stream_from_events(
             "Incomplete event stream: unclosed objects or arrays",
         ));
     }
+    if out.is_empty() {
+        return Err(ToonError::message("Incomplete event stream: no value"));
+    }
 
     Ok(out)
 }
-- 
2.43.0


From 540d37e0042c6321224a3ee3fd52c34f7fe39f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:25 +0000
Subject: [PATCH 08/11] fix: reject events that are not one JSON value in the
 tree builder

---
 src/decode/event_builder.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/decode/event_builder.rs b/src/decode/event_builder.rs
index 697d5e2..c482708 100644
--- a/src/decode/event_builder.rs
+++ b/src/decode/event_builder.rs
@@ -70,6 +70,11 @@ pub fn node_to_json(value: NodeValue) -> JsonValue {
 
 #[allow(clippy::too_many_lines)]
 fn apply_event(state: &mut BuildState, event: JsonStreamEvent) -> Result<()> {
+    if state.root.is_some() {
+        return Err(ToonError::event_stream(
+            "Unexpected event after the end of the root value",
+        ));
+    }
     match event {
         JsonStreamEvent::StartObject => {
             state.stack.push(BuildContext::Object {
@@ -84,12 +89,15 @@ fn apply_event(state: &mut BuildState, event: JsonStreamEvent) -> Result<()> {
             };
             let BuildContext::Object {
                 entries,
+                current_key,
                 quoted_keys,
-                ..
             } = context
             else {
                 return Err(ToonError::mismatched_end("Object", "Array"));
             };
+            if current_key.is_some() {
+                return Err(ToonError::message("Key event without a value"));
+            }
             let node = NodeValue::Object(ObjectNode {
                 entries,
                 quoted_keys,
@@ -161,6 +169,9 @@ fn apply_event(state: &mut BuildState, event: JsonStreamEvent) -> Result<()> {
                     "outside of object context",
                 ));
             };
+            if current_key.is_some() {
+                return Err(ToonError::message("Key event without a value"));
+            }
             *current_key = Some(key.clone());
             if was_quoted {
                 quoted_keys.insert(key);
-- 
2.43.0


From ac01ba24860a3e0353c874037130d00f4ac133f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:02 +0000
Subject: [PATCH 09/11] fix: reject array lengths too large for an integer

A declared length of 2^64 or more did not parse, so the header was read as a
key with brackets in it and the document accepted, in strict mode too, while
lengths between the cap and 2^64 are an error.
---
 src/decode/parser.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/decode/parser.rs b/src/decode/parser.rs
index 23cac3c..608f738 100644
--- a/src/decode/parser.rs
+++ b/src/decode/parser.rs
@@ -110,7 +110,8 @@ pub fn parse_array_header_line(
     // silently falling back to key-value handling.
     if length > MAX_DECLARED_ARRAY_LENGTH {
         return Err(ToonError::message(format!(
-            "Declared array length {length} exceeds maximum allowed ({MAX_DECLARED_ARRAY_LENGTH})"
+            "Declared array length {} exceeds maximum allowed ({MAX_DECLARED_ARRAY_LENGTH})",
+            bracket_content.trim_end_matches([TAB, PIPE])
         )));
     }
 
@@ -173,7 +174,8 @@ pub const MAX_DECLARED_ARRAY_LENGTH: usize = 100_000_000;
 ///
 /// The cap on declared length is enforced by [`parse_array_header_line`] after a
 /// successful parse so that unrelated `[abc]` literals inside key-value content
-/// still fall through to non-array handling instead of erroring.
+/// still fall through to non-array handling instead of erroring. A length too
+/// large for `usize` saturates, so that it meets the cap as well.
 ///
 /// # Errors
 ///
@@ -190,9 +192,12 @@ pub fn parse_bracket_segment(seg: &str, default_delimiter: char) -> Result<(usiz
         content.pop();
     }
 
-    let length = content
-        .parse::<usize>()
-        .map_err(|_| ToonError::message(format!("Invalid array length: {seg}")))?;
+    let length = match content.parse::<usize>() {
+        Ok(length) => length,
+        // All digits but too many: still a length, one that exceeds any cap
+        Err(_) if !content.is_empty() && content.bytes().all(|b| b.is_ascii_digit()) => usize::MAX,
+        Err(_) => return Err(ToonError::message(format!("Invalid array length: {seg}"))),
+    };
 
     Ok((length, delimiter))
 }
-- 
2.43.0


From 488850afbf786338305f3b6cdfc07d11bd6ae164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:31 +0000
Subject: [PATCH 10/11] fix: messages that cannot be written to standard error
 no longer crash the program

---
 src/cli/mod.rs | 18 +++++++++++++-----
 src/main.rs    |  5 ++++-
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/cli/mod.rs b/src/cli/mod.rs
index 07b50d9..118a2f4 100644
--- a/src/cli/mod.rs
+++ b/src/cli/mod.rs
@@ -62,10 +62,12 @@ fn run_encode(args: &Args) -> Result<()> {
         };
 
         // Print stats to stderr (so stdout can be piped)
-        eprintln!();
-        eprintln!("Token estimates: ~{json_tokens} (JSON) → ~{toon_tokens} (TOON)");
+        report("");
+        report(&format!(
+            "Token estimates: ~{json_tokens} (JSON) → ~{toon_tokens} (TOON)"
+        ));
         if diff > 0 {
-            eprintln!("Saved ~{diff} tokens (-{percent:.1}%)");
+            report(&format!("Saved ~{diff} tokens (-{percent:.1}%)"));
         }
     } else {
         // Streaming output
@@ -76,7 +78,7 @@ fn run_encode(args: &Args) -> Result<()> {
     if let Some(ref output_path) = args.output {
         let input_label = format_input_label(args);
         let output_label = output_path.display();
-        eprintln!("Encoded `{input_label}` → `{output_label}`");
+        report(&format!("Encoded `{input_label}` → `{output_label}`"));
     }
 
     Ok(())
@@ -106,12 +108,18 @@ fn run_decode(args: &Args) -> Result<()> {
     if let Some(ref output_path) = args.output {
         let input_label = format_input_label(args);
         let output_label = output_path.display();
-        eprintln!("Decoded `{input_label}` → `{output_label}`");
+        report(&format!("Decoded `{input_label}` → `{output_label}`"));
     }
 
     Ok(())
 }
 
+/// Write a message to standard error. A conversion that succeeded does not fail
+/// because nobody can read the message.
+fn report(message: &str) {
+    let _ = writeln!(io::stderr(), "{message}");
+}
+
 fn read_input(args: &Args) -> Result<String> {
     if args.is_stdin() {
         read_stdin()
diff --git a/src/main.rs b/src/main.rs
index 5e74b00..8648284 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,7 +1,10 @@
+use std::io::Write;
+
 fn main() {
     let result = toon::cli::run();
     if let Err(err) = result {
-        eprintln!("{err}");
+        // The exit status tells even when standard error cannot be written
+        let _ = writeln!(std::io::stderr(), "{err}");
         std::process::exit(1);
     }
 }
-- 
2.43.0


From cee2ade0aee36be032d43555927121a5f7fe96e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:32 +0000
Subject: [PATCH 11/11] fix: look at key chains without copying them when
 folding, which took cubic time for deep values

---
 src/encode/folding.rs | 38 +++++++++++++++++---------------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/src/encode/folding.rs b/src/encode/folding.rs
index 9d88198..5e41e57 100644
--- a/src/encode/folding.rs
+++ b/src/encode/folding.rs
@@ -50,7 +50,7 @@ pub fn try_fold_key_chain(
     }
 
     let mut folded_key =
-        String::with_capacity(segments.iter().map(String::len).sum::<usize>() + segments.len());
+        String::with_capacity(segments.iter().map(|seg| seg.len()).sum::<usize>() + segments.len());
     for (i, seg) in segments.iter().enumerate() {
         if i > 0 {
             folded_key.push(DOT);
@@ -75,43 +75,39 @@ pub fn try_fold_key_chain(
 
     Some(FoldResult {
         folded_key,
-        remainder: tail,
-        leaf_value,
+        remainder: tail.cloned(),
+        leaf_value: leaf_value.clone(),
         segment_count: segments.len(),
     })
 }
 
-fn collect_single_key_chain(
-    start_key: &str,
-    start_value: &JsonValue,
+fn collect_single_key_chain<'a>(
+    start_key: &'a str,
+    start_value: &'a JsonValue,
     max_depth: usize,
-) -> (Vec<String>, Option<JsonValue>, JsonValue) {
-    let mut segments = vec![start_key.to_string()];
-    let mut current_value = start_value.clone();
+) -> (Vec<&'a str>, Option<&'a JsonValue>, &'a JsonValue) {
+    // By reference: most chains that are looked at are not folded, and copying
+    // what is below at each level takes cubic time for deep values
+    let mut segments = vec![start_key];
+    let mut current_value = start_value;
 
     while segments.len() < max_depth {
-        let JsonValue::Object(ref obj) = current_value else {
+        let JsonValue::Object(obj) = current_value else {
             break;
         };
 
-        if obj.len() != 1 {
+        let [(next_key, next_value)] = obj.as_slice() else {
             break;
-        }
+        };
 
-        let (next_key, next_value) = obj[0].clone();
         segments.push(next_key);
         current_value = next_value;
     }
 
     match current_value {
-        JsonValue::Object(entries) if is_empty_object(&entries) => {
-            let obj = JsonValue::Object(entries);
-            (segments, None, obj)
-        }
-        JsonValue::Object(entries) => {
-            let remainder = JsonValue::Object(entries);
-            (segments, Some(remainder.clone()), remainder)
+        JsonValue::Object(entries) if !is_empty_object(entries) => {
+            (segments, Some(current_value), current_value)
         }
-        other => (segments, None, other),
+        _ => (segments, None, current_value),
     }
 }
-- 
2.43.0

