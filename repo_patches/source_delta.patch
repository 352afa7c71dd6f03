From 337bd6294e25e2a6c8c3fc1db7a069f79b3ebc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:20 +0000
Subject: [PATCH 01/18] fix: byte class tables cover byte 0xFF instead of
 panicking on it

---
 src/byte.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/byte.rs b/src/byte.rs
index e604a3d..6d8c83a 100644
--- a/src/byte.rs
+++ b/src/byte.rs
@@ -17,7 +17,7 @@
 //! Byte verification functions.
 
 /// Bytes allowed in non-quoted header fields.
-static HEADER_FIELDS: [bool; 255] = [
+static HEADER_FIELDS: [bool; 256] = [
 
 // NUL SOH    STX    ETX    EOT    ENQ    ACK    BEL    BS     TAB
 false, false, false, false, false, false, false, false, false, true,
@@ -86,12 +86,12 @@ true,  true, true,  true,  true,  true,  true,  true,  true,  true,
 true,  true, true,  true,  true,  true,  true,  true,  true,  true,
 true,  true, true,  true,  true,  true,  true,  true,  true,  true,
 true,  true, true,  true,  true,  true,  true,  true,  true,  true,
-true,  true, true,  true,  true,  true,  true
+true,  true, true,  true,  true,  true,  true,  true
 
 ];
 
 /// Bytes allowed in quoted header fields.
-static QUOTED_HEADER_FIELDS: [bool; 255] = [
+static QUOTED_HEADER_FIELDS: [bool; 256] = [
 
 // NUL SOH    STX    ETX    EOT    ENQ    ACK    BEL    BS     TAB
 false, false, false, false, false, false, false, false, false, true,
@@ -160,12 +160,12 @@ true,  true, true,  true,  true,  true,  true,  true,  true,  true,
 true,  true, true,  true,  true,  true,  true,  true,  true,  true,
 true,  true, true,  true,  true,  true,  true,  true,  true,  true,
 true,  true, true,  true,  true,  true,  true,  true,  true,  true,
-true,  true, true,  true,  true,  true,  true
+true,  true, true,  true,  true,  true,  true,  true
 
 ];
 
 /// Bytes that are considered tokens.
-static TOKENS: [bool; 255] = [
+static TOKENS: [bool; 256] = [
 
 // NUL SOH    STX    ETX    EOT    ENQ    ACK    BEL    BS     TAB
 false, false, false, false, false, false, false, false, false, false,
@@ -234,7 +234,7 @@ false, false, false, false, false, false, false, false, false, false,
 false, false, false, false, false, false, false, false, false, false,
 false, false, false, false, false, false, false, false, false, false,
 false, false, false, false, false, false, false, false, false, false,
-false, false, false, false, false, false, false
+false, false, false, false, false, false, false, false
 
 ];
 
-- 
2.43.0


From f33f1cf75b66eaf70a9d9e507f8315a1f01759c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:10 +0000
Subject: [PATCH 02/18] fix: do not read past an empty first slice

A new http1 parser starts in detect1, which looked at the first byte without
checking that there is one.
---
 src/http1/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index e95d2da..b969590 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -482,6 +482,8 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             });
         }
 
+        exit_if_eos!(self, context);
+
         unsafe {
             if bs_starts_with1!(context, b"H") {
                 if bs_has_bytes!(context, 9) {
-- 
2.43.0


From 4a24245fa1ba903e8049270aec7d1212145f70e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:14 +0000
Subject: [PATCH 03/18] fix: keep the detected bytes of a fragmented method
 starting with H

When fewer than 9 bytes were available, the bytes consumed by the HTTP version
detection were dropped from the method (HEAD became EAD), and a method made
only of them was rejected.
---
 src/http1/parser.rs | 92 +++++++++++++++++++++++----------------------
 1 file changed, 48 insertions(+), 44 deletions(-)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index b969590..54f9366 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -560,7 +560,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     }
 
     #[inline]
-    fn detect2(&mut self, _handler: &mut T, context: &mut ByteStream)
+    fn detect2(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
         exit_if_eos!(self, context);
         bs_next!(context);
@@ -574,21 +574,22 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             );
         }
 
-        // make sure we have an upper-cased alphabetical character
-        if context.byte > 0x40 && context.byte < 0x5B {
-            transition_no_remark!(
-                self,
-                context,
-                RequestMethod,
-                request_method
-            );
-        }
+        // this is a request, and the bytes consumed so far belong to its method
+        bs_replay!(context);
 
-        Err(ParserError::Method(context.byte))
+        callback_transition!(
+            self,
+            handler,
+            context,
+            on_method,
+            b"H",
+            RequestMethod,
+            request_method
+        );
     }
 
     #[inline]
-    fn detect3(&mut self, _handler: &mut T, context: &mut ByteStream)
+    fn detect3(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
         exit_if_eos!(self, context);
         bs_next!(context);
@@ -602,21 +603,22 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             );
         }
 
-        // make sure we have an upper-cased alphabetical character
-        if context.byte > 0x40 && context.byte < 0x5B {
-            transition_no_remark!(
-                self,
-                context,
-                RequestMethod,
-                request_method
-            );
-        }
+        // this is a request, and the bytes consumed so far belong to its method
+        bs_replay!(context);
 
-        Err(ParserError::Method(context.byte))
+        callback_transition!(
+            self,
+            handler,
+            context,
+            on_method,
+            b"HT",
+            RequestMethod,
+            request_method
+        );
     }
 
     #[inline]
-    fn detect4(&mut self, _handler: &mut T, context: &mut ByteStream)
+    fn detect4(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
         exit_if_eos!(self, context);
         bs_next!(context);
@@ -630,21 +632,22 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             );
         }
 
-        // make sure we have an upper-cased alphabetical character
-        if context.byte > 0x40 && context.byte < 0x5B {
-            transition_no_remark!(
-                self,
-                context,
-                RequestMethod,
-                request_method
-            );
-        }
+        // this is a request, and the bytes consumed so far belong to its method
+        bs_replay!(context);
 
-        Err(ParserError::Method(context.byte))
+        callback_transition!(
+            self,
+            handler,
+            context,
+            on_method,
+            b"HTT",
+            RequestMethod,
+            request_method
+        );
     }
 
     #[inline]
-    fn detect5(&mut self, _handler: &mut T, context: &mut ByteStream)
+    fn detect5(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
         exit_if_eos!(self, context);
         bs_next!(context);
@@ -658,17 +661,18 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             );
         }
 
-        // make sure we have an upper-cased alphabetical character
-        if context.byte > 0x40 && context.byte < 0x5B {
-            transition_no_remark!(
-                self,
-                context,
-                RequestMethod,
-                request_method
-            );
-        }
+        // this is a request, and the bytes consumed so far belong to its method
+        bs_replay!(context);
 
-        Err(ParserError::Method(context.byte))
+        callback_transition!(
+            self,
+            handler,
+            context,
+            on_method,
+            b"HTTP",
+            RequestMethod,
+            request_method
+        );
     }
 
     // ---------------------------------------------------------------------------------------------
-- 
2.43.0


From b529643e0196027464fd9c9fc5b5d55d51107958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:18 +0000
Subject: [PATCH 04/18] fix: finish the body on a last chunk that has
 extensions

A zero-length chunk with extensions was treated as an ordinary chunk, so the
body never finished.
---
 src/http1/parser.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index 54f9366..24d9112 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -2170,6 +2170,16 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         bs_next!(context);
 
         if context.byte == b'\n' {
+            if self.length == 0 {
+                // last chunk
+                transition!(
+                    self,
+                    context,
+                    HeaderCr2,
+                    header_cr2
+                );
+            }
+
             transition!(
                 self,
                 context,
-- 
2.43.0


From 2c85e7a5b52d3f58bfd699628ca9e3c258ac7837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:21 +0000
Subject: [PATCH 05/18] fix: find a multipart delimiter that follows a partial
 delimiter

The byte that ended a partial delimiter match was delivered as data without
being examined, so when it was the CR of the real delimiter, the delimiter was
missed and the next part was delivered as data.
---
 src/http1/parser.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index 24d9112..e5298cd 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -2538,13 +2538,16 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             );
         } else if get_lower14!(self) == 0 {
             // we're checking for the boundary within multipart data, but it's not the boundary,
-            // so let's send the data to the callback and get back to parsing
+            // so let's send the data to the callback and get back to parsing at this byte, which
+            // can itself start the boundary
+            bs_replay!(context);
+
             callback_transition!(
                 self,
                 handler,
                 context,
                 on_multipart_data,
-                &[b'\r', b'\n', context.byte],
+                b"\r\n",
                 MultipartDataByByte,
                 multipart_data_by_byte
             );
@@ -2568,13 +2571,16 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             );
         } else if get_lower14!(self) == 0 {
             // we're checking for the boundary within multipart data, but it's not the boundary,
-            // so let's send the data to the callback and get back to parsing
+            // so let's send the data to the callback and get back to parsing at this byte, which
+            // can itself start the boundary
+            bs_replay!(context);
+
             callback_transition!(
                 self,
                 handler,
                 context,
                 on_multipart_data,
-                &[b'\r', b'\n', b'-', context.byte],
+                b"\r\n-",
                 MultipartDataByByte,
                 multipart_data_by_byte
             );
@@ -2859,12 +2865,15 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
             );
         }
 
+        // this byte can itself start the boundary
+        bs_replay!(context);
+
         callback_transition!(
             self,
             handler,
             context,
             on_multipart_data,
-            &[b'\r', context.byte],
+            b"\r",
             MultipartDataByByte,
             multipart_data_by_byte
         );
-- 
2.43.0


From bbbdda1f21bdab89af3bc744928bb506bdb8f3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:25 +0000
Subject: [PATCH 06/18] fix: count the bytes of a finished url encoded body
 once

The resume() call that exhausted the length added its bytes to byte_count()
twice.
---
 src/http1/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/http1/parser.rs b/src/http1/parser.rs
index e5298cd..2db1e1f 100644
--- a/src/http1/parser.rs
+++ b/src/http1/parser.rs
@@ -298,6 +298,9 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
                         self.state          = ParserState::BodyFinished;
                         self.state_function = Parser::body_finished;
 
+                        // these bytes have been counted, and parse() counts them again
+                        self.byte_count -= length;
+
                         self.parse(&mut handler, &mut context)
                     } else {
                         self.length -= length;
-- 
2.43.0


From fdeab140e83feaef856485955dc6652300c67a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:46 +0000
Subject: [PATCH 07/18] fix: keep every byte of a fragmented http2 stream id

The second and third byte replaced the preceding ones.
---
 src/http2/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/http2/parser.rs b/src/http2/parser.rs
index 5a926fe..29aaf96 100644
--- a/src/http2/parser.rs
+++ b/src/http2/parser.rs
@@ -411,7 +411,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     -> Result<ParserValue, ParserError> {
         exit_if_eos!(self, context);
 
-        self.bit_data32b = (get_u8!(context) as u32) << 16;
+        self.bit_data32b |= (get_u8!(context) as u32) << 16;
 
         transition!(
             self,
@@ -426,7 +426,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     -> Result<ParserValue, ParserError> {
         exit_if_eos!(self, context);
 
-        self.bit_data32b = (get_u8!(context) as u32) << 8;
+        self.bit_data32b |= (get_u8!(context) as u32) << 8;
 
         transition!(
             self,
-- 
2.43.0


From 6b05e6e540cdc40f8c55b0655fbc97cba039953c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:47 +0000
Subject: [PATCH 08/18] fix: leave the third byte of a fragmented http2 go away
 stream id

The state looped to itself and the frame was never completed.
---
 src/http2/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/http2/parser.rs b/src/http2/parser.rs
index 29aaf96..2d772e4 100644
--- a/src/http2/parser.rs
+++ b/src/http2/parser.rs
@@ -658,8 +658,8 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         transition!(
             self,
             context,
-            GoAwayStreamId3,
-            go_away_stream_id3
+            GoAwayStreamId4,
+            go_away_stream_id4
         );
     }
 
-- 
2.43.0


From ef43ac04b7f50f5ad25a5c61f5bae59b824b7c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:49 +0000
Subject: [PATCH 09/18] fix: leave the third byte of a fragmented http2
 settings value

The state looped to itself and the frame was never completed.
---
 src/http2/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/http2/parser.rs b/src/http2/parser.rs
index 2d772e4..41515a7 100644
--- a/src/http2/parser.rs
+++ b/src/http2/parser.rs
@@ -1388,8 +1388,8 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         transition!(
             self,
             context,
-            SettingsValue3,
-            settings_value3
+            SettingsValue4,
+            settings_value4
         );
     }
 
-- 
2.43.0


From d30043073c55b87ae526407d9c6320d2c4f11560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:51 +0000
Subject: [PATCH 10/18] fix: ignore the reserved bit of http2 promised stream
 ids and window increments

Both are 31-bit values, and every other stream id is reported without it.
---
 src/http2/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/http2/parser.rs b/src/http2/parser.rs
index 41515a7..18fa6d3 100644
--- a/src/http2/parser.rs
+++ b/src/http2/parser.rs
@@ -1174,7 +1174,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
         // decrease payload by stream id (4)
         dec_payload_length!(self, 4);
 
-        if handler.on_push_promise(self.bit_data32b) {
+        if handler.on_push_promise(self.bit_data32b & 0x7FFFFFFF) {
             transition!(
                 self,
                 context,
@@ -1508,7 +1508,7 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn window_update_callback(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
-        if handler.on_window_update(self.bit_data32b) {
+        if handler.on_window_update(self.bit_data32b & 0x7FFFFFFF) {
             transition!(
                 self,
                 context,
-- 
2.43.0


From 496a5817d7c88a93167f97306d2d46962532ffb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:53 +0000
Subject: [PATCH 11/18] fix: reject http2 frames whose payload is too short
 instead of underflowing

A pad length beyond the payload, or a payload shorter than its fixed fields,
underflowed the remaining length: a panic with overflow checks, and without
them up to 16 MB of the following frames delivered as this frame's data.
---
 src/http2/parser.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/http2/parser.rs b/src/http2/parser.rs
index 18fa6d3..402e8a2 100644
--- a/src/http2/parser.rs
+++ b/src/http2/parser.rs
@@ -50,6 +50,10 @@ macro_rules! actual_length {
 /// Decrease payload length.
 macro_rules! dec_payload_length {
     ($parser:expr, $length:expr) => ({
+        if payload_length!($parser) < $length {
+            exit_error!(PayloadLength);
+        }
+
         $parser.bit_data32a = ($parser.bit_data32a & 0xFF)
                             | (($parser.bit_data32a >> 8) - $length) << 8;
     });
@@ -88,6 +92,10 @@ macro_rules! payload_length {
 /// Parse payload data.
 macro_rules! parse_payload_data {
     ($parser:expr, $handler:expr, $context:expr, $callback:ident) => ({
+        if payload_length!($parser) < pad_length!($parser) {
+            exit_error!(PayloadLength);
+        }
+
         if bs_available!($context) >= actual_length!($parser) as usize {
             // collect remaining data
             bs_jump!($context, actual_length!($parser) as usize);
@@ -148,7 +156,10 @@ macro_rules! read_u32 {
 #[derive(Clone,Copy,PartialEq)]
 pub enum ParserError {
     /// Parsing has failed.
-    Dead
+    Dead,
+
+    /// The frame payload is too short for its content.
+    PayloadLength
 }
 
 impl ParserError {
@@ -158,6 +169,9 @@ impl ParserError {
             ParserError::Dead => {
                 write!(formatter, "<ParserError::Dead>")
             },
+            ParserError::PayloadLength => {
+                write!(formatter, "<ParserError::PayloadLength>")
+            }
         }
     }
 }
-- 
2.43.0


From 5dd3f3a8b116a1d82c82893b40f68bce47fb2e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:54 +0000
Subject: [PATCH 12/18] fix: report a complete http2 frame without waiting for
 the next one

The callbacks of an empty payload, and of a push promise, were held back until
another byte arrived, which is never for the last frame of a connection.
---
 src/http2/parser.rs | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/http2/parser.rs b/src/http2/parser.rs
index 402e8a2..516fe7b 100644
--- a/src/http2/parser.rs
+++ b/src/http2/parser.rs
@@ -96,6 +96,10 @@ macro_rules! parse_payload_data {
             exit_error!(PayloadLength);
         }
 
+        if actual_length!($parser) > 0 {
+            exit_if_eos!($parser, $context);
+        }
+
         if bs_available!($context) >= actual_length!($parser) as usize {
             // collect remaining data
             bs_jump!($context, actual_length!($parser) as usize);
@@ -605,8 +609,6 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn data_data(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
-        exit_if_eos!(self, context);
-
         parse_payload_data!(
             self,
             handler,
@@ -790,8 +792,6 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn go_away_debug_data(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
-        exit_if_eos!(self, context);
-
         parse_payload_data!(
             self,
             handler,
@@ -956,8 +956,6 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn headers_fragment(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
-        exit_if_eos!(self, context);
-
         parse_payload_data!(
             self,
             handler,
@@ -973,8 +971,6 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn ping_data(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
-        exit_if_eos!(self, context);
-
         parse_payload_data!(
             self,
             handler,
@@ -1183,8 +1179,6 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn push_promise_callback(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
-        exit_if_eos!(self, context);
-
         // decrease payload by stream id (4)
         dec_payload_length!(self, 4);
 
@@ -1563,8 +1557,6 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
     #[inline]
     fn unsupported_data(&mut self, handler: &mut T, context: &mut ByteStream)
     -> Result<ParserValue, ParserError> {
-        exit_if_eos!(self, context);
-
         parse_payload_data!(
             self,
             handler,
-- 
2.43.0


From 8907ed062101d0e2f23b7193dea55a2d948ebdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:56 +0000
Subject: [PATCH 13/18] fix: do not read a settings entry from an empty http2
 settings frame

An empty frame is a settings acknowledgement. Its next 6 bytes, which belong to
the following frame, were reported as a setting.
---
 src/http2/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/http2/parser.rs b/src/http2/parser.rs
index 516fe7b..76427fe 100644
--- a/src/http2/parser.rs
+++ b/src/http2/parser.rs
@@ -509,7 +509,11 @@ impl<'a, T: HttpHandler + 'a> Parser<'a, T> {
                 set_state!(self, RstStreamErrorCode1, rst_stream_error_code1);
             },
             FR_SETTINGS => {
-                set_state!(self, SettingsId1, settings_id1);
+                if payload_length!(self) > 0 {
+                    set_state!(self, SettingsId1, settings_id1);
+                } else {
+                    set_state!(self, FrameLength1, frame_length1);
+                }
             },
             FR_PUSH_PROMISE => {
                 if has_flag!(self, FL_PADDED) {
-- 
2.43.0


From c7d6536fff21482db21b7fd2006f98a794dbd0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:26 +0000
Subject: [PATCH 14/18] fix: accept hex sequences in query names

A decoded byte was pushed onto the name and then reported as an error.
---
 src/util/query.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/util/query.rs b/src/util/query.rs
index b863296..c6f7bc9 100644
--- a/src/util/query.rs
+++ b/src/util/query.rs
@@ -200,11 +200,13 @@ impl<'a> Iterator for QueryIterator<'a> {
                                 self.context,
                                 QueryError::Name
                             ));
-                        } else if bs_has_bytes!(self.context, 1) {
-                            bs_next!(self.context);
-                        }
+                        } else {
+                            if bs_has_bytes!(self.context, 1) {
+                                bs_next!(self.context);
+                            }
 
-                        submit_error!(self, QueryError::Name);
+                            submit_error!(self, QueryError::Name);
+                        }
                     },
                     b'+' => {
                         self.name.push(b' ');
-- 
2.43.0


From 111373f5dd36bc7674c5a2e041c80cc30772a2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:30 +0000
Subject: [PATCH 15/18] fix: end the query iterator on an invalid hex sequence

Every other error ends the iteration, but after this one the next call went on
in the middle of the rejected field.
---
 src/collect.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/collect.rs b/src/collect.rs
index 2b93e1c..298c401 100644
--- a/src/collect.rs
+++ b/src/collect.rs
@@ -95,9 +95,7 @@ macro_rules! collect_hex8_iter {
             } else if b'`' < $context.byte && $context.byte < b'g' {
                 ($context.byte - 0x57) << 4
             } else {
-                (*$iter.on_error)($error($context.byte));
-
-                return None;
+                submit_error!($iter, $error);
             } as u8
         )
         +
@@ -112,9 +110,7 @@ macro_rules! collect_hex8_iter {
                 } else if b'`' < $context.byte && $context.byte < b'g' {
                     $context.byte - 0x57
                 } else {
-                    (*$iter.on_error)($error($context.byte));
-
-                    return None;
+                    submit_error!($iter, $error);
                 } as u8
             )
         }
-- 
2.43.0


From 56ef9ffbf76d2bf8e79d3661bbf10398f900d1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:31 +0000
Subject: [PATCH 16/18] fix: continue after a quoted field value

The byte that follows the closing quote was skipped, so a delimiter was missed
and the next field rejected, and any other byte was accepted at the end.
---
 src/util/field.rs | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/util/field.rs b/src/util/field.rs
index 8f26600..94e799b 100644
--- a/src/util/field.rs
+++ b/src/util/field.rs
@@ -237,12 +237,6 @@ impl<'a> Iterator for FieldIterator<'a> {
                                     submit_name_value!(self)
                                 );
 
-                                if bs_available!(self.context) == 0 {
-                                    submit_name_value!(self);
-                                }
-
-                                bs_next!(self.context);
-
                                 if self.context.byte == self.delimiter {
                                     submit_name_value!(self);
                                 }
-- 
2.43.0


From 7c743da01fb530e74b4bf3fc3c80b0cc79234431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:33 +0000
Subject: [PATCH 17/18] fix: return a field name whose last byte is converted

A normalized name that ends with an upper-case byte, and any name that ends with
a slash, was dropped at the end of the field, because the name loop skipped the
leading space again before each part.
---
 src/util/field.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/util/field.rs b/src/util/field.rs
index 94e799b..2fc071c 100644
--- a/src/util/field.rs
+++ b/src/util/field.rs
@@ -169,17 +169,17 @@ impl<'a> Iterator for FieldIterator<'a> {
         self.name.clear();
         self.value.clear();
 
-        loop {
-            // parsing name
-            consume_linear_space!(
-                self.context,
+        consume_linear_space!(
+            self.context,
 
-                // on end-of-stream
-                return None
-            );
+            // on end-of-stream
+            return None
+        );
 
-            bs_replay!(self.context);
+        bs_replay!(self.context);
 
+        loop {
+            // parsing name
             bs_mark!(self.context);
 
             collect_tokens!(
-- 
2.43.0


From 76f531ebf21eee9ae89bc1dd38459073400c0a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:35 +0000
Subject: [PATCH 18/18] fix: report an unfinished escape as a field value error

---
 src/util/field.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/field.rs b/src/util/field.rs
index 2fc071c..ba3027d 100644
--- a/src/util/field.rs
+++ b/src/util/field.rs
@@ -246,7 +246,7 @@ impl<'a> Iterator for FieldIterator<'a> {
                             } else if self.context.byte == b'\\' {
                                 // found backslash
                                 if bs_is_eos!(self.context) {
-                                    submit_error!(self, FieldError::Name);
+                                    submit_error!(self, FieldError::Value);
                                 }
 
                                 self.value.extend_from_slice(bs_slice_ignore!(self.context));
-- 
2.43.0

