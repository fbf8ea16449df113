From 74c49108ddff819097be854ea8c4a7e32249158d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:26 +0000
Subject: [PATCH] fix: utf8 decoding: tell truncated sequences from malformed
 ones by content

decode_to_str() called a sequence truncated whenever its lead byte announced
more bytes than were left, even if the bytes present already made it invalid
(e.g. [0xE3, 0x41], [0xC0]).  At end of input the reported error range then
swallowed valid bytes ('A'), and before end of input the error was withheld.
Use Utf8Error::error_len(), which says exactly which of the two it is.
---
 src/utf8.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/utf8.rs b/src/utf8.rs
index dd260ea..c53580a 100644
--- a/src/utf8.rs
+++ b/src/utf8.rs
@@ -15,10 +15,11 @@ pub fn encode_from_str<'a>(input: &str, out_buffer: &'a mut [u8]) -> EncodeResul
 }
 
 pub fn decode_to_str<'a>(input: &[u8], out_buffer: &'a mut [u8], is_end: bool) -> DecodeResult<'a> {
-    // Find how much of the data is valid utf8.
-    let valid_up_to = match core::str::from_utf8(input) {
-        Ok(text) => text.len(),
-        Err(e) => e.valid_up_to(),
+    // Find how much of the data is valid utf8, and whether what follows is
+    // just a truncated (but so far valid) sequence.
+    let (valid_up_to, is_truncated) = match core::str::from_utf8(input) {
+        Ok(text) => (text.len(), false),
+        Err(e) => (e.valid_up_to(), e.error_len().is_none()),
     };
 
     // Copy over what we can.
@@ -27,12 +28,7 @@ pub fn decode_to_str<'a>(input: &[u8], out_buffer: &'a mut [u8], is_end: bool) -
 
     // Determine if there's an error.
     if bytes_copied < out_buffer.len() && bytes_copied == valid_up_to && valid_up_to < input.len() {
-        let trailing_bytes = input.len() - valid_up_to;
-        let byte = input[valid_up_to];
         // First we check if we're truncated.  If not, then it's an error.
-        let is_truncated = ((byte & 0b1110_0000) == 0b1100_0000 && trailing_bytes < 2)
-            || ((byte & 0b1111_0000) == 0b1110_0000 && trailing_bytes < 3)
-            || ((byte & 0b1111_1000) == 0b1111_0000 && trailing_bytes < 4);
         if !is_truncated {
             // Find the byte range of the error by finding the next valid
             // starting byte (or reaching end of input).
-- 
2.43.0

