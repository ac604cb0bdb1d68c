From f24ce5276708b260c9f89d8536d4800b2ee01dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:31 +0000
Subject: [PATCH 01/28] fix: compare header names case-insensitively for ASCII
 letters only

---
 src/helper.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/helper.rs b/src/helper.rs
index 16ea461..92d3a3d 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -446,8 +446,7 @@ impl Helper {
             if a[i] == b[i] {
                 continue;
             }
-            let wrap = a[i].wrapping_sub(b[i]);
-            if wrap != 32 && wrap != 224 {
+            if a[i].to_ascii_lowercase() != b[i].to_ascii_lowercase() {
                 return false;
             }
         }
-- 
2.43.0


From 49b5312d78de0ce82b20ac2a0606469d7eb1c50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:32 +0000
Subject: [PATCH 02/28] fix: reject an oversized chunk length instead of
 panicking

---
 src/helper.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/helper.rs b/src/helper.rs
index 92d3a3d..c983509 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -393,9 +393,9 @@ impl Helper {
         let len = buffer.remaining();
         let mut val = BinaryRef::from(buffer.chunk());
         let num = Helper::parse_hex(&mut val)?;
-        let num = usize::from_str_radix(num, 16).unwrap();
+        let num = usize::from_str_radix(num, 16).map_err(WebError::from)?;
         Helper::skip_new_line(&mut val)?;
-        if num + 2 > val.remaining() {
+        if val.remaining() < 2 || num > val.remaining() - 2 {
             return Err(WebError::Http(HttpError::Partial));
         }
         return Ok((len - val.remaining(), num));
-- 
2.43.0


From 045d0b9f2228f13dcda8d3ad592d5af1dbb13c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:34 +0000
Subject: [PATCH 03/28] fix: a line ends with CRLF or LF only, anything else is
 an error

---
 src/helper.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/helper.rs b/src/helper.rs
index c983509..20b4490 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -320,9 +320,7 @@ impl Helper {
             },
             b'\n' => {
             },
-            b' ' => {
-            },
-            _ => return Err(WebError::from(HttpError::Partial))
+            _ => return Err(WebError::from(HttpError::NewLine))
         };
         Ok(())
     }
-- 
2.43.0


From 6ec7df40d1b052368896ff6772c2b054dc3550fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:36 +0000
Subject: [PATCH 04/28] fix: a header value never contains a line feed

---
 src/helper.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/helper.rs b/src/helper.rs
index 20b4490..7fdcc19 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -191,7 +191,7 @@ impl Helper {
     }
 
     const HEADER_VALUE_MAP: [bool; 256] = byte_map![
-        1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1,
+        1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 0, 1, 1,
         1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
         1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
         1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
@@ -258,7 +258,6 @@ impl Helper {
         };
         if position == 0 {
             if empty {
-                next!(buffer)?;
                 return Ok("");
             }
             return Err(err);
-- 
2.43.0


From eb6b63011ae0524e77f8ce2a78cac1745c159a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:42 +0000
Subject: [PATCH 05/28] fix: numeric header values that do not fit or are
 malformed are errors

---
 src/http/value.rs | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/http/value.rs b/src/http/value.rs
index 087f1ae..80d6d6e 100644
--- a/src/http/value.rs
+++ b/src/http/value.rs
@@ -111,6 +111,9 @@ impl TryInto<usize> for &HeaderValue {
         match self {
             HeaderValue::Stand(s) => s.parse().map_err(WebError::from),
             HeaderValue::Value(v) => {
+                if v.is_empty() {
+                    return Err(WebError::IntoError);
+                }
                 let mut result = 0usize;
                 for b in v {
                     if !Helper::is_digit(*b) {
@@ -118,7 +121,10 @@ impl TryInto<usize> for &HeaderValue {
                     }
                     match result.overflowing_mul(10) {
                         (u, false) => {
-                            result = u + (b - Helper::DIGIT_0) as usize;
+                            match u.overflowing_add((b - Helper::DIGIT_0) as usize) {
+                                (u, false) => result = u,
+                                (_u, true) => return Err(WebError::IntoError),
+                            }
                         }
                         (_u, true) => return Err(WebError::IntoError),
                     }
@@ -137,27 +143,27 @@ impl TryInto<isize> for &HeaderValue {
             HeaderValue::Stand(s) => s.parse().map_err(WebError::from),
             HeaderValue::Value(v) => {
                 let mut result = 0isize;
-                let mut is_neg = false;
-                for b in v {
+                let is_neg = v.first() == Some(&b'-');
+                let digits = if is_neg { &v[1..] } else { &v[..] };
+                if digits.is_empty() {
+                    return Err(WebError::IntoError);
+                }
+                for b in digits {
                     if !Helper::is_digit(*b) {
-                        if b == &b'-' && result == 0 {
-                            is_neg = true;
-                            continue;
-                        }
                         return Err(WebError::IntoError);
                     }
+                    let digit = (b - Helper::DIGIT_0) as isize;
                     match result.overflowing_mul(10) {
                         (u, false) => {
-                            result = u + (b - Helper::DIGIT_0) as isize;
+                            match u.overflowing_add(if is_neg { -digit } else { digit }) {
+                                (u, false) => result = u,
+                                (_u, true) => return Err(WebError::IntoError),
+                            }
                         }
                         (_u, true) => return Err(WebError::IntoError),
                     }
                 }
-                if is_neg {
-                    Ok(-result)
-                } else {
-                    Ok(result)
-                }
+                Ok(result)
             }
         }
     }
-- 
2.43.0


From 2187348cd01541fd247d1c2903b6f7258c639de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:44 +0000
Subject: [PATCH 06/28] fix: entry 15 of the HPACK static table is
 accept-charset

---
 src/http/http2/hpack/header_index.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http/http2/hpack/header_index.rs b/src/http/http2/hpack/header_index.rs
index 09d9188..e093707 100644
--- a/src/http/http2/hpack/header_index.rs
+++ b/src/http/http2/hpack/header_index.rs
@@ -184,7 +184,7 @@ static STATIC_TABLE_RAW: &'static [(&'static str, &'static str)] = &[
     (":status", "400"),
     (":status", "404"),
     (":status", "500"),
-    ("accept-", ""),
+    ("accept-charset", ""),
     ("accept-encoding", "gzip, deflate"),
     ("accept-language", ""),
     ("accept-ranges", ""),
-- 
2.43.0


From 8aa862678cf68c8fe006966d9040053cbe3b0905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:46 +0000
Subject: [PATCH 07/28] fix: an EOS code inside a Huffman string is an error,
 not a NUL byte

---
 src/http/http2/hpack/huffman.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/http/http2/hpack/huffman.rs b/src/http/http2/hpack/huffman.rs
index bee3f9d..633b608 100644
--- a/src/http/http2/hpack/huffman.rs
+++ b/src/http/http2/hpack/huffman.rs
@@ -67,6 +67,9 @@ impl HuffmanDecoder {
                 current = 0;
                 current_len = 0;
                 all_true = true;
+            } else if current_len == 30 {
+                // EOS is the only code of 30 bits that is not a symbol
+                return Err(Http2Error::into(HuffmanDecoderError::EOSInString));
             }
         }
 
@@ -479,7 +482,7 @@ static HUFFMAN_CODE_ARRAY: &'static [(u32, u8)] = &[
 lazy_static! {
     static ref HUFFMAN_CODE_MAP: HashMap<(u32, u8), u8> = {
         let mut m = HashMap::<(u32, u8), u8>::new();
-        for (symbol, &(code, code_len)) in HUFFMAN_CODE_ARRAY.iter().enumerate() {
+        for (symbol, &(code, code_len)) in HUFFMAN_CODE_ARRAY.iter().enumerate().take(256) {
             m.insert((code, code_len), symbol as u8);
         }
         m
-- 
2.43.0


From d31e6eda5c6ccff010ee5f9ac3f557256ee8c1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:48 +0000
Subject: [PATCH 08/28] fix: decode multi-octet indexes of indexed header
 fields

---
 src/http/http2/hpack/decoder.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/http/http2/hpack/decoder.rs b/src/http/http2/hpack/decoder.rs
index 3b89c6f..07cdfe4 100644
--- a/src/http/http2/hpack/decoder.rs
+++ b/src/http/http2/hpack/decoder.rs
@@ -121,7 +121,7 @@ impl Decoder {
             let buffer_leftover = buf.chunk();
             let consumed = match FieldRepresentation::new(initial_octet) {
                 FieldRepresentation::Indexed => {
-                    let consumed = (self.decode_indexed(initial_octet, |name, value| {
+                    let consumed = (self.decode_indexed(buffer_leftover, |name, value| {
                         cb(Cow::Borrowed(name), Cow::Borrowed(value));
                     }))?;
                     consumed
@@ -296,17 +296,13 @@ impl Decoder {
         Ok(((name, HeaderValue::from_bytes(&value)), consumed))
     }
 
-    fn decode_indexed<F>(&self, index: u8, call: F) -> WebResult<usize>
+    fn decode_indexed<F>(&self, buf: &[u8], call: F) -> WebResult<usize>
     where
         F: FnOnce(&HeaderName, &HeaderValue),
     {
-        let index = index & 0x7f;
-        let header = self.index.read().unwrap();
-        let (name, value) = header
-            .get_from_index(index as usize)
-            .ok_or(Http2Error::into(DecoderError::HeaderIndexOutOfBounds))?;
-        call(name, value);
-        Ok(1)
+        let (index, consumed) = Self::decode_integer(buf, 7)?;
+        self.get_from_table(index, call)?;
+        Ok(consumed)
     }
 
     fn get_from_table<F>(&self, index: usize, call: F) -> WebResult<()>
-- 
2.43.0


From 5e1457be07dd7571e26a45eb72e1c4d33be6ff63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:49 +0000
Subject: [PATCH 09/28] fix: apply HPACK dynamic table size updates instead of
 looping forever

---
 src/http/http2/hpack/decoder.rs      |  8 +++++---
 src/http/http2/hpack/header_index.rs | 15 +++++++++++++++
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/http/http2/hpack/decoder.rs b/src/http/http2/hpack/decoder.rs
index 07cdfe4..3a0c2f5 100644
--- a/src/http/http2/hpack/decoder.rs
+++ b/src/http/http2/hpack/decoder.rs
@@ -163,9 +163,11 @@ impl Decoder {
                     consumed
                 }
                 FieldRepresentation::SizeUpdate => {
-                    // Handle the dynamic table size update...
-                    // self.update_max_dynamic_size(buffer_leftover)
-                    0
+                    let (new_size, consumed) = Self::decode_integer(buffer_leftover, 5)?;
+                    if !self.index.write().unwrap().update_max_table_size(new_size) {
+                        return Err(Http2Error::into(DecoderError::InvalidMaxDynamicSize));
+                    }
+                    consumed
                 }
             };
 
diff --git a/src/http/http2/hpack/header_index.rs b/src/http/http2/hpack/header_index.rs
index e093707..908d7c7 100644
--- a/src/http/http2/hpack/header_index.rs
+++ b/src/http/http2/hpack/header_index.rs
@@ -19,6 +19,8 @@ pub struct HeaderIndex {
     table: VecDeque<(HeaderName, HeaderValue)>,
     size: usize,
     max_size: usize,
+    /// The largest size a peer may select with a size update.
+    limit_size: usize,
 }
 
 /// An `Iterator` through elements of the `DynamicTable`.
@@ -94,6 +96,7 @@ impl HeaderIndex {
             table: VecDeque::new(),
             size: 0,
             max_size,
+            limit_size: max_size,
         }
     }
 
@@ -110,11 +113,23 @@ impl HeaderIndex {
     }
 
     pub fn set_max_table_size(&mut self, new_max_size: usize) {
+        self.limit_size = new_max_size;
         self.max_size = new_max_size;
         // Make the table size fit within the new constraints.
         self.consolidate_table();
     }
 
+    /// Applies a dynamic table size update received from the peer, which
+    /// must not exceed the limit. Returns whether it was acceptable.
+    pub fn update_max_table_size(&mut self, new_max_size: usize) -> bool {
+        if new_max_size > self.limit_size {
+            return false;
+        }
+        self.max_size = new_max_size;
+        self.consolidate_table();
+        true
+    }
+
     /// Returns the maximum size of the table in octets.
     pub fn get_max_table_size(&self) -> usize {
         self.max_size
-- 
2.43.0


From a2c60f0520abfa3bb8d63b8327b9de34016c3f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:51 +0000
Subject: [PATCH 10/28] fix: PRIORITY frames carry their length and the
 exclusive bit

---
 src/http/http2/frame/priority.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/http/http2/frame/priority.rs b/src/http/http2/frame/priority.rs
index aa3f3e4..ddd0d91 100644
--- a/src/http/http2/frame/priority.rs
+++ b/src/http/http2/frame/priority.rs
@@ -70,7 +70,8 @@ impl Priority {
     }
 
     pub fn encode<B: Bt + BtMut>(&self, dst: &mut B) -> WebResult<usize> {
-        let head = FrameHeader::new(super::Kind::Priority, Flag::zero(), self.stream_id);
+        let mut head = FrameHeader::new(super::Kind::Priority, Flag::zero(), self.stream_id);
+        head.length = 5;
         let mut size = 0;
         size += head.encode(dst)?;
         size += self.dependency.encode(dst)?;
@@ -115,7 +116,8 @@ impl StreamDependency {
     }
 
     fn encode<B: Bt + BtMut>(&self, dst: &mut B) -> WebResult<usize> {
-        self.dependency_id.encode(dst)?;
+        let exclusive = if self.is_exclusive { !MASK_U31 } else { 0 };
+        dst.put_u32(self.dependency_id.0 | exclusive);
         dst.put_u8(self.weight);
         Ok(5)
     }
-- 
2.43.0


From 1b1c779ecd73a243199085a55db1313ae9dc760d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:53 +0000
Subject: [PATCH 11/28] fix: a DATA frame on stream 0 is an error, not a panic

---
 src/http/http2/frame/frame.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/http/http2/frame/frame.rs b/src/http/http2/frame/frame.rs
index d2125ba..198f3b8 100644
--- a/src/http/http2/frame/frame.rs
+++ b/src/http/http2/frame/frame.rs
@@ -160,7 +160,12 @@ impl<T: Bt> Frame<T> {
     ) -> WebResult<Frame<T>> {
         Frame::trim_padding(&header, &mut buf)?;
         match header.kind() {
-            Kind::Data => Ok(Frame::Data(Data::new(header, buf))),
+            Kind::Data => {
+                if header.stream_id().is_zero() {
+                    return Err(Http2Error::into(Http2Error::InvalidStreamId));
+                }
+                Ok(Frame::Data(Data::new(header, buf)))
+            }
             Kind::Headers => {
                 let mut header = Headers::new(header, HeaderMap::new());
                 header.parse(buf, decoder, max_header_list_size)?;
-- 
2.43.0


From d7caea4d5b756f594b1a9fd36276855fc33fd611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:12 +0000
Subject: [PATCH 12/28] fix: padding is only defined on some frames and is not
 header block data

---
 src/http/http2/frame/frame.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/http/http2/frame/frame.rs b/src/http/http2/frame/frame.rs
index 198f3b8..9b0fcbe 100644
--- a/src/http/http2/frame/frame.rs
+++ b/src/http/http2/frame/frame.rs
@@ -158,7 +158,13 @@ impl<T: Bt> Frame<T> {
         decoder: &mut Decoder,
         max_header_list_size: usize,
     ) -> WebResult<Frame<T>> {
-        Frame::trim_padding(&header, &mut buf)?;
+        let mut pad_length = 0;
+        if matches!(header.kind(), Kind::Data | Kind::Headers | Kind::PushPromise) {
+            if header.flag.is_padded() {
+                pad_length = buf.peek().unwrap_or(0);
+            }
+            Frame::trim_padding(&header, &mut buf)?;
+        }
         match header.kind() {
             Kind::Data => {
                 if header.stream_id().is_zero() {
@@ -168,7 +174,11 @@ impl<T: Bt> Frame<T> {
             }
             Kind::Headers => {
                 let mut header = Headers::new(header, HeaderMap::new());
-                header.parse(buf, decoder, max_header_list_size)?;
+                if pad_length as usize > buf.remaining() {
+                    return Err(Http2Error::into(Http2Error::TooMuchPadding(pad_length)));
+                }
+                let block_len = buf.remaining() - pad_length as usize;
+                header.parse(&buf.chunk()[..block_len], decoder, max_header_list_size)?;
                 Ok(Frame::Headers(header))
             }
             Kind::Priority => Ok(Frame::Priority(Priority::parse(header, &mut buf)?)),
-- 
2.43.0


From 4be6475ff78fc516087e052bcaec83d2b175b77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:14 +0000
Subject: [PATCH 13/28] fix: encoded frames do not announce padding or priority
 they do not carry

---
 src/http/http2/frame/data.rs    | 1 +
 src/http/http2/frame/headers.rs | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/src/http/http2/frame/data.rs b/src/http/http2/frame/data.rs
index e239661..61fc198 100644
--- a/src/http/http2/frame/data.rs
+++ b/src/http/http2/frame/data.rs
@@ -97,6 +97,7 @@ impl Data<Binary> {
             let now_len = std::cmp::min(self.data.remaining(), encoder.max_frame_size); 
             let mut head = FrameHeader::new(Kind::Data, self.flags.into(), self.stream_id);
             head.length = now_len as u32;
+            head.flags_mut().unset_padded();
             if now_len < self.data.remaining() {
                 head.flags_mut().unset_end_stream();
                 size += head.encode(dst)?;
diff --git a/src/http/http2/frame/headers.rs b/src/http/http2/frame/headers.rs
index 48c4077..80d75ba 100644
--- a/src/http/http2/frame/headers.rs
+++ b/src/http/http2/frame/headers.rs
@@ -295,6 +295,9 @@ impl Headers {
     }
 
     pub fn encode<B: Bt + BtMut>(mut self, encoder: &mut Encoder, dst: &mut B) -> WebResult<usize> {
+        // neither padding nor a stream dependency is written
+        self.flags.unset_padded();
+        self.flags.set(Flag::PRIORITY, false);
         let size = self
             .header_block
             .encode(encoder, dst, self.flags, self.stream_id)?;
-- 
2.43.0


From dac99d46358b1f7b05eb008948bd6c508ace3a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:16 +0000
Subject: [PATCH 14/28] fix: header blocks are split at the frame size,
 END_STREAM stays on HEADERS

---
 src/http/http2/frame/headers.rs | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/http/http2/frame/headers.rs b/src/http/http2/frame/headers.rs
index 80d75ba..39d22df 100644
--- a/src/http/http2/frame/headers.rs
+++ b/src/http/http2/frame/headers.rs
@@ -610,20 +610,19 @@ impl HeaderBlock {
         mut flags: Flag,
         stream_id: StreamIdentifier,
     ) -> WebResult<usize> {
-        let mut result = vec![];
-        let mut binary = BinaryMut::new();
-
+        let mut block = BinaryMut::new();
         for value in self.fields.iter() {
-            if value.0.bytes_len() + value.1.bytes_len() + binary.remaining()
-                > encoder.max_frame_size as usize
-            {
-                result.push(binary);
-                binary = BinaryMut::new();
-            }
-            let _ = encoder.encode_header_into((&value.0, &value.1), &mut binary);
+            let _ = encoder.encode_header_into((&value.0, &value.1), &mut block);
         }
 
-        result.push(binary);
+        // a header block is one octet string, cut where a frame is full
+        let mut result = vec![];
+        let max_size = std::cmp::max(encoder.max_frame_size, 1);
+        while block.remaining() > max_size {
+            result.push(BinaryMut::from(&block.chunk()[..max_size]));
+            block.advance(max_size);
+        }
+        result.push(BinaryMut::from(block.chunk()));
         let mut size = 0;
         if result.len() == 1 {
             flags.set_end_headers();
@@ -632,7 +631,8 @@ impl HeaderBlock {
             size += head.encode(dst).unwrap();
             size += result[0].serialize(dst).unwrap();
         } else {
-            let mut head = FrameHeader::new(Kind::Headers, Flag::zero(), stream_id);
+            flags.unset_end_headers();
+            let mut head = FrameHeader::new(Kind::Headers, flags, stream_id);
             head.length = result[0].remaining() as u32;
             size += head.encode(dst).unwrap();
             size += result[0].serialize(dst).unwrap();
@@ -640,8 +640,7 @@ impl HeaderBlock {
             for idx in 1..result.len() {
                 let mut head = FrameHeader::new(Kind::Continuation, Flag::zero(), stream_id);
                 if idx == result.len() - 1 {
-                    flags.set_end_headers();
-                    head.flag = flags;
+                    head.flag = Flag::end_headers();
                 }
                 head.length = result[idx].remaining() as u32;
                 size += head.encode(dst).unwrap();
-- 
2.43.0


From 0c00be6c0e933e4af99b393365ab861c3443437d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:18 +0000
Subject: [PATCH 15/28] fix: an @ in the path or query of a URL does not end
 its userinfo

---
 src/url/url.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/url/url.rs b/src/url/url.rs
index 3dccc0d..9cf347e 100644
--- a/src/url/url.rs
+++ b/src/url/url.rs
@@ -172,7 +172,7 @@ impl Url {
                 } else {
                     val.push(b);
                 }
-            } else if b == b'@' {
+            } else if b == b'@' && !is_first_slash {
                 //一开始的冒泡匹配域名,把域名结束当前username结束, 不存在用户密码, 不允许存在'@'
                 if domain.is_none() {
                     return Err(WebError::from(UrlError::UrlInvalid));
-- 
2.43.0


From f26de66b379028f518fa7c2725a89b8a7c28fd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:20 +0000
Subject: [PATCH 16/28] fix: a ? right after the authority of a URL starts its
 query

---
 src/url/url.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/url/url.rs b/src/url/url.rs
index 9cf347e..cbd6727 100644
--- a/src/url/url.rs
+++ b/src/url/url.rs
@@ -194,9 +194,13 @@ impl Url {
                 val.push(b);
             } else if b == b'?' {
                 if !is_first_slash {
-                    if domain.is_none() && has_domain {
+                    if domain.is_none() {
                         domain = Some(build_binary(&mut val));
+                    } else {
+                        port = Some(build_binary(&mut val));
                     }
+                    is_first_slash = true;
+                    path = Some(Binary::from(Self::DEFAULT_PATH));
                 // 多个'?'忽略当作query
                 } else if path.is_none() {
                     path = Some(build_binary(&mut val));
-- 
2.43.0


From 6f2a7a2a6c162cbc85c9440271f46fb012728b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:22 +0000
Subject: [PATCH 17/28] fix: a malformed request target is an error, not a
 partial request

---
 src/http/request.rs | 8 ++++++--
 src/url/url.rs      | 6 ++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/http/request.rs b/src/http/request.rs
index 942534b..9f47a1b 100644
--- a/src/http/request.rs
+++ b/src/http/request.rs
@@ -18,7 +18,7 @@ use std::{
 use super::{http2::HeaderIndex, HeaderMap, Method, Version};
 use crate::{
     http2::frame::Settings, Extensions, HeaderName, HeaderValue, Helper, Scheme, Serialize, Url,
-    WebError, WebResult,
+    UrlError, WebError, WebResult,
 };
 use algorithm::buf::{BinaryMut, Bt, BtMut};
 
@@ -569,7 +569,11 @@ where
                 url
             }
             _ => {
-                let mut url = Url::try_from(path)?;
+                let mut url = Url::try_from(path).map_err(|e| match e.is_partial() {
+                    // the target is complete, more data would not mend it
+                    true => WebError::from(UrlError::UrlInvalid),
+                    false => e,
+                })?;
                 if url.domain.is_none() {
                     match self.parts.header.get_host() {
                         Some(h) => {
diff --git a/src/url/url.rs b/src/url/url.rs
index cbd6727..d583227 100644
--- a/src/url/url.rs
+++ b/src/url/url.rs
@@ -86,8 +86,10 @@ impl Url {
                 if !can_convert {
                     return Err(WebError::from(UrlError::UrlInvalid));
                 }
-                let t = Helper::convert_hex(next!(buffer)?);
-                let u = Helper::convert_hex(next!(buffer)?);
+                let (t, u) = match (next!(buffer), next!(buffer)) {
+                    (Ok(t), Ok(u)) => (Helper::convert_hex(t), Helper::convert_hex(u)),
+                    _ => return Err(WebError::from(UrlError::UrlInvalid)),
+                };
                 if t.is_none() || u.is_none() {
                     return Err(WebError::from(UrlError::UrlInvalid));
                 }
-- 
2.43.0


From 69bfd5f8905f7e0f0cff295fe86fa57a89b46f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:24 +0000
Subject: [PATCH 18/28] fix: delimiters inside URL components are escaped when
 a URL is written

---
 src/url/url.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/url/url.rs b/src/url/url.rs
index d583227..8de1381 100644
--- a/src/url/url.rs
+++ b/src/url/url.rs
@@ -277,6 +277,21 @@ impl Url {
         String::from_utf8_lossy(&vec).to_string()
     }
 
+    /// Percent-encodes what may not appear literally in a URL, and `reserved`.
+    pub(crate) fn escape(val: &str, reserved: &[u8]) -> String {
+        let mut result = String::with_capacity(val.len());
+        for &b in val.as_bytes() {
+            if Helper::is_token(b) && b != b'%' && !reserved.contains(&b) {
+                result.push(b as char);
+            } else {
+                result.push('%');
+                result.push(Helper::to_hex(b / 16) as char);
+                result.push(Helper::to_hex(b % 16) as char);
+            }
+        }
+        result
+    }
+
     pub fn url_decode(val: &str) -> WebResult<String> {
         let bytes = val.as_bytes();
         let mut vec = Vec::with_capacity(bytes.len() as usize);
@@ -352,12 +367,12 @@ impl Display for Url {
         if self.username.is_some() || self.password.is_some() {
             f.write_fmt(format_args!(
                 "{}:{}@",
-                Self::url_encode(self.username.as_ref().unwrap_or(&String::new())),
-                Self::url_encode(self.password.as_ref().unwrap_or(&String::new()))
+                Self::escape(self.username.as_deref().unwrap_or(""), b":/?@&"),
+                Self::escape(self.password.as_deref().unwrap_or(""), b":/?@&")
             ))?;
         }
         if self.domain.is_some() {
-            f.write_fmt(format_args!("{}", self.domain.as_ref().unwrap()))?;
+            f.write_str(&Self::escape(self.domain.as_ref().unwrap(), b":/?@"))?;
         }
         if self.scheme != Scheme::None && self.port.is_some() {
             match (&self.scheme, self.port) {
@@ -366,7 +381,7 @@ impl Display for Url {
                 _ => f.write_fmt(format_args!(":{}", self.port.as_ref().unwrap()))?,
             };
         }
-        f.write_fmt(format_args!("{}", Self::url_encode(&self.path)))?;
+        f.write_str(&Self::url_encode(&self.path).replace('?', "%3F"))?;
         if self.query.is_some() {
             f.write_fmt(format_args!(
                 "?{}",
-- 
2.43.0


From 573171e8a37bcfa7f924bbe1e72796825f7062e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:25 +0000
Subject: [PATCH 19/28] fix: an encoded request line carries the query and an
 escaped path

---
 src/http/request.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/http/request.rs b/src/http/request.rs
index 9f47a1b..0f513a6 100644
--- a/src/http/request.rs
+++ b/src/http/request.rs
@@ -645,7 +645,11 @@ where
         let mut size = 0;
         size += self.parts.method.encode(buffer)?;
         size += buffer.put_u8(b' ');
-        size += self.parts.url.path.serialize(buffer)?;
+        size += Url::escape(&self.parts.url.path, b"?").serialize(buffer)?;
+        if let Some(query) = &self.parts.url.query {
+            size += buffer.put_u8(b'?');
+            size += Url::escape(query, b"").serialize(buffer)?;
+        }
         size += buffer.put_u8(b' ');
         size += self.parts.version.encode(buffer)?;
         size += buffer.put_slice("\r\n".as_bytes());
-- 
2.43.0


From fae8f6f56eda1d55a62e8387dbd0c6905f9791b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:27 +0000
Subject: [PATCH 20/28] fix: the host of :authority excludes the port

---
 src/http/header.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http/header.rs b/src/http/header.rs
index 485a460..48fa524 100644
--- a/src/http/header.rs
+++ b/src/http/header.rs
@@ -185,7 +185,7 @@ impl HeaderMap {
             let value = TryInto::<String>::try_into(value).ok().unwrap();
             // host 信息只取前缀
             if value.contains(":") {
-                let v: Vec<&str> = value.splitn(1, ':').collect();
+                let v: Vec<&str> = value.splitn(2, ':').collect();
                 return Some(v[0].to_string());
             } else {
                 return Some(value);
-- 
2.43.0


From c3cc406b5d631e06659012132675d74bef41aa60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:29 +0000
Subject: [PATCH 21/28] fix: Scheme::from_str recognises the known schemes

---
 src/url/scheme.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/url/scheme.rs b/src/url/scheme.rs
index eb8554f..97e4e97 100644
--- a/src/url/scheme.rs
+++ b/src/url/scheme.rs
@@ -153,6 +153,6 @@ impl TryFrom<&str> for Scheme {
 impl FromStr for Scheme {
     type Err = WebError;
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        Scheme::try_from(&*s.to_uppercase())
+        Scheme::try_from(&*s.to_lowercase())
     }
 }
\ No newline at end of file
-- 
2.43.0


From 496456443854cc80e9272aa02550f07dcce894bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:31 +0000
Subject: [PATCH 22/28] fix: the reason phrase of a status line may be empty

---
 src/helper.rs      | 2 +-
 src/http/status.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/helper.rs b/src/helper.rs
index 7fdcc19..86cabd4 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -287,7 +287,7 @@ impl Helper {
 
     #[inline]
     pub(crate) fn parse_status_token<'a, B:Bt>(buffer: &'a mut B) -> WebResult<&'a str> {
-        Self::parse_token_by_func(buffer, Self::is_status_token, WebError::from(HttpError::Token))
+        Self::parse_token_by_func_empty(buffer, Self::is_status_token, WebError::from(HttpError::Token), true)
     }
 
     #[inline]
diff --git a/src/http/status.rs b/src/http/status.rs
index 1b7824e..12553f0 100644
--- a/src/http/status.rs
+++ b/src/http/status.rs
@@ -204,7 +204,7 @@ impl StatusCode {
     pub fn encode<B: Bt + BtMut>(&mut self, buffer: &mut B) -> WebResult<usize> {
         match self.canonical_reason() {
             Some(s) => Ok(buffer.put_slice(format!("{} {}\r\n", self.as_str(), s).as_bytes())),
-            _ => return Err(WebError::from(HttpError::InvalidStatusCode)),
+            _ => Ok(buffer.put_slice(format!("{} \r\n", self.as_str()).as_bytes())),
         }
     }
 }
-- 
2.43.0


From 29a748d3779120395f8a3d7a0eb4c8898da8f188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:32 +0000
Subject: [PATCH 23/28] fix: HEADERS frames carry the pseudo header fields that
 were set

---
 src/http/http2/frame/headers.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/http/http2/frame/headers.rs b/src/http/http2/frame/headers.rs
index 39d22df..4e74a40 100644
--- a/src/http/http2/frame/headers.rs
+++ b/src/http/http2/frame/headers.rs
@@ -298,6 +298,13 @@ impl Headers {
         // neither padding nor a stream dependency is written
         self.flags.unset_padded();
         self.flags.set(Flag::PRIORITY, false);
+        // the pseudo header fields come first
+        let mut fields = HeaderMap::new();
+        self.header_block.parts.encode_header(&mut fields);
+        for (name, value) in std::mem::replace(&mut self.header_block.fields, HeaderMap::new()) {
+            fields.insert(name, value);
+        }
+        self.header_block.fields = fields;
         let size = self
             .header_block
             .encode(encoder, dst, self.flags, self.stream_id)?;
-- 
2.43.0


From 7bbb38709e09f7423c5bb1e6a188e00b4f5a34d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:08 +0000
Subject: [PATCH 24/28] fix: read static header values as numbers by the same
 rules

---
 src/http/value.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/http/value.rs b/src/http/value.rs
index 80d6d6e..6227da5 100644
--- a/src/http/value.rs
+++ b/src/http/value.rs
@@ -109,7 +109,7 @@ impl TryInto<usize> for &HeaderValue {
 
     fn try_into(self) -> Result<usize, WebError> {
         match self {
-            HeaderValue::Stand(s) => s.parse().map_err(WebError::from),
+            HeaderValue::Stand(s) => (&HeaderValue::from_bytes(s.as_bytes())).try_into(),
             HeaderValue::Value(v) => {
                 if v.is_empty() {
                     return Err(WebError::IntoError);
@@ -140,7 +140,7 @@ impl TryInto<isize> for &HeaderValue {
 
     fn try_into(self) -> Result<isize, WebError> {
         match self {
-            HeaderValue::Stand(s) => s.parse().map_err(WebError::from),
+            HeaderValue::Stand(s) => (&HeaderValue::from_bytes(s.as_bytes())).try_into(),
             HeaderValue::Value(v) => {
                 let mut result = 0isize;
                 let is_neg = v.first() == Some(&b'-');
-- 
2.43.0


From 9a20d8e940d8ac919e4466e1db41d2d5eb9fe7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 25/28] fix: registered reason phrase of status 203

---
 src/http/status.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http/status.rs b/src/http/status.rs
index 12553f0..84cc4bb 100644
--- a/src/http/status.rs
+++ b/src/http/status.rs
@@ -352,7 +352,7 @@ status_codes! {
     (202, ACCEPTED, "Accepted");
     /// 203 Non-Authoritative Information
     /// [[RFC7231, Section 6.3.4](https://tools.ietf.org/html/rfc7231#section-6.3.4)]
-    (203, NON_AUTHORITATIVE_INFORMATION, "Non Authoritative Information");
+    (203, NON_AUTHORITATIVE_INFORMATION, "Non-Authoritative Information");
     /// 204 No Content
     /// [[RFC7231, Section 6.3.5](https://tools.ietf.org/html/rfc7231#section-6.3.5)]
     (204, NO_CONTENT, "No Content");
-- 
2.43.0


From 6cc9759f3efef6aee8c37421077386a5d7f3ede5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:14 +0000
Subject: [PATCH 26/28] fix: a second '@' in a URL authority is refused

---
 src/url/url.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/url/url.rs b/src/url/url.rs
index 8de1381..7de41e9 100644
--- a/src/url/url.rs
+++ b/src/url/url.rs
@@ -176,7 +176,7 @@ impl Url {
                 }
             } else if b == b'@' && !is_first_slash {
                 //一开始的冒泡匹配域名,把域名结束当前username结束, 不存在用户密码, 不允许存在'@'
-                if domain.is_none() {
+                if domain.is_none() || username.is_some() {
                     return Err(WebError::from(UrlError::UrlInvalid));
                 }
                 username = domain;
-- 
2.43.0


From dad1129673972455e73d5ccbf0758532e39c4525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:14 +0000
Subject: [PATCH 27/28] fix: a signed port in a URL is refused

---
 src/url/url.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/url/url.rs b/src/url/url.rs
index 7de41e9..37db8a9 100644
--- a/src/url/url.rs
+++ b/src/url/url.rs
@@ -231,8 +231,12 @@ impl Url {
         }
         if port.is_some() {
             let port = Self::parse_url_token(&mut port.unwrap(), true)?;
-            if port.is_some() {
-                url.port = match port.unwrap().parse::<u16>() {
+            if let Some(port) = port {
+                // digits only, a sign is not part of a port
+                if port.starts_with('+') {
+                    return Err(WebError::from(UrlError::UrlInvalid));
+                }
+                url.port = match port.parse::<u16>() {
                     Ok(v) => Some(v),
                     Err(_) => return Err(WebError::from(UrlError::UrlInvalid)),
                 }
-- 
2.43.0


From 4b444d7e26cb4223d83aab90c540108559cd8c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:49 +0000
Subject: [PATCH 28/28] fix: a pad length that leaves no room for itself is
 refused

---
 src/http/http2/frame/frame.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http/http2/frame/frame.rs b/src/http/http2/frame/frame.rs
index 9b0fcbe..9acc028 100644
--- a/src/http/http2/frame/frame.rs
+++ b/src/http/http2/frame/frame.rs
@@ -51,7 +51,7 @@ impl Frame<Binary> {
     pub fn trim_padding<B: Bt>(header: &FrameHeader, buf: &mut B) -> WebResult<()> {
         if header.flag.is_padded() && buf.has_remaining() {
             let pad_length = buf.peek().unwrap();
-            if pad_length as u32 > header.length {
+            if pad_length as u32 >= header.length {
                 return Err(Http2Error::into(Http2Error::TooMuchPadding(pad_length)));
             } else {
                 buf.advance(1);
-- 
2.43.0

