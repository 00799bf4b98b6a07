From 9e43d6c7c3defa7f063184be4f4d749d2360d1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:53 +0000
Subject: [PATCH 01/18] verif: guarded hook modules (cfg hyper_verif)

---
 src/body/incoming.rs   | 6 ++++++
 src/client/dispatch.rs | 6 ++++++
 src/common/io/mod.rs   | 6 ++++++
 src/common/mod.rs      | 6 ++++++
 src/lib.rs             | 9 +++++++++
 src/proto/h1/conn.rs   | 6 ++++++
 src/proto/h1/decode.rs | 6 ++++++
 src/proto/h1/encode.rs | 6 ++++++
 src/proto/h1/io.rs     | 6 ++++++
 src/proto/h1/mod.rs    | 6 ++++++
 src/proto/h1/role.rs   | 6 ++++++
 src/proto/h2/mod.rs    | 6 ++++++
 src/proto/h2/ping.rs   | 6 ++++++
 src/upgrade.rs         | 6 ++++++
 14 files changed, 87 insertions(+)

diff --git a/src/body/incoming.rs b/src/body/incoming.rs
index 93c99a0..f450837 100644
--- a/src/body/incoming.rs
+++ b/src/body/incoming.rs
@@ -462,6 +462,12 @@ impl fmt::Debug for Sender {
     }
 }
 
+#[cfg(hyper_verif)]
+pub(crate) mod verif {
+    //! Verification hooks (never part of a normal build).
+    include!(concat!(env!("HYPER_VERIF_HOOKS"), "/incoming.rs"));
+}
+
 #[cfg(test)]
 mod tests {
     #[cfg(all(feature = "http1", any(feature = "client", feature = "server")))]
diff --git a/src/client/dispatch.rs b/src/client/dispatch.rs
index 69c9b8c..6740dc8 100644
--- a/src/client/dispatch.rs
+++ b/src/client/dispatch.rs
@@ -385,6 +385,12 @@ where
     }
 }
 
+#[cfg(hyper_verif)]
+pub(crate) mod verif {
+    //! Verification hooks (never part of a normal build).
+    include!(concat!(env!("HYPER_VERIF_HOOKS"), "/client_dispatch.rs"));
+}
+
 #[cfg(test)]
 mod tests {
     #[cfg(feature = "nightly")]
diff --git a/src/common/io/mod.rs b/src/common/io/mod.rs
index 98c297c..9d0dc89 100644
--- a/src/common/io/mod.rs
+++ b/src/common/io/mod.rs
@@ -5,3 +5,9 @@ mod rewind;
 #[cfg(all(any(feature = "client", feature = "server"), feature = "http2"))]
 pub(crate) use self::compat::Compat;
 pub(crate) use self::rewind::Rewind;
+
+#[cfg(hyper_verif)]
+pub(crate) mod verif {
+    //! Verification hooks (never part of a normal build).
+    include!(concat!(env!("HYPER_VERIF_HOOKS"), "/common_io.rs"));
+}
diff --git a/src/common/mod.rs b/src/common/mod.rs
index 5be740b..d69fe07 100644
--- a/src/common/mod.rs
+++ b/src/common/mod.rs
@@ -20,3 +20,9 @@ pub(crate) mod task;
 pub(crate) mod time;
 #[cfg(all(any(feature = "client", feature = "server"), feature = "http1"))]
 pub(crate) mod watch;
+
+#[cfg(hyper_verif)]
+pub(crate) mod verif {
+    //! Verification hooks (never part of a normal build).
+    include!(concat!(env!("HYPER_VERIF_HOOKS"), "/common.rs"));
+}
diff --git a/src/lib.rs b/src/lib.rs
index 8d6e2d2..8ba54b7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -5,6 +5,7 @@
 #![cfg_attr(all(test, feature = "full"), deny(warnings))]
 #![cfg_attr(all(test, feature = "nightly"), feature(test))]
 #![cfg_attr(docsrs, feature(doc_cfg))]
+#![allow(unexpected_cfgs)]
 
 //! # hyper
 //!
@@ -158,3 +159,11 @@ cfg_feature! {
 
     pub mod server;
 }
+
+#[cfg(hyper_verif)]
+#[doc(hidden)]
+#[allow(missing_docs, missing_debug_implementations)]
+pub mod verif {
+    //! Verification hooks (never part of a normal build).
+    include!(concat!(env!("HYPER_VERIF_HOOKS"), "/lib.rs"));
+}
diff --git a/src/proto/h1/conn.rs b/src/proto/h1/conn.rs
index 19c1283..9a0a1d9 100644
--- a/src/proto/h1/conn.rs
+++ b/src/proto/h1/conn.rs
@@ -1162,6 +1162,12 @@ impl State {
     }
 }
 
+#[cfg(hyper_verif)]
+pub(crate) mod verif {
+    //! Verification hooks (never part of a normal build).
+    include!(concat!(env!("HYPER_VERIF_HOOKS"), "/conn.rs"));
+}
+
 #[cfg(test)]
 mod tests {
     #[cfg(all(feature = "nightly", not(miri)))]
diff --git a/src/proto/h1/decode.rs b/src/proto/h1/decode.rs
index bdfdf79..e37488c 100644
--- a/src/proto/h1/decode.rs
+++ b/src/proto/h1/decode.rs
@@ -688,6 +688,12 @@ impl fmt::Display for IncompleteBody {
 
 impl StdError for IncompleteBody {}
 
+#[cfg(hyper_verif)]
+pub(crate) mod verif {
+    //! Verification hooks (never part of a normal build).
+    include!(concat!(env!("HYPER_VERIF_HOOKS"), "/decode.rs"));
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/proto/h1/encode.rs b/src/proto/h1/encode.rs
index a1eebaf..23b3548 100644
--- a/src/proto/h1/encode.rs
+++ b/src/proto/h1/encode.rs
@@ -427,6 +427,12 @@ impl fmt::Display for NotEof {
 
 impl std::error::Error for NotEof {}
 
+#[cfg(hyper_verif)]
+pub(crate) mod verif {
+    //! Verification hooks (never part of a normal build).
+    include!(concat!(env!("HYPER_VERIF_HOOKS"), "/encode.rs"));
+}
+
 #[cfg(test)]
 mod tests {
     use bytes::BufMut;
diff --git a/src/proto/h1/io.rs b/src/proto/h1/io.rs
index 6b3f10f..29453fa 100644
--- a/src/proto/h1/io.rs
+++ b/src/proto/h1/io.rs
@@ -649,6 +649,12 @@ enum WriteStrategy {
     Queue,
 }
 
+#[cfg(hyper_verif)]
+pub(crate) mod verif {
+    //! Verification hooks (never part of a normal build).
+    include!(concat!(env!("HYPER_VERIF_HOOKS"), "/io.rs"));
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/proto/h1/mod.rs b/src/proto/h1/mod.rs
index 0a442c4..583d48c 100644
--- a/src/proto/h1/mod.rs
+++ b/src/proto/h1/mod.rs
@@ -111,3 +111,9 @@ impl Wants {
         (self.0 & other.0) == other.0
     }
 }
+
+#[cfg(hyper_verif)]
+pub(crate) mod verif {
+    //! Verification hooks (never part of a normal build).
+    include!(concat!(env!("HYPER_VERIF_HOOKS"), "/h1.rs"));
+}
diff --git a/src/proto/h1/role.rs b/src/proto/h1/role.rs
index 29bcd44..9e01d5f 100644
--- a/src/proto/h1/role.rs
+++ b/src/proto/h1/role.rs
@@ -1673,6 +1673,12 @@ fn extend(dst: &mut Vec<u8>, data: &[u8]) {
     dst.extend_from_slice(data);
 }
 
+#[cfg(hyper_verif)]
+pub(crate) mod verif {
+    //! Verification hooks (never part of a normal build).
+    include!(concat!(env!("HYPER_VERIF_HOOKS"), "/role.rs"));
+}
+
 #[cfg(test)]
 mod tests {
     use bytes::BytesMut;
diff --git a/src/proto/h2/mod.rs b/src/proto/h2/mod.rs
index f0db9b6..a19c467 100644
--- a/src/proto/h2/mod.rs
+++ b/src/proto/h2/mod.rs
@@ -327,3 +327,9 @@ impl<B: Buf> Buf for SendBuf<B> {
         }
     }
 }
+
+#[cfg(hyper_verif)]
+pub(crate) mod verif {
+    //! Verification hooks (never part of a normal build).
+    include!(concat!(env!("HYPER_VERIF_HOOKS"), "/h2.rs"));
+}
diff --git a/src/proto/h2/ping.rs b/src/proto/h2/ping.rs
index 198bff4..f3044ed 100644
--- a/src/proto/h2/ping.rs
+++ b/src/proto/h2/ping.rs
@@ -513,3 +513,9 @@ impl std::error::Error for KeepAliveTimedOut {
         Some(&crate::error::TimedOut)
     }
 }
+
+#[cfg(hyper_verif)]
+pub(crate) mod verif {
+    //! Verification hooks (never part of a normal build).
+    include!(concat!(env!("HYPER_VERIF_HOOKS"), "/ping.rs"));
+}
diff --git a/src/upgrade.rs b/src/upgrade.rs
index bb350e7..f26b44f 100644
--- a/src/upgrade.rs
+++ b/src/upgrade.rs
@@ -373,6 +373,12 @@ mod sealed {
     any(feature = "client", feature = "server"),
     any(feature = "http1", feature = "http2"),
 ))]
+#[cfg(hyper_verif)]
+pub(crate) mod verif {
+    //! Verification hooks (never part of a normal build).
+    include!(concat!(env!("HYPER_VERIF_HOOKS"), "/upgrade.rs"));
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 11666aff2e83459b03bc6595d790af4badba4471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:50 +0000
Subject: [PATCH 02/18] fix: do not read past the maximum buffer size

BytesMut::reserve may allocate more than asked for, and the read filled
whatever capacity there was, so more than max_buf_size octets could be
buffered and a message head larger than the limit accepted.
---
 src/proto/h1/io.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/proto/h1/io.rs b/src/proto/h1/io.rs
index 29453fa..986e23e 100644
--- a/src/proto/h1/io.rs
+++ b/src/proto/h1/io.rs
@@ -225,12 +225,11 @@ where
         self.read_blocked = false;
         // Get the next amount to allocate, but make sure we don't go over
         // the max read buf size configured.
-        let next = cmp::min(
-            self.read_buf_strategy.next(),
-            self.read_buf_strategy
-                .max()
-                .saturating_sub(self.read_buf.len()),
-        );
+        let limit = self
+            .read_buf_strategy
+            .max()
+            .saturating_sub(self.read_buf.len());
+        let next = cmp::min(self.read_buf_strategy.next(), limit);
         if self.read_buf_remaining_mut() < next {
             self.read_buf.reserve(next);
         }
@@ -238,7 +237,9 @@ where
         // SAFETY: ReadBuf and poll_read promise not to set any uninitialized
         // bytes onto `dst`.
         let dst = unsafe { self.read_buf.chunk_mut().as_uninit_slice_mut() };
-        let mut buf = ReadBuf::uninit(dst);
+        // `reserve` may have allocated more than asked for.
+        let limit = cmp::min(limit, dst.len());
+        let mut buf = ReadBuf::uninit(&mut dst[..limit]);
         match Pin::new(&mut self.io).poll_read(cx, buf.unfilled()) {
             Poll::Ready(Ok(_)) => {
                 let n = buf.filled().len();
-- 
2.43.0


From d49c540a4748fa1c06f8711fc6a5c666e7cfaf0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:36 +0000
Subject: [PATCH 03/18] fix: do not reorder bytes when a Buf lists only part of
 its chunks

Buf::chunks_vectored may list less than all remaining bytes (its default
implementation lists one chunk). BufList and the chunked EncodedBuf then
went on with the next buffer, so bytes reached the transport out of order.
---
 src/common/buf.rs      | 13 +++++++++++--
 src/proto/h1/encode.rs | 13 ++++++++++++-
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/common/buf.rs b/src/common/buf.rs
index d000715..c127dd3 100644
--- a/src/common/buf.rs
+++ b/src/common/buf.rs
@@ -7,6 +7,11 @@ pub(crate) struct BufList<T> {
     bufs: VecDeque<T>,
 }
 
+/// The number of bytes in a list of slices.
+pub(crate) fn slices_len(slices: &[IoSlice<'_>]) -> usize {
+    slices.iter().map(|slice| slice.len()).sum()
+}
+
 impl<T: Buf> BufList<T> {
     pub(crate) fn new() -> BufList<T> {
         BufList {
@@ -62,8 +67,12 @@ impl<T: Buf> Buf for BufList<T> {
         }
         let mut vecs = 0;
         for buf in &self.bufs {
-            vecs += buf.chunks_vectored(&mut dst[vecs..]);
-            if vecs == dst.len() {
+            let n = buf.chunks_vectored(&mut dst[vecs..]);
+            let listed = slices_len(&dst[vecs..vecs + n]);
+            vecs += n;
+            // A `Buf` may list less than all of its bytes, and the next one
+            // must not go out before the rest.
+            if vecs == dst.len() || listed < buf.remaining() {
                 break;
             }
         }
diff --git a/src/proto/h1/encode.rs b/src/proto/h1/encode.rs
index 23b3548..8ac6cdb 100644
--- a/src/proto/h1/encode.rs
+++ b/src/proto/h1/encode.rs
@@ -14,6 +14,7 @@ use http::{
 
 use super::io::WriteBuf;
 use super::role::{write_headers, write_headers_title_case};
+use crate::common::buf::slices_len;
 
 type StaticBuf = &'static [u8];
 
@@ -321,7 +322,17 @@ where
         match &self.kind {
             BufKind::Exact(b) => b.chunks_vectored(dst),
             BufKind::Limited(b) => b.chunks_vectored(dst),
-            BufKind::Chunked(b) => b.chunks_vectored(dst),
+            BufKind::Chunked(b) => {
+                // The data may be listed only in part, and the CRLF must not
+                // go out before the rest.
+                let data = b.first_ref();
+                let n = data.chunks_vectored(dst);
+                if slices_len(&dst[..n]) < data.remaining() {
+                    n
+                } else {
+                    n + b.last_ref().chunks_vectored(&mut dst[n..])
+                }
+            }
             BufKind::ChunkedEnd(b) => b.chunks_vectored(dst),
             BufKind::Trailers(b) => b.chunks_vectored(dst),
         }
-- 
2.43.0


From e93ddac420a1c75cd2165f7dab2b25c1c6b5f253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:58 +0000
Subject: [PATCH 04/18] fix: strip what every Connection and TE header names
 from HTTP/2 messages

strip_connection_headers looked at the first Connection (and TE) value only:
fields named in a second Connection header, or in one holding opaque octets,
were sent, and so was a second TE value other than trailers.
---
 src/proto/h2/mod.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/proto/h2/mod.rs b/src/proto/h2/mod.rs
index a19c467..5b98cd0 100644
--- a/src/proto/h2/mod.rs
+++ b/src/proto/h2/mod.rs
@@ -7,7 +7,7 @@ use std::task::{Context, Poll};
 use bytes::Buf;
 use futures_core::ready;
 use h2::SendStream;
-use http::header::{HeaderName, CONNECTION, TRANSFER_ENCODING, UPGRADE};
+use http::header::{HeaderName, HeaderValue, CONNECTION, TRANSFER_ENCODING, UPGRADE};
 use http::HeaderMap;
 use pin_project_lite::pin_project;
 
@@ -59,8 +59,9 @@ fn strip_connection_headers(headers: &mut HeaderMap, kind: MessageKind) {
     #[cfg(feature = "client")]
     if matches!(kind, MessageKind::Request) {
         if headers
-            .get(http::header::TE)
-            .map_or(false, |te_header| te_header != "trailers")
+            .get_all(http::header::TE)
+            .iter()
+            .any(|te_header| te_header != "trailers")
         {
             warn!("TE headers not set to \"trailers\" are illegal in HTTP/2 requests");
             headers.remove(http::header::TE);
@@ -69,21 +70,24 @@ fn strip_connection_headers(headers: &mut HeaderMap, kind: MessageKind) {
         warn!("TE headers illegal in HTTP/2 responses");
     }
 
-    if let Some(header) = headers.remove(CONNECTION) {
+    // There can be several `Connection` headers, and each of them can name others.
+    let connection: Vec<HeaderValue> = headers.get_all(CONNECTION).iter().cloned().collect();
+    if headers.remove(CONNECTION).is_some() {
         warn!(
             "Connection header illegal in HTTP/2: {}",
             CONNECTION.as_str()
         );
+    }
+    for header in &connection {
         // A `Connection` header may have a comma-separated list of names of other headers that
         // are meant for only this specific connection.
         //
         // Iterate these names and remove them as headers. Connection-specific headers are
         // forbidden in HTTP2, as that information has been moved into frame types of the h2
         // protocol.
-        if let Ok(header_contents) = header.to_str() {
-            for name in header_contents.split(',') {
-                let name = name.trim();
-                headers.remove(name);
+        for name in header.as_bytes().split(|b| *b == b',') {
+            if let Ok(name) = std::str::from_utf8(name) {
+                headers.remove(name.trim());
             }
         }
     }
-- 
2.43.0


From 75f5cd4f19141777a56863f2f82b4be4206f8431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:08 +0000
Subject: [PATCH 05/18] fix: report no length for an HTTP/2 body the peer will
 not send

---
 src/body/incoming.rs   |  6 +++---
 src/body/length.rs     | 10 ----------
 src/proto/h2/client.rs | 11 +++++++++++
 3 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/body/incoming.rs b/src/body/incoming.rs
index f450837..fcf6eae 100644
--- a/src/body/incoming.rs
+++ b/src/body/incoming.rs
@@ -156,9 +156,9 @@ impl Incoming {
         mut content_length: DecodedLength,
         ping: ping::Recorder,
     ) -> Self {
-        // If the stream is already EOS, then the "unknown length" is clearly
-        // actually ZERO.
-        if !content_length.is_exact() && recv.is_end_stream() {
+        // If the stream is already EOS, then the length is clearly actually
+        // ZERO, also when the head announces one (as in a response to HEAD).
+        if recv.is_end_stream() {
             content_length = DecodedLength::ZERO;
         }
 
diff --git a/src/body/length.rs b/src/body/length.rs
index 1ed5e0d..39141eb 100644
--- a/src/body/length.rs
+++ b/src/body/length.rs
@@ -74,16 +74,6 @@ impl DecodedLength {
             }
         }
     }
-
-    /// Returns whether this represents an exact length.
-    ///
-    /// This includes 0, which of course is an exact known length.
-    ///
-    /// It would return false if "chunked" or otherwise size-unknown.
-    #[cfg(all(any(feature = "client", feature = "server"), feature = "http2"))]
-    pub(crate) fn is_exact(&self) -> bool {
-        self.0 <= MAX_LEN
-    }
 }
 
 impl fmt::Debug for DecodedLength {
diff --git a/src/proto/h2/client.rs b/src/proto/h2/client.rs
index eb768ba..e4df664 100644
--- a/src/proto/h2/client.rs
+++ b/src/proto/h2/client.rs
@@ -413,6 +413,7 @@ where
     B: Body,
 {
     is_connect: bool,
+    is_head: bool,
     eos: bool,
     fut: ResponseFuture,
     body_tx: SendStream<SendBuf<B::Data>>,
@@ -569,6 +570,7 @@ where
                     fut: f.fut,
                     ping: Some(ping),
                     send_stream: Some(send_stream),
+                    is_head: f.is_head,
                     exec: self.executor.clone(),
                     cancel_tx: Some(cancel_tx),
                 },
@@ -589,6 +591,7 @@ pin_project! {
         ping: Option<Recorder>,
         #[pin]
         send_stream: Option<Option<SendStream<SendBuf<<B as Body>::Data>>>>,
+        is_head: bool,
         exec: E,
         cancel_tx: Option<oneshot::Sender<()>>,
     }
@@ -650,6 +653,12 @@ where
                 } else {
                     let res = res.map(|stream| {
                         let ping = ping.for_stream(&stream);
+                        // a response to HEAD announces a length it does not send
+                        let content_length = if *this.is_head {
+                            Some(0)
+                        } else {
+                            content_length
+                        };
                         IncomingBody::h2(stream, content_length.into(), ping)
                     });
                     Poll::Ready(Ok(res))
@@ -714,6 +723,7 @@ where
                     }
 
                     let is_connect = req.method() == Method::CONNECT;
+                    let is_head = req.method() == Method::HEAD;
                     let eos = body.is_end_stream();
 
                     if is_connect
@@ -746,6 +756,7 @@ where
 
                     let f = FutCtx {
                         is_connect,
+                        is_head,
                         eos,
                         fut,
                         body_tx,
-- 
2.43.0


From e4c484432ce4072694f3e5157eaeb21b86b03604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:08 +0000
Subject: [PATCH 06/18] fix: do not end an HTTP/2 body short of its announced
 length on NO_ERROR

---
 src/body/incoming.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/body/incoming.rs b/src/body/incoming.rs
index fcf6eae..7ff81cd 100644
--- a/src/body/incoming.rs
+++ b/src/body/incoming.rs
@@ -245,10 +245,12 @@ impl Body for Incoming {
                             return Poll::Ready(Some(Ok(Frame::data(bytes))));
                         }
                         Some(Err(e)) => {
-                            if let Some(h2::Reason::NO_ERROR) = e.reason() {
+                            if e.reason() == Some(h2::Reason::NO_ERROR)
+                                && len.into_opt().unwrap_or(0) == 0
+                            {
                                 // As mentioned in RFC 7540 Section 8.1, a RST_STREAM with NO_ERROR
                                 // indicates an early response, and should cause the body reading
-                                // to stop, but not fail it:
+                                // to stop, but not fail it (unless octets it announced are missing):
                                 return Poll::Ready(None);
                             } else {
                                 return Poll::Ready(Some(Err(crate::Error::new_body(e))));
-- 
2.43.0


From 8c5c3a240de21e923749ee50358a340c39536bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:13 +0000
Subject: [PATCH 07/18] fix: keep a partly initialized tokio buffer readable
 through Compat

---
 src/common/io/compat.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/io/compat.rs b/src/common/io/compat.rs
index c390b13..a6dc3e6 100644
--- a/src/common/io/compat.rs
+++ b/src/common/io/compat.rs
@@ -49,7 +49,8 @@ where
             }
         };
 
-        let n_init = new_init - init;
+        // `assume_init` counts from the end of the filled part.
+        let n_init = new_init - filled;
         // SAFETY:
         // 1. `tbuf.assume_init(n_init)` is safe because `crate::rt::Read::poll_read`
         //    guarantees that the bytes written into the buffer were initialized.
-- 
2.43.0


From e3eeb4c25556bd243a7e6e2027fdc67f6ec2725e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:06 +0000
Subject: [PATCH 08/18] fix: check the close flag of an HTTP/2 tunnel before
 its queue

While out of window, the sending task looked at the queue first and at the
close flag second. A write followed by a shutdown falling between the two
was taken for "closed with nothing queued": the stream was ended and the
accepted octets were lost. Nothing is queued after the flag is set, so
looking at the flag first closes the gap.
---
 src/proto/h2/upgrade.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/proto/h2/upgrade.rs b/src/proto/h2/upgrade.rs
index 217aa27..e8c4e52 100644
--- a/src/proto/h2/upgrade.rs
+++ b/src/proto/h2/upgrade.rs
@@ -174,7 +174,7 @@ where
             if !h2_has_capacity {
                 // `size_hint` reads the queued message count without popping,
                 // so an accepted write stays queued until h2 capacity returns.
-                if me.rx.size_hint().0 == 0 && me.close_notify.poll_closed(cx).is_ready() {
+                if me.close_notify.poll_closed(cx).is_ready() && me.rx.size_hint().0 == 0 {
                     me.h2_tx
                         .send_data(SendBuf::None, true)
                         .map_err(crate::Error::new_body_write)?;
-- 
2.43.0


From 9dba264f9556de03751a3e3d3dbd9f859b383d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:28 +0000
Subject: [PATCH 09/18] fix: let a close option win over keep-alive in received
 Connection fields

A message with both options, on several lines or in either order, was
treated as persistent; RFC 9112 9.3 has close win.
---
 src/proto/h1/role.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/proto/h1/role.rs b/src/proto/h1/role.rs
index 9e01d5f..b3b2d99 100644
--- a/src/proto/h1/role.rs
+++ b/src/proto/h1/role.rs
@@ -240,6 +240,7 @@ impl Http1Transaction for Server {
         let mut is_cl = false;
         let mut is_te = false;
         let mut is_te_chunked = false;
+        let mut is_close = false;
         let mut wants_upgrade = subject.0 == Method::CONNECT;
 
         let mut header_case_map = if ctx.preserve_header_case {
@@ -309,10 +310,11 @@ impl Http1Transaction for Server {
                 }
                 header::CONNECTION => {
                     // keep_alive was previously set to default for Version
-                    if keep_alive {
-                        // HTTP/1.1
-                        keep_alive = !headers::connection_close(&value);
-                    } else {
+                    if headers::connection_close(&value) {
+                        // `close` wins over any `keep-alive`, before or after
+                        is_close = true;
+                        keep_alive = false;
+                    } else if !keep_alive && !is_close {
                         // HTTP/1.0
                         keep_alive = headers::connection_keep_alive(&value);
                     }
@@ -1101,6 +1103,7 @@ impl Http1Transaction for Client {
             let mut headers = ctx.cached_headers.take().unwrap_or_default();
 
             let mut keep_alive = version == Version::HTTP_11;
+            let mut is_close = false;
 
             let mut header_case_map = if ctx.preserve_header_case {
                 Some(HeaderCaseMap::default())
@@ -1124,10 +1127,11 @@ impl Http1Transaction for Client {
 
                 if let header::CONNECTION = name {
                     // keep_alive was previously set to default for Version
-                    if keep_alive {
-                        // HTTP/1.1
-                        keep_alive = !headers::connection_close(&value);
-                    } else {
+                    if headers::connection_close(&value) {
+                        // `close` wins over any `keep-alive`, before or after
+                        is_close = true;
+                        keep_alive = false;
+                    } else if !keep_alive && !is_close {
                         // HTTP/1.0
                         keep_alive = headers::connection_keep_alive(&value);
                     }
-- 
2.43.0


From d3c22d3230571c17309dc38cabef173e4de2577f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:09 +0000
Subject: [PATCH 10/18] fix: keep a service's Connection: close towards an
 HTTP/1.0 client

fix_keep_alive replaced it by keep-alive, and the connection persisted.
---
 src/proto/h1/conn.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/proto/h1/conn.rs b/src/proto/h1/conn.rs
index 9a0a1d9..801691d 100644
--- a/src/proto/h1/conn.rs
+++ b/src/proto/h1/conn.rs
@@ -675,9 +675,12 @@ where
                 // disable keep-alive so the server closes the connection
                 Version::HTTP_10 => self.state.disable_keep_alive(),
                 // If response is version 1.1 and keep-alive is wanted, add
-                // Connection: keep-alive header when not present
+                // Connection: keep-alive header when not present, unless the
+                // user asked to close
                 Version::HTTP_11 => {
-                    if self.state.wants_keep_alive() {
+                    if self.state.wants_keep_alive()
+                        && !headers::connection_any_close(&head.headers)
+                    {
                         head.headers
                             .insert(CONNECTION, HeaderValue::from_static("keep-alive"));
                     }
-- 
2.43.0


From f7b87e0678145ea9cc2ca794119c40154cc4e907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:03 +0000
Subject: [PATCH 11/18] fix: do not reopen a server connection for writing
 while body octets are queued

A server connection went back to its initial state as soon as the request
body had been read to its end, even if the response to it still waited in
the write queue of the vectored strategy. A 100 Continue or an error
response for the next request was then put ahead of those octets (or hit a
debug assertion).
---
 src/proto/h1/conn.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/proto/h1/conn.rs b/src/proto/h1/conn.rs
index 801691d..42c2634 100644
--- a/src/proto/h1/conn.rs
+++ b/src/proto/h1/conn.rs
@@ -562,6 +562,12 @@ where
     }
 
     fn try_keep_alive(&mut self, cx: &mut Context<'_>) {
+        // While body bytes of the last response are still queued, a head (or an
+        // interim `100 Continue`) for the next request would be written ahead
+        // of them. `poll_flush` tries again once they are out.
+        if T::is_server() && !self.io.can_headers_buf() {
+            return;
+        }
         self.state.try_keep_alive::<T>();
         self.maybe_notify(cx);
     }
-- 
2.43.0


From bb1a982801e3293d09a420e0df9e6a0b68ea6f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:56 +0000
Subject: [PATCH 12/18] fix: write out pipelined responses held back when the
 connection ends

With pipeline_flush, flushing is skipped as long as octets of further
requests are in the read buffer. When the connection was then closed (a
request asking to close, or one that cannot be parsed) or upgraded with
octets still in the read buffer, the buffered responses were dropped.
---
 src/proto/h1/conn.rs | 3 +++
 src/proto/h1/io.rs   | 7 +++++++
 2 files changed, 10 insertions(+)

diff --git a/src/proto/h1/conn.rs b/src/proto/h1/conn.rs
index 42c2634..b5ec282 100644
--- a/src/proto/h1/conn.rs
+++ b/src/proto/h1/conn.rs
@@ -845,6 +845,9 @@ where
     }
 
     pub(crate) fn poll_flush(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
+        if self.state.is_read_closed() || self.state.is_write_closed() {
+            self.io.end_pipeline();
+        }
         ready!(Pin::new(&mut self.io).poll_flush(cx))?;
         self.try_keep_alive(cx);
         trace!("flushed({}): {:?}", T::LOG, self.state);
diff --git a/src/proto/h1/io.rs b/src/proto/h1/io.rs
index 986e23e..2a85bad 100644
--- a/src/proto/h1/io.rs
+++ b/src/proto/h1/io.rs
@@ -328,7 +328,14 @@ where
         Pin::new(&mut self.io).poll_flush(cx)
     }
 
+    /// No further message will be read, so stop holding back what is buffered
+    /// until the read buffer is used up.
+    pub(crate) fn end_pipeline(&mut self) {
+        self.flush_pipeline = false;
+    }
+
     pub(crate) fn poll_shutdown(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
+        self.end_pipeline();
         ready!(self.poll_flush(cx))?;
         Pin::new(&mut self.io).poll_shutdown(cx)
     }
-- 
2.43.0


From 3c90e4b494b3ea725196ed56732dc29981c7e844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:06 +0000
Subject: [PATCH 13/18] fix: let a request marked HTTP/2 use chunked when sent
 as HTTP/1.1

It is written with HTTP/1.1 in its request line, but its
Transfer-Encoding was removed and a body of unknown length dropped.
---
 src/proto/h1/role.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/proto/h1/role.rs b/src/proto/h1/role.rs
index b3b2d99..c02ab03 100644
--- a/src/proto/h1/role.rs
+++ b/src/proto/h1/role.rs
@@ -1335,7 +1335,7 @@ impl Client {
         };
 
         // HTTP/1.0 doesn't know about chunked
-        let can_chunked = head.version == Version::HTTP_11;
+        let can_chunked = head.version != Version::HTTP_10;
         let headers = &mut head.headers;
 
         // If the user already set specific headers, we should respect them, regardless
-- 
2.43.0


From 5781b36828f004509b96d4ca496406fe43b9cce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:31 +0000
Subject: [PATCH 14/18] fix: do not announce a Content-Length for a request
 without a body

A caller's Content-Length was written although no octet follows and the
connection is used for the next request, which the peer takes for the
missing body.
---
 src/proto/h1/role.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/proto/h1/role.rs b/src/proto/h1/role.rs
index c02ab03..7a99490 100644
--- a/src/proto/h1/role.rs
+++ b/src/proto/h1/role.rs
@@ -1331,6 +1331,10 @@ impl Client {
             body
         } else {
             head.headers.remove(header::TRANSFER_ENCODING);
+            if headers::content_length_parse_all(&head.headers) != Some(0) {
+                // no octets will follow, so none may be announced
+                head.headers.remove(header::CONTENT_LENGTH);
+            }
             return Encoder::length(0);
         };
 
-- 
2.43.0


From c6c3e8abef9cd6547123edddae20067655a6d141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:55 +0000
Subject: [PATCH 15/18] fix: do not send an illegal Content-Length given by the
 caller

It was left beside Transfer-Encoding: chunked, or on a request whose body
is taken to be empty.
---
 src/proto/h1/role.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/proto/h1/role.rs b/src/proto/h1/role.rs
index 7a99490..d2b5f3c 100644
--- a/src/proto/h1/role.rs
+++ b/src/proto/h1/role.rs
@@ -1350,6 +1350,10 @@ impl Client {
         // header, so unfortunately, we must do the check here, first.
 
         let existing_con_len = headers::content_length_parse_all(headers);
+        if existing_con_len.is_none() {
+            // an illegal Content-Length is never sent
+            headers.remove(header::CONTENT_LENGTH);
+        }
         let mut should_remove_con_len = false;
 
         if !can_chunked {
-- 
2.43.0


From b919c88e50cfbf80631b242dd8241a0e8946af12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:58 +0000
Subject: [PATCH 16/18] fix: append chunked to the transfer-encoding line only

Once a Transfer-Encoding had to be completed, ", chunked" was also
appended to a later combined Connection or Trailer line.
---
 src/proto/h1/role.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/proto/h1/role.rs b/src/proto/h1/role.rs
index d2b5f3c..c3d3ae1 100644
--- a/src/proto/h1/role.rs
+++ b/src/proto/h1/role.rs
@@ -702,6 +702,7 @@ impl Server {
                 cur_name = Some(n);
                 handle_is_name_written!();
                 is_name_written = false;
+                must_write_chunked = false;
             }
             let name = cur_name.as_ref().expect("current header name");
             match *name {
-- 
2.43.0


From 7024f4f53a426f05374b1e9741fc515e684531c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:44 +0000
Subject: [PATCH 17/18] fix: leave Content-Length out of 1xx and 204 responses

RFC 9110 section 8.6 forbids it there; a service's own was written.
---
 src/proto/h1/role.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/proto/h1/role.rs b/src/proto/h1/role.rs
index c3d3ae1..e0464e8 100644
--- a/src/proto/h1/role.rs
+++ b/src/proto/h1/role.rs
@@ -707,6 +707,12 @@ impl Server {
             let name = cur_name.as_ref().expect("current header name");
             match *name {
                 header::CONTENT_LENGTH => {
+                    // never allowed in these, see RFC 9110 section 8.6
+                    if msg.head.subject.is_informational()
+                        || msg.head.subject == StatusCode::NO_CONTENT
+                    {
+                        continue 'headers;
+                    }
                     if wrote_len && !is_name_written {
                         warn!("unexpected content-length found, canceling");
                         rewind(dst);
-- 
2.43.0


From d1fbc4e9fdf089a023cc368280198dec50339b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:58 +0000
Subject: [PATCH 18/18] fix: end a timed out http2 server connection whose peer
 takes no more octets

On a keep-alive timeout the connection was told to go away, and then polled
until the GOAWAY was flushed. A dead peer with a full send window never takes
it, so the connection never ended.
---
 src/proto/h2/server.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/proto/h2/server.rs b/src/proto/h2/server.rs
index 9202627..422faee 100644
--- a/src/proto/h2/server.rs
+++ b/src/proto/h2/server.rs
@@ -260,7 +260,19 @@ where
             loop {
                 self.poll_ping(cx);
 
-                match ready!(self.conn.poll_accept(cx)) {
+                let accepted = match self.conn.poll_accept(cx) {
+                    Poll::Ready(accepted) => accepted,
+                    Poll::Pending => {
+                        // once timed out, don't wait for an unresponsive
+                        // peer to take the GOAWAY
+                        if let Some((ping, _)) = &self.ping {
+                            ping.ensure_not_timed_out()?;
+                        }
+                        return Poll::Pending;
+                    }
+                };
+
+                match accepted {
                     Some(Ok((req, mut respond))) => {
                         trace!("incoming request");
                         let content_length = headers::content_length_parse_all(req.headers());
-- 
2.43.0

