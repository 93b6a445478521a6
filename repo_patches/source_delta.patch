From 53a29ad8b1e184cfbe94241a7c2f23de4f3225a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:18 +0000
Subject: [PATCH 01/24] fix: let Connection: close win over keep-alive in any
 order and across lines

---
 src/proto/h1/role.rs | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/proto/h1/role.rs b/src/proto/h1/role.rs
index 29bcd44..0becbdd 100644
--- a/src/proto/h1/role.rs
+++ b/src/proto/h1/role.rs
@@ -240,6 +240,7 @@ impl Http1Transaction for Server {
         let mut is_cl = false;
         let mut is_te = false;
         let mut is_te_chunked = false;
+        let mut is_close = false;
         let mut wants_upgrade = subject.0 == Method::CONNECT;
 
         let mut header_case_map = if ctx.preserve_header_case {
@@ -308,13 +309,13 @@ impl Http1Transaction for Server {
                     con_len = Some(len);
                 }
                 header::CONNECTION => {
-                    // keep_alive was previously set to default for Version
-                    if keep_alive {
-                        // HTTP/1.1
-                        keep_alive = !headers::connection_close(&value);
-                    } else {
-                        // HTTP/1.0
-                        keep_alive = headers::connection_keep_alive(&value);
+                    // keep_alive was previously set to default for Version.
+                    // `close` wins over `keep-alive`, in any order, and also
+                    // when they are in different `Connection` lines.
+                    if headers::connection_close(&value) {
+                        is_close = true;
+                    } else if headers::connection_keep_alive(&value) {
+                        keep_alive = true;
                     }
                 }
                 header::EXPECT => {
@@ -348,7 +349,7 @@ impl Http1Transaction for Server {
             return Err(Parse::transfer_encoding_invalid());
         }
 
-        if is_te && is_cl {
+        if is_close || (is_te && is_cl) {
             keep_alive = false;
         }
 
@@ -1101,6 +1102,7 @@ impl Http1Transaction for Client {
             let mut headers = ctx.cached_headers.take().unwrap_or_default();
 
             let mut keep_alive = version == Version::HTTP_11;
+            let mut is_close = false;
 
             let mut header_case_map = if ctx.preserve_header_case {
                 Some(HeaderCaseMap::default())
@@ -1123,13 +1125,13 @@ impl Http1Transaction for Client {
                 let value = header_value!(slice.slice(header.value.0..header.value.1));
 
                 if let header::CONNECTION = name {
-                    // keep_alive was previously set to default for Version
-                    if keep_alive {
-                        // HTTP/1.1
-                        keep_alive = !headers::connection_close(&value);
-                    } else {
-                        // HTTP/1.0
-                        keep_alive = headers::connection_keep_alive(&value);
+                    // keep_alive was previously set to default for Version.
+                    // `close` wins over `keep-alive`, in any order, and also
+                    // when they are in different `Connection` lines.
+                    if headers::connection_close(&value) {
+                        is_close = true;
+                    } else if headers::connection_keep_alive(&value) {
+                        keep_alive = true;
                     }
                 }
 
@@ -1176,7 +1178,7 @@ impl Http1Transaction for Client {
                     expect_continue: false,
                     // a client upgrade means the connection can't be used
                     // again, as it is definitely upgrading.
-                    keep_alive: keep_alive && !is_upgrade,
+                    keep_alive: keep_alive && !is_close && !is_upgrade,
                     wants_upgrade: is_upgrade,
                 }));
             }
-- 
2.43.0


From 5657c94baed6cf1bf9975278cf3a1f5225c6ee8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:05 +0000
Subject: [PATCH 02/24] fix: reject chunked trailers that end before their
 terminating CRLF CRLF

---
 src/proto/h1/decode.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/proto/h1/decode.rs b/src/proto/h1/decode.rs
index bdfdf79..497e43a 100644
--- a/src/proto/h1/decode.rs
+++ b/src/proto/h1/decode.rs
@@ -641,7 +641,16 @@ fn decode_trailers(buf: &mut BytesMut, count: usize) -> Result<HeaderMap, io::Er
     let mut headers = vec![httparse::EMPTY_HEADER; count];
     let res = httparse::parse_headers(buf, &mut headers);
     match res {
-        Ok(httparse::Status::Complete((_, headers))) => {
+        Ok(httparse::Status::Complete((len, headers))) => {
+            // A bare LF can end the section before the CRLF CRLF it was
+            // delimited by. Don't silently drop what comes after it.
+            if len != buf.len() {
+                return Err(io::Error::new(
+                    io::ErrorKind::InvalidInput,
+                    "Invalid trailer section end",
+                ));
+            }
+
             for header in headers {
                 use std::convert::TryFrom;
                 let name = match HeaderName::try_from(header.name) {
-- 
2.43.0


From 981d45acd8404949bf53ce220b6216af72d51be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:56 +0000
Subject: [PATCH 03/24] fix: treat a 204 response to CONNECT as a tunnel, like
 every other 2xx

---
 src/proto/h1/role.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/proto/h1/role.rs b/src/proto/h1/role.rs
index 0becbdd..a88b05a 100644
--- a/src/proto/h1/role.rs
+++ b/src/proto/h1/role.rs
@@ -1282,6 +1282,10 @@ impl Client {
                 trace!("ignoring informational response: {}", inc.subject.as_u16());
                 return Ok(None);
             }
+            // *any* 2xx, also a 204, to a CONNECT switches to a tunnel
+            204 if *method == Some(Method::CONNECT) => {
+                return Ok(Some((DecodedLength::ZERO, true)));
+            }
             204 | 304 => return Ok(Some((DecodedLength::ZERO, false))),
             _ => (),
         }
-- 
2.43.0


From db5ea593008570f3170037e14a9a335e42753921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:47 +0000
Subject: [PATCH 04/24] fix: don't treat a connection as upgraded when the
 service answered without upgrading

---
 src/proto/h1/conn.rs | 6 ++++++
 src/proto/h1/mod.rs  | 5 +++++
 src/proto/h1/role.rs | 5 +++++
 3 files changed, 16 insertions(+)

diff --git a/src/proto/h1/conn.rs b/src/proto/h1/conn.rs
index 19c1283..7692118 100644
--- a/src/proto/h1/conn.rs
+++ b/src/proto/h1/conn.rs
@@ -625,6 +625,12 @@ where
             }
         }
 
+        if T::should_read_first() && !T::is_upgrade(&head, &self.state.method) {
+            // The service answered without upgrading, so there will never be
+            // an upgrade for this request.
+            self.state.upgrade = None;
+        }
+
         self.enforce_version(&mut head);
 
         let buf = self.io.headers_buf();
diff --git a/src/proto/h1/mod.rs b/src/proto/h1/mod.rs
index 0a442c4..9ccf287 100644
--- a/src/proto/h1/mod.rs
+++ b/src/proto/h1/mod.rs
@@ -37,6 +37,11 @@ pub(crate) trait Http1Transaction {
 
     fn on_error(err: &crate::Error) -> Option<MessageHead<Self::Outgoing>>;
 
+    /// Whether sending this head completes an upgrade the peer asked for.
+    fn is_upgrade(_head: &MessageHead<Self::Outgoing>, _req_method: &Option<Method>) -> bool {
+        false
+    }
+
     fn is_client() -> bool {
         !Self::is_server()
     }
diff --git a/src/proto/h1/role.rs b/src/proto/h1/role.rs
index a88b05a..72a695d 100644
--- a/src/proto/h1/role.rs
+++ b/src/proto/h1/role.rs
@@ -380,6 +380,11 @@ impl Http1Transaction for Server {
         }))
     }
 
+    fn is_upgrade(head: &MessageHead<Self::Outgoing>, req_method: &Option<Method>) -> bool {
+        head.subject == StatusCode::SWITCHING_PROTOCOLS
+            || (*req_method == Some(Method::CONNECT) && head.subject.is_success())
+    }
+
     fn encode(mut msg: Encode<'_, Self::Outgoing>, dst: &mut Vec<u8>) -> crate::Result<Encoder> {
         trace!(
             "Server::encode status={:?}, body={:?}, req_method={:?}",
-- 
2.43.0


From c12018c9bbb4a05b26d9efbc0fe05da062f482e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:02 +0000
Subject: [PATCH 05/24] fix: don't hold back complete responses when
 pipeline_flush is enabled

With pipeline_flush, nothing was flushed while any bytes were left in the read
buffer: a streaming response, or one followed by a partial request, was never
sent, and a response was lost when the connection was closed with unread bytes.
Only delay the flush between messages, while the next one can be read right away.
---
 src/proto/h1/conn.rs | 15 ++++++++++++++-
 src/proto/h1/io.rs   | 18 ++++++++++++++----
 2 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/proto/h1/conn.rs b/src/proto/h1/conn.rs
index 7692118..0e0ccd4 100644
--- a/src/proto/h1/conn.rs
+++ b/src/proto/h1/conn.rs
@@ -842,7 +842,12 @@ where
     }
 
     pub(crate) fn poll_flush(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
-        ready!(Pin::new(&mut self.io).poll_flush(cx))?;
+        // Aggregating flushes: this message is done, and the next one is going to
+        // be read from the buffer immediately.
+        let delay_flush = self.io.can_delay_flush() && self.state.can_keep_alive();
+        if !delay_flush {
+            ready!(Pin::new(&mut self.io).poll_flush(cx))?;
+        }
         self.try_keep_alive(cx);
         trace!("flushed({}): {:?}", T::LOG, self.state);
         Poll::Ready(Ok(()))
@@ -1085,6 +1090,14 @@ impl State {
         !matches!(self.keep_alive.status(), KA::Disabled)
     }
 
+    /// Whether `try_keep_alive` would make the connection ready for another message.
+    fn can_keep_alive(&self) -> bool {
+        matches!(
+            (&self.reading, &self.writing, self.keep_alive.status()),
+            (&Reading::KeepAlive, &Writing::KeepAlive, KA::Busy)
+        )
+    }
+
     fn try_keep_alive<T: Http1Transaction>(&mut self) {
         match (&self.reading, &self.writing) {
             (&Reading::KeepAlive, &Writing::KeepAlive) => {
diff --git a/src/proto/h1/io.rs b/src/proto/h1/io.rs
index 6b3f10f..0f78244 100644
--- a/src/proto/h1/io.rs
+++ b/src/proto/h1/io.rs
@@ -155,7 +155,19 @@ where
     }
 
     pub(crate) fn can_buffer(&self) -> bool {
-        self.flush_pipeline || self.write_buf.can_buffer()
+        self.write_buf.can_buffer()
+    }
+
+    /// Whether a flush may wait for the responses to the requests that are
+    /// already buffered.
+    ///
+    /// There must be unparsed bytes that can be looked at right away: once the
+    /// transport has no more to give, waiting any longer could last forever.
+    pub(crate) fn can_delay_flush(&self) -> bool {
+        self.flush_pipeline
+            && !self.read_buf.is_empty()
+            && !self.read_blocked
+            && self.write_buf.can_buffer()
     }
 
     pub(crate) fn consume_leading_lines(&mut self) {
@@ -269,9 +281,7 @@ where
     }
 
     pub(crate) fn poll_flush(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
-        if self.flush_pipeline && !self.read_buf.is_empty() {
-            Poll::Ready(Ok(()))
-        } else if self.write_buf.remaining() == 0 {
+        if self.write_buf.remaining() == 0 {
             Pin::new(&mut self.io).poll_flush(cx)
         } else {
             if let WriteStrategy::Flatten = self.write_buf.strategy {
-- 
2.43.0


From 23d535a3ae49b5bc30f81b6b35aca42c0502ffc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:02 +0000
Subject: [PATCH 06/24] fix: end a request body as soon as it is complete, even
 if the response was sent first

When the last bytes of a request body arrived after the response had been
written, the connection went back to reading a head while still holding the
body's sender, so the reader never saw the end of the body, or its trailers,
and got an IncompleteMessage error when the connection closed.
---
 src/proto/h1/dispatch.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/proto/h1/dispatch.rs b/src/proto/h1/dispatch.rs
index f250f55..5bdbdf1 100644
--- a/src/proto/h1/dispatch.rs
+++ b/src/proto/h1/dispatch.rs
@@ -250,7 +250,11 @@ where
                                 let chunk = frame.into_data().unwrap_or_else(|_| unreachable!());
                                 match body.try_send_data(chunk) {
                                     Ok(()) => {
-                                        self.body_tx.set(body);
+                                        // If that was all of it, drop the sender now: the
+                                        // connection may already be ready for another head.
+                                        if self.conn.can_read_body() {
+                                            self.body_tx.set(body);
+                                        }
                                     }
                                     Err(_canceled) => {
                                         if self.conn.can_read_body() {
@@ -264,7 +268,11 @@ where
                                     frame.into_trailers().unwrap_or_else(|_| unreachable!());
                                 match body.try_send_trailers(trailers) {
                                     Ok(()) => {
-                                        self.body_tx.set(body);
+                                        // If that was all of it, drop the sender now: the
+                                        // connection may already be ready for another head.
+                                        if self.conn.can_read_body() {
+                                            self.body_tx.set(body);
+                                        }
                                     }
                                     Err(_canceled) => {
                                         if self.conn.can_read_body() {
-- 
2.43.0


From 639f1787abb0411766eb240c703cbfc8e73ae2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:35 +0000
Subject: [PATCH 07/24] fix: don't start another message while parts of the
 last one are still queued

When a message finished on the read side while the other direction was written
but not flushed, the connection went idle at once. A pipelined request was then
read and handed to the service, but its response could not be written, and
nothing polled for it after the flush: the connection hung. An error response
to malformed data was put in front of the queued bytes of the previous body.
---
 src/proto/h1/conn.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/proto/h1/conn.rs b/src/proto/h1/conn.rs
index 0e0ccd4..4995085 100644
--- a/src/proto/h1/conn.rs
+++ b/src/proto/h1/conn.rs
@@ -562,7 +562,11 @@ where
     }
 
     fn try_keep_alive(&mut self, cx: &mut Context<'_>) {
-        self.state.try_keep_alive::<T>();
+        // While parts of this message are still queued, another head cannot be
+        // written. In that case, this is tried again once they are flushed.
+        if self.io.can_headers_buf() {
+            self.state.try_keep_alive::<T>();
+        }
         self.maybe_notify(cx);
     }
 
-- 
2.43.0


From 24836bac8359b0bcdbe6a2d1932bd21ec1c5dfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:17 +0000
Subject: [PATCH 08/24] fix: keep the other Connection options when adding
 close or keep-alive

The header was overwritten, so options the user set (upgrade, close, or
any name of a connection-specific field) were lost: a switching response
sent while shutting down lost its 'upgrade', a response with 'close' to
an HTTP/1.0 keep-alive request was sent as 'keep-alive'.
---
 src/proto/h1/conn.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/proto/h1/conn.rs b/src/proto/h1/conn.rs
index 4995085..54ac62f 100644
--- a/src/proto/h1/conn.rs
+++ b/src/proto/h1/conn.rs
@@ -674,25 +674,31 @@ where
 
     // Fix keep-alive when Connection: keep-alive header is not present
     fn fix_keep_alive(&mut self, head: &mut MessageHead<T::Outgoing>) {
+        if headers::connection_any_close(&head.headers) {
+            // The message already says that it is the last one.
+            self.state.disable_keep_alive();
+            return;
+        }
+
         let outgoing_is_keep_alive = head
             .headers
-            .get(CONNECTION)
-            .map_or(false, headers::connection_keep_alive);
+            .get_all(CONNECTION)
+            .iter()
+            .any(headers::connection_keep_alive);
 
         if !outgoing_is_keep_alive {
             match head.version {
                 // If response is version 1.0 and keep-alive is not present in the response,
                 // disable keep-alive so the server closes the connection
                 Version::HTTP_10 => self.state.disable_keep_alive(),
-                // If response is version 1.1 and keep-alive is wanted, add
+                // If response is another version and keep-alive is wanted, add
                 // Connection: keep-alive header when not present
-                Version::HTTP_11 => {
+                _ => {
                     if self.state.wants_keep_alive() {
                         head.headers
-                            .insert(CONNECTION, HeaderValue::from_static("keep-alive"));
+                            .append(CONNECTION, HeaderValue::from_static("keep-alive"));
                     }
                 }
-                _ => (),
             }
         }
     }
@@ -710,8 +716,10 @@ where
             }
             Version::HTTP_11 => {
                 if let KA::Disabled = self.state.keep_alive.status() {
-                    head.headers
-                        .insert(CONNECTION, HeaderValue::from_static("close"));
+                    if !headers::connection_any_close(&head.headers) {
+                        head.headers
+                            .append(CONNECTION, HeaderValue::from_static("close"));
+                    }
                 }
             }
             _ => (),
-- 
2.43.0


From f5c34c622e2a54f5a69db0e98356bd21769886c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:19 +0000
Subject: [PATCH 09/24] fix: add 'chunked' only to the transfer-encoding header

After completing a transfer-encoding the service set without 'chunked',
the flag stayed set, and ', chunked' was also added to the connection
and trailer headers of the response.
---
 src/proto/h1/role.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/proto/h1/role.rs b/src/proto/h1/role.rs
index 72a695d..e1d2400 100644
--- a/src/proto/h1/role.rs
+++ b/src/proto/h1/role.rs
@@ -692,7 +692,7 @@ impl Server {
                         "previous header wrote newline but set is_name_written"
                     );
 
-                    if must_write_chunked {
+                    if std::mem::take(&mut must_write_chunked) {
                         extend(dst, b", chunked\r\n");
                     } else {
                         extend(dst, b"\r\n");
-- 
2.43.0


From ae687b81e42762c673e6452142ae396e70c34061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:01 +0000
Subject: [PATCH 10/24] fix: report a body that ends short of its
 content-length in every case

A body whose last frame was known to be the last one could fall short of
the declared content-length without any error: the connection was closed
in the middle of the message, but reported success.
---
 src/proto/h1/conn.rs     | 22 +++++++++++-----------
 src/proto/h1/dispatch.rs |  2 +-
 src/proto/h1/encode.rs   | 16 ++++++++++------
 3 files changed, 22 insertions(+), 18 deletions(-)

diff --git a/src/proto/h1/conn.rs b/src/proto/h1/conn.rs
index 54ac62f..05c9ef7 100644
--- a/src/proto/h1/conn.rs
+++ b/src/proto/h1/conn.rs
@@ -779,24 +779,24 @@ where
         }
     }
 
-    pub(crate) fn write_body_and_end(&mut self, chunk: B) {
+    pub(crate) fn write_body_and_end(&mut self, chunk: B) -> crate::Result<()> {
         debug_assert!(self.can_write_body() && self.can_buffer_body());
         // empty chunks should be discarded at Dispatcher level
         debug_assert!(chunk.remaining() != 0);
 
-        let state = match &mut self.state.writing {
-            Writing::Body(encoder) => {
-                let can_keep_alive = encoder.encode_and_end(chunk, self.io.write_buf());
-                if can_keep_alive {
-                    Writing::KeepAlive
-                } else {
-                    Writing::Closed
-                }
-            }
+        let ended = match &mut self.state.writing {
+            Writing::Body(encoder) => encoder.encode_and_end(chunk, self.io.write_buf()),
             _ => unreachable!("write_body invalid state: {:?}", self.state.writing),
         };
 
-        self.state.writing = state;
+        self.state.writing = match ended {
+            Ok(true) => Writing::KeepAlive,
+            Ok(false) | Err(_) => Writing::Closed,
+        };
+
+        ended
+            .map(drop)
+            .map_err(|not_eof| crate::Error::new_body_write_aborted().with(not_eof))
     }
 
     pub(crate) fn end_body(&mut self) -> crate::Result<()> {
diff --git a/src/proto/h1/dispatch.rs b/src/proto/h1/dispatch.rs
index 5bdbdf1..2f60f70 100644
--- a/src/proto/h1/dispatch.rs
+++ b/src/proto/h1/dispatch.rs
@@ -422,7 +422,7 @@ where
                                     trace!("discarding empty chunk");
                                     self.conn.end_body()?;
                                 } else {
-                                    self.conn.write_body_and_end(chunk);
+                                    self.conn.write_body_and_end(chunk)?;
                                 }
                             } else {
                                 if chunk.remaining() == 0 {
diff --git a/src/proto/h1/encode.rs b/src/proto/h1/encode.rs
index a1eebaf..3f24211 100644
--- a/src/proto/h1/encode.rs
+++ b/src/proto/h1/encode.rs
@@ -216,7 +216,11 @@ impl Encoder {
         }
     }
 
-    pub(super) fn encode_and_end<B>(&self, msg: B, dst: &mut WriteBuf<EncodedBuf<B>>) -> bool
+    pub(super) fn encode_and_end<B>(
+        &self,
+        msg: B,
+        dst: &mut WriteBuf<EncodedBuf<B>>,
+    ) -> Result<bool, NotEof>
     where
         B: Buf,
     {
@@ -230,7 +234,7 @@ impl Encoder {
                     .chain(msg)
                     .chain(b"\r\n0\r\n\r\n" as &'static [u8]);
                 dst.buffer(buf);
-                !self.is_last
+                Ok(!self.is_last)
             }
             Kind::Length(remaining) => {
                 use std::cmp::Ordering;
@@ -239,15 +243,15 @@ impl Encoder {
                 match (len as u64).cmp(&remaining) {
                     Ordering::Equal => {
                         dst.buffer(msg);
-                        !self.is_last
+                        Ok(!self.is_last)
                     }
                     Ordering::Greater => {
                         dst.buffer(msg.take(remaining as usize));
-                        !self.is_last
+                        Ok(!self.is_last)
                     }
                     Ordering::Less => {
                         dst.buffer(msg);
-                        false
+                        Err(NotEof(remaining - len as u64))
                     }
                 }
             }
@@ -255,7 +259,7 @@ impl Encoder {
             Kind::CloseDelimited => {
                 trace!("close delimited write {}B", len);
                 dst.buffer(msg);
-                false
+                Ok(false)
             }
         }
     }
-- 
2.43.0


From 3923f87b2ed0de534c5ade8fc34c5efc34e28aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:35 +0000
Subject: [PATCH 11/24] fix: don't send an illegal or unfulfilled
 Content-Length in client requests

An illegal user-supplied Content-Length was sent as it was next to the body
(or next to an inserted Transfer-Encoding), and a legal one on a request with
an empty body promised bytes that never came while the connection was reused.
---
 src/proto/h1/role.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/proto/h1/role.rs b/src/proto/h1/role.rs
index e1d2400..06b37a4 100644
--- a/src/proto/h1/role.rs
+++ b/src/proto/h1/role.rs
@@ -1334,11 +1334,21 @@ impl Client {
         }
     }
     fn set_length(head: &mut RequestHead, body: Option<BodyLength>) -> Encoder {
+        // An illegal Content-Length must never be sent, whatever else frames
+        // the message.
+        if headers::content_length_parse_all(&head.headers).is_none()
+            && head.headers.remove(header::CONTENT_LENGTH).is_some()
+        {
+            error!("user provided content-length header was invalid");
+        }
+
         let body = if let Some(body) = body {
             body
         } else {
             head.headers.remove(header::TRANSFER_ENCODING);
-            return Encoder::length(0);
+            // The user may have promised bytes that this body doesn't have.
+            let len = headers::content_length_parse_all(&head.headers).unwrap_or(0);
+            return Encoder::length(len);
         };
 
         // HTTP/1.0 doesn't know about chunked
-- 
2.43.0


From f1c4e3227d2076a8a6c5fa45680c011615ec7f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:15 +0000
Subject: [PATCH 12/24] fix: chunk a request body of unknown size when the
 request version is HTTP/2

Such a request is written as HTTP/1.1, but its body was framed as if for
HTTP/1.0, and silently dropped.
---
 src/proto/h1/role.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/proto/h1/role.rs b/src/proto/h1/role.rs
index 06b37a4..12b38b9 100644
--- a/src/proto/h1/role.rs
+++ b/src/proto/h1/role.rs
@@ -1351,8 +1351,9 @@ impl Client {
             return Encoder::length(len);
         };
 
-        // HTTP/1.0 doesn't know about chunked
-        let can_chunked = head.version == Version::HTTP_11;
+        // HTTP/1.0 doesn't know about chunked. Any other version is written as
+        // HTTP/1.1.
+        let can_chunked = head.version != Version::HTTP_10;
         let headers = &mut head.headers;
 
         // If the user already set specific headers, we should respect them, regardless
-- 
2.43.0


From 7b6cd57ebdbde1aae0ec334fd16fb1280bcb9ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:23 +0000
Subject: [PATCH 13/24] fix: close the connection after an HTTP/1.0 response to
 an HTTP/1.1 request

Unless the response asks for keep-alive, the peer does not expect another
message on the connection, but it was kept open and more requests served.
---
 src/proto/h1/conn.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/proto/h1/conn.rs b/src/proto/h1/conn.rs
index 05c9ef7..3a4583c 100644
--- a/src/proto/h1/conn.rs
+++ b/src/proto/h1/conn.rs
@@ -715,6 +715,11 @@ where
                 head.version = Version::HTTP_10;
             }
             Version::HTTP_11 => {
+                if T::is_server() && head.version == Version::HTTP_10 {
+                    // The service chose to answer as HTTP/1.0, so the peer
+                    // will only keep the connection if it is told to.
+                    self.fix_keep_alive(head);
+                }
                 if let KA::Disabled = self.state.keep_alive.status() {
                     if !headers::connection_any_close(&head.headers) {
                         head.headers
-- 
2.43.0


From 8efb0849b7f93de83daf9aa0c3014c8cdf852b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:30 +0000
Subject: [PATCH 14/24] fix: see the Connection options next to one that is not
 visible ASCII

'Connection: \xe9, close' was ignored as a whole, and the connection reused.
---
 src/headers.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/headers.rs b/src/headers.rs
index caace71..644ba7a 100644
--- a/src/headers.rs
+++ b/src/headers.rs
@@ -32,14 +32,12 @@ pub(super) fn connection_any_close(headers: &http::HeaderMap) -> bool {
 
 #[cfg(feature = "http1")]
 fn connection_has(value: &HeaderValue, needle: &str) -> bool {
-    if let Ok(s) = value.to_str() {
-        for val in s.split(',') {
-            if val.trim().eq_ignore_ascii_case(needle) {
-                return true;
-            }
-        }
-    }
-    false
+    // Each option counts by itself, even if another one is not valid UTF-8.
+    value.as_bytes().split(|b| *b == b',').any(|val| {
+        std::str::from_utf8(val)
+            .map(|val| val.trim().eq_ignore_ascii_case(needle))
+            .unwrap_or(false)
+    })
 }
 
 #[cfg(feature = "http1")]
-- 
2.43.0


From bf5f2a8eea0f8648c631e77d3286cb76d0946df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:36 +0000
Subject: [PATCH 15/24] fix: never read more than the maximum buffer size

---
 src/proto/h1/io.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/proto/h1/io.rs b/src/proto/h1/io.rs
index 0f78244..116a589 100644
--- a/src/proto/h1/io.rs
+++ b/src/proto/h1/io.rs
@@ -237,19 +237,22 @@ where
         self.read_blocked = false;
         // Get the next amount to allocate, but make sure we don't go over
         // the max read buf size configured.
-        let next = cmp::min(
-            self.read_buf_strategy.next(),
-            self.read_buf_strategy
-                .max()
-                .saturating_sub(self.read_buf.len()),
-        );
+        let room = self
+            .read_buf_strategy
+            .max()
+            .saturating_sub(self.read_buf.len());
+        let next = cmp::min(self.read_buf_strategy.next(), room);
         if self.read_buf_remaining_mut() < next {
             self.read_buf.reserve(next);
         }
 
         // SAFETY: ReadBuf and poll_read promise not to set any uninitialized
         // bytes onto `dst`.
-        let dst = unsafe { self.read_buf.chunk_mut().as_uninit_slice_mut() };
+        let mut dst = unsafe { self.read_buf.chunk_mut().as_uninit_slice_mut() };
+        // The buffer may have been allocated larger than was asked for.
+        if room > 0 && dst.len() > room {
+            dst = &mut dst[..room];
+        }
         let mut buf = ReadBuf::uninit(dst);
         match Pin::new(&mut self.io).poll_read(cx, buf.unfilled()) {
             Poll::Ready(Ok(_)) => {
-- 
2.43.0


From 9e93ef58b4d878e30c65472314dca7e6b07042d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:21 +0000
Subject: [PATCH 16/24] fix: reset only the stream of a CONNECT request with a
 content-length

---
 src/proto/h2/server.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/proto/h2/server.rs b/src/proto/h2/server.rs
index 9202627..8415980 100644
--- a/src/proto/h2/server.rs
+++ b/src/proto/h2/server.rs
@@ -287,7 +287,8 @@ where
                             if content_length.map_or(false, |len| len != 0) {
                                 warn!("h2 connect request with non-zero body not supported");
                                 respond.send_reset(h2::Reason::INTERNAL_ERROR);
-                                return Poll::Ready(Ok(()));
+                                // only this stream is affected
+                                continue;
                             }
                             let (pending, upgrade) = crate::upgrade::pending();
                             debug_assert!(parts.extensions.get::<OnUpgrade>().is_none());
-- 
2.43.0


From 25e384b4087c26e1fe187bb834ed1cfa6b178274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:24 +0000
Subject: [PATCH 17/24] fix: strip all connection-specific fields from HTTP/2
 messages

Only the first Connection line (and only if it was visible ASCII) was
looked at for names of further fields, only the first TE line was
checked, and trailers were not looked at.
---
 src/proto/h2/mod.rs | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/proto/h2/mod.rs b/src/proto/h2/mod.rs
index f0db9b6..0c118cc 100644
--- a/src/proto/h2/mod.rs
+++ b/src/proto/h2/mod.rs
@@ -7,7 +7,7 @@ use std::task::{Context, Poll};
 use bytes::Buf;
 use futures_core::ready;
 use h2::SendStream;
-use http::header::{HeaderName, CONNECTION, TRANSFER_ENCODING, UPGRADE};
+use http::header::{HeaderName, HeaderValue, CONNECTION, TRANSFER_ENCODING, UPGRADE};
 use http::HeaderMap;
 use pin_project_lite::pin_project;
 
@@ -45,6 +45,7 @@ enum MessageKind {
     Request,
     #[cfg(feature = "server")]
     Response,
+    Trailers,
 }
 
 fn strip_connection_headers(headers: &mut HeaderMap, kind: MessageKind) {
@@ -59,8 +60,9 @@ fn strip_connection_headers(headers: &mut HeaderMap, kind: MessageKind) {
     #[cfg(feature = "client")]
     if matches!(kind, MessageKind::Request) {
         if headers
-            .get(http::header::TE)
-            .map_or(false, |te_header| te_header != "trailers")
+            .get_all(http::header::TE)
+            .iter()
+            .any(|te_header| te_header != "trailers")
         {
             warn!("TE headers not set to \"trailers\" are illegal in HTTP/2 requests");
             headers.remove(http::header::TE);
@@ -69,21 +71,26 @@ fn strip_connection_headers(headers: &mut HeaderMap, kind: MessageKind) {
         warn!("TE headers illegal in HTTP/2 responses");
     }
 
-    if let Some(header) = headers.remove(CONNECTION) {
+    let connection: Vec<HeaderValue> = headers.get_all(CONNECTION).iter().cloned().collect();
+    if !connection.is_empty() {
         warn!(
             "Connection header illegal in HTTP/2: {}",
             CONNECTION.as_str()
         );
+        headers.remove(CONNECTION);
+
         // A `Connection` header may have a comma-separated list of names of other headers that
-        // are meant for only this specific connection.
+        // are meant for only this specific connection. There can be any number of such lines.
         //
         // Iterate these names and remove them as headers. Connection-specific headers are
         // forbidden in HTTP2, as that information has been moved into frame types of the h2
         // protocol.
-        if let Ok(header_contents) = header.to_str() {
-            for name in header_contents.split(',') {
-                let name = name.trim();
-                headers.remove(name);
+        for name in connection
+            .iter()
+            .flat_map(|header| header.as_bytes().split(|&b| b == b','))
+        {
+            if let Ok(name) = std::str::from_utf8(name) {
+                headers.remove(name.trim());
             }
         }
     }
@@ -238,8 +245,11 @@ where
                     } else if frame.is_trailers() {
                         // no more DATA, so give any capacity back
                         me.body_tx.reserve_capacity(0);
+                        let mut trailers =
+                            frame.into_trailers().unwrap_or_else(|_| unreachable!());
+                        strip_connection_headers(&mut trailers, MessageKind::Trailers);
                         me.body_tx
-                            .send_trailers(frame.into_trailers().unwrap_or_else(|_| unreachable!()))
+                            .send_trailers(trailers)
                             .map_err(crate::Error::new_body_write)?;
                         return Poll::Ready(Ok(()));
                     } else {
-- 
2.43.0


From 2ae16f1b0d79f1ca6174439acbfb95d45089565d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:31 +0000
Subject: [PATCH 18/24] fix: send no body in HTTP/2 responses to HEAD, nor with
 204 and 304

As over HTTP/1, a body given by the service is not sent where the
message cannot have one.
---
 src/proto/h2/server.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/proto/h2/server.rs b/src/proto/h2/server.rs
index 8415980..cd7352d 100644
--- a/src/proto/h2/server.rs
+++ b/src/proto/h2/server.rs
@@ -8,7 +8,7 @@ use bytes::Bytes;
 use futures_core::ready;
 use h2::server::{Connection, Handshake, SendResponse};
 use h2::{Reason, RecvStream};
-use http::{Method, Request};
+use http::{Method, Request, StatusCode};
 use pin_project_lite::pin_project;
 
 use super::{ping, PipeToSendStream, SendBuf};
@@ -274,6 +274,7 @@ where
                         ping.record_non_data();
 
                         let is_connect = req.method() == Method::CONNECT;
+                        let is_head = req.method() == Method::HEAD;
                         let (mut parts, stream) = req.into_parts();
                         let (mut req, connect_parts) = if !is_connect {
                             (
@@ -310,6 +311,7 @@ where
                         let fut = H2Stream::new(
                             service.call(req),
                             connect_parts,
+                            is_head,
                             respond,
                             self.date_header,
                             exec.clone(),
@@ -369,6 +371,7 @@ pin_project! {
         reply: SendResponse<SendBuf<B::Data>>,
         #[pin]
         state: H2StreamState<F, B>,
+        is_head: bool,
         date_header: bool,
         exec: E,
     }
@@ -405,6 +408,7 @@ where
     fn new(
         fut: F,
         connect_parts: Option<ConnectParts>,
+        is_head: bool,
         respond: SendResponse<SendBuf<B::Data>>,
         date_header: bool,
         exec: E,
@@ -412,6 +416,7 @@ where
         H2Stream {
             reply: respond,
             state: H2StreamState::Service { fut, connect_parts },
+            is_head,
             date_header,
             exec,
         }
@@ -513,10 +518,23 @@ where
                         }
                     }
 
+                    // these never have a body, even if the service gave one
+                    let no_content = matches!(
+                        res.status(),
+                        StatusCode::NO_CONTENT | StatusCode::NOT_MODIFIED
+                    );
+
                     if !body.is_end_stream() {
                         // automatically set Content-Length from body...
                         if let Some(len) = body.size_hint().exact() {
-                            headers::set_content_length_if_missing(res.headers_mut(), len);
+                            if !no_content {
+                                headers::set_content_length_if_missing(res.headers_mut(), len);
+                            }
+                        }
+
+                        if no_content || *me.is_head {
+                            reply!(me, res, true);
+                            return Poll::Ready(Ok(()));
                         }
 
                         let body_tx = reply!(me, res, false);
-- 
2.43.0


From 3d1d71a34678a8d3ceb5a6707123019cb79144a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:19 +0000
Subject: [PATCH 19/24] fix: end an HTTP/2 server connection whose peer timed
 out even if it stopped reading

After a keep-alive timeout the connection waited for its GOAWAY to be
flushed, so with a peer that had stopped reading it never ended.
---
 src/proto/h2/server.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/proto/h2/server.rs b/src/proto/h2/server.rs
index cd7352d..fffc130 100644
--- a/src/proto/h2/server.rs
+++ b/src/proto/h2/server.rs
@@ -260,7 +260,19 @@ where
             loop {
                 self.poll_ping(cx);
 
-                match ready!(self.conn.poll_accept(cx)) {
+                let accepted = match self.conn.poll_accept(cx) {
+                    Poll::Ready(accepted) => accepted,
+                    Poll::Pending => {
+                        // a peer that stopped answering pings may have stopped reading
+                        // as well, so don't wait for the GOAWAY to be flushed
+                        if let Some((ping, _)) = &self.ping {
+                            ping.ensure_not_timed_out()?;
+                        }
+                        return Poll::Pending;
+                    }
+                };
+
+                match accepted {
                     Some(Ok((req, mut respond))) => {
                         trace!("incoming request");
                         let content_length = headers::content_length_parse_all(req.headers());
-- 
2.43.0


From a9d0b0c7a941414775edb2f86c35c51db58a8931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:55 +0000
Subject: [PATCH 20/24] fix: open an HTTP/2 client tunnel for every successful
 CONNECT response

---
 src/proto/h2/client.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/proto/h2/client.rs b/src/proto/h2/client.rs
index eb768ba..1163947 100644
--- a/src/proto/h2/client.rs
+++ b/src/proto/h2/client.rs
@@ -14,7 +14,7 @@ use futures_channel::{mpsc, oneshot};
 use futures_core::{ready, FusedFuture, FusedStream, Stream};
 use h2::client::{Builder, Connection, SendRequest};
 use h2::SendStream;
-use http::{Method, StatusCode};
+use http::Method;
 use pin_project_lite::pin_project;
 
 use super::ping::{Ponger, Recorder};
@@ -624,7 +624,8 @@ where
                 ping.record_non_data();
 
                 let content_length = headers::content_length_parse_all(res.headers());
-                if let (Some(mut send_stream), StatusCode::OK) = (send_stream, res.status()) {
+                let tunnel = send_stream.filter(|_| res.status().is_success());
+                if let Some(mut send_stream) = tunnel {
                     if content_length.map_or(false, |len| len != 0) {
                         warn!("h2 connect response with non-zero body not supported");
 
-- 
2.43.0


From a5a2ed05c19bc725e8ab6c31663dd98cf0da4a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:51 +0000
Subject: [PATCH 21/24] fix: report an HTTP/2 body cut off by GOAWAY(NO_ERROR)
 as an error

---
 src/body/incoming.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/body/incoming.rs b/src/body/incoming.rs
index 93c99a0..c3194f5 100644
--- a/src/body/incoming.rs
+++ b/src/body/incoming.rs
@@ -245,10 +245,11 @@ impl Body for Incoming {
                             return Poll::Ready(Some(Ok(Frame::data(bytes))));
                         }
                         Some(Err(e)) => {
-                            if let Some(h2::Reason::NO_ERROR) = e.reason() {
+                            if e.is_reset() && e.reason() == Some(h2::Reason::NO_ERROR) {
                                 // As mentioned in RFC 7540 Section 8.1, a RST_STREAM with NO_ERROR
                                 // indicates an early response, and should cause the body reading
-                                // to stop, but not fail it:
+                                // to stop, but not fail it. (A GOAWAY with NO_ERROR says nothing
+                                // of the kind: if it ends the stream, the body is incomplete.)
                                 return Poll::Ready(None);
                             } else {
                                 return Poll::Ready(Some(Err(crate::Error::new_body(e))));
@@ -268,7 +269,7 @@ impl Body for Incoming {
                         Poll::Ready(Ok(t.map(Frame::trailers)).transpose())
                     }
                     Err(e) => {
-                        if let Some(h2::Reason::NO_ERROR) = e.reason() {
+                        if e.is_reset() && e.reason() == Some(h2::Reason::NO_ERROR) {
                             // Same as above, a RST_STREAM with NO_ERROR indicates an early
                             // response, and should cause reading the trailers to stop, but
                             // not fail it:
-- 
2.43.0


From c36ae3e7542de471fe0e01524eeccb0d63a5b82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:30 +0000
Subject: [PATCH 22/24] fix: keep an HTTP/2 client connection whose peer is
 slow to acknowledge SETTINGS

---
 src/proto/h2/client.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/proto/h2/client.rs b/src/proto/h2/client.rs
index 1163947..31e3085 100644
--- a/src/proto/h2/client.rs
+++ b/src/proto/h2/client.rs
@@ -239,7 +239,9 @@ where
         match this.ponger.poll(cx) {
             Poll::Ready(ping::Ponged::SizeUpdate(wnd)) => {
                 this.conn.set_target_window_size(wnd);
-                this.conn.set_initial_window_size(wnd)?;
+                // fails while earlier SETTINGS are not acknowledged yet, which is
+                // no reason to give up the connection
+                let _ = this.conn.set_initial_window_size(wnd);
             }
             Poll::Ready(ping::Ponged::KeepAliveTimedOut) => {
                 debug!("connection keep-alive timed out");
-- 
2.43.0


From 6407294e0be4bdf3b83c2f66ddafb3b529ce8a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:32 +0000
Subject: [PATCH 23/24] fix: accept an HTTP/0.9 response that arrives in more
 than one read

---
 src/proto/h1/role.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/proto/h1/role.rs b/src/proto/h1/role.rs
index 12b38b9..e9af61d 100644
--- a/src/proto/h1/role.rs
+++ b/src/proto/h1/role.rs
@@ -86,7 +86,8 @@ where
     let _entered = trace_span!("parse_headers");
 
     if let Some(prev_len) = prev_len {
-        if !is_complete_fast(bytes, prev_len) {
+        // (an HTTP/0.9 response has no head to find the end of)
+        if !ctx.h09_responses && !is_complete_fast(bytes, prev_len) {
             return Ok(None);
         }
     }
-- 
2.43.0


From 7fe1bf6b9843f96bb409fb2c918869c15b7b587d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:03 +0000
Subject: [PATCH 24/24] fix: an HTTP/2 response without a body has size zero,
 whatever its content-length

---
 src/body/incoming.rs   |  7 ++++---
 src/body/length.rs     | 10 ----------
 src/proto/h2/client.rs | 11 ++++++++++-
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/body/incoming.rs b/src/body/incoming.rs
index c3194f5..496c4db 100644
--- a/src/body/incoming.rs
+++ b/src/body/incoming.rs
@@ -156,9 +156,10 @@ impl Incoming {
         mut content_length: DecodedLength,
         ping: ping::Recorder,
     ) -> Self {
-        // If the stream is already EOS, then the "unknown length" is clearly
-        // actually ZERO.
-        if !content_length.is_exact() && recv.is_end_stream() {
+        // If the stream is already EOS, then the length is clearly actually
+        // ZERO, whatever a content-length (of a response to a HEAD request,
+        // or a 304) says.
+        if recv.is_end_stream() {
             content_length = DecodedLength::ZERO;
         }
 
diff --git a/src/body/length.rs b/src/body/length.rs
index 1ed5e0d..39141eb 100644
--- a/src/body/length.rs
+++ b/src/body/length.rs
@@ -74,16 +74,6 @@ impl DecodedLength {
             }
         }
     }
-
-    /// Returns whether this represents an exact length.
-    ///
-    /// This includes 0, which of course is an exact known length.
-    ///
-    /// It would return false if "chunked" or otherwise size-unknown.
-    #[cfg(all(any(feature = "client", feature = "server"), feature = "http2"))]
-    pub(crate) fn is_exact(&self) -> bool {
-        self.0 <= MAX_LEN
-    }
 }
 
 impl fmt::Debug for DecodedLength {
diff --git a/src/proto/h2/client.rs b/src/proto/h2/client.rs
index 31e3085..1bdc9fe 100644
--- a/src/proto/h2/client.rs
+++ b/src/proto/h2/client.rs
@@ -415,6 +415,7 @@ where
     B: Body,
 {
     is_connect: bool,
+    is_head: bool,
     eos: bool,
     fut: ResponseFuture,
     body_tx: SendStream<SendBuf<B::Data>>,
@@ -572,6 +573,7 @@ where
                     ping: Some(ping),
                     send_stream: Some(send_stream),
                     exec: self.executor.clone(),
+                    is_head: f.is_head,
                     cancel_tx: Some(cancel_tx),
                 },
                 call_back: Some(f.cb),
@@ -592,6 +594,7 @@ pin_project! {
         #[pin]
         send_stream: Option<Option<SendStream<SendBuf<<B as Body>::Data>>>>,
         exec: E,
+        is_head: bool,
         cancel_tx: Option<oneshot::Sender<()>>,
     }
 }
@@ -625,7 +628,11 @@ where
                 // record that we got the response headers
                 ping.record_non_data();
 
-                let content_length = headers::content_length_parse_all(res.headers());
+                let mut content_length = headers::content_length_parse_all(res.headers());
+                if *this.is_head {
+                    // whatever the header says, no body follows
+                    content_length = Some(0);
+                }
                 let tunnel = send_stream.filter(|_| res.status().is_success());
                 if let Some(mut send_stream) = tunnel {
                     if content_length.map_or(false, |len| len != 0) {
@@ -717,6 +724,7 @@ where
                     }
 
                     let is_connect = req.method() == Method::CONNECT;
+                    let is_head = req.method() == Method::HEAD;
                     let eos = body.is_end_stream();
 
                     if is_connect
@@ -749,6 +757,7 @@ where
 
                     let f = FutCtx {
                         is_connect,
+                        is_head,
                         eos,
                         fut,
                         body_tx,
-- 
2.43.0

