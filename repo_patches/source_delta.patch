From 79e4b6b0078ae32c908922e5f264c40b7e782f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:29 +0000
Subject: [PATCH 01/50] fix: enforce the declared length in buffered reads of a
 body

poll_fill_buf exposed bytes beyond the declared length, and consume did
not count the bytes it consumed, so mixing buffered and plain reads read
past the declared length and chain computed a wrong one.
---
 src/body.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/body.rs b/src/body.rs
index ac1acfc..a419476 100644
--- a/src/body.rs
+++ b/src/body.rs
@@ -604,10 +604,21 @@ impl AsyncRead for Body {
 impl AsyncBufRead for Body {
     #[allow(rustdoc::missing_doc_code_examples)]
     fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&'_ [u8]>> {
-        self.project().reader.poll_fill_buf(cx)
+        let this = self.project();
+        match *this.length {
+            None => this.reader.poll_fill_buf(cx),
+            Some(length) if length == *this.bytes_read => Poll::Ready(Ok(&[])),
+            Some(length) => {
+                // Never expose more than what is left of the declared length.
+                let buf = ready!(this.reader.poll_fill_buf(cx))?;
+                let max_len = (length - *this.bytes_read).min(buf.len() as u64) as usize;
+                Poll::Ready(Ok(&buf[..max_len]))
+            }
+        }
     }
 
     fn consume(mut self: Pin<&mut Self>, amt: usize) {
+        self.bytes_read += amt as u64;
         Pin::new(&mut self.reader).consume(amt)
     }
 }
-- 
2.43.0


From 44d87394d56d0112d025570c3d868f9f9b286139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:29 +0000
Subject: [PATCH 02/50] fix: sniff a file's media type from all of its leading
 bytes

A short read made peek_mime look at a zero-padded fragment, so the type
depended on how many bytes the disk happened to return.
---
 src/body.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/body.rs b/src/body.rs
index a419476..47febca 100644
--- a/src/body.rs
+++ b/src/body.rs
@@ -629,8 +629,15 @@ impl AsyncBufRead for Body {
 async fn peek_mime(file: &mut async_std::fs::File) -> io::Result<Option<Mime>> {
     // We need to read the first 300 bytes to correctly infer formats such as tar.
     let mut buf = [0_u8; 300];
-    file.read(&mut buf).await?;
-    let mime = Mime::sniff(&buf).ok();
+    let mut len = 0;
+    // A single read may return fewer bytes than the file holds.
+    while len < buf.len() {
+        match file.read(&mut buf[len..]).await? {
+            0 => break,
+            n => len += n,
+        }
+    }
+    let mime = Mime::sniff(&buf[..len]).ok();
 
     // Reset the file cursor back to the start.
     file.seek(io::SeekFrom::Start(0)).await?;
-- 
2.43.0


From bb47350ef3c9fac6e37287b0fda245b659574492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:39 +0000
Subject: [PATCH 03/50] fix: sniff a file's media type from its start

from_file is given files that may have been read from already; the type was
sniffed at the file's cursor although the body starts at the beginning.
---
 src/body.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/body.rs b/src/body.rs
index 47febca..d71433b 100644
--- a/src/body.rs
+++ b/src/body.rs
@@ -627,6 +627,9 @@ impl AsyncBufRead for Body {
 /// This is used for various binary formats such as images and videos.
 #[cfg(all(feature = "fs", not(target_os = "unknown")))]
 async fn peek_mime(file: &mut async_std::fs::File) -> io::Result<Option<Mime>> {
+    // The file may have been read from before.
+    file.seek(io::SeekFrom::Start(0)).await?;
+
     // We need to read the first 300 bytes to correctly infer formats such as tar.
     let mut buf = [0_u8; 300];
     let mut len = 0;
-- 
2.43.0


From d43b2d7e7911236bcff97a027cd009bcb3f9f8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:58 +0000
Subject: [PATCH 04/50] fix: refuse malformed traceparent headers with 400

A line with fewer than four fields crashed the reader, a bad version gave
status 500, and signs or additional fields were read as a different trace
or parent.
---
 src/trace/trace_context.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/trace/trace_context.rs b/src/trace/trace_context.rs
index 3bc062f..497e3b4 100644
--- a/src/trace/trace_context.rs
+++ b/src/trace/trace_context.rs
@@ -108,9 +108,25 @@ impl TraceContext {
         };
         let parts: Vec<&str> = traceparent.as_str().split('-').collect();
 
+        // `from_str_radix` accepts a sign, which is no part of the header's syntax.
+        let hex = parts
+            .iter()
+            .take(4)
+            .all(|part| part.bytes().all(|b| b.is_ascii_hexdigit()));
+        crate::ensure_status!(hex, 400, "Invalid traceparent header");
+        crate::ensure_status!(parts.len() >= 4, 400, "Incomplete traceparent header");
+
+        let version = u8::from_str_radix(parts[0], 16).status(400)?;
+        // Only later versions may add fields.
+        crate::ensure_status!(
+            parts.len() == 4 || version > 0,
+            400,
+            "Too many fields in traceparent header"
+        );
+
         Ok(Some(Self {
             id: fastrand::u64(..),
-            version: u8::from_str_radix(parts[0], 16)?,
+            version,
             trace_id: u128::from_str_radix(parts[1], 16).status(400)?,
             parent_id: Some(u64::from_str_radix(parts[2], 16).status(400)?),
             flags: u8::from_str_radix(parts[3], 16).status(400)?,
-- 
2.43.0


From e47fb3f48f6700a308234892ace32e7dbe56fbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:58 +0000
Subject: [PATCH 05/50] fix: read the Age header exactly

Ages went through a float: inexact above 2^53 seconds, and a crash near 2^64.
---
 src/cache/age.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cache/age.rs b/src/cache/age.rs
index 0ee78a0..1da4833 100644
--- a/src/cache/age.rs
+++ b/src/cache/age.rs
@@ -63,7 +63,7 @@ impl Age {
         let header = headers.iter().last().unwrap();
 
         let num: u64 = header.as_str().parse::<u64>().status(400)?;
-        let dur = Duration::from_secs_f64(num as f64);
+        let dur = Duration::from_secs(num);
 
         Ok(Some(Self { dur }))
     }
-- 
2.43.0


From b6690fbaa011869a8f63dbf53ff86c9aa155d2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:53 +0000
Subject: [PATCH 06/50] fix: keep every value of a repeated header when
 converting from http types

`http::HeaderMap`'s iterator names only the first value of each name; the
others were dropped.
---
 src/hyperium_http.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/hyperium_http.rs b/src/hyperium_http.rs
index 81d3342..6bf4ae5 100644
--- a/src/hyperium_http.rs
+++ b/src/hyperium_http.rs
@@ -96,12 +96,15 @@ impl TryFrom<http::HeaderMap> for Headers {
     fn try_from(hyperium_headers: http::HeaderMap) -> Result<Self, Self::Error> {
         let mut headers = Headers::new();
 
+        // Only the first of a name's values comes with the name.
+        let mut last_name = None;
         hyperium_headers
             .into_iter()
             .map(|(name, value)| {
-                if let Some(name) = name {
+                last_name = name.or_else(|| last_name.take());
+                if let Some(name) = &last_name {
                     let value: HeaderValue = value.try_into()?;
-                    let name: HeaderName = name.try_into()?;
+                    let name: HeaderName = name.clone().try_into()?;
                     headers.append(name, value)?;
                 }
                 Ok(())
@@ -144,10 +147,13 @@ fn hyperium_headers_to_headers(
     hyperium_headers: http::HeaderMap,
     headers: &mut Headers,
 ) -> crate::Result<()> {
+    // Only the first of a name's values comes with the name.
+    let mut last_name = None;
     for (name, value) in hyperium_headers {
         let value = value.as_bytes().to_owned();
         let value = unsafe { HeaderValue::from_bytes_unchecked(value) };
-        if let Some(name) = name {
+        last_name = name.or(last_name);
+        if let Some(name) = &last_name {
             let name = name.as_str().as_bytes().to_owned();
             let name = unsafe { HeaderName::from_bytes_unchecked(name) };
             headers.append(name, value)?;
-- 
2.43.0


From 145211f5d386fe4fc037c8c15e666c62bb1709c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:53 +0000
Subject: [PATCH 07/50] fix: refuse non-ASCII header values when converting
 from http types

They were turned into strings unchecked, which is undefined behaviour.
---
 src/hyperium_http.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hyperium_http.rs b/src/hyperium_http.rs
index 6bf4ae5..6ac5b71 100644
--- a/src/hyperium_http.rs
+++ b/src/hyperium_http.rs
@@ -151,7 +151,7 @@ fn hyperium_headers_to_headers(
     let mut last_name = None;
     for (name, value) in hyperium_headers {
         let value = value.as_bytes().to_owned();
-        let value = unsafe { HeaderValue::from_bytes_unchecked(value) };
+        let value = HeaderValue::from_bytes(value)?;
         last_name = name.or(last_name);
         if let Some(name) = &last_name {
             let name = name.as_str().as_bytes().to_owned();
-- 
2.43.0


From 6921dc1d047c47a250bb8464706ca58dabe5de35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:53 +0000
Subject: [PATCH 08/50] fix: do not add a second content type when converting
 from http types

The body was installed first, so its media type was added before the
message's own headers.
---
 src/hyperium_http.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hyperium_http.rs b/src/hyperium_http.rs
index 6ac5b71..066c346 100644
--- a/src/hyperium_http.rs
+++ b/src/hyperium_http.rs
@@ -193,9 +193,9 @@ impl TryFrom<http::Request<Body>> for Request {
         let method = parts.method.into();
         let url = from_uri_to_url(parts.uri)?;
         let mut req = Request::new(method, url);
-        req.set_body(body);
         req.set_version(Some(parts.version.into()));
         hyperium_headers_to_headers(parts.headers, req.as_mut())?;
+        req.set_body(body);
         Ok(req)
     }
 }
@@ -218,9 +218,9 @@ impl TryFrom<http::Response<Body>> for Response {
     fn try_from(res: http::Response<Body>) -> Result<Self, Self::Error> {
         let (parts, body) = res.into_parts();
         let mut res = Response::new(parts.status);
-        res.set_body(body);
         res.set_version(Some(parts.version.into()));
         hyperium_headers_to_headers(parts.headers, res.as_mut())?;
+        res.set_body(body);
         Ok(res)
     }
 }
-- 
2.43.0


From 37717b9abd4d611e8d06477f173439c452a74ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:00 +0000
Subject: [PATCH 09/50] fix: refuse unknown methods and statuses when
 converting from http types

Converting such a request or response returns its error instead of
crashing.
---
 src/hyperium_http.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hyperium_http.rs b/src/hyperium_http.rs
index 066c346..355b405 100644
--- a/src/hyperium_http.rs
+++ b/src/hyperium_http.rs
@@ -190,7 +190,7 @@ impl TryFrom<http::Request<Body>> for Request {
 
     fn try_from(req: http::Request<Body>) -> Result<Self, Self::Error> {
         let (parts, body) = req.into_parts();
-        let method = parts.method.into();
+        let method = Method::from_str(parts.method.as_str())?;
         let url = from_uri_to_url(parts.uri)?;
         let mut req = Request::new(method, url);
         req.set_version(Some(parts.version.into()));
@@ -217,7 +217,7 @@ impl TryFrom<http::Response<Body>> for Response {
     type Error = crate::Error;
     fn try_from(res: http::Response<Body>) -> Result<Self, Self::Error> {
         let (parts, body) = res.into_parts();
-        let mut res = Response::new(parts.status);
+        let mut res = Response::new(StatusCode::try_from(parts.status.as_u16())?);
         res.set_version(Some(parts.version.into()));
         hyperium_headers_to_headers(parts.headers, res.as_mut())?;
         res.set_body(body);
-- 
2.43.0


From 5b7f71df32e773be7fcff646d9f845099193cbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:36 +0000
Subject: [PATCH 10/50] fix: do not announce too few items when iterating over
 header values

The upper bound counted names, of which each may hold several values.
---
 src/headers/values.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/headers/values.rs b/src/headers/values.rs
index 810c051..a8d8a40 100644
--- a/src/headers/values.rs
+++ b/src/headers/values.rs
@@ -65,7 +65,8 @@ impl<'a> Iterator for Values<'a> {
     #[inline]
     fn size_hint(&self) -> (usize, Option<usize>) {
         match self.inner.as_ref() {
-            Some(inner) => inner.size_hint(),
+            // A name may have any number of values.
+            Some(inner) => (inner.size_hint().0, None),
             None => (0, None),
         }
     }
-- 
2.43.0


From c5b1091ccf8c8d0ed2b87bc764c5fa6db83af046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:33 +0000
Subject: [PATCH 11/50] fix: refuse unknown encodings instead of panicking

---
 src/content/content_encoding.rs   | 9 +++++++--
 src/transfer/transfer_encoding.rs | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/content/content_encoding.rs b/src/content/content_encoding.rs
index bbab123..c4198e3 100644
--- a/src/content/content_encoding.rs
+++ b/src/content/content_encoding.rs
@@ -57,8 +57,13 @@ impl ContentEncoding {
             }
         }
 
-        let inner = inner.expect("Headers instance with no entries found");
-        Ok(Some(Self { inner }))
+        match inner {
+            Some(inner) => Ok(Some(Self { inner })),
+            None => Err(crate::format_err_status!(
+                400,
+                "`Content-Encoding` header did not contain a known encoding",
+            )),
+        }
     }
 
     /// Access the encoding kind.
diff --git a/src/transfer/transfer_encoding.rs b/src/transfer/transfer_encoding.rs
index 7fede4a..e1c5e4c 100644
--- a/src/transfer/transfer_encoding.rs
+++ b/src/transfer/transfer_encoding.rs
@@ -54,8 +54,13 @@ impl TransferEncoding {
             }
         }
 
-        let inner = inner.expect("Headers instance with no entries found");
-        Ok(Some(Self { inner }))
+        match inner {
+            Some(inner) => Ok(Some(Self { inner })),
+            None => Err(crate::format_err_status!(
+                400,
+                "`Transfer-Encoding` header did not contain a known encoding",
+            )),
+        }
     }
 
     /// Access the encoding kind.
-- 
2.43.0


From ebd9758952d29b8437fe0c49fc846a02192169cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:52 +0000
Subject: [PATCH 12/50] fix: do not slice out of bounds when parsing Forwarded

---
 src/proxies/forwarded.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/proxies/forwarded.rs b/src/proxies/forwarded.rs
index 30e491b..2be946b 100644
--- a/src/proxies/forwarded.rs
+++ b/src/proxies/forwarded.rs
@@ -420,20 +420,17 @@ fn format_value(input: &str) -> Cow<'_, str> {
 }
 
 fn match_ignore_case<'a>(start: &'static str, input: &'a str) -> (bool, &'a str) {
-    let len = start.len();
-    if input[..len].eq_ignore_ascii_case(start) {
-        (true, &input[len..])
+    if starts_with_ignore_case(start, input) {
+        (true, &input[start.len()..])
     } else {
         (false, input)
     }
 }
 
 fn starts_with_ignore_case(start: &'static str, input: &str) -> bool {
-    if start.len() <= input.len() {
-        let len = start.len();
-        input[..len].eq_ignore_ascii_case(start)
-    } else {
-        false
+    match input.get(..start.len()) {
+        Some(input) => input.eq_ignore_ascii_case(start),
+        None => false,
     }
 }
 
-- 
2.43.0


From c81cab6770acbf0324a79a24de55f32b5fdda914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:26 +0000
Subject: [PATCH 13/50] fix: refuse unknown Clear-Site-Data directives instead
 of panicking

---
 src/cache/clear_site_data/directive.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cache/clear_site_data/directive.rs b/src/cache/clear_site_data/directive.rs
index b178027..3def54f 100644
--- a/src/cache/clear_site_data/directive.rs
+++ b/src/cache/clear_site_data/directive.rs
@@ -45,7 +45,7 @@ impl Display for ClearDirective {
 }
 
 impl FromStr for ClearDirective {
-    type Err = std::string::ParseError;
+    type Err = crate::Error;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         match s {
@@ -53,7 +53,7 @@ impl FromStr for ClearDirective {
             r#""cookies""# => Ok(Self::Cookies),
             r#""storage""# => Ok(Self::Storage),
             r#""executionContexts""# => Ok(Self::ExecutionContexts),
-            _ => todo!(),
+            _ => crate::bail_status!(400, "Unknown `Clear-Site-Data` directive"),
         }
     }
 }
-- 
2.43.0


From 373ec854a2b279f667588c10480aa1447976ee93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:26 +0000
Subject: [PATCH 14/50] fix: refuse unrepresentable durations in Server-Timing

---
 src/trace/server_timing/parse.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/trace/server_timing/parse.rs b/src/trace/server_timing/parse.rs
index 4469336..94a2699 100644
--- a/src/trace/server_timing/parse.rs
+++ b/src/trace/server_timing/parse.rs
@@ -65,7 +65,10 @@ fn parse_entry(s: &str) -> crate::Result<Metric> {
                 let millis: f64 = value.parse().map_err(|_| {
                         format_err!("Server timing duration params must be a valid double-precision floating-point number.")
                     })?;
-                dur = Some(Duration::from_secs_f64(millis) / 1000);
+                let duration = Duration::try_from_secs_f64(millis).map_err(|_| {
+                    format_err!("Server timing duration params must be a representable duration.")
+                })?;
+                dur = Some(duration / 1000);
             }
             "desc" => {
                 // Ensure quotes line up, and strip them from the resulting output
-- 
2.43.0


From 22cdac6153112ea2aa4097249b8935de50b55133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:26 +0000
Subject: [PATCH 15/50] fix: do not panic on far-away Retry-After delays

---
 src/other/retry_after.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/other/retry_after.rs b/src/other/retry_after.rs
index 2140459..e4530d5 100644
--- a/src/other/retry_after.rs
+++ b/src/other/retry_after.rs
@@ -1,4 +1,4 @@
-use std::time::{Duration, SystemTime, SystemTimeError};
+use std::time::{Duration, SystemTime, SystemTimeError, UNIX_EPOCH};
 
 use crate::headers::{Header, HeaderName, HeaderValue, Headers, RETRY_AFTER};
 use crate::utils::{fmt_http_date, parse_http_date};
@@ -81,7 +81,7 @@ impl RetryAfter {
     /// This may return an error if the `earlier` time was after the current time.
     pub fn duration_since(&self, earlier: SystemTime) -> Result<Duration, SystemTimeError> {
         let at = match self.inner {
-            RetryDirective::Duration(dur) => SystemTime::now() + dur,
+            RetryDirective::Duration(dur) => from_now(dur),
             RetryDirective::SystemTime(at) => at,
         };
 
@@ -104,10 +104,18 @@ impl Header for RetryAfter {
     }
 }
 
+/// The instant `dur` from now, capped at the last second of the year 9999 (the
+/// latest date HTTP can express) if it is too far away to be represented.
+fn from_now(dur: Duration) -> SystemTime {
+    SystemTime::now()
+        .checked_add(dur)
+        .unwrap_or_else(|| UNIX_EPOCH + Duration::from_secs(253_402_300_799))
+}
+
 impl From<RetryAfter> for SystemTime {
     fn from(retry_after: RetryAfter) -> Self {
         match retry_after.inner {
-            RetryDirective::Duration(dur) => SystemTime::now() + dur,
+            RetryDirective::Duration(dur) => from_now(dur),
             RetryDirective::SystemTime(at) => at,
         }
     }
-- 
2.43.0


From b269b8d0d5dbb00398715eb3400f4c0aa96db98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:38 +0000
Subject: [PATCH 16/50] fix: ignore empty members when reading list headers

---
 src/cache/clear_site_data/mod.rs    | 4 +++-
 src/conditional/if_match.rs         | 4 +++-
 src/conditional/if_none_match.rs    | 4 +++-
 src/conditional/vary.rs             | 4 +++-
 src/security/timing_allow_origin.rs | 1 +
 src/server/allow.rs                 | 6 +++++-
 src/trace/server_timing/parse.rs    | 3 +++
 7 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/cache/clear_site_data/mod.rs b/src/cache/clear_site_data/mod.rs
index bb38ab8..c46cb5a 100644
--- a/src/cache/clear_site_data/mod.rs
+++ b/src/cache/clear_site_data/mod.rs
@@ -71,7 +71,9 @@ impl ClearSiteData {
         for value in header_values {
             for part in value.as_str().trim().split(',') {
                 let part = part.trim();
-                if part == r#""*""# {
+                if part.is_empty() {
+                    continue;
+                } else if part == r#""*""# {
                     wildcard = true;
                     continue;
                 }
diff --git a/src/conditional/if_match.rs b/src/conditional/if_match.rs
index 5f84c2b..2886a2a 100644
--- a/src/conditional/if_match.rs
+++ b/src/conditional/if_match.rs
@@ -62,7 +62,9 @@ impl IfMatch {
         for value in headers {
             for part in value.as_str().trim().split(',') {
                 let part = part.trim();
-                if part == "*" {
+                if part.is_empty() {
+                    continue;
+                } else if part == "*" {
                     wildcard = true;
                     continue;
                 }
diff --git a/src/conditional/if_none_match.rs b/src/conditional/if_none_match.rs
index b4b37af..bebbb37 100644
--- a/src/conditional/if_none_match.rs
+++ b/src/conditional/if_none_match.rs
@@ -68,7 +68,9 @@ impl IfNoneMatch {
         for value in headers {
             for part in value.as_str().trim().split(',') {
                 let part = part.trim();
-                if part == "*" {
+                if part.is_empty() {
+                    continue;
+                } else if part == "*" {
                     wildcard = true;
                     continue;
                 }
diff --git a/src/conditional/vary.rs b/src/conditional/vary.rs
index 9023811..b28c2fb 100644
--- a/src/conditional/vary.rs
+++ b/src/conditional/vary.rs
@@ -62,7 +62,9 @@ impl Vary {
         for value in headers {
             for part in value.as_str().trim().split(',') {
                 let part = part.trim();
-                if part == "*" {
+                if part.is_empty() {
+                    continue;
+                } else if part == "*" {
                     wildcard = true;
                     continue;
                 }
diff --git a/src/security/timing_allow_origin.rs b/src/security/timing_allow_origin.rs
index 443427f..c112ba9 100644
--- a/src/security/timing_allow_origin.rs
+++ b/src/security/timing_allow_origin.rs
@@ -88,6 +88,7 @@ impl TimingAllowOrigin {
         for header in headers {
             for origin in header.as_str().split(',') {
                 match origin.trim_start() {
+                    "" => continue,
                     "*" => wildcard = true,
                     r#""null""# => continue,
                     origin => {
diff --git a/src/server/allow.rs b/src/server/allow.rs
index 9377a3f..bbe6938 100644
--- a/src/server/allow.rs
+++ b/src/server/allow.rs
@@ -58,7 +58,11 @@ impl Allow {
 
         for value in headers {
             for part in value.as_str().trim().split(',') {
-                let method = Method::from_str(part.trim())?;
+                let part = part.trim();
+                if part.is_empty() {
+                    continue;
+                }
+                let method = Method::from_str(part)?;
                 entries.insert(method);
             }
         }
diff --git a/src/trace/server_timing/parse.rs b/src/trace/server_timing/parse.rs
index 94a2699..1767096 100644
--- a/src/trace/server_timing/parse.rs
+++ b/src/trace/server_timing/parse.rs
@@ -8,6 +8,9 @@ use crate::{ensure, format_err, StatusCode};
 /// Each entry is comma-delimited.
 pub(super) fn parse_header(s: &str, entries: &mut Vec<Metric>) -> crate::Result<()> {
     for part in s.trim().split(',') {
+        if part.trim().is_empty() {
+            continue;
+        }
         let entry = parse_entry(part).map_err(|mut e| {
             e.set_status(StatusCode::BadRequest);
             e
-- 
2.43.0


From c22719ea4c1c60f843f7587c4fa90ec69bda5b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:50 +0000
Subject: [PATCH 17/50] fix: write Forwarded sections so that they read back

---
 src/proxies/forwarded.rs | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/proxies/forwarded.rs b/src/proxies/forwarded.rs
index 2be946b..9d0516f 100644
--- a/src/proxies/forwarded.rs
+++ b/src/proxies/forwarded.rs
@@ -2,7 +2,7 @@ use crate::{
     headers::{Header, HeaderName, HeaderValue, Headers, FORWARDED},
     parse_utils::{parse_quoted_string, parse_token},
 };
-use std::{borrow::Cow, convert::TryFrom, fmt::Write, net::IpAddr};
+use std::{borrow::Cow, convert::TryFrom, net::IpAddr};
 
 // these constants are private because they are nonstandard
 const X_FORWARDED_FOR: HeaderName = HeaderName::from_lowercase_str("x-forwarded-for");
@@ -363,32 +363,30 @@ impl<'a> Header for Forwarded<'a> {
         FORWARDED
     }
     fn header_value(&self) -> HeaderValue {
-        let mut output = String::new();
+        let mut sections = Vec::new();
         if let Some(by) = self.by() {
-            write!(&mut output, "by={};", by).unwrap();
+            sections.push(format!("by={}", format_value(by)));
         }
 
-        output.push_str(
-            &self
-                .forwarded_for
-                .iter()
-                .map(|f| format!("for={}", format_value(f)))
-                .collect::<Vec<_>>()
-                .join(", "),
-        );
-
-        output.push(';');
+        if !self.forwarded_for.is_empty() {
+            sections.push(
+                self.forwarded_for
+                    .iter()
+                    .map(|f| format!("for={}", format_value(f)))
+                    .collect::<Vec<_>>()
+                    .join(", "),
+            );
+        }
 
         if let Some(host) = self.host() {
-            write!(&mut output, "host={};", host).unwrap();
+            sections.push(format!("host={}", format_value(host)));
         }
 
         if let Some(proto) = self.proto() {
-            write!(&mut output, "proto={};", proto).unwrap();
+            sections.push(format!("proto={}", format_value(proto)));
         }
 
-        // remove a trailing semicolon
-        output.pop();
+        let output = sections.join(";");
 
         // SAFETY: the internal string is validated to be ASCII.
         unsafe { HeaderValue::from_bytes_unchecked(output.into()) }
@@ -404,7 +402,7 @@ fn parse_value(input: &str) -> (Option<Cow<'_, str>>, &str) {
 
 fn format_value(input: &str) -> Cow<'_, str> {
     match parse_token(input) {
-        (_, "") => input.into(),
+        (Some(_), "") => input.into(),
         _ => {
             let mut string = String::from("\"");
             for ch in input.chars() {
-- 
2.43.0


From 665725a1daaa7dddb1e7590a59f52338b2db81aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:51 +0000
Subject: [PATCH 18/50] fix: accept every quoted-string character, and only
 those

---
 src/parse_utils.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index a2dc235..091b0c6 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -44,7 +44,7 @@ fn tchar(c: char) -> bool {
 
 /// https://tools.ietf.org/html/rfc7230#section-3.2.6
 fn vchar(c: char) -> bool {
-    matches!(c as u8, b'\t' | 32..=126 | 128..=255)
+    matches!(c, '\t' | ' '..='~' | '\u{80}'..='\u{ff}')
 }
 
 /// https://tools.ietf.org/html/rfc7230#section-3.2.6
@@ -65,20 +65,20 @@ pub(crate) fn parse_quoted_string(input: &str) -> (Option<Cow<'_, str>>, &str) {
             }
         // otherwise, we skip over this character while parsing
         } else {
-            match c as u8 {
+            match c {
                 // we have reached a quoted-pair
-                b'\\' => {
+                '\\' => {
                     backslashes.push(i - 1);
                 }
 
                 // end of the string, DQUOTE
-                b'"' => {
+                '"' => {
                     end_of_string = Some(i + 1);
                     break;
                 }
 
                 // qdtext
-                b'\t' | b' ' | 15 | 35..=91 | 93..=126 | 128..=255 => {}
+                '\t' | ' ' | '!' | '#'..='[' | ']'..='~' | '\u{80}'..='\u{ff}' => {}
 
                 // unexpected character, bail
                 _ => return (None, input),
-- 
2.43.0


From 614d5c3ca6f73dbdedb61e6328fed29865d7ddab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:45 +0000
Subject: [PATCH 19/50] fix: do not split quoted ETags and media type
 parameters at commas

---
 src/conditional/if_match.rs      |  3 ++-
 src/conditional/if_none_match.rs |  3 ++-
 src/content/accept.rs            |  3 ++-
 src/parse_utils.rs               | 25 +++++++++++++++++++++++++
 4 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/conditional/if_match.rs b/src/conditional/if_match.rs
index 2886a2a..62a7afe 100644
--- a/src/conditional/if_match.rs
+++ b/src/conditional/if_match.rs
@@ -1,6 +1,7 @@
 //! Apply the HTTP method if the ETag matches.
 
 use crate::headers::{HeaderName, HeaderValue, Headers, IF_MATCH};
+use crate::parse_utils::split_unquoted;
 use crate::{conditional::ETag, headers::Header};
 
 use std::fmt::{self, Debug, Write};
@@ -60,7 +61,7 @@ impl IfMatch {
 
         let mut wildcard = false;
         for value in headers {
-            for part in value.as_str().trim().split(',') {
+            for part in split_unquoted(value.as_str().trim(), ',', false) {
                 let part = part.trim();
                 if part.is_empty() {
                     continue;
diff --git a/src/conditional/if_none_match.rs b/src/conditional/if_none_match.rs
index bebbb37..dc4c930 100644
--- a/src/conditional/if_none_match.rs
+++ b/src/conditional/if_none_match.rs
@@ -4,6 +4,7 @@
 //! one already exists.
 
 use crate::headers::{HeaderName, HeaderValue, Headers, IF_NONE_MATCH};
+use crate::parse_utils::split_unquoted;
 use crate::{conditional::ETag, headers::Header};
 
 use std::fmt::{self, Debug, Write};
@@ -66,7 +67,7 @@ impl IfNoneMatch {
 
         let mut wildcard = false;
         for value in headers {
-            for part in value.as_str().trim().split(',') {
+            for part in split_unquoted(value.as_str().trim(), ',', false) {
                 let part = part.trim();
                 if part.is_empty() {
                     continue;
diff --git a/src/content/accept.rs b/src/content/accept.rs
index 87dad90..5805101 100644
--- a/src/content/accept.rs
+++ b/src/content/accept.rs
@@ -2,6 +2,7 @@
 
 use crate::headers::{HeaderName, HeaderValue, Headers, ACCEPT};
 use crate::mime::Mime;
+use crate::parse_utils::split_unquoted;
 use crate::utils::sort_by_weight;
 use crate::{
     content::{ContentType, MediaTypeProposal},
@@ -73,7 +74,7 @@ impl Accept {
         let mut wildcard = false;
 
         for value in headers {
-            for part in value.as_str().trim().split(',') {
+            for part in split_unquoted(value.as_str().trim(), ',', true) {
                 let part = part.trim();
 
                 // Handle empty strings, and wildcard directives.
diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index 091b0c6..06be956 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -117,6 +117,31 @@ pub(crate) fn parse_quoted_string(input: &str) -> (Option<Cow<'_, str>>, &str) {
     }
 }
 
+/// Split on every `separator` that is not inside a quoted string. If `escapes` is set a backslash
+/// inside a quoted string escapes the character after it, as in a
+/// [`quoted-string`](https://tools.ietf.org/html/rfc7230#section-3.2.6); an
+/// [`opaque-tag`](https://tools.ietf.org/html/rfc7232#section-2.3) knows no escapes.
+pub(crate) fn split_unquoted(
+    input: &str,
+    separator: char,
+    escapes: bool,
+) -> impl Iterator<Item = &str> {
+    let mut quoted = false;
+    let mut escaped = false;
+    input.split(move |c| {
+        if escaped {
+            escaped = false;
+        } else if c == '"' {
+            quoted = !quoted;
+        } else if c == '\\' {
+            escaped = quoted && escapes;
+        } else {
+            return c == separator && !quoted;
+        }
+        false
+    })
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
-- 
2.43.0


From e8b93429212a4c44f7e4fcf82466613f0ba65d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:55 +0000
Subject: [PATCH 20/50] fix: write and read Server-Timing descriptions as
 quoted strings

---
 src/trace/server_timing/metric.rs |  7 ++++++-
 src/trace/server_timing/parse.rs  | 28 ++++++++++++++--------------
 2 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/trace/server_timing/metric.rs b/src/trace/server_timing/metric.rs
index ed55c18..618dc4b 100644
--- a/src/trace/server_timing/metric.rs
+++ b/src/trace/server_timing/metric.rs
@@ -59,7 +59,12 @@ impl From<Metric> for HeaderValue {
         // Format a `Duration` into the format that the spec expects.
         let f = |d: Duration| d.as_secs_f64() * 1000.0;
 
-        match (entry.dur, entry.desc) {
+        // The description is written as a `quoted-string`.
+        let desc = entry
+            .desc
+            .map(|desc| desc.replace('\\', "\\\\").replace('"', "\\\""));
+
+        match (entry.dur, desc) {
             (Some(dur), Some(desc)) => {
                 string.push_str(&format!("; dur={}; desc=\"{}\"", f(dur), desc))
             }
diff --git a/src/trace/server_timing/parse.rs b/src/trace/server_timing/parse.rs
index 1767096..15ad081 100644
--- a/src/trace/server_timing/parse.rs
+++ b/src/trace/server_timing/parse.rs
@@ -1,13 +1,14 @@
 use std::time::Duration;
 
 use super::Metric;
-use crate::{ensure, format_err, StatusCode};
+use crate::parse_utils::{parse_quoted_string, split_unquoted};
+use crate::{bail, ensure, format_err, StatusCode};
 
 /// Parse multiple entries from a single header.
 ///
 /// Each entry is comma-delimited.
 pub(super) fn parse_header(s: &str, entries: &mut Vec<Metric>) -> crate::Result<()> {
-    for part in s.trim().split(',') {
+    for part in split_unquoted(s.trim(), ',', true) {
         if part.trim().is_empty() {
             continue;
         }
@@ -33,7 +34,7 @@ pub(super) fn parse_header(s: &str, entries: &mut Vec<Metric>) -> crate::Result<
 //
 /// Source: https://w3c.github.io/server-timing/#the-server-timing-header-field
 fn parse_entry(s: &str) -> crate::Result<Metric> {
-    let mut parts = s.trim().split(';');
+    let mut parts = split_unquoted(s.trim(), ';', true);
 
     // Get the name. This is non-optional.
     let name = parts
@@ -53,12 +54,12 @@ fn parse_entry(s: &str) -> crate::Result<Metric> {
 
         part = part.trim_start();
 
-        let mut params = part.split('=');
+        let mut params = part.splitn(2, '=');
         let name = params
             .next()
             .ok_or_else(|| format_err!("Server timing params must have a name"))?
             .trim_end();
-        let mut value = params
+        let value = params
             .next()
             .ok_or_else(|| format_err!("Server timing params must have a value"))?
             .trim_start();
@@ -75,20 +76,19 @@ fn parse_entry(s: &str) -> crate::Result<Metric> {
             }
             "desc" => {
                 // Ensure quotes line up, and strip them from the resulting output
-                if value.starts_with('"') {
-                    value = &value[1..value.len()];
-                    ensure!(
-                        value.ends_with('"'),
-                        "Server timing description params must use matching quotes"
-                    );
-                    value = &value[0..value.len() - 1];
+                let value = if value.starts_with('"') {
+                    match parse_quoted_string(value) {
+                        (Some(value), "") => value.into_owned(),
+                        _ => bail!("Server timing description params must use matching quotes"),
+                    }
                 } else {
                     ensure!(
                         !value.ends_with('"'),
                         "Server timing description params must use matching quotes"
                     );
-                }
-                desc = Some(value.to_string());
+                    value.to_string()
+                };
+                desc = Some(value);
             }
             _ => continue,
         }
-- 
2.43.0


From fc3a881a0737452dfd01227fd30892c728fa44d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:16 +0000
Subject: [PATCH 21/50] fix: read the HSTS includeSubdomains directive in any
 case

---
 src/security/strict_transport_security.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/security/strict_transport_security.rs b/src/security/strict_transport_security.rs
index f6c4fe4..45a77d8 100644
--- a/src/security/strict_transport_security.rs
+++ b/src/security/strict_transport_security.rs
@@ -111,9 +111,9 @@ impl StrictTransportSecurity {
         // the spec we should just ignore it.
         for s in value.as_str().split(';') {
             let s = s.trim();
-            if s == "includesubdomains" {
+            if s.eq_ignore_ascii_case("includesubdomains") {
                 include_subdomains = true;
-            } else if s == "preload" {
+            } else if s.eq_ignore_ascii_case("preload") {
                 preload = true;
             } else {
                 let (key, value) = match s.split_once('=') {
-- 
2.43.0


From 4c7c98c8d3137174313267ea1502facacaa2dbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:17 +0000
Subject: [PATCH 22/50] fix: write the s-maxage cache directive under its own
 name

---
 src/cache/cache_control/cache_directive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cache/cache_control/cache_directive.rs b/src/cache/cache_control/cache_directive.rs
index 5e8b0b9..f8f12a0 100644
--- a/src/cache/cache_control/cache_directive.rs
+++ b/src/cache/cache_control/cache_directive.rs
@@ -148,7 +148,7 @@ impl From<CacheDirective> for HeaderValue {
             Private => h("private".to_string()),
             ProxyRevalidate => h("proxy-revalidate".to_string()),
             Public => h("public".to_string()),
-            SMaxAge(dur) => h(format!("s-max-age={}", dur.as_secs())),
+            SMaxAge(dur) => h(format!("s-maxage={}", dur.as_secs())),
             StaleIfError(dur) => h(format!("stale-if-error={}", dur.as_secs())),
             StaleWhileRevalidate(dur) => h(format!("stale-while-revalidate={}", dur.as_secs())),
         }
-- 
2.43.0


From 82d8c24864c1c9b4d801409ba5297ce477f9440e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:17 +0000
Subject: [PATCH 23/50] fix: do not repeat Content-Security-Policy directives
 when applied again

---
 src/security/csp.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/security/csp.rs b/src/security/csp.rs
index 9478f34..30890d9 100644
--- a/src/security/csp.rs
+++ b/src/security/csp.rs
@@ -346,12 +346,13 @@ impl ContentSecurityPolicy {
 
     /// Create and retrieve the policy value
     fn value(&mut self) -> String {
+        let mut policies = self.policy.clone();
         for (directive, sources) in &self.directives {
             let policy = format!("{} {}", directive, sources.join(" "));
-            self.policy.push(policy);
-            self.policy.sort();
+            policies.push(policy);
+            policies.sort();
         }
-        self.policy.join("; ")
+        policies.join("; ")
     }
 
     /// Sets the `Content-Security-Policy` (CSP) HTTP header to prevent cross-site injections
-- 
2.43.0


From 53dcb879590c168d1b5549f24ad43c4fd5149e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:10 +0000
Subject: [PATCH 24/50] fix: ignore whitespace after Timing-Allow-Origin
 members

---
 src/security/timing_allow_origin.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/security/timing_allow_origin.rs b/src/security/timing_allow_origin.rs
index c112ba9..804fc3b 100644
--- a/src/security/timing_allow_origin.rs
+++ b/src/security/timing_allow_origin.rs
@@ -87,7 +87,7 @@ impl TimingAllowOrigin {
         let mut origins = vec![];
         for header in headers {
             for origin in header.as_str().split(',') {
-                match origin.trim_start() {
+                match origin.trim() {
                     "" => continue,
                     "*" => wildcard = true,
                     r#""null""# => continue,
-- 
2.43.0


From 4cc0e1583d07537f3cf9bb518587a93125a61b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:42 +0000
Subject: [PATCH 25/50] fix: do not reserve memory for a body's declared length

---
 src/body.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/body.rs b/src/body.rs
index d71433b..db7a0e9 100644
--- a/src/body.rs
+++ b/src/body.rs
@@ -226,7 +226,8 @@ impl Body {
     /// ```
     pub async fn into_string(mut self) -> crate::Result<String> {
         let len = usize::try_from(self.len().unwrap_or(0)).status(StatusCode::PayloadTooLarge)?;
-        let mut result = String::with_capacity(len);
+        // The declared length comes from the sender, so don't reserve memory by it alone.
+        let mut result = String::with_capacity(len.min(8 * 1024));
         self.read_to_string(&mut result)
             .await
             .status(StatusCode::UnprocessableEntity)?;
-- 
2.43.0


From 17645dc519be98e3f54f66d7bcde95e109c77147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:04 +0000
Subject: [PATCH 26/50] fix: find a request's remote and host in any Forwarded
 list

A list of more than one proxy, a value in quotes, or a pair on a later line
made remote() and host() skip the Forwarded header and fall back to a less
trusted source (or return the quotes).
---
 src/request.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index 6b3bb35..819fb8f 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -13,6 +13,7 @@ use crate::headers::{
     CONTENT_TYPE,
 };
 use crate::mime::Mime;
+use crate::parse_utils::split_unquoted;
 use crate::trailers::{self, Trailers};
 use crate::{Body, Extensions, Method, Url, Version};
 
@@ -123,14 +124,20 @@ impl Request {
 
     fn forwarded_header_part(&self, part: &str) -> Option<&str> {
         self.header("Forwarded").and_then(|header| {
-            header.as_str().split(';').find_map(|key_equals_value| {
-                let parts = key_equals_value.split('=').collect::<Vec<_>>();
-                if parts.len() == 2 && parts[0].eq_ignore_ascii_case(part) {
-                    Some(parts[1])
-                } else {
-                    None
-                }
-            })
+            header
+                .iter()
+                .flat_map(|line| split_unquoted(line.as_str(), ',', true))
+                .flat_map(|element| split_unquoted(element, ';', true))
+                .find_map(|key_equals_value| {
+                    let mut parts = key_equals_value.trim().splitn(2, '=');
+                    let (key, value) = (parts.next()?, parts.next()?);
+                    if key.eq_ignore_ascii_case(part) {
+                        let unquoted = value.strip_prefix('"').and_then(|v| v.strip_suffix('"'));
+                        Some(unquoted.unwrap_or(value))
+                    } else {
+                        None
+                    }
+                })
         })
     }
 
-- 
2.43.0


From ef9d4ff1c418bc6c1537493da3abe9cd6d6f33c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:04 +0000
Subject: [PATCH 27/50] fix: read every line of Forwarded and X-Forwarded-For

Only the first line was read, so the entries of proxies that add a line of
their own were lost.
---
 src/proxies/forwarded.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/proxies/forwarded.rs b/src/proxies/forwarded.rs
index 9d0516f..4e05d29 100644
--- a/src/proxies/forwarded.rs
+++ b/src/proxies/forwarded.rs
@@ -111,8 +111,16 @@ impl<'a> Forwarded<'a> {
     pub fn from_forwarded_header(
         headers: &'a impl AsRef<Headers>,
     ) -> Result<Option<Self>, ParseError> {
-        if let Some(headers) = headers.as_ref().get(FORWARDED) {
-            Ok(Some(Self::parse(headers.as_ref().as_str())?))
+        if let Some(lines) = headers.as_ref().get(FORWARDED) {
+            let mut forwarded = Self::new();
+            for line in lines {
+                let line = Self::parse(line.as_str())?;
+                forwarded.forwarded_for.extend(line.forwarded_for);
+                forwarded.by = forwarded.by.or(line.by);
+                forwarded.host = forwarded.host.or(line.host);
+                forwarded.proto = forwarded.proto.or(line.proto);
+            }
+            Ok(Some(forwarded))
         } else {
             Ok(None)
         }
@@ -149,8 +157,8 @@ impl<'a> Forwarded<'a> {
         let forwarded_for: Vec<Cow<'a, str>> = headers
             .get(X_FORWARDED_FOR)
             .map(|hv| {
-                hv.as_str()
-                    .split(',')
+                hv.iter()
+                    .flat_map(|line| line.as_str().split(','))
                     .map(|v| {
                         let v = v.trim();
                         match v.parse::<IpAddr>().ok() {
-- 
2.43.0


From 5b67b106b2638f1544e4a44ebbc6c5f14b05e6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:53 +0000
Subject: [PATCH 28/50] fix: read the by, host and proto keys of Forwarded in
 any case

---
 src/proxies/forwarded.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/proxies/forwarded.rs b/src/proxies/forwarded.rs
index 4e05d29..68013fb 100644
--- a/src/proxies/forwarded.rs
+++ b/src/proxies/forwarded.rs
@@ -237,7 +237,7 @@ impl<'a> Forwarded<'a> {
         }
         .ok_or_else(|| ParseError::new("parse error in forwarded-pair"))?;
 
-        match key {
+        match key.to_ascii_lowercase().as_str() {
             "by" => {
                 if self.by.is_some() {
                     return Err(ParseError::new("parse error, duplicate `by` key"));
-- 
2.43.0


From d92f45fae760c6d758e4e844c0762e9ac71898cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:25 +0000
Subject: [PATCH 29/50] fix: escape quotes and backslashes in the
 WWW-Authenticate realm

---
 src/auth/www_authenticate.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/auth/www_authenticate.rs b/src/auth/www_authenticate.rs
index bf9d7a0..7ab319f 100644
--- a/src/auth/www_authenticate.rs
+++ b/src/auth/www_authenticate.rs
@@ -76,16 +76,18 @@ impl WwwAuthenticate {
 
         let mut chars = realm.chars();
         let mut closing_quote = false;
-        let realm = (&mut chars)
-            .take_while(|c| {
-                if c == &'"' {
+        let mut realm = String::new();
+        while let Some(c) = chars.next() {
+            match c {
+                '"' => {
                     closing_quote = true;
-                    false
-                } else {
-                    true
+                    break;
                 }
-            })
-            .collect();
+                // A quoted pair stands for its second character.
+                '\\' => realm.extend(chars.next()),
+                c => realm.push(c),
+            }
+        }
         if !closing_quote {
             bail!(400, r"Expected a closing quote");
         }
@@ -120,7 +122,14 @@ impl Header for WwwAuthenticate {
     }
 
     fn header_value(&self) -> HeaderValue {
-        let output = format!(r#"{} realm="{}", charset="UTF-8""#, self.scheme, self.realm);
+        let mut realm = String::with_capacity(self.realm.len());
+        for c in self.realm.chars() {
+            if let '\\' | '"' = c {
+                realm.push('\\');
+            }
+            realm.push(c);
+        }
+        let output = format!(r#"{} realm="{}", charset="UTF-8""#, self.scheme, realm);
 
         // SAFETY: the internal string is validated to be ASCII.
         unsafe { HeaderValue::from_bytes_unchecked(output.into()) }
-- 
2.43.0


From 0d311e8d7f0c8631a1f78ff9e2b52e0de688b542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:03 +0000
Subject: [PATCH 30/50] fix: read content and transfer codings in any case

---
 src/content/encoding.rs  | 2 +-
 src/transfer/encoding.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/content/encoding.rs b/src/content/encoding.rs
index 992194e..73a1871 100644
--- a/src/content/encoding.rs
+++ b/src/content/encoding.rs
@@ -27,7 +27,7 @@ impl Encoding {
             return None;
         }
 
-        match s {
+        match s.to_ascii_lowercase().as_str() {
             "gzip" => Some(Encoding::Gzip),
             "deflate" => Some(Encoding::Deflate),
             "br" => Some(Encoding::Brotli),
diff --git a/src/transfer/encoding.rs b/src/transfer/encoding.rs
index c64b3a4..f521599 100644
--- a/src/transfer/encoding.rs
+++ b/src/transfer/encoding.rs
@@ -31,7 +31,7 @@ impl Encoding {
             return None;
         }
 
-        match s {
+        match s.to_ascii_lowercase().as_str() {
             "chunked" => Some(Encoding::Chunked),
             "gzip" => Some(Encoding::Gzip),
             "deflate" => Some(Encoding::Deflate),
-- 
2.43.0


From 7d7487b15609efdc5866769d5b4b9ecae239413d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:43 +0000
Subject: [PATCH 31/50] fix: read the Expect header's value in any case

---
 src/other/expect.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/other/expect.rs b/src/other/expect.rs
index 086c0d0..e13c17b 100644
--- a/src/other/expect.rs
+++ b/src/other/expect.rs
@@ -1,5 +1,5 @@
 use crate::headers::{HeaderName, HeaderValue, Headers, EXPECT};
-use crate::{ensure_eq_status, headers::Header};
+use crate::{ensure_status, headers::Header};
 
 use std::fmt::Debug;
 
@@ -50,7 +50,9 @@ impl Expect {
         // If we successfully parsed the header then there's always at least one
         // entry. We want the last entry.
         let header = headers.iter().last().unwrap();
-        ensure_eq_status!(header, "100-continue", 400, "malformed `Expect` header");
+        // The field value is case-insensitive.
+        let expected = header.as_str().eq_ignore_ascii_case("100-continue");
+        ensure_status!(expected, 400, "malformed `Expect` header");
 
         Ok(Some(Self { _priv: () }))
     }
-- 
2.43.0


From 06ae0e56945e05e9f20220c0ccae6e1ecdafce1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:04 +0000
Subject: [PATCH 32/50] fix: accept white space and capitals in weights

---
 src/utils/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 9c9ea92..879753f 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -11,8 +11,8 @@ use std::str::FromStr;
 
 /// Parse a weight of the form `q=0.123`.
 pub(crate) fn parse_weight(s: &str) -> crate::Result<f32> {
-    let mut parts = s.split('=');
-    if !matches!(parts.next(), Some("q")) {
+    let mut parts = s.trim().split('=');
+    if !matches!(parts.next(), Some("q") | Some("Q")) {
         let mut err = Error::new_adhoc("invalid weight");
         err.set_status(StatusCode::BadRequest);
         return Err(err);
-- 
2.43.0


From bde98d2fbacf6fa3fcaa348f3535a72600575786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:53 +0000
Subject: [PATCH 33/50] fix: accept white space and capitals in Server-Timing
 parameters

---
 src/trace/server_timing/parse.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trace/server_timing/parse.rs b/src/trace/server_timing/parse.rs
index 15ad081..976741f 100644
--- a/src/trace/server_timing/parse.rs
+++ b/src/trace/server_timing/parse.rs
@@ -52,7 +52,7 @@ fn parse_entry(s: &str) -> crate::Result<Metric> {
             "Server timing params cannot end with a trailing `;`"
         );
 
-        part = part.trim_start();
+        part = part.trim();
 
         let mut params = part.splitn(2, '=');
         let name = params
@@ -64,7 +64,7 @@ fn parse_entry(s: &str) -> crate::Result<Metric> {
             .ok_or_else(|| format_err!("Server timing params must have a value"))?
             .trim_start();
 
-        match name {
+        match name.to_ascii_lowercase().as_str() {
             "dur" => {
                 let millis: f64 = value.parse().map_err(|_| {
                         format_err!("Server timing duration params must be a valid double-precision floating-point number.")
-- 
2.43.0


From e3685506661b2bf65cf7041a9cb39079c0fcac8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:31 +0000
Subject: [PATCH 34/50] fix: read max-age of Strict-Transport-Security quoted
 and in any case

---
 src/security/strict_transport_security.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/security/strict_transport_security.rs b/src/security/strict_transport_security.rs
index 45a77d8..ca51d66 100644
--- a/src/security/strict_transport_security.rs
+++ b/src/security/strict_transport_security.rs
@@ -121,8 +121,10 @@ impl StrictTransportSecurity {
                     None => continue, // We don't recognize the directive, continue.
                 };
 
-                if key == "max-age" {
-                    let secs = value.parse::<u64>().status(400)?;
+                if key.trim_end().eq_ignore_ascii_case("max-age") {
+                    let value = value.trim_start();
+                    let unquoted = value.strip_prefix('"').and_then(|v| v.strip_suffix('"'));
+                    let secs = unquoted.unwrap_or(value).parse::<u64>().status(400)?;
                     max_age = Some(Duration::from_secs(secs));
                 }
             }
-- 
2.43.0


From f6f2ad1c77e3b8db7a96cbcaded561388536e1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:13 +0000
Subject: [PATCH 35/50] fix: negotiation refuses zero weights, honours the most
 specific range, and keeps its answer when repeated

---
 src/content/accept.rs              | 26 ++++++++++++++++++++------
 src/content/accept_encoding.rs     | 16 ++++++++++------
 src/content/media_type_proposal.rs | 10 ++++++++++
 src/transfer/te.rs                 | 16 ++++++++++------
 4 files changed, 50 insertions(+), 18 deletions(-)

diff --git a/src/content/accept.rs b/src/content/accept.rs
index 5805101..1e07267 100644
--- a/src/content/accept.rs
+++ b/src/content/accept.rs
@@ -125,19 +125,33 @@ impl Accept {
     ///
     /// If no suitable encoding is found, an error with the status of `406` will be returned.
     pub fn negotiate(&mut self, available: &[Mime]) -> crate::Result<ContentType> {
-        // Start by ordering the encodings.
-        self.sort();
+        // Start by ordering the encodings. The declared order is kept, so that
+        // negotiating again gives the same answer.
+        let mut entries = self.entries.clone();
+        sort_by_weight(&mut entries);
+
+        // The weight of a media type is set by the most specific entry for it.
+        let precedence = |media_type: &Mime| {
+            entries
+                .iter()
+                .filter(|e| media_type.subset_eq(e.media_type()))
+                .map(|e| e.specificity())
+                .max()
+        };
 
-        // Try and find the first encoding that matches.
-        for accept in &self.entries {
-            if let Some(accept) = available.iter().find(|m| m.subset_eq(accept.media_type())) {
+        // Try and find the first encoding that matches. A weight of zero means
+        // "not acceptable".
+        for accept in entries.iter().filter(|e| e.weight() != Some(0.0)) {
+            if let Some(accept) = available.iter().find(|m| {
+                m.subset_eq(accept.media_type()) && precedence(m) == Some(accept.specificity())
+            }) {
                 return Ok(accept.clone().into());
             }
         }
 
         // If no encoding matches and wildcard is set, send whichever encoding we got.
         if self.wildcard {
-            if let Some(accept) = available.iter().next() {
+            if let Some(accept) = available.iter().find(|m| precedence(m).is_none()) {
                 return Ok(accept.clone().into());
             }
         }
diff --git a/src/content/accept_encoding.rs b/src/content/accept_encoding.rs
index 5c469a4..993aa22 100644
--- a/src/content/accept_encoding.rs
+++ b/src/content/accept_encoding.rs
@@ -116,11 +116,14 @@ impl AcceptEncoding {
     ///
     /// If no suitable encoding is found, an error with the status of `406` will be returned.
     pub fn negotiate(&mut self, available: &[Encoding]) -> crate::Result<ContentEncoding> {
-        // Start by ordering the encodings.
-        self.sort();
-
-        // Try and find the first encoding that matches.
-        for encoding in &self.entries {
+        // Start by ordering the encodings. The declared order is kept, so that
+        // negotiating again gives the same answer.
+        let mut entries = self.entries.clone();
+        sort_by_weight(&mut entries);
+
+        // Try and find the first encoding that matches. A weight of zero means
+        // "not acceptable".
+        for encoding in entries.iter().filter(|e| e.weight() != Some(0.0)) {
             if available.contains(encoding) {
                 return Ok(encoding.into());
             }
@@ -128,7 +131,8 @@ impl AcceptEncoding {
 
         // If no encoding matches and wildcard is set, send whichever encoding we got.
         if self.wildcard {
-            if let Some(encoding) = available.iter().next() {
+            let listed = |a: &Encoding| self.entries.iter().any(|e| e == *a);
+            if let Some(encoding) = available.iter().find(|a| !listed(a)) {
                 return Ok(encoding.into());
             }
         }
diff --git a/src/content/media_type_proposal.rs b/src/content/media_type_proposal.rs
index 622558d..a94fc52 100644
--- a/src/content/media_type_proposal.rs
+++ b/src/content/media_type_proposal.rs
@@ -52,6 +52,16 @@ impl MediaTypeProposal {
         self.weight
     }
 
+    /// How closely the proposal describes a media type: `*/*` least, then
+    /// `type/*`, then `type/subtype`, then by the number of parameters.
+    pub(crate) fn specificity(&self) -> (bool, bool, usize) {
+        (
+            self.media_type.basetype() != "*",
+            self.media_type.subtype() != "*",
+            self.media_type.params.len(),
+        )
+    }
+
     /// Parse a string into a media type proposal.
     ///
     /// Because `;` and `q=0.0` are all valid values for in use in a media type,
diff --git a/src/transfer/te.rs b/src/transfer/te.rs
index acd1af8..202386b 100644
--- a/src/transfer/te.rs
+++ b/src/transfer/te.rs
@@ -114,11 +114,14 @@ impl TE {
     ///
     /// If no suitable encoding is found, an error with the status of `406` will be returned.
     pub fn negotiate(&mut self, available: &[Encoding]) -> crate::Result<TransferEncoding> {
-        // Start by ordering the encodings.
-        self.sort();
-
-        // Try and find the first encoding that matches.
-        for encoding in &self.entries {
+        // Start by ordering the encodings. The declared order is kept, so that
+        // negotiating again gives the same answer.
+        let mut entries = self.entries.clone();
+        sort_by_weight(&mut entries);
+
+        // Try and find the first encoding that matches. A weight of zero means
+        // "not acceptable".
+        for encoding in entries.iter().filter(|e| e.weight() != Some(0.0)) {
             if available.contains(encoding) {
                 return Ok(encoding.into());
             }
@@ -126,7 +129,8 @@ impl TE {
 
         // If no encoding matches and wildcard is set, send whichever encoding we got.
         if self.wildcard {
-            if let Some(encoding) = available.iter().next() {
+            let listed = |a: &Encoding| self.entries.iter().any(|e| e == *a);
+            if let Some(encoding) = available.iter().find(|a| !listed(a)) {
                 return Ok(encoding.into());
             }
         }
-- 
2.43.0


From 2a4200c6bf73e09d30659cd617c795a80facb9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:46 +0000
Subject: [PATCH 36/50] fix: read a wildcard with a weight in Accept,
 Accept-Encoding and TE

---
 src/content/accept.rs          |  6 +++---
 src/content/accept_encoding.rs |  6 +++---
 src/transfer/te.rs             |  6 +++---
 src/utils/mod.rs               | 12 ++++++++++++
 4 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/content/accept.rs b/src/content/accept.rs
index 1e07267..d459d4a 100644
--- a/src/content/accept.rs
+++ b/src/content/accept.rs
@@ -3,7 +3,7 @@
 use crate::headers::{HeaderName, HeaderValue, Headers, ACCEPT};
 use crate::mime::Mime;
 use crate::parse_utils::split_unquoted;
-use crate::utils::sort_by_weight;
+use crate::utils::{parse_wildcard, sort_by_weight};
 use crate::{
     content::{ContentType, MediaTypeProposal},
     headers::Header,
@@ -80,8 +80,8 @@ impl Accept {
                 // Handle empty strings, and wildcard directives.
                 if part.is_empty() {
                     continue;
-                } else if part == "*" {
-                    wildcard = true;
+                } else if let Some(accepted) = parse_wildcard(part)? {
+                    wildcard = accepted;
                     continue;
                 }
 
diff --git a/src/content/accept_encoding.rs b/src/content/accept_encoding.rs
index 993aa22..246150e 100644
--- a/src/content/accept_encoding.rs
+++ b/src/content/accept_encoding.rs
@@ -1,7 +1,7 @@
 //! Client header advertising available compression algorithms.
 
 use crate::headers::{HeaderName, HeaderValue, Headers, ACCEPT_ENCODING};
-use crate::utils::sort_by_weight;
+use crate::utils::{parse_wildcard, sort_by_weight};
 use crate::{
     content::{ContentEncoding, Encoding, EncodingProposal},
     headers::Header,
@@ -70,8 +70,8 @@ impl AcceptEncoding {
                 // Handle empty strings, and wildcard directives.
                 if part.is_empty() {
                     continue;
-                } else if part == "*" {
-                    wildcard = true;
+                } else if let Some(accepted) = parse_wildcard(part)? {
+                    wildcard = accepted;
                     continue;
                 }
 
diff --git a/src/transfer/te.rs b/src/transfer/te.rs
index 202386b..42a254e 100644
--- a/src/transfer/te.rs
+++ b/src/transfer/te.rs
@@ -1,6 +1,6 @@
 use crate::headers::{self, Header, HeaderName, HeaderValue, Headers};
 use crate::transfer::{Encoding, EncodingProposal, TransferEncoding};
-use crate::utils::sort_by_weight;
+use crate::utils::{parse_wildcard, sort_by_weight};
 use crate::{Error, StatusCode};
 
 use std::fmt::{self, Debug, Write};
@@ -68,8 +68,8 @@ impl TE {
                 // Handle empty strings, and wildcard directives.
                 if part.is_empty() {
                     continue;
-                } else if part == "*" {
-                    wildcard = true;
+                } else if let Some(accepted) = parse_wildcard(part)? {
+                    wildcard = accepted;
                     continue;
                 }
 
diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 879753f..a8ec6e5 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -30,6 +30,18 @@ pub(crate) fn parse_weight(s: &str) -> crate::Result<f32> {
     }
 }
 
+/// Parse a wildcard list member, with or without a weight: `*` or `*;q=0.5`.
+///
+/// Returns whether it accepts anything, or `None` if it's not a wildcard.
+pub(crate) fn parse_wildcard(s: &str) -> crate::Result<Option<bool>> {
+    let mut parts = s.splitn(2, ';');
+    if parts.next().map(str::trim) != Some("*") {
+        return Ok(None);
+    }
+    let weight = parts.next().map(parse_weight).transpose()?;
+    Ok(Some(weight != Some(0.0)))
+}
+
 /// Order proposals by weight. Try ordering by q value first. If equal or undefined,
 /// order by index, favoring the latest provided value.
 pub(crate) fn sort_by_weight<T: PartialOrd + Clone>(props: &mut Vec<T>) {
-- 
2.43.0


From 3eb2d5ef73093637ebb2ca944d0fa03478d56c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:33 +0000
Subject: [PATCH 37/50] fix: media types without a weight count as fully wanted
 before they are sent, too

---
 src/content/media_type_proposal.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/content/media_type_proposal.rs b/src/content/media_type_proposal.rs
index a94fc52..026ff24 100644
--- a/src/content/media_type_proposal.rs
+++ b/src/content/media_type_proposal.rs
@@ -3,10 +3,7 @@ use crate::headers::HeaderValue;
 use crate::mime::Mime;
 
 use std::ops::{Deref, DerefMut};
-use std::{
-    cmp::{Ordering, PartialEq},
-    str::FromStr,
-};
+use std::{cmp::PartialEq, str::FromStr};
 
 /// A proposed Media Type for the `Accept` header.
 #[derive(Debug, Clone, PartialEq)]
@@ -126,12 +123,9 @@ impl DerefMut for MediaTypeProposal {
 // that needs to be handled separately.
 impl PartialOrd for MediaTypeProposal {
     fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
-        match (self.weight, other.weight) {
-            (Some(left), Some(right)) => left.partial_cmp(&right),
-            (Some(_), None) => Some(Ordering::Greater),
-            (None, Some(_)) => Some(Ordering::Less),
-            (None, None) => None,
-        }
+        // Without a weight a proposal counts as if it had a weight of 1.
+        let (left, right) = (self.weight.unwrap_or(1.0), other.weight.unwrap_or(1.0));
+        left.partial_cmp(&right)
     }
 }
 
-- 
2.43.0


From 2ac014d404eb42a64dbc58f977c2803e7185b57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:26 +0000
Subject: [PATCH 38/50] fix: powered_by replaces and removes the X-Powered-By
 header it names

---
 src/security/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/security/mod.rs b/src/security/mod.rs
index 2cb9b6a..a541440 100644
--- a/src/security/mod.rs
+++ b/src/security/mod.rs
@@ -118,7 +118,7 @@ pub fn frameguard(mut headers: impl AsMut<Headers>, guard: Option<FrameOptions>)
 // /// ```
 #[inline]
 pub fn powered_by(mut headers: impl AsMut<Headers>, value: Option<HeaderValue>) {
-    let name = HeaderName::from_lowercase_str("X-Powered-By");
+    let name = HeaderName::from_lowercase_str("x-powered-by");
     match value {
         Some(value) => {
             // Can never fail as value is already a HeaderValue, could use unsafe version of insert
-- 
2.43.0


From de5bdc7f7713567cb3912c4f552bb9848c7152c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:59 +0000
Subject: [PATCH 39/50] fix: spaces after the scheme are not part of
 Authorization credentials

---
 src/auth/authorization.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/auth/authorization.rs b/src/auth/authorization.rs
index cf2f2dd..598b988 100644
--- a/src/auth/authorization.rs
+++ b/src/auth/authorization.rs
@@ -62,7 +62,10 @@ impl Authorization {
         let (scheme, credentials) = match (scheme, credential) {
             (None, _) => bail!(400, "Could not find scheme"),
             (Some(_), None) => bail!(400, "Could not find credentials"),
-            (Some(scheme), Some(credentials)) => (scheme.parse()?, credentials.to_owned()),
+            // Any number of spaces may follow the scheme.
+            (Some(scheme), Some(credentials)) => {
+                (scheme.parse()?, credentials.trim_start().to_owned())
+            }
         };
 
         Ok(Some(Self {
-- 
2.43.0


From 8312859682623a9957a306a2fe4ea6b0605f099d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:59 +0000
Subject: [PATCH 40/50] fix: read the realm of WWW-Authenticate wherever and
 however spelled it stands

---
 src/auth/www_authenticate.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/auth/www_authenticate.rs b/src/auth/www_authenticate.rs
index 7ab319f..02d6a6b 100644
--- a/src/auth/www_authenticate.rs
+++ b/src/auth/www_authenticate.rs
@@ -1,5 +1,6 @@
 use crate::bail_status as bail;
 use crate::headers::{HeaderName, HeaderValue, Headers, WWW_AUTHENTICATE};
+use crate::parse_utils::split_unquoted;
 use crate::{auth::AuthenticationScheme, headers::Header};
 
 /// Define the authentication method that should be used to gain access to a
@@ -68,8 +69,12 @@ impl WwwAuthenticate {
             (Some(scheme), Some(realm)) => (scheme.parse()?, realm.to_owned()),
         };
 
-        let realm = realm.trim_start();
-        let realm = match realm.strip_prefix(r#"realm=""#) {
+        // The parameters come in any order, their names in any case.
+        let realm = split_unquoted(&realm, ',', true)
+            .filter_map(|param| param.split_once('='))
+            .find(|(name, _)| name.trim().eq_ignore_ascii_case("realm"))
+            .and_then(|(_, value)| value.trim_start().strip_prefix('"'));
+        let realm = match realm {
             Some(realm) => realm,
             None => bail!(400, "realm not found"),
         };
-- 
2.43.0


From 809ef21aa589f3729f7bc0f0280c52f999e1da4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:34 +0000
Subject: [PATCH 41/50] fix: header lists refused for their content answer with
 400

Accept, Accept-Encoding, TE and Allow members that cannot be read gave an
error with status 500, as if the reader were at fault.
---
 src/content/encoding_proposal.rs   |  3 ++-
 src/content/media_type_proposal.rs | 10 ++++++----
 src/server/allow.rs                |  4 ++--
 src/transfer/encoding_proposal.rs  |  3 ++-
 4 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/content/encoding_proposal.rs b/src/content/encoding_proposal.rs
index 7d32944..65c24dd 100644
--- a/src/content/encoding_proposal.rs
+++ b/src/content/encoding_proposal.rs
@@ -2,6 +2,7 @@ use crate::content::Encoding;
 use crate::ensure;
 use crate::headers::HeaderValue;
 use crate::utils::parse_weight;
+use crate::Status;
 
 use std::cmp::{Ordering, PartialEq};
 use std::ops::{Deref, DerefMut};
@@ -52,7 +53,7 @@ impl EncodingProposal {
         };
         let weight = parts.next().map(parse_weight).transpose()?;
 
-        Ok(Some(Self::new(encoding, weight)?))
+        Ok(Some(Self::new(encoding, weight).status(400)?))
     }
 }
 
diff --git a/src/content/media_type_proposal.rs b/src/content/media_type_proposal.rs
index 026ff24..767fb3a 100644
--- a/src/content/media_type_proposal.rs
+++ b/src/content/media_type_proposal.rs
@@ -1,6 +1,7 @@
 use crate::ensure;
 use crate::headers::HeaderValue;
 use crate::mime::Mime;
+use crate::Status;
 
 use std::ops::{Deref, DerefMut};
 use std::{cmp::PartialEq, str::FromStr};
@@ -65,12 +66,13 @@ impl MediaTypeProposal {
     /// we have to parse the full string to the media type first, and then see if
     /// a `q` value has been set.
     pub(crate) fn from_str(s: &str) -> crate::Result<Self> {
-        let mut media_type = Mime::from_str(s)?;
+        let mut media_type = Mime::from_str(s).status(400)?;
         let weight = media_type
             .remove_param("q")
-            .map(|param| param.as_str().parse())
-            .transpose()?;
-        Self::new(media_type, weight)
+            .map(|param| param.as_str().parse::<f32>())
+            .transpose()
+            .status(400)?;
+        Self::new(media_type, weight).status(400)
     }
 }
 
diff --git a/src/server/allow.rs b/src/server/allow.rs
index bbe6938..f47c5f6 100644
--- a/src/server/allow.rs
+++ b/src/server/allow.rs
@@ -1,7 +1,7 @@
 //! List the set of methods supported by a resource.
 
 use crate::headers::{Header, HeaderName, HeaderValue, Headers, ALLOW};
-use crate::Method;
+use crate::{Method, Status};
 
 use std::collections::{hash_set, HashSet};
 use std::fmt::{self, Debug, Write};
@@ -62,7 +62,7 @@ impl Allow {
                 if part.is_empty() {
                     continue;
                 }
-                let method = Method::from_str(part)?;
+                let method = Method::from_str(part).status(400)?;
                 entries.insert(method);
             }
         }
diff --git a/src/transfer/encoding_proposal.rs b/src/transfer/encoding_proposal.rs
index 72f083d..7e6e032 100644
--- a/src/transfer/encoding_proposal.rs
+++ b/src/transfer/encoding_proposal.rs
@@ -2,6 +2,7 @@ use crate::ensure;
 use crate::headers::HeaderValue;
 use crate::transfer::Encoding;
 use crate::utils::parse_weight;
+use crate::Status;
 
 use std::cmp::{Ordering, PartialEq};
 use std::ops::{Deref, DerefMut};
@@ -54,7 +55,7 @@ impl EncodingProposal {
         };
         let weight = parts.next().map(parse_weight).transpose()?;
 
-        Ok(Some(Self::new(encoding, weight)?))
+        Ok(Some(Self::new(encoding, weight).status(400)?))
     }
 }
 
-- 
2.43.0


From 192283262d46784fb6bfd59a6a48b4d9f2624947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:14 +0000
Subject: [PATCH 42/50] fix: refuse serialised status codes out of range

65736 was read as 200 and -65136 as 400: numbers were cut to 16 bits before
they were looked up.
---
 src/status_code.rs | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/status_code.rs b/src/status_code.rs
index 8814183..34fef58 100644
--- a/src/status_code.rs
+++ b/src/status_code.rs
@@ -536,6 +536,7 @@ mod serde {
     use super::StatusCode;
     use serde_crate::de::{Error as DeError, Unexpected, Visitor};
     use serde_crate::{Deserialize, Deserializer, Serialize, Serializer};
+    use std::convert::TryFrom;
     use std::fmt;
 
     impl Serialize for StatusCode {
@@ -561,28 +562,42 @@ mod serde {
         where
             E: DeError,
         {
-            self.visit_u16(v as u16)
+            match u16::try_from(v) {
+                Ok(v) => self.visit_u16(v),
+                Err(_) => Err(DeError::invalid_value(
+                    Unexpected::Signed(i64::from(v)),
+                    &self,
+                )),
+            }
         }
 
         fn visit_i32<E>(self, v: i32) -> Result<Self::Value, E>
         where
             E: DeError,
         {
-            self.visit_u16(v as u16)
+            match u16::try_from(v) {
+                Ok(v) => self.visit_u16(v),
+                Err(_) => Err(DeError::invalid_value(
+                    Unexpected::Signed(i64::from(v)),
+                    &self,
+                )),
+            }
         }
 
         fn visit_i64<E>(self, v: i64) -> Result<Self::Value, E>
         where
             E: DeError,
         {
-            self.visit_u16(v as u16)
+            match u16::try_from(v) {
+                Ok(v) => self.visit_u16(v),
+                Err(_) => Err(DeError::invalid_value(Unexpected::Signed(v), &self)),
+            }
         }
 
         fn visit_u16<E>(self, v: u16) -> Result<Self::Value, E>
         where
             E: DeError,
         {
-            use std::convert::TryFrom;
             match StatusCode::try_from(v) {
                 Ok(status_code) => Ok(status_code),
                 Err(_) => Err(DeError::invalid_value(
@@ -596,14 +611,23 @@ mod serde {
         where
             E: DeError,
         {
-            self.visit_u16(v as u16)
+            match u16::try_from(v) {
+                Ok(v) => self.visit_u16(v),
+                Err(_) => Err(DeError::invalid_value(
+                    Unexpected::Unsigned(u64::from(v)),
+                    &self,
+                )),
+            }
         }
 
         fn visit_u64<E>(self, v: u64) -> Result<Self::Value, E>
         where
             E: DeError,
         {
-            self.visit_u16(v as u16)
+            match u16::try_from(v) {
+                Ok(v) => self.visit_u16(v),
+                Err(_) => Err(DeError::invalid_value(Unexpected::Unsigned(v), &self)),
+            }
         }
     }
 
-- 
2.43.0


From 45b316a96960e30cab67626cf62925fd04947cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:43 +0000
Subject: [PATCH 43/50] fix: of several charsets in a media type the first
 counts

A charset of utf-8 counted wherever it stood, beside or before an earlier one,
and both were written back.
---
 src/mime/parse.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/mime/parse.rs b/src/mime/parse.rs
index f2ec569..4be746b 100644
--- a/src/mime/parse.rs
+++ b/src/mime/parse.rs
@@ -93,7 +93,15 @@ pub(crate) fn parse(input: &str) -> crate::Result<Mime> {
         };
 
         // 10.
-        if parameter_name == "charset" && parameter_value == "utf-8" {
+        if is_utf8 && parameter_name == "charset" {
+            // The first parameter of a name counts.
+            continue;
+        } else if parameter_name == "charset"
+            && parameter_value == "utf-8"
+            && !params
+                .iter()
+                .any(|(k, _): &(ParamName, ParamValue)| k.as_str() == "charset")
+        {
             is_utf8 = true;
         } else if !parameter_name.is_empty()
             && parameter_name.chars().all(is_http_token_code_point)
-- 
2.43.0


From cbe50b68304d301bc460a4b8f75d4a54408f66ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:43 +0000
Subject: [PATCH 44/50] fix: an unterminated quoted parameter of a media type
 ends with the text

Its value was read again as further parameters.
---
 src/mime/parse.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mime/parse.rs b/src/mime/parse.rs
index 4be746b..e9ae010 100644
--- a/src/mime/parse.rs
+++ b/src/mime/parse.rs
@@ -206,6 +206,7 @@ fn collect_http_quoted_string(mut input: &str) -> (String, &str) {
             }
         } else {
             // 2
+            input = new_input;
             break;
         }
     }
-- 
2.43.0


From cd74216fc5da7cc16b2e5fc97804c6ee6c637273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:43 +0000
Subject: [PATCH 45/50] fix: a media type without charset is not within one of
 utf-8

The charset of utf-8 was left out when media types were compared and ranked,
unlike any other parameter.
---
 src/content/media_type_proposal.rs | 2 +-
 src/mime/mod.rs                    | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/content/media_type_proposal.rs b/src/content/media_type_proposal.rs
index 767fb3a..274b601 100644
--- a/src/content/media_type_proposal.rs
+++ b/src/content/media_type_proposal.rs
@@ -56,7 +56,7 @@ impl MediaTypeProposal {
         (
             self.media_type.basetype() != "*",
             self.media_type.subtype() != "*",
-            self.media_type.params.len(),
+            self.media_type.params.len() + usize::from(self.media_type.is_utf8),
         )
     }
 
diff --git a/src/mime/mod.rs b/src/mime/mod.rs
index f416de3..b9d7b90 100644
--- a/src/mime/mod.rs
+++ b/src/mime/mod.rs
@@ -153,6 +153,9 @@ impl Mime {
         if other.subtype() != "*" && self.subtype() != other.subtype() {
             return false;
         }
+        if other.is_utf8 && !self.is_utf8 {
+            return false;
+        }
         for (name, value) in other.params.iter() {
             if !self
                 .param(name.clone())
-- 
2.43.0


From 8881b867fe3acefddafb1a1d7a6f1b33d3481d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:47 +0000
Subject: [PATCH 46/50] fix: read quoted arguments of cache directives, and do
 not take text inside quotes for directives

---
 src/cache/cache_control/cache_control.rs   |  3 ++-
 src/cache/cache_control/cache_directive.rs | 13 ++++++-------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/cache/cache_control/cache_control.rs b/src/cache/cache_control/cache_control.rs
index deffd6b..eba1b7d 100644
--- a/src/cache/cache_control/cache_control.rs
+++ b/src/cache/cache_control/cache_control.rs
@@ -1,6 +1,7 @@
 use headers::Header;
 
 use crate::headers::{HeaderName, HeaderValue, Headers, CACHE_CONTROL};
+use crate::parse_utils::split_unquoted;
 use crate::{cache::CacheDirective, headers};
 
 use std::fmt::{self, Debug, Write};
@@ -50,7 +51,7 @@ impl CacheControl {
         };
 
         for value in headers {
-            for part in value.as_str().trim().split(',') {
+            for part in split_unquoted(value.as_str().trim(), ',', true) {
                 // Try and parse a directive from a str. If the directive is
                 // unkown we skip it.
                 if let Some(entry) = CacheDirective::from_str(part)? {
diff --git a/src/cache/cache_control/cache_directive.rs b/src/cache/cache_control/cache_directive.rs
index f8f12a0..b6f2964 100644
--- a/src/cache/cache_control/cache_directive.rs
+++ b/src/cache/cache_control/cache_directive.rs
@@ -92,11 +92,13 @@ impl CacheDirective {
         let mut parts = s.split('=');
         let next = parts.next().unwrap();
 
-        let mut get_dur = || -> crate::Result<Duration> {
-            let dur = parts.next().status(400)?;
-            let dur: u64 = dur.parse::<u64>().status(400)?;
+        let parse_dur = |dur: &str| -> crate::Result<Duration> {
+            // The argument may be a token or a quoted string.
+            let unquoted = dur.strip_prefix('"').and_then(|s| s.strip_suffix('"'));
+            let dur: u64 = unquoted.unwrap_or(dur).parse::<u64>().status(400)?;
             Ok(Duration::new(dur, 0))
         };
+        let mut get_dur = || parse_dur(parts.next().status(400)?);
 
         // This won't panic because each input string has at least one part.
         let res = match next {
@@ -111,10 +113,7 @@ impl CacheDirective {
             "proxy-revalidate" => Some(ProxyRevalidate),
             "max-age" => Some(MaxAge(get_dur()?)),
             "max-stale" => match parts.next() {
-                Some(secs) => {
-                    let dur: u64 = secs.parse::<u64>().status(400)?;
-                    Some(MaxStale(Some(Duration::new(dur, 0))))
-                }
+                Some(secs) => Some(MaxStale(Some(parse_dur(secs)?))),
                 None => Some(MaxStale(None)),
             },
             "min-fresh" => Some(MinFresh(get_dur()?)),
-- 
2.43.0


From 7196e92f913a2a7d84d8516c8ee452e559bc7d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:16 +0000
Subject: [PATCH 47/50] fix: inserting an empty list of values does not leave a
 header without a value

---
 src/headers/headers.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/headers/headers.rs b/src/headers/headers.rs
index a7a9d90..891842d 100644
--- a/src/headers/headers.rs
+++ b/src/headers/headers.rs
@@ -52,6 +52,10 @@ impl Headers {
     ) -> crate::Result<Option<HeaderValues>> {
         let name = name.into();
         let values: HeaderValues = values.to_header_values()?.collect();
+        // A header is never present without a value.
+        if values.iter().next().is_none() {
+            return Ok(self.headers.remove(&name));
+        }
         Ok(self.headers.insert(name, values))
     }
 
-- 
2.43.0


From 993bb6e8cd83ec56d28bb8696bb87a6ae929256e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:38 +0000
Subject: [PATCH 48/50] fix: a cookie with text beyond ASCII became a header
 value that is not ASCII

---
 src/headers/header_value.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/headers/header_value.rs b/src/headers/header_value.rs
index 6620a98..d677276 100644
--- a/src/headers/header_value.rs
+++ b/src/headers/header_value.rs
@@ -59,6 +59,20 @@ impl From<Mime> for HeaderValue {
 #[cfg(feature = "cookies")]
 impl From<Cookie<'_>> for HeaderValue {
     fn from(cookie: Cookie<'_>) -> Self {
+        if !cookie.to_string().is_ascii() {
+            // Header values are ASCII, so anything else has to be percent-encoded.
+            let mut inner = String::new();
+            for ch in cookie.encoded().to_string().chars() {
+                if ch.is_ascii() {
+                    inner.push(ch);
+                } else {
+                    for byte in ch.to_string().bytes() {
+                        inner.push_str(&format!("%{:02X}", byte));
+                    }
+                }
+            }
+            return HeaderValue { inner };
+        }
         HeaderValue {
             inner: cookie.to_string(),
         }
-- 
2.43.0


From fcfbb79b91795d4e053a32a92058e6dae46c2439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:02 +0000
Subject: [PATCH 49/50] fix: refuse HTTP dates that name no day of their month
 or lack a separator

---
 src/utils/date.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/utils/date.rs b/src/utils/date.rs
index 7f9f382..60938ee 100644
--- a/src/utils/date.rs
+++ b/src/utils/date.rs
@@ -58,10 +58,10 @@ impl HttpDate {
         self.second < 60
             && self.minute < 60
             && self.hour < 24
-            && self.day > 0
-            && self.day < 32
             && self.month > 0
             && self.month <= 12
+            && self.day > 0
+            && self.day <= days_in_month(self.year, self.month)
             && self.year >= 1970
             && self.year <= 9999
             && self.week_day >= 1
@@ -134,7 +134,7 @@ fn parse_rfc850_date(s: &[u8]) -> crate::Result<HttpDate> {
         .or_else(|| week_day(s, 6, b"Saturday, "))
         .or_else(|| week_day(s, 7, b"Sunday, "))
         .ok_or_else(|| format_err!("Invalid day"))?;
-    if s.len() != 22 || s[12] != b':' || s[15] != b':' || &s[18..22] != b" GMT" {
+    if s.len() != 22 || s[9] != b' ' || s[12] != b':' || s[15] != b':' || &s[18..22] != b" GMT" {
         bail!("Date time not in rfc950 fmt");
     }
     let mut year = from_utf8(&s[7..9])?.parse::<u16>()?;
@@ -409,6 +409,15 @@ impl PartialOrd for HttpDate {
     }
 }
 
+fn days_in_month(year: u16, month: u8) -> u8 {
+    match month {
+        2 if is_leap_year(year) => 29,
+        2 => 28,
+        4 | 6 | 9 | 11 => 30,
+        _ => 31,
+    }
+}
+
 fn is_leap_year(year: u16) -> bool {
     year % 4 == 0 && (year % 100 != 0 || year % 400 == 0)
 }
-- 
2.43.0


From 43d299596df4d5c52825445d807f6ee3696bba00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:25 +0000
Subject: [PATCH 50/50] fix: bail!, ensure!, ensure_eq! and format_err! take an
 error outside this crate

---
 src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macros.rs b/src/macros.rs
index e29ae6c..6764610 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -78,7 +78,7 @@ macro_rules! format_err {
     };
     ($err:expr $(,)?) => ({
         let error = $err;
-        Error::new_adhoc(error)
+        $crate::private::new_adhoc(error)
     });
     ($fmt:expr, $($arg:tt)*) => {
         $crate::private::new_adhoc(format!($fmt, $($arg)*))
-- 
2.43.0

