From 2dbe654ded47f0e68060549de67fc8642d6f1460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:40 +0000
Subject: [PATCH 01/12] fix: do not allocate the peer-declared Content-Length
 up front

A frame header such as `Content-Length: 18446744073709551615` made the
reader thread panic with a capacity overflow (or abort the process when
the allocation failed). Read the body incrementally and report a short
body as UnexpectedEof, as read_exact did.
---
 bsp-server/src/message.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/bsp-server/src/message.rs b/bsp-server/src/message.rs
index 13bf3a8..a0d7cd2 100644
--- a/bsp-server/src/message.rs
+++ b/bsp-server/src/message.rs
@@ -2,7 +2,7 @@ use crate::Notification;
 use crate::Request;
 use crate::Response;
 use serde::{Deserialize, Serialize};
-use std::io;
+use std::io::{self, Read};
 
 #[derive(Serialize, Deserialize, Debug, Clone)]
 #[serde(untagged)]
@@ -84,8 +84,12 @@ fn read_msg_text(inp: &mut dyn io::BufRead) -> io::Result<Option<String>> {
     let size: usize = size.ok_or_else(|| invalid_data!("no Content-Length"))?;
     let mut buf = buf.into_bytes();
 
-    buf.resize(size, 0);
-    inp.read_exact(&mut buf)?;
+    // The declared size comes from the peer: grow with the bytes that arrive instead of allocating
+    // it up front, which panics or aborts for absurd values.
+    buf.clear();
+    if inp.take(size as u64).read_to_end(&mut buf)? < size {
+        return Err(io::ErrorKind::UnexpectedEof.into());
+    }
 
     Ok(Some(String::from_utf8(buf).map_err(invalid_data)?))
 }
-- 
2.43.0


From 5d35c656232f9660ebddfb345ed8629a3a8dfe7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:42 +0000
Subject: [PATCH 02/12] fix: decode requests that omit params

The check joined `!=` comparisons with `||`, so it rejected every request
without params, including the ones this crate writes itself for shutdown,
workspace/buildTargets, workspace/reload and custom requests with null
params. They then decoded as an empty Response. Treat absent params as
null, which typed methods still refuse.
---
 bsp-server/src/request.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/bsp-server/src/request.rs b/bsp-server/src/request.rs
index afe6733..859a5cd 100644
--- a/bsp-server/src/request.rs
+++ b/bsp-server/src/request.rs
@@ -428,12 +428,7 @@ impl<'de> Deserialize<'de> for Request {
                 let params = match params {
                     Some(v) => v,
                     None => {
-                        if &method != "build/shutdown"
-                            || &method != "workspace/buildTargets"
-                            || &method != "workspace/reload"
-                        {
-                            return Err(DeError::missing_field("params"));
-                        }
+                        // Methods with typed params still fail to decode from null below.
                         serde_json::Value::Null
                     }
                 };
-- 
2.43.0


From a855da1ef39fb855c8afc03c96bfe4da40815700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:43 +0000
Subject: [PATCH 03/12] fix: decode custom notifications that omit params

JSON-RPC lets a notification leave params out, but a custom one without
them failed to decode, which ended the reader thread.
---
 bsp-server/src/notification.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/bsp-server/src/notification.rs b/bsp-server/src/notification.rs
index ac4ee9c..5685564 100644
--- a/bsp-server/src/notification.rs
+++ b/bsp-server/src/notification.rs
@@ -235,9 +235,7 @@ impl<'de> Deserialize<'de> for Notification {
                 let params = match params {
                     Some(v) => v,
                     None => {
-                        if &method != "build/exit" && &method != "build/initialized" {
-                            return Err(DeError::missing_field("params"));
-                        }
+                        // Methods with typed params still fail to decode from null below.
                         serde_json::Value::Null
                     }
                 };
-- 
2.43.0


From 53634471bd42f46f3981639628f4fc58bff65e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:44 +0000
Subject: [PATCH 04/12] fix: return the params of custom requests

Request::params returned the method name for Request::Custom.
---
 bsp-server/src/request.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bsp-server/src/request.rs b/bsp-server/src/request.rs
index 859a5cd..e94ecfc 100644
--- a/bsp-server/src/request.rs
+++ b/bsp-server/src/request.rs
@@ -112,7 +112,7 @@ impl Request {
             BuildTargetCompile(_, ref params) => serde_json::to_value(params),
             BuildTargetTest(_, ref params) => serde_json::to_value(params),
             BuildTargetCleanCache(_, ref params) => serde_json::to_value(params),
-            Custom(_, ref params, _) => serde_json::to_value(params),
+            Custom(_, _, ref params) => serde_json::to_value(params),
         };
 
         Ok(value?)
-- 
2.43.0


From 428d0a7e3f327149528486daf5bbe026661ebb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:45 +0000
Subject: [PATCH 05/12] fix: skip the values of unknown members when decoding

Request and Notification left the value of a member they do not know
(such as jsonrpc) unread, so decoding them directly from text failed.
---
 bsp-server/src/notification.rs | 4 +++-
 bsp-server/src/request.rs      | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/bsp-server/src/notification.rs b/bsp-server/src/notification.rs
index 5685564..e6d8a78 100644
--- a/bsp-server/src/notification.rs
+++ b/bsp-server/src/notification.rs
@@ -227,7 +227,9 @@ impl<'de> Deserialize<'de> for Notification {
                             }
                             method = Some(map.next_value()?);
                         }
-                        _ => (),
+                        _ => {
+                            map.next_value::<serde::de::IgnoredAny>()?;
+                        }
                     }
                 }
 
diff --git a/bsp-server/src/request.rs b/bsp-server/src/request.rs
index e94ecfc..bfe611b 100644
--- a/bsp-server/src/request.rs
+++ b/bsp-server/src/request.rs
@@ -415,7 +415,9 @@ impl<'de> Deserialize<'de> for Request {
                             }
                             method = Some(map.next_value()?);
                         }
-                        _ => (),
+                        _ => {
+                            map.next_value::<serde::de::IgnoredAny>()?;
+                        }
                     }
                 }
 
-- 
2.43.0


From 0c82e3fa2bb2bad4a0a570211ddbf5b3a2240667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:46 +0000
Subject: [PATCH 06/12] fix: drop notifications that arrive before initialize

The protocol asks the server to drop them, except for exit; the handshake
failed on them instead.
---
 bsp-server/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bsp-server/src/lib.rs b/bsp-server/src/lib.rs
index 77eb46a..068cd5c 100644
--- a/bsp-server/src/lib.rs
+++ b/bsp-server/src/lib.rs
@@ -135,6 +135,10 @@ impl Connection {
                         .send(Response::server_not_initialized(req.id().clone(), msg).into())
                         .unwrap();
                 }
+                // Drop notifications other than exit
+                Ok(Message::Notification(ref n)) if !matches!(n, Notification::Exit) => {
+                    tracing::warn!("expected initialize request, dropping {:?}", n);
+                }
                 Ok(msg) => {
                     let msg = format!("expected initialize request, got {:?}", msg);
                     tracing::error!("{}", msg);
-- 
2.43.0


From 13b2d6bea31afb937ef18b460396caca13c2539a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:47 +0000
Subject: [PATCH 07/12] fix: report a lost peer during initialize as
 ProtocolError

Sending the handshake's responses unwrapped the channel error, so the
server panicked when the peer was gone.
---
 bsp-server/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bsp-server/src/lib.rs b/bsp-server/src/lib.rs
index 068cd5c..c80c4c8 100644
--- a/bsp-server/src/lib.rs
+++ b/bsp-server/src/lib.rs
@@ -133,7 +133,7 @@ impl Connection {
                     tracing::error!("{}", msg);
                     self.sender
                         .send(Response::server_not_initialized(req.id().clone(), msg).into())
-                        .unwrap();
+                        .map_err(|e| ProtocolError(e.to_string()))?;
                 }
                 // Drop notifications other than exit
                 Ok(Message::Notification(ref n)) if !matches!(n, Notification::Exit) => {
@@ -161,7 +161,9 @@ impl Connection {
         initialize_result: V,
     ) -> Result<(), ProtocolError> {
         let resp = Response::ok(initialize_id, initialize_result);
-        self.sender.send(resp.into()).unwrap();
+        self.sender
+            .send(resp.into())
+            .map_err(|e| ProtocolError(e.to_string()))?;
         match &self.receiver.recv() {
             Ok(Message::Notification(Notification::Initialized)) => (),
             Ok(msg) => {
-- 
2.43.0


From 677516e99c859a2771348dc6352c04a005c202c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:48 +0000
Subject: [PATCH 08/12] fix: return transport failures from the io threads
 instead of panicking

The socket threads unwrapped read and write errors, so a malformed frame
or a reset connection panicked through IoThreads::join, and both readers
panicked when a message arrived after the connection was dropped.
---
 bsp-server/src/transporter.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/bsp-server/src/transporter.rs b/bsp-server/src/transporter.rs
index 890f89f..205b42f 100644
--- a/bsp-server/src/transporter.rs
+++ b/bsp-server/src/transporter.rs
@@ -31,9 +31,8 @@ impl Transporter {
                     _ => false,
                 };
 
-                reader_sender.send(msg).unwrap();
-
-                if is_exit {
+                // Nobody receives any more once the connection is dropped
+                if reader_sender.send(msg).is_err() || is_exit {
                     break;
                 }
             }
@@ -50,10 +49,10 @@ impl Transporter {
             let (reader_sender, reader_receiver) = bounded::<Message>(0);
             let reader = thread::spawn(move || {
                 let mut buf_read = io::BufReader::new(stream);
-                while let Some(msg) = Message::read(&mut buf_read).unwrap() {
+                while let Some(msg) = Message::read(&mut buf_read)? {
                     let is_exit = matches!(&msg, Message::Notification(Notification::Exit));
-                    reader_sender.send(msg).unwrap();
-                    if is_exit {
+                    // Nobody receives any more once the connection is dropped
+                    if reader_sender.send(msg).is_err() || is_exit {
                         break;
                     }
                 }
@@ -68,8 +67,7 @@ impl Transporter {
             let writer = thread::spawn(move || {
                 writer_receiver
                     .into_iter()
-                    .try_for_each(|it| it.write(&mut stream))
-                    .unwrap();
+                    .try_for_each(|it| it.write(&mut stream))?;
                 Ok(())
             });
             (writer_sender, writer)
-- 
2.43.0


From 4180cff0ae160165504939edd3158e4da2f1dec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:51 +0000
Subject: [PATCH 09/12] fix: hold task event times in 64 bits

eventTime is in milliseconds since the epoch, which does not fit in 32
bits: every real task notification failed to decode.
---
 bsp-types/src/task/finish.rs   | 2 +-
 bsp-types/src/task/progress.rs | 2 +-
 bsp-types/src/task/start.rs    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bsp-types/src/task/finish.rs b/bsp-types/src/task/finish.rs
index c335286..88f2513 100644
--- a/bsp-types/src/task/finish.rs
+++ b/bsp-types/src/task/finish.rs
@@ -12,7 +12,7 @@ pub struct TaskFinish {
 
     /** Timestamp of the event in milliseconds. */
     #[serde(skip_serializing_if = "Option::is_none")]
-    pub event_time: Option<u32>,
+    pub event_time: Option<u64>,
 
     /// Message describing the task.
     #[serde(skip_serializing_if = "String::is_empty")]
diff --git a/bsp-types/src/task/progress.rs b/bsp-types/src/task/progress.rs
index e599886..57c49f8 100644
--- a/bsp-types/src/task/progress.rs
+++ b/bsp-types/src/task/progress.rs
@@ -12,7 +12,7 @@ pub struct TaskProgress {
 
     /// Timestamp of when the progress event was generated in milliseconds since Epoch.
     #[serde(skip_serializing_if = "Option::is_none")]
-    pub event_time: Option<u32>,
+    pub event_time: Option<u64>,
 
     /// Message describing the task progress.
     ///  * Information about the state of the task at the time the event is sent.
diff --git a/bsp-types/src/task/start.rs b/bsp-types/src/task/start.rs
index dd2cfb6..8c93266 100644
--- a/bsp-types/src/task/start.rs
+++ b/bsp-types/src/task/start.rs
@@ -11,7 +11,7 @@ pub struct TaskStart {
 
     /// Timestamp of when the event started in milliseconds since Epoch.
     #[serde(skip_serializing_if = "Option::is_none")]
-    pub event_time: Option<u32>,
+    pub event_time: Option<u64>,
 
     /// Message describing the task.
     #[serde(skip_serializing_if = "String::is_empty")]
-- 
2.43.0


From 3d388be6626b0ee01da2a7611326769125ac6071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:54 +0000
Subject: [PATCH 10/12] fix: write build target tags as the protocol's strings

Tags are free-form strings with predefined values, but they went out as
"libary", "no-i-d-e" and {"custom": ..}, and a custom tag from the peer
could not be decoded.
---
 bsp-types/src/bt_tag.rs | 37 ++++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/bsp-types/src/bt_tag.rs b/bsp-types/src/bt_tag.rs
index 125cfab..682931a 100644
--- a/bsp-types/src/bt_tag.rs
+++ b/bsp-types/src/bt_tag.rs
@@ -1,4 +1,5 @@
-use serde::{Deserialize, Serialize};
+use serde::{Deserialize, Deserializer, Serialize, Serializer};
+
 /// Free-form string tags to categorize or label this build target.
 /// For example, can be used by the client to:
 ///  - customize how the target should be translated into the client's project model.
@@ -6,8 +7,7 @@ use serde::{Deserialize, Serialize};
 ///  - display icons or colors in the user interface.
 ///  Pre-defined tags are listed in `BuildTargetTag` but clients and servers
 ///  are free to define new tags for custom purposes.
-#[derive(Debug, Serialize, Deserialize)]
-#[serde(rename_all = "kebab-case")]
+#[derive(Debug)]
 pub enum BuildTargetTag {
     /// Target contains re-usable functionality for downstream targets. May have
     /// any combination of capabilities.
@@ -48,3 +48,34 @@ impl BuildTargetTag {
         Self::Custom(value.into())
     }
 }
+
+impl Serialize for BuildTargetTag {
+    fn serialize<S: Serializer>(&self, ser: S) -> Result<S::Ok, S::Error> {
+        ser.serialize_str(match self {
+            Self::Libary => "library",
+            Self::Application => "application",
+            Self::Test => "test",
+            Self::IntegrationTest => "integration-test",
+            Self::Benchmark => "benchmark",
+            Self::NoIDE => "no-ide",
+            Self::Manual => "manual",
+            Self::Custom(tag) => tag,
+        })
+    }
+}
+
+impl<'de> Deserialize<'de> for BuildTargetTag {
+    fn deserialize<D: Deserializer<'de>>(de: D) -> Result<Self, D::Error> {
+        let tag = String::deserialize(de)?;
+        Ok(match tag.as_str() {
+            "library" => Self::Libary,
+            "application" => Self::Application,
+            "test" => Self::Test,
+            "integration-test" => Self::IntegrationTest,
+            "benchmark" => Self::Benchmark,
+            "no-ide" => Self::NoIDE,
+            "manual" => Self::Manual,
+            _ => Self::Custom(tag),
+        })
+    }
+}
-- 
2.43.0


From f60b6f9156d32564bdc46270cea4ce535b0bb893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:43 +0000
Subject: [PATCH 11/12] fix: report input that ends inside a header as
 truncated

---
 bsp-server/src/message.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bsp-server/src/message.rs b/bsp-server/src/message.rs
index a0d7cd2..21ba294 100644
--- a/bsp-server/src/message.rs
+++ b/bsp-server/src/message.rs
@@ -58,12 +58,18 @@ macro_rules! invalid_data { ($($tt:tt)*) => (invalid_data(format!($($tt)*))) }
 fn read_msg_text(inp: &mut dyn io::BufRead) -> io::Result<Option<String>> {
     let mut size = None;
     let mut buf = String::new();
+    let mut started = false;
 
     loop {
         buf.clear();
         if inp.read_line(&mut buf)? == 0 {
+            // The input ends cleanly between two messages only
+            if started {
+                return Err(io::ErrorKind::UnexpectedEof.into());
+            }
             return Ok(None);
         }
+        started = true;
         if !buf.ends_with("\r\n") {
             return Err(invalid_data!("malformed header: {:?}", buf));
         }
-- 
2.43.0


From a3cc213b8bc01fda447137d52aa3398da6ba97e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:02 +0000
Subject: [PATCH 12/12] fix: return the error when a socket cannot be
 duplicated instead of panicking

---
 bsp-server/src/lib.rs         | 4 ++--
 bsp-server/src/transporter.rs | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/bsp-server/src/lib.rs b/bsp-server/src/lib.rs
index c80c4c8..4e55e20 100644
--- a/bsp-server/src/lib.rs
+++ b/bsp-server/src/lib.rs
@@ -52,7 +52,7 @@ impl Connection {
     /// This call blocks until a connection is established.
     pub fn connect<A: ToSocketAddrs>(addr: A) -> io::Result<(Connection, IoThreads)> {
         let stream = TcpStream::connect(addr)?;
-        let Transporter(sender, receiver, io_threads) = Transporter::socket(stream);
+        let Transporter(sender, receiver, io_threads) = Transporter::socket(stream)?;
         Ok((Connection { sender, receiver }, io_threads))
     }
 
@@ -61,7 +61,7 @@ impl Connection {
     pub fn listen<A: ToSocketAddrs>(addr: A) -> io::Result<(Connection, IoThreads)> {
         let listener = TcpListener::bind(addr)?;
         let (stream, _) = listener.accept()?;
-        let Transporter(sender, receiver, io_threads) = Transporter::socket(stream);
+        let Transporter(sender, receiver, io_threads) = Transporter::socket(stream)?;
         Ok((Connection { sender, receiver }, io_threads))
     }
 
diff --git a/bsp-server/src/transporter.rs b/bsp-server/src/transporter.rs
index 205b42f..1526072 100644
--- a/bsp-server/src/transporter.rs
+++ b/bsp-server/src/transporter.rs
@@ -43,9 +43,9 @@ impl Transporter {
     }
 
     /// Creates an BSP connection via socket.
-    pub fn socket(stream: TcpStream) -> Self {
+    pub fn socket(stream: TcpStream) -> io::Result<Self> {
         let (reader_receiver, reader) = {
-            let stream = stream.try_clone().unwrap();
+            let stream = stream.try_clone()?;
             let (reader_sender, reader_receiver) = bounded::<Message>(0);
             let reader = thread::spawn(move || {
                 let mut buf_read = io::BufReader::new(stream);
@@ -62,7 +62,7 @@ impl Transporter {
         };
 
         let (writer_sender, writer) = {
-            let mut stream = stream.try_clone().unwrap();
+            let mut stream = stream;
             let (writer_sender, writer_receiver) = bounded::<Message>(0);
             let writer = thread::spawn(move || {
                 writer_receiver
@@ -74,6 +74,6 @@ impl Transporter {
         };
 
         let io_threads = IoThreads::new(reader, writer);
-        Self(writer_sender, reader_receiver, io_threads)
+        Ok(Self(writer_sender, reader_receiver, io_threads))
     }
 }
-- 
2.43.0

