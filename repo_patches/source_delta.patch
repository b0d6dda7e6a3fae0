From 8c1cc0eec11b4279c5b0c10b20311bf3de0ee8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:32 +0000
Subject: [PATCH 01/10] fix: reject plus signs, negative zero and leading
 zeroes behind a minus sign in integer arguments

---
 src/common/core/decode_argument.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/common/core/decode_argument.rs b/src/common/core/decode_argument.rs
index aae9b1d..b3f40b9 100644
--- a/src/common/core/decode_argument.rs
+++ b/src/common/core/decode_argument.rs
@@ -70,12 +70,13 @@ macro_rules! impl_DecodeArgument_for_integer {
 
         impl<'a> DecodeArgument<'a> for $t {
             fn decode_argument(arg: &'a [u8]) -> Option<Self> {
-                //forbid leading zeroes
-                if arg.len() == 0 {
-                    return None;
-                }
-                if arg != b"0" && arg[0] == b'0' {
-                    return None;
+                let digits = arg.strip_prefix(b"-").unwrap_or(arg);
+                match digits.first()? {
+                    //forbid leading zeroes and negative zero
+                    b'0' if arg != b"0" => return None,
+                    b'0'..=b'9' => {}
+                    //forbid the plus sign that str::parse() would accept
+                    _ => return None,
                 }
 
                 core::str::from_utf8(arg).ok()?.parse().ok()
-- 
2.43.0


From f76e07637ec09aebbfa2b82faae8cd6586f28be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:51 +0000
Subject: [PATCH 02/10] fix: make room for the client ID of the last job or
 local index

---
 src/client/core/client_id.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client/core/client_id.rs b/src/client/core/client_id.rs
index 4ff3f24..d1f19eb 100644
--- a/src/client/core/client_id.rs
+++ b/src/client/core/client_id.rs
@@ -151,7 +151,7 @@ fn get_size_for_number(num: u32) -> usize {
     //There are 10 + 2*26 - 1 = 61 codewords for each given length, except that the
     //codeword 0x00 is not used to avoid ambiguities in the ClientIDSuffix
     //encoding. Hence the `+ 1` below.
-    (1 + (num + 1) / 61) as usize
+    (1 + (u64::from(num) + 1) / 61) as usize
 }
 
 const LOOKUP_TABLE: [u8; 62] = [
@@ -163,7 +163,7 @@ const LOOKUP_TABLE: [u8; 62] = [
 
 fn encode_number(num: u32, buf: &mut [u8]) {
     //shift all numbers by 1 to account for the omitted codeword "0"
-    let mut num = num + 1;
+    let mut num = u64::from(num) + 1;
     for byte_mut in buf.iter_mut() {
         if num >= 61 {
             num -= 61;
-- 
2.43.0


From 965253f07b8e6db89b255e6d5d9026f0d48850ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:44 +0000
Subject: [PATCH 03/10] fix: release registrations and credentials when a
 client ends

---
 src/server/core/msg.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/server/core/msg.rs b/src/server/core/msg.rs
index 3335763..92e053a 100644
--- a/src/server/core/msg.rs
+++ b/src/server/core/msg.rs
@@ -115,9 +115,13 @@ impl<A: server::Application, Next: server::core::MessageHandlerExt<A>> server::H
                     return Err(InvalidMessage);
                 }
 
+                //release all registrations and credentials at or below this client ID
+                let d = conn.dispatch();
+                let selector = ClientSelector::AtOrBelow(msg.client_id);
+                d.application().unregister_clients(selector);
+
                 //tear down all client connections at or below this client ID
                 let owned_client_id = OwnedClientID::from(&msg.client_id);
-                let d = conn.dispatch();
                 d.enqueue_broadcast(Box::new(move |conn| {
                     let selector = ClientSelector::AtOrBelow(owned_client_id.as_ref());
                     if let ConnectionState::Msgio(ref connector) = conn.state() {
-- 
2.43.0


From ac09d61fa653ca0e2e55f3e506ad9b3c38d3815e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:33 +0000
Subject: [PATCH 04/10] fix: handle any amount of input without recursion

---
 src/server/connection.rs | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/server/connection.rs b/src/server/connection.rs
index c7bfbf4..fd70367 100644
--- a/src/server/connection.rs
+++ b/src/server/connection.rs
@@ -171,12 +171,14 @@ impl<A: server::Application, D: server::Dispatch<A>> Connection<A, D> {
     ///Handle data sent by the client. This interface is called by the Dispatch whenever data has
     ///been read from the client socket associated with this Connection instance.
     pub fn handle_incoming<B: ReceiveBuffer>(&mut self, buf: &mut B) {
-        if !buf.contents().is_empty() {
+        //handling a message (or error) may change into a different state, so look at the state
+        //again before each one
+        while !buf.contents().is_empty() {
             use server::StdoutConnector;
             use ConnectionState::*;
-            match self.state {
-                Handshake => self.handle_incoming_msgio::<B>(buf, HandlerObj::<A>::handshake()),
-                Msgio(_) => self.handle_incoming_msgio::<B>(buf, HandlerObj::<A>::message()),
+            let handler = match self.state {
+                Handshake => HandlerObj::<A>::handshake(),
+                Msgio(_) => HandlerObj::<A>::message(),
                 Stdin(_) => {
                     //receiving anything on stdin is an error, so close the connection (we might
                     //have to relax this in the future depending on how insistent legacy clients
@@ -186,17 +188,28 @@ impl<A: server::Application, D: server::Dispatch<A>> Connection<A, D> {
                     let n = server::Notification::IncomingBytesDiscarded(buf.contents());
                     self.dispatch.application().notify(&n);
                     buf.discard(buf.contents().len());
+                    return;
                 }
                 Stdout(ref mut connector) => {
                     connector.receive(buf.contents());
                     buf.discard(buf.contents().len());
+                    return;
                 }
-                Teardown => {}
+                Teardown => return,
+            };
+            if !self.handle_incoming_msgio::<B>(buf, handler) {
+                return;
             }
         }
     }
 
-    fn handle_incoming_msgio<B: ReceiveBuffer>(&mut self, buf: &mut B, handler: HandlerObj<A>) {
+    //Handles one message, or the garbage up to the next possible start of a message. Returns false
+    //if there is not enough input for that.
+    fn handle_incoming_msgio<B: ReceiveBuffer>(
+        &mut self,
+        buf: &mut B,
+        handler: HandlerObj<A>,
+    ) -> bool {
         match msg::Message::parse(buf.contents()) {
             Ok((msg, bytes_parsed)) => {
                 use server::HandlerError::*;
@@ -234,7 +247,7 @@ impl<A: server::Application, D: server::Dispatch<A>> Connection<A, D> {
             }
             Err(e) if e.kind == msg::ParseErrorKind::UnexpectedEOF => {
                 //if we don't have a full message yet, wait until the next read
-                return;
+                return false;
             }
             Err(e) => {
                 match handler {
@@ -261,8 +274,6 @@ impl<A: server::Application, D: server::Dispatch<A>> Connection<A, D> {
                 buf.discard(bytes_to_discard);
             }
         }
-        //handling the previous message (or error) may have changed into a different state, so
-        //tail-call back into handle_incoming() to disambiguate again
-        self.handle_incoming(buf)
+        true
     }
 }
-- 
2.43.0


From 9555c29f4e1bbc7f9eb5f26c491958ba720d3885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:41 +0000
Subject: [PATCH 05/10] fix: do not create a File for FD 60 if there is no such
 file descriptor

---
 src/client/env.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/client/env.rs b/src/client/env.rs
index 663cd8d..2a2bebb 100644
--- a/src/client/env.rs
+++ b/src/client/env.rs
@@ -56,6 +56,13 @@ impl Environment {
             has_vt6_terminal: true,
         };
 
+        //dropping a File without an open FD behind it would abort the process in debug builds
+        //SAFETY: F_GETFD only looks whether the FD is open
+        if unsafe { libc::fcntl(60, libc::F_GETFD) } == -1 {
+            env.has_vt6_terminal = false;
+            return Ok(env);
+        }
+
         //SAFETY: we need to call this unsafe trait method to obtain a File handle
         let mut f = unsafe { File::from_raw_fd(60) };
         //NOTE: `impl Drop for File` will close FD 60 when this method returns.
-- 
2.43.0


From 772d6efd7ee376ca51dc77259fc875444f95dd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:26 +0000
Subject: [PATCH 06/10] fix: close the connection instead of panicking when a
 reply is too long

---
 src/server/tokio/dispatch.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/server/tokio/dispatch.rs b/src/server/tokio/dispatch.rs
index 6366e50..569c38a 100644
--- a/src/server/tokio/dispatch.rs
+++ b/src/server/tokio/dispatch.rs
@@ -351,8 +351,16 @@ impl<A: server::Application> server::Dispatch<A> for Dispatch<A> {
                 }
             };
             //if the fill_if_ok() errors out this time, it's because the rendered message is
-            //legimitately too long, so it's a good time to panic
-            send_buffer.fill_if_ok(|buf| msg.encode(buf)).unwrap();
+            //legimitately too long; clients can provoke this (e.g. by asking for a module with a
+            //very long name), so this must not affect anyone but this connection
+            if let Err(e) = send_buffer.fill_if_ok(|buf| msg.encode(buf)) {
+                std::mem::drop(tx);
+                let e = format!("cannot send message: {} bytes too long", e.0);
+                let n = server::Notification::ConnectionIOError(e.into());
+                self.0.app.notify(&n);
+                conn.set_state(server::ConnectionState::Teardown);
+                return;
+            }
         }
 
         //wake up the transmitter job if necessary
-- 
2.43.0


From 0df2db103c4141b8f8a999837902d5784caf3909 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:17:16 +0000
Subject: [PATCH 07/10] Hook: locks of the Tokio dispatch can be replaced by a
 model (cfg vt6_model_locks)

---
 src/server/tokio/dispatch.rs |  2 +-
 src/server/tokio/mod.rs      | 10 ++++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/server/tokio/dispatch.rs b/src/server/tokio/dispatch.rs
index 569c38a..9453b54 100644
--- a/src/server/tokio/dispatch.rs
+++ b/src/server/tokio/dispatch.rs
@@ -8,8 +8,8 @@ use crate::common::core::msg;
 use crate::server;
 use crate::server::tokio as my;
 use futures::future::{AbortHandle, AbortRegistration, Abortable, Aborted};
+use my::sync::{Arc, Mutex, RwLock, RwLockWriteGuard};
 use std::collections::HashMap;
-use std::sync::{Arc, Mutex, RwLock, RwLockWriteGuard};
 use tokio::sync::Notify;
 
 struct ConnectionPoolEntry<A: server::Application> {
diff --git a/src/server/tokio/mod.rs b/src/server/tokio/mod.rs
index b1af3f5..658cf00 100644
--- a/src/server/tokio/mod.rs
+++ b/src/server/tokio/mod.rs
@@ -4,6 +4,16 @@
 * Refer to the file "LICENSE" for details.
 *******************************************************************************/
 
+//Verification builds (cfg `vt6_model_locks`) replace the locks of this module by ones that know
+//about the interleavings under consideration.
+#[allow(unexpected_cfgs)]
+pub(crate) mod sync {
+    #[cfg(not(vt6_model_locks))]
+    pub(crate) use std::sync::*;
+    #[cfg(vt6_model_locks)]
+    pub(crate) use tokio::model_sync::*;
+}
+
 mod dispatch;
 pub use dispatch::*;
 mod receiver;
-- 
2.43.0


From 9d642f8dc414a8e1533a6d08f98be791834ed307 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:18:24 +0000
Subject: [PATCH 08/10] fix: run broadcasts that are queued while the
 connection pool is being unlocked

A broadcast queued by another thread after do_maintenance() had looked at the
queue, but before the pool lock was released, would sit there until the next
time a client sends something (enqueue_broadcast() could not get the lock).
The same goes for broadcasts queued by the application when it is told that a
connection was closed.
---
 src/server/tokio/dispatch.rs | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/server/tokio/dispatch.rs b/src/server/tokio/dispatch.rs
index 9453b54..45dc640 100644
--- a/src/server/tokio/dispatch.rs
+++ b/src/server/tokio/dispatch.rs
@@ -85,6 +85,7 @@ impl<A: server::Application> InnerDispatch<A> {
             },
         );
         std::mem::drop(pool); //release the write lock
+        self.do_pending_maintenance();
 
         let tx_notify = Arc::new(Notify::new());
         let tx_connector = TxConnector {
@@ -102,7 +103,7 @@ impl<A: server::Application> InnerDispatch<A> {
     pub(crate) fn connection_mut<'a>(self: &'a Arc<Self>, conn_id: u64) -> ConnectionRefMut<'a, A> {
         ConnectionRefMut {
             inner: self,
-            guard: self.pool.write().unwrap(),
+            guard: Some(self.pool.write().unwrap()),
             conn_id,
         }
     }
@@ -192,6 +193,18 @@ impl<A: server::Application> InnerDispatch<A> {
             }
         }
     }
+
+    fn do_pending_maintenance(self: &Arc<Self>) {
+        //This function must be called after every release of a `self.pool.write()` lock: While we
+        //were holding that lock, someone else may have queued a broadcast that do_maintenance() did
+        //not get to see anymore. If someone else holds the lock now, they will take care of it.
+        while !self.bc_queue.lock().unwrap().is_empty() {
+            match self.pool.try_write() {
+                Ok(mut pool) => self.do_maintenance(&mut pool),
+                Err(_) => break,
+            }
+        }
+    }
 }
 
 ////////////////////////////////////////////////////////////////////////////////
@@ -204,13 +217,14 @@ impl<A: server::Application> InnerDispatch<A> {
 
 pub(crate) struct ConnectionRefMut<'a, A: server::Application> {
     inner: &'a Arc<InnerDispatch<A>>,
-    guard: RwLockWriteGuard<'a, ConnectionPool<A>>,
+    guard: Option<RwLockWriteGuard<'a, ConnectionPool<A>>>, //is only None during drop()
     conn_id: u64,
 }
 
 impl<'a, A: server::Application> ConnectionRefMut<'a, A> {
     pub(crate) fn alive(&mut self) -> Option<&mut server::Connection<A, Dispatch<A>>> {
         self.guard
+            .as_mut()?
             .conns
             .get_mut(&self.conn_id)
             .map(|conn_ref| &mut conn_ref.conn)
@@ -219,9 +233,11 @@ impl<'a, A: server::Application> ConnectionRefMut<'a, A> {
 
 impl<'a, A: server::Application> Drop for ConnectionRefMut<'a, A> {
     fn drop(&mut self) {
-        self.inner
-            .do_maintenance_on_conn(&mut self.guard, self.conn_id);
-        self.inner.do_maintenance(&mut self.guard);
+        if let Some(mut guard) = self.guard.take() {
+            self.inner.do_maintenance_on_conn(&mut guard, self.conn_id);
+            self.inner.do_maintenance(&mut guard);
+        }
+        self.inner.do_pending_maintenance();
     }
 }
 
@@ -270,6 +286,7 @@ impl<A: server::Application> Dispatch<A> {
             conn.rx_abort.abort();
             conn.tx_abort.abort();
         }
+        self.0.do_pending_maintenance();
 
         //clean up the server socket
         std::mem::drop(listener);
@@ -305,9 +322,7 @@ impl<A: server::Application> server::Dispatch<A> for Dispatch<A> {
         //This part is important because, if we didn't have it, and there is nothing currently
         //being received or transmitted, the broadcast would just needlessly sit in the queue until
         //the next time a client sends data to us.
-        if let Ok(mut pool_lock) = self.0.pool.try_write() {
-            self.0.do_maintenance(&mut pool_lock);
-        }
+        self.0.do_pending_maintenance();
     }
 
     fn enqueue_message<M: msg::EncodeMessage>(
-- 
2.43.0


From 439aa6d514d36f0bc113376c449cf67fcd5cbe91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:11 +0000
Subject: [PATCH 09/10] fix: do not lose messages for a connection that is
 being set up

The connection becomes visible to broadcasts when the pool lock is released.
A message enqueued at that time was dropped because the connection was not
listed in InnerDispatch::tx yet.
---
 src/server/tokio/dispatch.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/server/tokio/dispatch.rs b/src/server/tokio/dispatch.rs
index 45dc640..151f786 100644
--- a/src/server/tokio/dispatch.rs
+++ b/src/server/tokio/dispatch.rs
@@ -84,9 +84,8 @@ impl<A: server::Application> InnerDispatch<A> {
                 tx_abort: tx_ah,
             },
         );
-        std::mem::drop(pool); //release the write lock
-        self.do_pending_maintenance();
 
+        //the `self.tx` entry must exist before anyone else gets to see the connection
         let tx_notify = Arc::new(Notify::new());
         let tx_connector = TxConnector {
             notify: tx_notify.clone(),
@@ -94,6 +93,9 @@ impl<A: server::Application> InnerDispatch<A> {
         };
         self.tx.write().unwrap().insert(conn_id, tx_connector);
 
+        std::mem::drop(pool); //release the write lock
+        self.do_pending_maintenance();
+
         (conn_id, rx_ar, tx_ar, tx_notify)
     }
 
-- 
2.43.0


From fe466ada7f00666fcd488b32c277e67ef324e171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:56 +0000
Subject: [PATCH 10/10] fix: a shutdown requested before the event loop has
 started is not lost

---
 src/server/tokio/dispatch.rs | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/server/tokio/dispatch.rs b/src/server/tokio/dispatch.rs
index 151f786..7c45130 100644
--- a/src/server/tokio/dispatch.rs
+++ b/src/server/tokio/dispatch.rs
@@ -38,7 +38,8 @@ pub(crate) struct InnerDispatch<A: server::Application> {
     //can only be obtained by holding the `self.pool` lock).
     path: std::path::PathBuf,
     pub(crate) app: A,
-    abort: Mutex<Option<AbortHandle>>,
+    //The AbortHandle is for shutdown(), the AbortRegistration waits for run_listener() to pick it up.
+    abort: Mutex<(AbortHandle, Option<AbortRegistration>)>,
     pool: RwLock<ConnectionPool<A>>,
     tx: RwLock<HashMap<u64, TxConnector>>,
     //This #[allow] is here because factoring out `type Broadcast<A>` or something like that does
@@ -49,10 +50,11 @@ pub(crate) struct InnerDispatch<A: server::Application> {
 
 impl<A: server::Application> InnerDispatch<A> {
     fn new(path: std::path::PathBuf, app: A) -> Arc<Self> {
+        let (ah, ar) = AbortHandle::new_pair();
         Arc::new(InnerDispatch {
             path,
             app,
-            abort: Mutex::new(None),
+            abort: Mutex::new((ah, Some(ar))),
             pool: RwLock::new(ConnectionPool {
                 conns: HashMap::new(),
                 next_connection_id: 0,
@@ -262,9 +264,20 @@ impl<A: server::Application> Dispatch<A> {
     pub async fn run_listener(&self) -> std::io::Result<()> {
         let listener = tokio::net::UnixListener::bind(&self.0.path)?;
 
-        //set up an AbortHandle that shutdown() can use to intercept our loop
-        let (ah, ar) = AbortHandle::new_pair();
-        *(self.0.abort.lock().unwrap()) = Some(ah);
+        //get the counterpart of the AbortHandle that shutdown() uses to intercept our loop (if
+        //shutdown() has been called already, the loop ends right away); we only need a new pair if
+        //this is not the first loop
+        let ar = {
+            let mut abort = self.0.abort.lock().unwrap();
+            match abort.1.take() {
+                Some(ar) => ar,
+                None => {
+                    let (ah, ar) = AbortHandle::new_pair();
+                    abort.0 = ah;
+                    ar
+                }
+            }
+        };
 
         //run the listener.accept() loop until IO error or abortion via shutdown()
         let accept_future = async {
@@ -298,10 +311,7 @@ impl<A: server::Application> Dispatch<A> {
     ///Ask the event loop to shutdown. After this call, the `self.run_listener()` future will
     ///resolve to `Ok(())` once all client connections and the server socket have been dismantled.
     pub fn shutdown(&self) {
-        use std::ops::Deref;
-        if let Some(ref handle) = self.0.abort.lock().unwrap().deref() {
-            handle.abort();
-        }
+        self.0.abort.lock().unwrap().0.abort();
     }
 }
 
-- 
2.43.0

