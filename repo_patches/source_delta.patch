From be322d341f143104daf3febabf616db0e4115c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:52 +0000
Subject: [PATCH 01/11] fix: reject integers with a plus sign or with zeroes
 after a minus sign

---
 src/common/core/decode_argument.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/common/core/decode_argument.rs b/src/common/core/decode_argument.rs
index aae9b1d..2d8eb14 100644
--- a/src/common/core/decode_argument.rs
+++ b/src/common/core/decode_argument.rs
@@ -77,6 +77,13 @@ macro_rules! impl_DecodeArgument_for_integer {
                 if arg != b"0" && arg[0] == b'0' {
                     return None;
                 }
+                //forbid plus signs, and zeroes after a minus sign
+                if arg[0] == b'+' {
+                    return None;
+                }
+                if arg.len() > 1 && arg[0] == b'-' && arg[1] == b'0' {
+                    return None;
+                }
 
                 core::str::from_utf8(arg).ok()?.parse().ok()
             }
-- 
2.43.0


From 0a12cf891cfe4a18eb42f99a7cac5dc8d66fb4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:11 +0000
Subject: [PATCH 02/11] fix: do not overflow when deriving client IDs for the
 largest index

---
 src/client/core/client_id.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client/core/client_id.rs b/src/client/core/client_id.rs
index 4ff3f24..d1f19eb 100644
--- a/src/client/core/client_id.rs
+++ b/src/client/core/client_id.rs
@@ -151,7 +151,7 @@ fn get_size_for_number(num: u32) -> usize {
     //There are 10 + 2*26 - 1 = 61 codewords for each given length, except that the
     //codeword 0x00 is not used to avoid ambiguities in the ClientIDSuffix
     //encoding. Hence the `+ 1` below.
-    (1 + (num + 1) / 61) as usize
+    (1 + (u64::from(num) + 1) / 61) as usize
 }
 
 const LOOKUP_TABLE: [u8; 62] = [
@@ -163,7 +163,7 @@ const LOOKUP_TABLE: [u8; 62] = [
 
 fn encode_number(num: u32, buf: &mut [u8]) {
     //shift all numbers by 1 to account for the omitted codeword "0"
-    let mut num = num + 1;
+    let mut num = u64::from(num) + 1;
     for byte_mut in buf.iter_mut() {
         if num >= 61 {
             num -= 61;
-- 
2.43.0


From 89be959878921e3eda295f1f1422d14df88f89c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:28 +0000
Subject: [PATCH 03/11] fix: do not abort when descriptor 60 does not exist

Dropping a File whose descriptor is not open aborts the process in builds with debug assertions,
so a client outside of a VT6 terminal never got to see EnvironmentError::NoVT6Terminal.
---
 src/client/env.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/client/env.rs b/src/client/env.rs
index 663cd8d..710ff32 100644
--- a/src/client/env.rs
+++ b/src/client/env.rs
@@ -10,7 +10,7 @@ use crate::msg::posix::ParentHello;
 use core::fmt;
 use std::fs::File;
 use std::io::Read;
-use std::os::unix::io::FromRawFd;
+use std::os::unix::io::{FromRawFd, IntoRawFd};
 
 ///General information about the current client process.
 ///
@@ -66,6 +66,10 @@ impl Environment {
             Err(e) => {
                 if matches!(e.raw_os_error(), Some(errno) if errno == libc::EBADF || errno == libc::EINVAL)
                 {
+                    //NOTE: `impl Drop for File` insists on the FD being open and may abort the
+                    //process otherwise, so we need to close the FD (if there is one) by hand.
+                    //SAFETY: the FD is owned by us, and not used again afterwards
+                    unsafe { libc::close(f.into_raw_fd()) };
                     env.has_vt6_terminal = false;
                     return Ok(env);
                 } else {
-- 
2.43.0


From a0e5ca1b1863bc7b84f1ffe466e1812fcddefdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:50 +0000
Subject: [PATCH 04/11] fix: release registrations on core1.client-end

Nothing ever called Application::unregister_clients(), so the IDs of clients that were ended stayed in
use, and secrets that were not redeemed yet stayed valid.
---
 src/server/core/msg.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/server/core/msg.rs b/src/server/core/msg.rs
index 3335763..f67b4e8 100644
--- a/src/server/core/msg.rs
+++ b/src/server/core/msg.rs
@@ -115,9 +115,13 @@ impl<A: server::Application, Next: server::core::MessageHandlerExt<A>> server::H
                     return Err(InvalidMessage);
                 }
 
+                //release all registrations at or below this client ID
+                let d = conn.dispatch();
+                let selector = ClientSelector::AtOrBelow(msg.client_id);
+                d.application().unregister_clients(selector);
+
                 //tear down all client connections at or below this client ID
                 let owned_client_id = OwnedClientID::from(&msg.client_id);
-                let d = conn.dispatch();
                 d.enqueue_broadcast(Box::new(move |conn| {
                     let selector = ClientSelector::AtOrBelow(owned_client_id.as_ref());
                     if let ConnectionState::Msgio(ref connector) = conn.state() {
-- 
2.43.0


From e4e42c0201f4dfde12cbf0fc5dcc65c7b1c6adeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:04 +0000
Subject: [PATCH 05/11] fix: do not panic when a reply does not fit into a
 message

A client could bring down the entire server by sending a message whose type names a module with about a
thousand characters: the `have` reply exceeds the message size limit, and the panic poisons the locks.
---
 src/server/tokio/dispatch.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/server/tokio/dispatch.rs b/src/server/tokio/dispatch.rs
index 6366e50..b8ba488 100644
--- a/src/server/tokio/dispatch.rs
+++ b/src/server/tokio/dispatch.rs
@@ -351,8 +351,13 @@ impl<A: server::Application> server::Dispatch<A> for Dispatch<A> {
                 }
             };
             //if the fill_if_ok() errors out this time, it's because the rendered message is
-            //legimitately too long, so it's a good time to panic
-            send_buffer.fill_if_ok(|buf| msg.encode(buf)).unwrap();
+            //legitimately too long; we must not panic since clients can provoke this (e.g. by
+            //sending a message for a module with a very long name), but we cannot keep going
+            //without the reply either
+            if send_buffer.fill_if_ok(|buf| msg.encode(buf)).is_err() {
+                conn.set_state(server::ConnectionState::Teardown);
+                return;
+            }
         }
 
         //wake up the transmitter job if necessary
-- 
2.43.0


From 2cebaa20c8be4ee6fa83e8babc0014772f8f5c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:04 +0000
Subject: [PATCH 06/11] fix: do not reply on connections that were torn down by
 the handler

Dispatch::enqueue_message() must not be called in this state; the Tokio dispatch panics.
---
 src/server/connection.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/server/connection.rs b/src/server/connection.rs
index c7bfbf4..07d18ee 100644
--- a/src/server/connection.rs
+++ b/src/server/connection.rs
@@ -206,6 +206,8 @@ impl<A: server::Application, D: server::Dispatch<A>> Connection<A, D> {
                 };
                 match (handle_result, handler) {
                     (Ok(_), _) => { /* nice */ }
+                    //the handler has dismantled the connection -> there is no one to reply to
+                    (Err(_), _) if !self.state.can_receive_messages() => {}
                     //during handshake, anything that's not a handshake is a fatal error
                     (Err(_), HandlerObj::HandshakeHandler(_)) => {
                         self.set_state(ConnectionState::Teardown);
-- 
2.43.0


From 1b4286bd8583bb81ad13846c420b529b0a4db600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:20 +0000
Subject: [PATCH 07/11] fix: process large receive buffers without recursion

Connection::handle_incoming() called itself once per message (or once per opening brace after invalid
input), so a receive buffer with many messages overflowed the stack.
---
 src/server/connection.rs | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/server/connection.rs b/src/server/connection.rs
index 07d18ee..17e02a2 100644
--- a/src/server/connection.rs
+++ b/src/server/connection.rs
@@ -171,12 +171,22 @@ impl<A: server::Application, D: server::Dispatch<A>> Connection<A, D> {
     ///Handle data sent by the client. This interface is called by the Dispatch whenever data has
     ///been read from the client socket associated with this Connection instance.
     pub fn handle_incoming<B: ReceiveBuffer>(&mut self, buf: &mut B) {
-        if !buf.contents().is_empty() {
+        //each message (or error) may change into a different state, so we need to look at the
+        //state again after each one
+        while !buf.contents().is_empty() {
             use server::StdoutConnector;
             use ConnectionState::*;
             match self.state {
-                Handshake => self.handle_incoming_msgio::<B>(buf, HandlerObj::<A>::handshake()),
-                Msgio(_) => self.handle_incoming_msgio::<B>(buf, HandlerObj::<A>::message()),
+                Handshake => {
+                    if !self.handle_incoming_msgio::<B>(buf, HandlerObj::<A>::handshake()) {
+                        return;
+                    }
+                }
+                Msgio(_) => {
+                    if !self.handle_incoming_msgio::<B>(buf, HandlerObj::<A>::message()) {
+                        return;
+                    }
+                }
                 Stdin(_) => {
                     //receiving anything on stdin is an error, so close the connection (we might
                     //have to relax this in the future depending on how insistent legacy clients
@@ -191,12 +201,17 @@ impl<A: server::Application, D: server::Dispatch<A>> Connection<A, D> {
                     connector.receive(buf.contents());
                     buf.discard(buf.contents().len());
                 }
-                Teardown => {}
+                Teardown => return,
             }
         }
     }
 
-    fn handle_incoming_msgio<B: ReceiveBuffer>(&mut self, buf: &mut B, handler: HandlerObj<A>) {
+    //Handles at most one message. Returns false if there is not a full message yet.
+    fn handle_incoming_msgio<B: ReceiveBuffer>(
+        &mut self,
+        buf: &mut B,
+        handler: HandlerObj<A>,
+    ) -> bool {
         match msg::Message::parse(buf.contents()) {
             Ok((msg, bytes_parsed)) => {
                 use server::HandlerError::*;
@@ -236,7 +251,7 @@ impl<A: server::Application, D: server::Dispatch<A>> Connection<A, D> {
             }
             Err(e) if e.kind == msg::ParseErrorKind::UnexpectedEOF => {
                 //if we don't have a full message yet, wait until the next read
-                return;
+                return false;
             }
             Err(e) => {
                 match handler {
@@ -263,8 +278,6 @@ impl<A: server::Application, D: server::Dispatch<A>> Connection<A, D> {
                 buf.discard(bytes_to_discard);
             }
         }
-        //handling the previous message (or error) may have changed into a different state, so
-        //tail-call back into handle_incoming() to disambiguate again
-        self.handle_incoming(buf)
+        true
     }
 }
-- 
2.43.0


From c74d96084fcc0db0ff951b3b19d70348edcd1923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:50 +0000
Subject: [PATCH 08/11] fix: run broadcasts that are enqueued when a connection
 is closed during maintenance

do_maintenance() emptied the broadcast queue and only then removed the
connections that had been torn down. An application which enqueues a
broadcast upon being notified about the closed connection had that broadcast
sit in the queue until the next unrelated activity.
---
 src/server/tokio/dispatch.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/server/tokio/dispatch.rs b/src/server/tokio/dispatch.rs
index b8ba488..02fbb70 100644
--- a/src/server/tokio/dispatch.rs
+++ b/src/server/tokio/dispatch.rs
@@ -163,25 +163,22 @@ impl<A: server::Application> InnerDispatch<A> {
         //This function is called whenever we are about to drop a `self.pool.write()` lock. We use
         //this opportunity to execute broadcasts that we could not execute until now because we had
         //given mutable references to someone else.
-        let mut there_were_broadcasts = false;
         loop {
             use std::ops::DerefMut;
             let broadcasts = std::mem::replace(self.bc_queue.lock().unwrap().deref_mut(), vec![]);
             if broadcasts.is_empty() {
                 break;
             }
-            there_were_broadcasts = true;
             for broadcast in broadcasts {
                 for ref mut conn_entry in pool.conns.values_mut() {
                     broadcast(&mut conn_entry.conn);
                 }
             }
-        }
 
-        //run do_maintenance_on_conn() for all connections to detect state changes (we could not do
-        //this in the previous loop because we cannot pass `pool` to do_maintenance_on_conn() while
-        //iterating over `&mut pool.conns`
-        if there_were_broadcasts {
+            //run do_maintenance_on_conn() for all connections to detect state changes (we could not
+            //do this in the previous loop because we cannot pass `pool` to do_maintenance_on_conn()
+            //while iterating over `&mut pool.conns`); this may enqueue further broadcasts (when the
+            //application does so upon being notified), hence it needs to be inside the outer loop
             let all_conn_ids: Vec<_> = pool
                 .conns
                 .iter_mut()
-- 
2.43.0


From f254f3d0d4cadca126ca16cea07bbbef523670b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:51 +0000
Subject: [PATCH 09/11] fix: create the send queue of a connection before
 releasing the pool

The pool lock was released before the send queue was inserted. A broadcast
that was executed in between by another thread had the messages which it sent
to the new connection silently dropped.
---
 src/server/tokio/dispatch.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/server/tokio/dispatch.rs b/src/server/tokio/dispatch.rs
index 02fbb70..bd3b4f2 100644
--- a/src/server/tokio/dispatch.rs
+++ b/src/server/tokio/dispatch.rs
@@ -84,14 +84,13 @@ impl<A: server::Application> InnerDispatch<A> {
                 tx_abort: tx_ah,
             },
         );
-        std::mem::drop(pool); //release the write lock
-
         let tx_notify = Arc::new(Notify::new());
         let tx_connector = TxConnector {
             notify: tx_notify.clone(),
             bufs: Vec::new(),
         };
         self.tx.write().unwrap().insert(conn_id, tx_connector);
+        std::mem::drop(pool); //release the write lock
 
         (conn_id, rx_ar, tx_ar, tx_notify)
     }
-- 
2.43.0


From 38bbe3ff5185a00eb8da5b9244961d3bfdb21b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:52 +0000
Subject: [PATCH 10/11] fix: do not lose broadcasts that are enqueued while the
 pool is being released

When enqueue_broadcast() found the pool locked, it relied on the holder of the
lock to run the broadcast; but the holder may have looked at the queue for the
last time already. The queue is now checked again after each release.
---
 src/server/tokio/dispatch.rs | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/server/tokio/dispatch.rs b/src/server/tokio/dispatch.rs
index bd3b4f2..62d7759 100644
--- a/src/server/tokio/dispatch.rs
+++ b/src/server/tokio/dispatch.rs
@@ -91,6 +91,7 @@ impl<A: server::Application> InnerDispatch<A> {
         };
         self.tx.write().unwrap().insert(conn_id, tx_connector);
         std::mem::drop(pool); //release the write lock
+        self.run_broadcasts();
 
         (conn_id, rx_ar, tx_ar, tx_notify)
     }
@@ -101,7 +102,7 @@ impl<A: server::Application> InnerDispatch<A> {
     pub(crate) fn connection_mut<'a>(self: &'a Arc<Self>, conn_id: u64) -> ConnectionRefMut<'a, A> {
         ConnectionRefMut {
             inner: self,
-            guard: self.pool.write().unwrap(),
+            guard: Some(self.pool.write().unwrap()),
             conn_id,
         }
     }
@@ -188,6 +189,18 @@ impl<A: server::Application> InnerDispatch<A> {
             }
         }
     }
+
+    fn run_broadcasts(self: &Arc<Self>) {
+        //This function is called after enqueueing a broadcast and after releasing a
+        //`self.pool.write()` lock. If someone else holds the lock, we leave the queue to them: they
+        //may be past their do_maintenance() call already, but they will get here afterwards.
+        while !self.bc_queue.lock().unwrap().is_empty() {
+            match self.pool.try_write() {
+                Ok(mut pool) => self.do_maintenance(&mut pool),
+                Err(_) => return,
+            }
+        }
+    }
 }
 
 ////////////////////////////////////////////////////////////////////////////////
@@ -200,13 +213,14 @@ impl<A: server::Application> InnerDispatch<A> {
 
 pub(crate) struct ConnectionRefMut<'a, A: server::Application> {
     inner: &'a Arc<InnerDispatch<A>>,
-    guard: RwLockWriteGuard<'a, ConnectionPool<A>>,
+    guard: Option<RwLockWriteGuard<'a, ConnectionPool<A>>>, //only None while being dropped
     conn_id: u64,
 }
 
 impl<'a, A: server::Application> ConnectionRefMut<'a, A> {
     pub(crate) fn alive(&mut self) -> Option<&mut server::Connection<A, Dispatch<A>>> {
         self.guard
+            .as_mut()?
             .conns
             .get_mut(&self.conn_id)
             .map(|conn_ref| &mut conn_ref.conn)
@@ -215,9 +229,11 @@ impl<'a, A: server::Application> ConnectionRefMut<'a, A> {
 
 impl<'a, A: server::Application> Drop for ConnectionRefMut<'a, A> {
     fn drop(&mut self) {
-        self.inner
-            .do_maintenance_on_conn(&mut self.guard, self.conn_id);
-        self.inner.do_maintenance(&mut self.guard);
+        if let Some(mut guard) = self.guard.take() {
+            self.inner.do_maintenance_on_conn(&mut guard, self.conn_id);
+            self.inner.do_maintenance(&mut guard);
+        }
+        self.inner.run_broadcasts();
     }
 }
 
@@ -301,9 +317,7 @@ impl<A: server::Application> server::Dispatch<A> for Dispatch<A> {
         //This part is important because, if we didn't have it, and there is nothing currently
         //being received or transmitted, the broadcast would just needlessly sit in the queue until
         //the next time a client sends data to us.
-        if let Ok(mut pool_lock) = self.0.pool.try_write() {
-            self.0.do_maintenance(&mut pool_lock);
-        }
+        self.0.run_broadcasts();
     }
 
     fn enqueue_message<M: msg::EncodeMessage>(
-- 
2.43.0


From ca7be1b383ed1c07d008697fc5de09127ae1ed88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:26 +0000
Subject: [PATCH 11/11] fix: dismantle all connections when the listener is
 shut down

run_listener() only told the receiver and transmitter jobs to quit and left
every connection in the pool: the application never learned that these
connections had ended, and the dispatch was never freed since each connection
in its pool holds a reference to it.
---
 src/server/tokio/dispatch.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/server/tokio/dispatch.rs b/src/server/tokio/dispatch.rs
index 62d7759..fc042d2 100644
--- a/src/server/tokio/dispatch.rs
+++ b/src/server/tokio/dispatch.rs
@@ -277,10 +277,12 @@ impl<A: server::Application> Dispatch<A> {
             Err(Aborted) => {}
         };
 
-        //tell all receiver/transmitter jobs to quit it
-        for conn in self.0.pool.write().unwrap().conns.values() {
-            conn.rx_abort.abort();
-            conn.tx_abort.abort();
+        //tear down all connections (this tells all receiver/transmitter jobs to quit it)
+        let all_conn_ids: Vec<u64> = self.0.pool.read().unwrap().conns.keys().cloned().collect();
+        for conn_id in all_conn_ids {
+            if let Some(conn) = self.0.connection_mut(conn_id).alive() {
+                conn.set_state(server::ConnectionState::Teardown);
+            }
         }
 
         //clean up the server socket
-- 
2.43.0

