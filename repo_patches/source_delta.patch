From 07537c8e9359f72fb6b68791180c2d202ec32173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:03 +0000
Subject: [PATCH 01/17] fix: refuse integer arguments with plus sign, negative
 zero or zeroes after the sign

---
 src/common/core/decode_argument.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/common/core/decode_argument.rs b/src/common/core/decode_argument.rs
index aae9b1d..73c0cc0 100644
--- a/src/common/core/decode_argument.rs
+++ b/src/common/core/decode_argument.rs
@@ -70,12 +70,14 @@ macro_rules! impl_DecodeArgument_for_integer {
 
         impl<'a> DecodeArgument<'a> for $t {
             fn decode_argument(arg: &'a [u8]) -> Option<Self> {
-                //forbid leading zeroes
-                if arg.len() == 0 {
-                    return None;
-                }
-                if arg != b"0" && arg[0] == b'0' {
-                    return None;
+                //only accept the canonical representation: no explicit plus
+                //sign (which `parse()` would allow), no leading zeroes, and no
+                //negative zero
+                let digits = arg.strip_prefix(b"-").unwrap_or(arg);
+                match digits.first()? {
+                    b'1'..=b'9' => {}
+                    b'0' if arg == b"0" => {}
+                    _ => return None,
                 }
 
                 core::str::from_utf8(arg).ok()?.parse().ok()
-- 
2.43.0


From 5481adc82ff426cd4d85916dda4bb5ce16845e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:03 +0000
Subject: [PATCH 02/17] fix: do not overflow when encoding the highest possible
 client ID index

---
 src/client/core/client_id.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client/core/client_id.rs b/src/client/core/client_id.rs
index 4ff3f24..d1f19eb 100644
--- a/src/client/core/client_id.rs
+++ b/src/client/core/client_id.rs
@@ -151,7 +151,7 @@ fn get_size_for_number(num: u32) -> usize {
     //There are 10 + 2*26 - 1 = 61 codewords for each given length, except that the
     //codeword 0x00 is not used to avoid ambiguities in the ClientIDSuffix
     //encoding. Hence the `+ 1` below.
-    (1 + (num + 1) / 61) as usize
+    (1 + (u64::from(num) + 1) / 61) as usize
 }
 
 const LOOKUP_TABLE: [u8; 62] = [
@@ -163,7 +163,7 @@ const LOOKUP_TABLE: [u8; 62] = [
 
 fn encode_number(num: u32, buf: &mut [u8]) {
     //shift all numbers by 1 to account for the omitted codeword "0"
-    let mut num = num + 1;
+    let mut num = u64::from(num) + 1;
     for byte_mut in buf.iter_mut() {
         if num >= 61 {
             num -= 61;
-- 
2.43.0


From 01b2e71b7a8f841a22c1b1b70656bfaa118784d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:03 +0000
Subject: [PATCH 03/17] fix: have MessageIterator's size_hint() agree with its
 len()

---
 src/common/core/msg/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common/core/msg/mod.rs b/src/common/core/msg/mod.rs
index 641fcd7..1d366c4 100644
--- a/src/common/core/msg/mod.rs
+++ b/src/common/core/msg/mod.rs
@@ -346,6 +346,10 @@ impl<'s> Iterator for MessageIterator<'s> {
     fn next(&mut self) -> Option<Self::Item> {
         self.next_or_error().unwrap_or(None)
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.remaining_items, Some(self.remaining_items))
+    }
 }
 
 impl<'s> core::iter::ExactSizeIterator for MessageIterator<'s> {
-- 
2.43.0


From bdb94279e8ca26030152d6b6dde02b0af5a5989c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:31 +0000
Subject: [PATCH 04/17] fix: do not recurse once per message (or error) in a
 receive buffer

A client that sent a few thousand messages (or malformed bytes) in one go overflowed the server's stack.
---
 src/server/connection.rs | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/server/connection.rs b/src/server/connection.rs
index c7bfbf4..2ad1fb5 100644
--- a/src/server/connection.rs
+++ b/src/server/connection.rs
@@ -171,12 +171,14 @@ impl<A: server::Application, D: server::Dispatch<A>> Connection<A, D> {
     ///Handle data sent by the client. This interface is called by the Dispatch whenever data has
     ///been read from the client socket associated with this Connection instance.
     pub fn handle_incoming<B: ReceiveBuffer>(&mut self, buf: &mut B) {
-        if !buf.contents().is_empty() {
+        //This is a loop since handling a message (or error) may change us into a different state, so
+        //we need to disambiguate again before continuing with the rest of the buffer.
+        while !buf.contents().is_empty() {
             use server::StdoutConnector;
             use ConnectionState::*;
-            match self.state {
-                Handshake => self.handle_incoming_msgio::<B>(buf, HandlerObj::<A>::handshake()),
-                Msgio(_) => self.handle_incoming_msgio::<B>(buf, HandlerObj::<A>::message()),
+            let handler = match self.state {
+                Handshake => HandlerObj::<A>::handshake(),
+                Msgio(_) => HandlerObj::<A>::message(),
                 Stdin(_) => {
                     //receiving anything on stdin is an error, so close the connection (we might
                     //have to relax this in the future depending on how insistent legacy clients
@@ -186,17 +188,28 @@ impl<A: server::Application, D: server::Dispatch<A>> Connection<A, D> {
                     let n = server::Notification::IncomingBytesDiscarded(buf.contents());
                     self.dispatch.application().notify(&n);
                     buf.discard(buf.contents().len());
+                    return;
                 }
                 Stdout(ref mut connector) => {
                     connector.receive(buf.contents());
                     buf.discard(buf.contents().len());
+                    return;
                 }
-                Teardown => {}
+                Teardown => return,
+            };
+            if !self.handle_incoming_msgio::<B>(buf, handler) {
+                return;
             }
         }
     }
 
-    fn handle_incoming_msgio<B: ReceiveBuffer>(&mut self, buf: &mut B, handler: HandlerObj<A>) {
+    //Handles (at most) one message or parse error at the front of the buffer. Returns false if the
+    //buffer does not contain a full message yet.
+    fn handle_incoming_msgio<B: ReceiveBuffer>(
+        &mut self,
+        buf: &mut B,
+        handler: HandlerObj<A>,
+    ) -> bool {
         match msg::Message::parse(buf.contents()) {
             Ok((msg, bytes_parsed)) => {
                 use server::HandlerError::*;
@@ -234,7 +247,7 @@ impl<A: server::Application, D: server::Dispatch<A>> Connection<A, D> {
             }
             Err(e) if e.kind == msg::ParseErrorKind::UnexpectedEOF => {
                 //if we don't have a full message yet, wait until the next read
-                return;
+                return false;
             }
             Err(e) => {
                 match handler {
@@ -261,8 +274,6 @@ impl<A: server::Application, D: server::Dispatch<A>> Connection<A, D> {
                 buf.discard(bytes_to_discard);
             }
         }
-        //handling the previous message (or error) may have changed into a different state, so
-        //tail-call back into handle_incoming() to disambiguate again
-        self.handle_incoming(buf)
+        true
     }
 }
-- 
2.43.0


From 456b52c7e0c326e2ab0fe3bc45a6a9209a0683a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:31 +0000
Subject: [PATCH 05/17] fix: do not reply on a connection which the handler has
 just torn down

enqueue_message() must not be called in this state: the Tokio dispatch panics, which poisons its locks and takes down the whole server.
---
 src/server/connection.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/server/connection.rs b/src/server/connection.rs
index 2ad1fb5..149ab22 100644
--- a/src/server/connection.rs
+++ b/src/server/connection.rs
@@ -219,6 +219,8 @@ impl<A: server::Application, D: server::Dispatch<A>> Connection<A, D> {
                 };
                 match (handle_result, handler) {
                     (Ok(_), _) => { /* nice */ }
+                    //if the handler has torn down the connection, there is nobody left to reply to
+                    (Err(_), HandlerObj::MessageHandler(_)) if !self.state.can_receive_messages() => {}
                     //during handshake, anything that's not a handshake is a fatal error
                     (Err(_), HandlerObj::HandshakeHandler(_)) => {
                         self.set_state(ConnectionState::Teardown);
-- 
2.43.0


From 205604c15f199c2e98271e53eb68f237212258d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:31 +0000
Subject: [PATCH 06/17] fix: do not buffer incoming messages longer than 1024
 bytes

A client could announce an argument of arbitrary length and have the server buffer everything it sends.
---
 src/server/connection.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/server/connection.rs b/src/server/connection.rs
index 149ab22..1eea4cb 100644
--- a/src/server/connection.rs
+++ b/src/server/connection.rs
@@ -210,7 +210,11 @@ impl<A: server::Application, D: server::Dispatch<A>> Connection<A, D> {
         buf: &mut B,
         handler: HandlerObj<A>,
     ) -> bool {
-        match msg::Message::parse(buf.contents()) {
+        //Messages are at most 1024 bytes long. [vt6/foundation, sect. 3.1.2] If there is no message
+        //within that many bytes, waiting for more is pointless, so treat it as malformed.
+        let contents = buf.contents();
+        let contents = &contents[..std::cmp::min(contents.len(), 1024)];
+        match msg::Message::parse(contents) {
             Ok((msg, bytes_parsed)) => {
                 use server::HandlerError::*;
                 let handle_result = match handler {
@@ -247,7 +251,7 @@ impl<A: server::Application, D: server::Dispatch<A>> Connection<A, D> {
                 }
                 buf.discard(bytes_parsed);
             }
-            Err(e) if e.kind == msg::ParseErrorKind::UnexpectedEOF => {
+            Err(e) if e.kind == msg::ParseErrorKind::UnexpectedEOF && contents.len() < 1024 => {
                 //if we don't have a full message yet, wait until the next read
                 return false;
             }
-- 
2.43.0


From e541cc4fdac94f0c7e10729de3f8c627ccc40b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:39 +0000
Subject: [PATCH 07/17] fix: tear down the connection instead of panicking when
 a reply is too long

A panic poisons the dispatch's locks, so a single client could take down the whole server by sending a message type of about 1000 bytes.
---
 src/server/tokio/dispatch.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/server/tokio/dispatch.rs b/src/server/tokio/dispatch.rs
index 6366e50..f65a366 100644
--- a/src/server/tokio/dispatch.rs
+++ b/src/server/tokio/dispatch.rs
@@ -315,6 +315,9 @@ impl<A: server::Application> server::Dispatch<A> for Dispatch<A> {
         conn: &mut server::Connection<A, Self>,
         msg: &M,
     ) {
+        if matches!(conn.state(), server::ConnectionState::Teardown) {
+            return; //nobody is going to read this message
+        }
         if !conn.state().can_receive_messages() {
             panic!(
                 "enqueue_message() called on connection in state {}",
@@ -351,8 +354,17 @@ impl<A: server::Application> server::Dispatch<A> for Dispatch<A> {
                 }
             };
             //if the fill_if_ok() errors out this time, it's because the rendered message is
-            //legimitately too long, so it's a good time to panic
-            send_buffer.fill_if_ok(|buf| msg.encode(buf)).unwrap();
+            //legitimately too long (clients can provoke this, e.g. by sending an overly long
+            //message type for which the "nope" does not fit); we cannot skip the message because
+            //the client would misattribute the following replies, so give up on this connection
+            if let Err(e) = send_buffer.fill_if_ok(|buf| msg.encode(buf)) {
+                std::mem::drop(tx);
+                let err = format!("outgoing message is too long by {} bytes", e.0);
+                let n = server::Notification::ConnectionIOError(err.into());
+                self.0.app.notify(&n);
+                conn.set_state(server::ConnectionState::Teardown);
+                return;
+            }
         }
 
         //wake up the transmitter job if necessary
-- 
2.43.0


From 1a1ed72b7dbc5d7e7c03b016f3642aed58a58384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:39 +0000
Subject: [PATCH 08/17] fix: unregister clients on core1.client-end

Application::unregister_clients() was never called, so IDs could not be reused and unredeemed secrets stayed valid.
---
 src/server/core/msg.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/server/core/msg.rs b/src/server/core/msg.rs
index 3335763..7a42871 100644
--- a/src/server/core/msg.rs
+++ b/src/server/core/msg.rs
@@ -115,9 +115,13 @@ impl<A: server::Application, Next: server::core::MessageHandlerExt<A>> server::H
                     return Err(InvalidMessage);
                 }
 
+                //drop all registrations at or below this client ID
+                let d = conn.dispatch();
+                let selector = ClientSelector::AtOrBelow(msg.client_id);
+                d.application().unregister_clients(selector);
+
                 //tear down all client connections at or below this client ID
                 let owned_client_id = OwnedClientID::from(&msg.client_id);
-                let d = conn.dispatch();
                 d.enqueue_broadcast(Box::new(move |conn| {
                     let selector = ClientSelector::AtOrBelow(owned_client_id.as_ref());
                     if let ConnectionState::Msgio(ref connector) = conn.state() {
-- 
2.43.0


From d33e95674cc32c2d0cdbbfbfbd565213ea0844c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:39 +0000
Subject: [PATCH 09/17] fix: create the tx entry for a new connection under the
 pool lock

Broadcasts running between the two insertions lost the messages they enqueued. A connection torn down between them leaked its tx entry.
---
 src/server/tokio/dispatch.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/tokio/dispatch.rs b/src/server/tokio/dispatch.rs
index f65a366..eb397d3 100644
--- a/src/server/tokio/dispatch.rs
+++ b/src/server/tokio/dispatch.rs
@@ -84,7 +84,6 @@ impl<A: server::Application> InnerDispatch<A> {
                 tx_abort: tx_ah,
             },
         );
-        std::mem::drop(pool); //release the write lock
 
         let tx_notify = Arc::new(Notify::new());
         let tx_connector = TxConnector {
@@ -92,6 +91,7 @@ impl<A: server::Application> InnerDispatch<A> {
             bufs: Vec::new(),
         };
         self.tx.write().unwrap().insert(conn_id, tx_connector);
+        std::mem::drop(pool); //release the write lock
 
         (conn_id, rx_ar, tx_ar, tx_notify)
     }
-- 
2.43.0


From 52a6282f02a7c6299b5b105d0d0a0ac7b7324681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:39 +0000
Subject: [PATCH 10/17] fix: send ConnectionOpened before ConnectionClosed even
 for shortlived connections

---
 src/server/tokio/dispatch.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/server/tokio/dispatch.rs b/src/server/tokio/dispatch.rs
index eb397d3..0c0f68a 100644
--- a/src/server/tokio/dispatch.rs
+++ b/src/server/tokio/dispatch.rs
@@ -91,6 +91,10 @@ impl<A: server::Application> InnerDispatch<A> {
             bufs: Vec::new(),
         };
         self.tx.write().unwrap().insert(conn_id, tx_connector);
+
+        //notify while still holding the write lock, such that the ConnectionClosed notification for
+        //the same connection cannot come first
+        self.app.notify(&server::Notification::ConnectionOpened);
         std::mem::drop(pool); //release the write lock
 
         (conn_id, rx_ar, tx_ar, tx_notify)
@@ -256,7 +260,6 @@ impl<A: server::Application> Dispatch<A> {
                 let (conn_id, rx_abort, tx_abort, tx_notify) = self.0.create_connection_object();
                 my::spawn_receiver(self.0.clone(), rx_abort, conn_id, stream_reader);
                 my::spawn_transmitter(self.0.clone(), tx_abort, conn_id, stream_writer, tx_notify);
-                self.0.app.notify(&server::Notification::ConnectionOpened);
             }
         };
         match Abortable::new(accept_future, ar).await {
-- 
2.43.0


From d413afa171d2bad183e9f954c169d7c5eaac67c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:39 +0000
Subject: [PATCH 11/17] fix: do not strand broadcasts enqueued while the pool
 lock is being released

A broadcast that was enqueued after the holder of the lock had drained the queue (or while a new connection was being created) stayed there until some unrelated client activity.
---
 src/server/tokio/dispatch.rs | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/server/tokio/dispatch.rs b/src/server/tokio/dispatch.rs
index 0c0f68a..8a2af27 100644
--- a/src/server/tokio/dispatch.rs
+++ b/src/server/tokio/dispatch.rs
@@ -96,6 +96,7 @@ impl<A: server::Application> InnerDispatch<A> {
         //the same connection cannot come first
         self.app.notify(&server::Notification::ConnectionOpened);
         std::mem::drop(pool); //release the write lock
+        self.execute_pending_broadcasts();
 
         (conn_id, rx_ar, tx_ar, tx_notify)
     }
@@ -106,7 +107,7 @@ impl<A: server::Application> InnerDispatch<A> {
     pub(crate) fn connection_mut<'a>(self: &'a Arc<Self>, conn_id: u64) -> ConnectionRefMut<'a, A> {
         ConnectionRefMut {
             inner: self,
-            guard: self.pool.write().unwrap(),
+            guard: Some(self.pool.write().unwrap()),
             conn_id,
         }
     }
@@ -163,6 +164,18 @@ impl<A: server::Application> InnerDispatch<A> {
         }
     }
 
+    ///Executes all broadcasts in the queue, unless someone else is holding the pool lock: In this
+    ///case, they are going to call this function after having released the lock. Therefore, this
+    ///must be called whenever the write lock was released or a broadcast was enqueued.
+    fn execute_pending_broadcasts(self: &Arc<Self>) {
+        while !self.bc_queue.lock().unwrap().is_empty() {
+            match self.pool.try_write() {
+                Ok(mut pool) => self.do_maintenance(&mut pool),
+                Err(_) => break,
+            }
+        }
+    }
+
     fn do_maintenance(self: &Arc<Self>, pool: &mut RwLockWriteGuard<'_, ConnectionPool<A>>) {
         //This function is called whenever we are about to drop a `self.pool.write()` lock. We use
         //this opportunity to execute broadcasts that we could not execute until now because we had
@@ -208,13 +221,14 @@ impl<A: server::Application> InnerDispatch<A> {
 
 pub(crate) struct ConnectionRefMut<'a, A: server::Application> {
     inner: &'a Arc<InnerDispatch<A>>,
-    guard: RwLockWriteGuard<'a, ConnectionPool<A>>,
+    guard: Option<RwLockWriteGuard<'a, ConnectionPool<A>>>, //only None during drop()
     conn_id: u64,
 }
 
 impl<'a, A: server::Application> ConnectionRefMut<'a, A> {
     pub(crate) fn alive(&mut self) -> Option<&mut server::Connection<A, Dispatch<A>>> {
         self.guard
+            .as_mut()?
             .conns
             .get_mut(&self.conn_id)
             .map(|conn_ref| &mut conn_ref.conn)
@@ -223,9 +237,11 @@ impl<'a, A: server::Application> ConnectionRefMut<'a, A> {
 
 impl<'a, A: server::Application> Drop for ConnectionRefMut<'a, A> {
     fn drop(&mut self) {
-        self.inner
-            .do_maintenance_on_conn(&mut self.guard, self.conn_id);
-        self.inner.do_maintenance(&mut self.guard);
+        if let Some(mut guard) = self.guard.take() {
+            self.inner.do_maintenance_on_conn(&mut guard, self.conn_id);
+            self.inner.do_maintenance(&mut guard);
+        }
+        self.inner.execute_pending_broadcasts();
     }
 }
 
@@ -303,14 +319,13 @@ impl<A: server::Application> server::Dispatch<A> for Dispatch<A> {
         //put the broadcast in the queue
         self.0.bc_queue.lock().unwrap().push(action);
 
-        //if possible, execute the broadcast right now
+        //if possible, execute the broadcast right now (otherwise, whoever is holding the pool lock
+        //is going to do it once they release it)
         //
         //This part is important because, if we didn't have it, and there is nothing currently
         //being received or transmitted, the broadcast would just needlessly sit in the queue until
         //the next time a client sends data to us.
-        if let Ok(mut pool_lock) = self.0.pool.try_write() {
-            self.0.do_maintenance(&mut pool_lock);
-        }
+        self.0.execute_pending_broadcasts();
     }
 
     fn enqueue_message<M: msg::EncodeMessage>(
-- 
2.43.0


From 67e54de778d7b9522e53384d4d2a93e1149eb735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:39 +0000
Subject: [PATCH 12/17] fix: dismantle all connections on shutdown

Their jobs were aborted, but the connections stayed in the pool: no ConnectionClosed notification was sent, and the reference cycle through the connections leaked the dispatch and application.
---
 src/server/tokio/dispatch.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/server/tokio/dispatch.rs b/src/server/tokio/dispatch.rs
index 8a2af27..a96351a 100644
--- a/src/server/tokio/dispatch.rs
+++ b/src/server/tokio/dispatch.rs
@@ -284,11 +284,17 @@ impl<A: server::Application> Dispatch<A> {
             Err(Aborted) => {}
         };
 
-        //tell all receiver/transmitter jobs to quit it
-        for conn in self.0.pool.write().unwrap().conns.values() {
-            conn.rx_abort.abort();
-            conn.tx_abort.abort();
+        //tear down all connections, thus telling all receiver/transmitter jobs to quit it
+        let mut pool = self.0.pool.write().unwrap();
+        let all_conn_ids: Vec<_> = pool.conns.keys().copied().collect();
+        for conn_id in all_conn_ids {
+            if let Some(entry) = pool.conns.get_mut(&conn_id) {
+                entry.conn.set_state(server::ConnectionState::Teardown);
+            }
+            self.0.do_maintenance_on_conn(&mut pool, conn_id);
         }
+        std::mem::drop(pool); //release the write lock
+        self.0.execute_pending_broadcasts();
 
         //clean up the server socket
         std::mem::drop(listener);
-- 
2.43.0


From aaa4f67f5256f2c7489a6a759334cfb2e506358e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:39 +0000
Subject: [PATCH 13/17] fix: do not ignore a shutdown() that happens before
 run_listener() is first polled

---
 src/server/tokio/dispatch.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/server/tokio/dispatch.rs b/src/server/tokio/dispatch.rs
index a96351a..b6f0e7b 100644
--- a/src/server/tokio/dispatch.rs
+++ b/src/server/tokio/dispatch.rs
@@ -266,7 +266,12 @@ impl<A: server::Application> Dispatch<A> {
 
         //set up an AbortHandle that shutdown() can use to intercept our loop
         let (ah, ar) = AbortHandle::new_pair();
-        *(self.0.abort.lock().unwrap()) = Some(ah);
+        if let Some(old_ah) = self.0.abort.lock().unwrap().replace(ah.clone()) {
+            //honor a shutdown() that happened before we got here
+            if old_ah.is_aborted() {
+                ah.abort();
+            }
+        }
 
         //run the listener.accept() loop until IO error or abortion via shutdown()
         let accept_future = async {
@@ -283,6 +288,7 @@ impl<A: server::Application> Dispatch<A> {
             Ok(Err(e)) => return Err(e),
             Err(Aborted) => {}
         };
+        *(self.0.abort.lock().unwrap()) = None;
 
         //tear down all connections, thus telling all receiver/transmitter jobs to quit it
         let mut pool = self.0.pool.write().unwrap();
@@ -304,10 +310,9 @@ impl<A: server::Application> Dispatch<A> {
     ///Ask the event loop to shutdown. After this call, the `self.run_listener()` future will
     ///resolve to `Ok(())` once all client connections and the server socket have been dismantled.
     pub fn shutdown(&self) {
-        use std::ops::Deref;
-        if let Some(ref handle) = self.0.abort.lock().unwrap().deref() {
-            handle.abort();
-        }
+        //if the event loop is not running yet, leave an aborted handle for it to find
+        let mut abort = self.0.abort.lock().unwrap();
+        abort.get_or_insert_with(|| AbortHandle::new_pair().0).abort();
     }
 }
 
-- 
2.43.0


From 9c6df8192bf199055740c48ce77c4e4b44e1724c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:39 +0000
Subject: [PATCH 14/17] fix: do not construct a File for FD 60 unless it is
 open

Environment::discover() aborted the process in debug builds when not running in a VT6 terminal.
---
 src/client/env.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/client/env.rs b/src/client/env.rs
index 663cd8d..14e3dfc 100644
--- a/src/client/env.rs
+++ b/src/client/env.rs
@@ -56,6 +56,13 @@ impl Environment {
             has_vt6_terminal: true,
         };
 
+        //We must not construct a File for an FD that is not open. (In debug builds, std aborts the
+        //process when closing such a File.)
+        if unsafe { libc::fcntl(60, libc::F_GETFD) } == -1 {
+            env.has_vt6_terminal = false;
+            return Ok(env);
+        }
+
         //SAFETY: we need to call this unsafe trait method to obtain a File handle
         let mut f = unsafe { File::from_raw_fd(60) };
         //NOTE: `impl Drop for File` will close FD 60 when this method returns.
-- 
2.43.0


From ca2494cb61eae0d5567ee38f37713091942dc389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:49 +0000
Subject: [PATCH 15/17] hook: delay points in the Tokio server, compiled only
 with --cfg vt6_verif

---
 src/lib.rs                      |  1 +
 src/server/mod.rs               | 13 +++++++++++++
 src/server/tokio/dispatch.rs    | 10 ++++++++++
 src/server/tokio/receiver.rs    |  1 +
 src/server/tokio/transmitter.rs |  2 ++
 src/server/verif.rs             | 18 ++++++++++++++++++
 6 files changed, 45 insertions(+)
 create mode 100644 src/server/verif.rs

diff --git a/src/lib.rs b/src/lib.rs
index c766ccb..c4f5c13 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -5,6 +5,7 @@
 *******************************************************************************/
 
 #![cfg_attr(all(not(test), not(feature = "use_std")), no_std)]
+#![allow(unexpected_cfgs)] //`cfg(vt6_verif)` is only set by external verification tooling
 
 /*!
 
diff --git a/src/server/mod.rs b/src/server/mod.rs
index 0733cef..d17ad43 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -29,6 +29,19 @@ The "example-server" crate in this repo provides a minimal working example of al
 working together.
 */
 
+//marks a point between two steps of a concurrent operation, for use by verification tooling
+#[allow(unused_macros)]
+macro_rules! verif_point {
+    ($name:expr) => {
+        #[cfg(vt6_verif)]
+        crate::server::verif::point($name)
+    };
+}
+
+#[cfg(vt6_verif)]
+#[doc(hidden)]
+pub mod verif;
+
 mod application;
 pub use application::*;
 mod auth;
diff --git a/src/server/tokio/dispatch.rs b/src/server/tokio/dispatch.rs
index b6f0e7b..e7983d6 100644
--- a/src/server/tokio/dispatch.rs
+++ b/src/server/tokio/dispatch.rs
@@ -95,7 +95,9 @@ impl<A: server::Application> InnerDispatch<A> {
         //notify while still holding the write lock, such that the ConnectionClosed notification for
         //the same connection cannot come first
         self.app.notify(&server::Notification::ConnectionOpened);
+        verif_point!("connection created");
         std::mem::drop(pool); //release the write lock
+        verif_point!("pool unlocked");
         self.execute_pending_broadcasts();
 
         (conn_id, rx_ar, tx_ar, tx_notify)
@@ -169,6 +171,7 @@ impl<A: server::Application> InnerDispatch<A> {
     ///must be called whenever the write lock was released or a broadcast was enqueued.
     fn execute_pending_broadcasts(self: &Arc<Self>) {
         while !self.bc_queue.lock().unwrap().is_empty() {
+            verif_point!("broadcasts pending");
             match self.pool.try_write() {
                 Ok(mut pool) => self.do_maintenance(&mut pool),
                 Err(_) => break,
@@ -240,7 +243,9 @@ impl<'a, A: server::Application> Drop for ConnectionRefMut<'a, A> {
         if let Some(mut guard) = self.guard.take() {
             self.inner.do_maintenance_on_conn(&mut guard, self.conn_id);
             self.inner.do_maintenance(&mut guard);
+            verif_point!("maintenance done");
         }
+        verif_point!("pool unlocked");
         self.inner.execute_pending_broadcasts();
     }
 }
@@ -279,7 +284,9 @@ impl<A: server::Application> Dispatch<A> {
                 let (stream, _addr) = listener.accept().await?;
                 let (stream_reader, stream_writer) = stream.into_split();
                 let (conn_id, rx_abort, tx_abort, tx_notify) = self.0.create_connection_object();
+                verif_point!("accepted");
                 my::spawn_receiver(self.0.clone(), rx_abort, conn_id, stream_reader);
+                verif_point!("receiver spawned");
                 my::spawn_transmitter(self.0.clone(), tx_abort, conn_id, stream_writer, tx_notify);
             }
         };
@@ -288,6 +295,7 @@ impl<A: server::Application> Dispatch<A> {
             Ok(Err(e)) => return Err(e),
             Err(Aborted) => {}
         };
+        verif_point!("listener stopped");
         *(self.0.abort.lock().unwrap()) = None;
 
         //tear down all connections, thus telling all receiver/transmitter jobs to quit it
@@ -300,6 +308,7 @@ impl<A: server::Application> Dispatch<A> {
             self.0.do_maintenance_on_conn(&mut pool, conn_id);
         }
         std::mem::drop(pool); //release the write lock
+        verif_point!("pool unlocked");
         self.0.execute_pending_broadcasts();
 
         //clean up the server socket
@@ -329,6 +338,7 @@ impl<A: server::Application> server::Dispatch<A> for Dispatch<A> {
     ) {
         //put the broadcast in the queue
         self.0.bc_queue.lock().unwrap().push(action);
+        verif_point!("broadcast queued");
 
         //if possible, execute the broadcast right now (otherwise, whoever is holding the pool lock
         //is going to do it once they release it)
diff --git a/src/server/tokio/receiver.rs b/src/server/tokio/receiver.rs
index 9c9cec6..301cd2f 100644
--- a/src/server/tokio/receiver.rs
+++ b/src/server/tokio/receiver.rs
@@ -46,6 +46,7 @@ pub(crate) fn spawn_receiver<A: server::Application>(
                 }
                 Ok(bytes_read) => bytes_read,
             };
+            verif_point!("received");
 
             if buf.len() > 0 {
                 if let Some(conn) = dispatch.connection_mut(conn_id).alive() {
diff --git a/src/server/tokio/transmitter.rs b/src/server/tokio/transmitter.rs
index 98b4892..04a59ac 100644
--- a/src/server/tokio/transmitter.rs
+++ b/src/server/tokio/transmitter.rs
@@ -90,6 +90,7 @@ pub(crate) fn spawn_transmitter<A: server::Application>(
         loop {
             //wait for data to become available
             tx_notify.notified().await;
+            verif_point!("transmitter woken");
 
             loop {
                 //get the next send buffer
@@ -99,6 +100,7 @@ pub(crate) fn spawn_transmitter<A: server::Application>(
                     //the connection is alive -> return the old send buffer and get a new one
                     Some(conn) => dispatch.swap_send_buffer(conn, buf),
                 };
+                verif_point!("send buffer swapped");
                 match buf {
                     //no data waiting anymore -> go back to sleep
                     None => break,
diff --git a/src/server/verif.rs b/src/server/verif.rs
new file mode 100644
index 0000000..03b9861
--- /dev/null
+++ b/src/server/verif.rs
@@ -0,0 +1,18 @@
+/*******************************************************************************
+* Copyright 2020 Stefan Majewsky <majewsky@gmx.net>
+* SPDX-License-Identifier: Apache-2.0
+* Refer to the file "LICENSE" for details.
+*******************************************************************************/
+
+//!Hook for verification tooling. Only compiled with `--cfg vt6_verif`.
+
+use std::sync::OnceLock;
+
+///The hook, called whenever an operation of the server passes a `verif_point!()`.
+pub static HOOK: OnceLock<fn(&'static str)> = OnceLock::new();
+
+pub(crate) fn point(name: &'static str) {
+    if let Some(hook) = HOOK.get() {
+        hook(name);
+    }
+}
-- 
2.43.0


From bc3a19744143e307801198db1750478dedcad2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:15 +0000
Subject: [PATCH 16/17] fix: stop reading from a connection which is already
 being dismantled

---
 src/server/tokio/receiver.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/server/tokio/receiver.rs b/src/server/tokio/receiver.rs
index 301cd2f..d9e0fcc 100644
--- a/src/server/tokio/receiver.rs
+++ b/src/server/tokio/receiver.rs
@@ -49,8 +49,11 @@ pub(crate) fn spawn_receiver<A: server::Application>(
             verif_point!("received");
 
             if buf.len() > 0 {
-                if let Some(conn) = dispatch.connection_mut(conn_id).alive() {
-                    conn.handle_incoming(&mut buf);
+                match dispatch.connection_mut(conn_id).alive() {
+                    Some(conn) => conn.handle_incoming(&mut buf),
+                    //connection is already being dismantled -> do not read (and
+                    //buffer) what nobody will handle anymore
+                    None => return,
                 }
             }
 
-- 
2.43.0


From 82784a6112d599fc8fcdebcc9e6ca8133e99da9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:50 +0000
Subject: [PATCH 17/17] fix: let environment discovery survive signals while it
 waits

---
 src/client/env.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/client/env.rs b/src/client/env.rs
index 14e3dfc..8dd7d4e 100644
--- a/src/client/env.rs
+++ b/src/client/env.rs
@@ -68,7 +68,7 @@ impl Environment {
         //NOTE: `impl Drop for File` will close FD 60 when this method returns.
 
         //the first read on FD 60 decides if we are on a VT6 terminal or not
-        match f.read(&mut env.buf) {
+        match read(&mut f, &mut env.buf) {
             Ok(filled) => env.filled = filled,
             Err(e) => {
                 if matches!(e.raw_os_error(), Some(errno) if errno == libc::EBADF || errno == libc::EINVAL)
@@ -83,7 +83,7 @@ impl Environment {
 
         //continue reading until we have a full parent-hello message or EOF or parse error
         while matches!(msg::Message::parse(&env.buf[0..env.filled]), Err(e) if e.is_incomplete()) {
-            let filled = f.read(&mut env.buf[env.filled..])?;
+            let filled = read(&mut f, &mut env.buf[env.filled..])?;
             env.filled += filled;
             if filled == 0 {
                 //we reached EOF on FD 60, so no more reads necessary
@@ -109,6 +109,16 @@ impl Environment {
     }
 }
 
+///Reads once, starting over if a signal arrives before there is any data.
+fn read(f: &mut File, buf: &mut [u8]) -> std::io::Result<usize> {
+    loop {
+        match f.read(buf) {
+            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
+            result => return result,
+        }
+    }
+}
+
 ///Provides access to the data contained in [struct Environment](struct.Environment.html).
 ///
 ///Unlike `Environment`, which is a singleton by design, instances of this type can be cloned and
-- 
2.43.0

