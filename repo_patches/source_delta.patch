From 438ebbb412f1beb98500f407c2b46cbf286327eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:53 +0000
Subject: [PATCH 1/8] fix: free a slot when an acyclic bounded sender consumes
 an acknowledgement

---
 src/channel/sender/bounded.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/channel/sender/bounded.rs b/src/channel/sender/bounded.rs
index fb39409..249cf72 100644
--- a/src/channel/sender/bounded.rs
+++ b/src/channel/sender/bounded.rs
@@ -35,6 +35,7 @@ impl<T> BoundedProvider for BoundedAcyclicSender<T> {
         match self.bound.resp.recv() {
             Ok(time) => {
                 manager.advance(time);
+                self.bound.send_receive_delta -= 1;
                 Ok(())
             }
             Err(_) => Err(EnqueueError::Closed),
-- 
2.43.0


From e6c736884a20fcbaf91161944c0fe4f3db9d6b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:53 +0000
Subject: [PATCH 2/8] fix: advance the clock when acyclic peek_next returns an
 already peeked element

---
 src/channel/receiver/acyclic.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/channel/receiver/acyclic.rs b/src/channel/receiver/acyclic.rs
index 577e4cd..2f826db 100644
--- a/src/channel/receiver/acyclic.rs
+++ b/src/channel/receiver/acyclic.rs
@@ -10,7 +10,10 @@ pub(super) trait AcyclicReceiver<T: Clone>: ReceiverCommon<T> {
         match &self.data().head {
             Some(PeekResult::Closed) => return Err(DequeueError::Closed),
             None | Some(PeekResult::Nothing(_)) => {}
-            Some(PeekResult::Something(data)) => return Ok(data.clone()),
+            Some(PeekResult::Something(data)) => {
+                manager.advance(data.time);
+                return Ok(data.clone());
+            }
         }
 
         self.data().head = match self.data().underlying.recv() {
-- 
2.43.0


From 61563fb259a53a5eaded0bf218e43a46f6c36b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:53 +0000
Subject: [PATCH 3/8] fix: never return a future value from a datastore read
 before the first write

---
 src/templates/datastore.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/templates/datastore.rs b/src/templates/datastore.rs
index 3c221e7..2f29752 100644
--- a/src/templates/datastore.rs
+++ b/src/templates/datastore.rs
@@ -76,16 +76,15 @@ impl<T: DAMType> Datastore<T> {
         // next_pos holds the location of the first element after the read time.
         let next_pos = reader.iter().position(|elem| elem.time > time);
         match next_pos {
-            Some(0) | None => match reader.last() {
-                None => {
-                    if self.behavior.use_default_value {
-                        T::default()
-                    } else {
-                        panic!("Attempting to read a value before anything was written!")
-                    }
+            None if !reader.is_empty() => reader.last().unwrap().data.clone(),
+            // Either nothing was written at all, or every write is after the read time.
+            Some(0) | None => {
+                if self.behavior.use_default_value {
+                    T::default()
+                } else {
+                    panic!("Attempting to read a value before anything was written!")
                 }
-                Some(last_val) => last_val.data.clone(),
-            },
+            }
 
             Some(x) => reader.get(x - 1).unwrap().data.clone(),
         }
-- 
2.43.0


From a784525311ebe02d682782b687829cd021bf6698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:53 +0000
Subject: [PATCH 4/8] fix: declare every channel dependency of a PMU, for any
 number of ports

---
 src/templates/pmu.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/templates/pmu.rs b/src/templates/pmu.rs
index c7776c1..420c8fe 100644
--- a/src/templates/pmu.rs
+++ b/src/templates/pmu.rs
@@ -77,16 +77,23 @@ impl<T: DAMType, IT: IndexLike, AT: DAMType> Context for PMU<T, IT, AT> {
     fn edge_connections(&self) -> Option<ExplicitConnections> {
         let mut result =
             HashMap::<Identifier, Vec<(HashSet<ChannelID>, HashSet<ChannelID>)>>::new();
-        for bundle in &self.reader.readers {
-            let srcs = [bundle.addr.id()];
-            let dsts = [bundle.resp.id()];
-            result.insert(self.reader.id(), vec![(srcs.into(), dsts.into())]);
-        }
+        // Each pipeline polls all of its ports before serving one of them.
+        let mut write_srcs = HashSet::new();
+        let mut write_dsts = HashSet::new();
         for bundle in &self.writer.writers {
-            let srcs = [bundle.addr.id(), bundle.data.id()];
-            let dsts = [bundle.ack.id()];
-            result.insert(self.writer.id(), vec![(srcs.into(), dsts.into())]);
+            write_srcs.insert(bundle.addr.id());
+            write_srcs.insert(bundle.data.id());
+            write_dsts.insert(bundle.ack.id());
+        }
+        // The reader additionally waits for the writer before each read.
+        let mut read_srcs = write_srcs.clone();
+        let mut read_dsts = HashSet::new();
+        for bundle in &self.reader.readers {
+            read_srcs.insert(bundle.addr.id());
+            read_dsts.insert(bundle.resp.id());
         }
+        result.insert(self.reader.id(), vec![(read_srcs, read_dsts)]);
+        result.insert(self.writer.id(), vec![(write_srcs, write_dsts)]);
         Some(result)
     }
 
-- 
2.43.0


From 22f3b39b75cb2d33bde3c552c854b933ff89dc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:53 +0000
Subject: [PATCH 5/8] fix: wait until the PMU writer has passed the cycle of a
 read

---
 src/templates/pmu.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/templates/pmu.rs b/src/templates/pmu.rs
index 420c8fe..615566f 100644
--- a/src/templates/pmu.rs
+++ b/src/templates/pmu.rs
@@ -209,7 +209,7 @@ where
         self.writer_view
             .as_ref()
             .unwrap()
-            .wait_until(self.time.tick())
+            .wait_until(self.time.tick() + 1)
     }
 }
 
-- 
2.43.0


From e1e9bc89830289e89023028d2b8d4cf965c72ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:53 +0000
Subject: [PATCH 6/8] fix: apply the DRAM bandwidth to writes

---
 src/templates/dram.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/templates/dram.rs b/src/templates/dram.rs
index 8cc57b4..f7de3ae 100644
--- a/src/templates/dram.rs
+++ b/src/templates/dram.rs
@@ -215,9 +215,9 @@ impl<IType: IndexLike, T: DAMType, AT: DAMType> Context for DRAM<IType, T, AT> {
                         );
 
                         // The bandwidth-constrained transfer time
+                        let write_size: usize = write_buffer.iter().map(|x| x.dam_size()).sum();
                         let transfer_time =
-                            u64::try_from(write_buffer.iter().map(|x| x.dam_size()).sum::<usize>())
-                                .unwrap();
+                            u64::try_from(write_size / self.config.bandwidth_in_bits).unwrap();
                         // This is when the write "actually happened"
                         let write_time = transfer_start_time + transfer_time;
                         write_buffer
-- 
2.43.0


From 67c87c834710ace96474b51b06def78d8c3ded4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:53 +0000
Subject: [PATCH 7/8] fix: accept trace elements at cycle 0

---
 src/utility_contexts/trace_context.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/utility_contexts/trace_context.rs b/src/utility_contexts/trace_context.rs
index 318a30e..a54d488 100644
--- a/src/utility_contexts/trace_context.rs
+++ b/src/utility_contexts/trace_context.rs
@@ -27,7 +27,11 @@ where
     fn run_falliable(&mut self) -> anyhow::Result<()> {
         if let Some(func) = self.iterator.take() {
             for (data, time) in (func)() {
-                self.time.advance(time.into() - 1);
+                let time: Time = time.into();
+                // The element is on the channel one cycle after it is sent.
+                if time > Time::new(0) {
+                    self.time.advance(time - 1);
+                }
                 self.output
                     .enqueue(&self.time, ChannelElement::new(self.time.tick() + 1, data))?;
                 // Don't need an incr_cycles in case the generator wants to emit multiple values on the same cycle.
-- 
2.43.0


From fa2e387aa4dd3e058def19847005d5471be9d74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:27 +0000
Subject: [PATCH 8/8] fix: log_event_cb without logging has the same bounds as
 with it

A program that logs with a callback could not be built without the logging
feature, because nothing tied the closure to the event type.
---
 src/logging/log_functions.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/logging/log_functions.rs b/src/logging/log_functions.rs
index 2336f65..33c2ed3 100644
--- a/src/logging/log_functions.rs
+++ b/src/logging/log_functions.rs
@@ -79,7 +79,12 @@ cfg_if! {
         /// No-op without logging enabled
         #[allow(unused)]
         #[inline]
-        pub fn log_event_cb<T: LogEvent, F>(callback: F) -> Result<(), LogError> { Ok(()) }
+        pub fn log_event_cb<T: LogEvent, F>(callback: F) -> Result<(), LogError>
+        where
+            F: FnOnce() -> T,
+        {
+            Ok(())
+        }
 
         /// No-op without logging enabled
         #[allow(unused)]
-- 
2.43.0

