From 372da6a422cb8c682f631333e04e3710ac4c7008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:27 +0000
Subject: [PATCH 001/126] fix: UVMMailbox.num() returns the number of items,
 not a boolean

---
 src/uvm/base/uvm_mailbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_mailbox.py b/src/uvm/base/uvm_mailbox.py
index f82140e..ef519e0 100644
--- a/src/uvm/base/uvm_mailbox.py
+++ b/src/uvm/base/uvm_mailbox.py
@@ -152,4 +152,4 @@ class UVMMailbox():
         return self.m_queue.size() < self.max_size
 
     def num(self) -> int:
-        return self.m_queue.size() > 0
+        return self.m_queue.size()
-- 
2.43.0


From 207a5b3641e2c82d79f1fceb4a48c6ba7423adc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:27 +0000
Subject: [PATCH 002/126] fix: UVMMailbox.peek() waits again when another task
 took the item

---
 src/uvm/base/uvm_mailbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_mailbox.py b/src/uvm/base/uvm_mailbox.py
index ef519e0..5a9f616 100644
--- a/src/uvm/base/uvm_mailbox.py
+++ b/src/uvm/base/uvm_mailbox.py
@@ -85,7 +85,7 @@ class UVMMailbox():
 
     async def peek(self, itemq: OutputItem=None) -> Any:
         """ Peeks (with blocking) next item from mailbox without removing it """
-        if not self.can_get():
+        while not self.can_get():
             _uvm_debug(self, 'get', 'waiting write event to get item')
             self.m_write_event.clear()
             await self.m_write_event.wait()
-- 
2.43.0


From 9bb919eddf98e5adb943015b00a3589d6c274df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:40 +0000
Subject: [PATCH 003/126] fix: UVMTLMFIFO.peek() hands the item to the caller
 once

---
 src/uvm/tlm1/uvm_tlm_fifos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/tlm1/uvm_tlm_fifos.py b/src/uvm/tlm1/uvm_tlm_fifos.py
index 32a3093..1ff782c 100644
--- a/src/uvm/tlm1/uvm_tlm_fifos.py
+++ b/src/uvm/tlm1/uvm_tlm_fifos.py
@@ -122,7 +122,7 @@ class UVMTLMFIFO(UVMTLMFIFOBase):
         return res
 
     async def peek(self, t=None) -> Any:
-        res = await self.m.peek(t)
+        res = await self.m.peek()
         if t is not None:
             t.append(res)
         return res
-- 
2.43.0


From 9ab299c5c068c6aea738e9cd0a45e6dc0fbf55f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:40 +0000
Subject: [PATCH 004/126] fix: UVMTLMFIFO.try_get()/flush() report the removed
 item on get_ap

---
 src/uvm/tlm1/uvm_tlm_fifos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/tlm1/uvm_tlm_fifos.py b/src/uvm/tlm1/uvm_tlm_fifos.py
index 1ff782c..0e6c549 100644
--- a/src/uvm/tlm1/uvm_tlm_fifos.py
+++ b/src/uvm/tlm1/uvm_tlm_fifos.py
@@ -130,7 +130,7 @@ class UVMTLMFIFO(UVMTLMFIFOBase):
     def try_get(self, t) -> bool:
         if not self.m.try_get(t):
             return False
-        self.get_ap.write(t[0])
+        self.get_ap.write(t[-1])
         return True
 
     def try_peek(self, t) -> bool:
-- 
2.43.0


From ff4cf4fc9bacc4099d6b47a2898aecf942c5a06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:29 +0000
Subject: [PATCH 005/126] fix: UVMEvent.trigger() honours every registered
 callback and fires unless one vetoes

---
 src/uvm/base/uvm_event.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_event.py b/src/uvm/base/uvm_event.py
index 0255789..50cbef9 100644
--- a/src/uvm/base/uvm_event.py
+++ b/src/uvm/base/uvm_event.py
@@ -331,7 +331,8 @@ class UVMEvent(UVMEventBase):  # (type T=uvm_object) extends uvm_event_base
             for i in range(0, self.callbacks.size()):
                 #uvm_event_callback#(T) tmp=self.callbacks[i]
                 tmp = self.callbacks.get(i)
-            skip = skip + tmp.pre_trigger(self, data)
+                if tmp.pre_trigger(self, data):
+                    skip = True
         if skip is False:
             self.m_event.set(data)
             if self.callbacks.size() > 0:
-- 
2.43.0


From 712afe0a9d944ac8047de7def95fefc35875eb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:29 +0000
Subject: [PATCH 006/126] fix: UVMEvent.wait_trigger() waits for the next
 trigger, wait_ptrigger() only looks back within its time-slice

---
 src/uvm/base/uvm_event.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/uvm/base/uvm_event.py b/src/uvm/base/uvm_event.py
index 50cbef9..823fd0e 100644
--- a/src/uvm/base/uvm_event.py
+++ b/src/uvm/base/uvm_event.py
@@ -54,6 +54,7 @@ class UVMEventBase(UVMObject):
         self.on = False
         self.on_event = Event("on_event_" + name)
         self.trigger_time = 0
+        self.m_ptrigger_time = None  # Time-slice of the last trigger, if any
         self.callbacks = UVMQueue()  # list[uvm_event_callback]
         self.m_waiters = 0
         self.m_value_changed_event = Event("value_changed_event_" + name)
@@ -144,8 +145,8 @@ class UVMEventBase(UVMObject):
 
         """
         self.num_waiters += 1
+        self.m_event.clear()  # Only a trigger after this call counts
         await self.m_event.wait()
-        self.m_event.clear()
 
 
     async def wait_ptrigger(self):
@@ -155,11 +156,11 @@ class UVMEventBase(UVMObject):
         certain race conditions. If this method is called after the trigger but
         within the same time-slice, the caller returns immediately.
         """
-        if self.m_event.fired:
+        if self.m_ptrigger_time == sv.realtime():
             return
         self.num_waiters += 1
-        await self.m_event.wait()
         self.m_event.clear()
+        await self.m_event.wait()
 
     def get_trigger_time(self):
         """
@@ -208,6 +209,7 @@ class UVMEventBase(UVMObject):
         self.num_waiters = 0
         self.set_value("on", False)
         self.trigger_time = 0
+        self.m_ptrigger_time = None
 
 
     def cancel(self):
@@ -335,6 +337,7 @@ class UVMEvent(UVMEventBase):  # (type T=uvm_object) extends uvm_event_base
                     skip = True
         if skip is False:
             self.m_event.set(data)
+            self.m_ptrigger_time = sv.realtime()
             if self.callbacks.size() > 0:
                 for i in range(0, self.callbacks.size()):
                     #uvm_event_callback#(T) tmp=self.callbacks[i]
-- 
2.43.0


From 6e1e36b43564ddc01ba161733b987962fffe835a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:29 +0000
Subject: [PATCH 007/126] fix: UVMBarrier releases its waiters when the
 threshold is reached

---
 src/uvm/base/uvm_barrier.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/base/uvm_barrier.py b/src/uvm/base/uvm_barrier.py
index 370ac93..9bf3c42 100644
--- a/src/uvm/base/uvm_barrier.py
+++ b/src/uvm/base/uvm_barrier.py
@@ -46,7 +46,7 @@ class UVMBarrier(UVMObject):
     #
     def __init__(self, name="", threshold=0):
         super().__init__(name)
-        self.m_event = UVMEvent({"barrier_",name})
+        self.m_event = UVMEvent("barrier_" + name)
         self.threshold = threshold
         self.num_waiters = 0
         self.auto_reset = 1
@@ -68,7 +68,7 @@ class UVMBarrier(UVMObject):
         if self.num_waiters >= self.threshold:
             if not self.auto_reset:
                 self.at_threshold=1
-            self.m_trigger()
+            await self.m_trigger()
             return
 
         await self.m_event.wait_trigger()
-- 
2.43.0


From beb7e129c85b906206bf57c47ee97df214b750eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:29 +0000
Subject: [PATCH 008/126] fix: UVMObjectStringPool.delete() removes the item
 instead of recursing forever

---
 src/uvm/base/uvm_pool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_pool.py b/src/uvm/base/uvm_pool.py
index 23503ca..137371f 100644
--- a/src/uvm/base/uvm_pool.py
+++ b/src/uvm/base/uvm_pool.py
@@ -310,7 +310,7 @@ class UVMObjectStringPool(UVMPool[str, UVMObject]):
         if not self.exists(key):
             uvm_warning("POOLDEL", "delete: key '{}' doesn't exist".format(key))
             return
-        self.delete(key)
+        super().delete(key)
     #  endfunction
 
     def do_print(self, printer) -> None:
-- 
2.43.0


From ebd221083c47c2c5c9d66cc832cf1d5faeae6e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:38 +0000
Subject: [PATCH 009/126] fix: semaphore counts its keys: get() blocks until
 enough are available, put() wakes the waiters

---
 src/uvm/base/sv.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/uvm/base/sv.py b/src/uvm/base/sv.py
index 8a4a0f4..414c4d6 100644
--- a/src/uvm/base/sv.py
+++ b/src/uvm/base/sv.py
@@ -33,7 +33,7 @@ from typing import List, Any
 import cocotb
 
 from cocotb_coverage import crv
-from cocotb.triggers import Lock, Timer, Combine, First
+from cocotb.triggers import Event, Combine, First
 from cocotb.utils import get_sim_time, simulator
 from cocotb_bus.bus import Bus
 
@@ -517,28 +517,22 @@ class semaphore():
     def __init__(self, count=1):
         self.max_count = count
         self.count = count
-        self.lock = Lock("sem_lock")
-        self.locked = False
+        self.put_event = Event("sem_put")
 
 
     async def get(self, count=1):
-        if self.count > count:
-            self.count -= count
-            await Timer(0, "NS")
-        elif count > self.max_count:
+        if count > self.max_count:
             raise Exception("Tried to get {} > max count {}".format(count,
                 self.max_count))
-        else:
-            await self.lock.acquire()
-            self.locked = True
-            self.count -= count
+        while self.count < count:
+            self.put_event.clear()
+            await self.put_event.wait()
+        self.count -= count
 
     def put(self, count=1):
         if self.count < self.max_count:
             self.count += count
-            if self.locked is True:
-                self.locked = False
-                self.lock.release()
+            self.put_event.set()
 
     def try_get(self, count=1):
         if self.count >= count:
-- 
2.43.0


From 850fc4ab61f6900d3dda0000d76fe988a7642a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:18 +0000
Subject: [PATCH 010/126] fix: UVMEvent.add_callback(append=False) also works
 on an event without callbacks

---
 src/uvm/base/uvm_event.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_event.py b/src/uvm/base/uvm_event.py
index 823fd0e..07d2c57 100644
--- a/src/uvm/base/uvm_event.py
+++ b/src/uvm/base/uvm_event.py
@@ -380,7 +380,7 @@ class UVMEvent(UVMEventBase):  # (type T=uvm_object) extends uvm_event_base
         if append is True:
             self.callbacks.push_back(cb)
         else:
-            self.callbacks.insert(0, cb)
+            self.callbacks.push_front(cb)
 
 
     def delete_callback(self, cb):
-- 
2.43.0


From 6922efe0d5fe92277d0c80871a962e2b17f11d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:51 +0000
Subject: [PATCH 011/126] fix: every scheduled objection drain is started, not
 only the first of a batch

---
 src/uvm/base/uvm_objection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_objection.py b/src/uvm/base/uvm_objection.py
index d36934c..e04fa7b 100644
--- a/src/uvm/base/uvm_objection.py
+++ b/src/uvm/base/uvm_objection.py
@@ -777,7 +777,9 @@ class UVMObjection(UVMReportObject):
             await UVMObjection.m_scheduled_list_not_empty_event.wait()
             UVMObjection.m_scheduled_list_not_empty_event.clear()
 
-            if len(UVMObjection.m_scheduled_list) != 0:
+            # Several objections may have been scheduled before this process
+            # got to run
+            while len(UVMObjection.m_scheduled_list) != 0:
                 # Save off the context before the fork
                 c = UVMObjection.m_scheduled_list.pop(0)
 
-- 
2.43.0


From 446fdaee2d41b2ea74bee3e381065667376562dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:52 +0000
Subject: [PATCH 012/126] fix: raising an objection again during its drain
 cancels the drain

---
 src/uvm/base/uvm_objection.py | 51 ++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 28 deletions(-)

diff --git a/src/uvm/base/uvm_objection.py b/src/uvm/base/uvm_objection.py
index e04fa7b..9780b40 100644
--- a/src/uvm/base/uvm_objection.py
+++ b/src/uvm/base/uvm_objection.py
@@ -513,17 +513,8 @@ class UVMObjection(UVMReportObject):
                 # Caught it with the forked drain running
                 ctxt = self.m_forked_contexts[obj]
                 del self.m_forked_contexts[obj]
-                # Kill the drain
-
-        uvm_debug(self, 'm_raise', obj.get_name() + " ENDING FUNC")
-        # TODO
-        #if UVM_USE_PROCESS_CONTAINER:
-        #    self.m_drain_proc[obj].kill()
-        #    del self.m_drain_proc[obj]
-        #else:
-        #    self.m_drain_proc[obj].p.kill()
-        #    del self.m_drain_proc[obj]
-        uvm_debug(self, 'm_raise', obj.get_name() + " NEVER GETS HERE")
+                # Cancel the drain
+                self.m_drain_proc.pop(obj, None)
 
         if ctxt is None:
             # If there were no drains, just propagate as usual
@@ -811,27 +802,21 @@ class UVMObjection(UVMReportObject):
 
             # Move it in to forked (so re-raise can figure out props)
             objection.m_forked_contexts[ctxt.obj] = ctxt
-            # Save off our process handle, so a re-raise can kill it...
-
-            # TODO
-            #if UVM_USE_PROCESS_CONTAINER == 0:
-            #    objection.m_drain_proc[ctxt.obj] = process::self()
-            #else:
-            #    process_container_c c = new(process::self())
-            #    objection.m_drain_proc[ctxt.obj]=c
+            # Save off a handle of this drain, so a re-raise can cancel it...
+            # (the re-raise may come from a callback of the drain itself, so
+            # the process is not killed, it notices that it was cancelled)
+            obj = ctxt.obj
+            drain = object()
+            objection.m_drain_proc[obj] = drain
 
             # Execute the forked drain
             await objection.m_forked_drain(ctxt.obj, ctxt.source_obj, ctxt.description,
                     ctxt.count, 1)
+            if objection.m_drain_proc.get(obj) is not drain:
+                return
             # Cleanup if we survived (no re-raises)
-            if ctxt.obj in objection.m_drain_proc:
-                del objection.m_drain_proc[ctxt.obj]
-            else:
-                pass
-
-            # tpoikela: Added check since ctxt.obj becomes None
-            #if ctxt.obj in objection.m_forked_contexts:
-            del objection.m_forked_contexts[ctxt.obj]
+            del objection.m_drain_proc[obj]
+            del objection.m_forked_contexts[obj]
             # Clear out the context object (prevent memory leaks)
             ctxt.clear()
             # Save the context in the pool for later reuse
@@ -848,10 +833,13 @@ class UVMObjection(UVMReportObject):
 
     async def m_forked_drain(self, obj, source_obj, description="", count=1,
             in_top_thread=0):
+        drain = self.m_drain_proc.get(obj)
 
-        if obj in self.m_drain_time:
+        if self.m_drain_time.get(obj, 0) > 0:
             # TODO `uvm_delay(self.m_drain_time[obj])
             await Timer(self.m_drain_time[obj])
+            if self.m_drain_proc.get(obj) is not drain:
+                return
 
         if self.m_trace_mode:
             self.m_report(obj,source_obj,description,count,"all_dropped")
@@ -861,6 +849,8 @@ class UVMObjection(UVMReportObject):
         # wait for all_dropped cbs to complete
         await uvm_zero_delay()
         # TODO wait fork
+        if self.m_drain_proc.get(obj) is not drain:
+            return
 
         # we are ready to delete the 0-count entries for the current
         # object before propagating up the hierarchy.
@@ -952,9 +942,14 @@ class UVMObjection(UVMReportObject):
             count (int):
         """
         comp = obj
+        drain = self.m_drain_proc.get(obj)
         if hasattr(comp, 'all_dropped'):
             await comp.all_dropped(self, source_obj, description, count)
+            if self.m_drain_proc.get(obj) is not drain:
+                return  # Objection was raised again
         await uvm_do_callbacks_async(self, UVMObjectionCallback, 'all_dropped', self,obj, source_obj, description, count)
+        if self.m_drain_proc.get(obj) is not drain:
+            return
         if obj in self.m_events:
             self.m_events[obj].all_dropped.set()
         if obj == self.m_top:
-- 
2.43.0


From f61238c36fb6052ddf2ac3d0a7bd04320c7f2975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:52 +0000
Subject: [PATCH 013/126] fix: UVMObjection.set_drain_time() stores the drain
 time of the given object

---
 src/uvm/base/uvm_objection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_objection.py b/src/uvm/base/uvm_objection.py
index 9780b40..0c4bf2d 100644
--- a/src/uvm/base/uvm_objection.py
+++ b/src/uvm/base/uvm_objection.py
@@ -891,7 +891,7 @@ class UVMObjection(UVMReportObject):
     def set_drain_time(self, obj=None, drain=0):
         if obj is None:
             obj = self.m_top
-            self.m_drain_time[obj] = drain
+        self.m_drain_time[obj] = drain
 
     #  //----------------------
     #  // Group: Callback Hooks
-- 
2.43.0


From 2fff97302c5e15d29d219eb52b6be05d6e63e492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:52 +0000
Subject: [PATCH 014/126] fix: UVMObjection.clear() works while drains are
 scheduled or running

---
 src/uvm/base/uvm_objection.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/uvm/base/uvm_objection.py b/src/uvm/base/uvm_objection.py
index 0c4bf2d..031246b 100644
--- a/src/uvm/base/uvm_objection.py
+++ b/src/uvm/base/uvm_objection.py
@@ -733,20 +733,13 @@ class UVMObjection(UVMReportObject):
         # entries... clear out one, free the other.
         self.m_scheduled_contexts = {}
         while len(self.m_forked_list) > 0:
-            self.m_forked_list[0].clear()
-            UVMObjection.m_context_pool.append(self.m_forked_list[0])
-            front = self.m_forked_list[0]
-            self.m_forked_list[0].remove(front)
+            front = self.m_forked_list.pop(0)
+            front.clear()
+            UVMObjection.m_context_pool.append(front)
 
         # running drains have a context and a process
-        for o in self.m_forked_contexts:
-            if UVM_USE_PROCESS_CONTAINER:
-                self.m_drain_proc[o].kill()
-                del self.m_drain_proc[o]
-            else:
-                self.m_drain_proc[o].p.kill()
-                del self.m_drain_proc[o]
-
+        for o in list(self.m_forked_contexts):
+            self.m_drain_proc.pop(o, None)
             self.m_forked_contexts[o].clear()
             UVMObjection.m_context_pool.append(self.m_forked_contexts[o])
             del self.m_forked_contexts[o]
-- 
2.43.0


From 58e39a23e52287872033d762d5eb6819398a37f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:24 +0000
Subject: [PATCH 015/126] fix: UVMObjection.wait_for() waits for the next
 event, also when other processes wait on the same object

---
 src/uvm/base/uvm_objection.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/uvm/base/uvm_objection.py b/src/uvm/base/uvm_objection.py
index 031246b..9ad34f8 100644
--- a/src/uvm/base/uvm_objection.py
+++ b/src/uvm/base/uvm_objection.py
@@ -747,7 +747,7 @@ class UVMObjection(UVMReportObject):
         self.m_top_all_dropped = False
         self.m_cleared = 1
         if self.m_top in self.m_events:
-            self.m_events[self.m_top].all_dropped.set()
+            self._notify(self.m_events[self.m_top].all_dropped)
 
     #  // m_execute_scheduled_forks
     #  // -------------------------
@@ -901,7 +901,7 @@ class UVMObjection(UVMReportObject):
         # TODO `uvm_do_callbacks(uvm_objection,uvm_objection_callback,raised(this,obj,source_obj,description,count))
         uvm_do_callbacks(self, UVMObjectionCallback, 'raised', self,obj,source_obj,description,count)
         if obj in self.m_events:
-            self.m_events[obj].raised.set()
+            self._notify(self.m_events[obj].raised)
 
     #  // Function: dropped
     #  //
@@ -918,7 +918,7 @@ class UVMObjection(UVMReportObject):
             comp.dropped(self, source_obj, description, count)
         uvm_do_callbacks(self,UVMObjectionCallback,'dropped', self,obj,source_obj,description,count)
         if obj in self.m_events:
-            self.m_events[obj].dropped.set()
+            self._notify(self.m_events[obj].dropped)
 
 
     async def all_dropped(self, obj, source_obj, description, count):
@@ -944,7 +944,7 @@ class UVMObjection(UVMReportObject):
         if self.m_drain_proc.get(obj) is not drain:
             return
         if obj in self.m_events:
-            self.m_events[obj].all_dropped.set()
+            self._notify(self.m_events[obj].all_dropped)
         if obj == self.m_top:
             self.m_top_all_dropped = 1
 
@@ -977,19 +977,26 @@ class UVMObjection(UVMReportObject):
         if (obj in self.m_events) is False:
             self.m_events[obj] = UVMObjectionEvents()
 
-        self.m_events[obj].waiters += 1
+        events = self.m_events[obj]
+        events.waiters += 1
         if objt_event == UVM_RAISED:
-            await self.m_events[obj].raised.wait()
+            await events.raised.wait()
         elif objt_event == UVM_DROPPED:
-            await self.m_events[obj].dropped.wait()
+            await events.dropped.wait()
         elif objt_event == UVM_ALL_DROPPED:
-            await self.m_events[obj].all_dropped.wait()
+            await events.all_dropped.wait()
 
-        self.m_events[obj].waiters -= 1
+        events.waiters -= 1
 
-        if self.m_events[obj].waiters == 0:
+        if events.waiters == 0:
             del self.m_events[obj]
 
+    @staticmethod
+    def _notify(event):
+        """ Wakes up the processes waiting for the event at this moment """
+        event.set()
+        event.clear()
+
     #
     #   task wait_for_total_count(uvm_object obj=null, int count=0)
     #     if (obj==null)
-- 
2.43.0


From 6afe0c67afa14cfb2c6304a6fb044767c3484997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:06 +0000
Subject: [PATCH 016/126] fix: a forked objection drain does not depend on a
 context another drain may have recycled

---
 src/uvm/base/uvm_objection.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/uvm/base/uvm_objection.py b/src/uvm/base/uvm_objection.py
index 9ad34f8..7453f5c 100644
--- a/src/uvm/base/uvm_objection.py
+++ b/src/uvm/base/uvm_objection.py
@@ -776,15 +776,14 @@ class UVMObjection(UVMReportObject):
                 # The fork will guard the m_forked_drain call, but
                 # a re-raise can kill self.m_forked_list contexts in the delta
                 # before the fork executes.
-                pproc = cocotb.start_soon(cls.m_execute_scheduled_forks_fork_join_none(c))
+                pproc = cocotb.start_soon(cls.m_execute_scheduled_forks_fork_join_none(objection))
                 #else:
                 #    uvm_error("UVMObjection", "Null objection in objection context")
 
 
     @classmethod
     async def m_execute_scheduled_forks_fork_join_none(cls,
-            c: 'UVMObjectionContextObject'):
-        objection = c.objection  # automatic uvm_objection
+            objection: 'UVMObjection'):
         # Check to maike sure re-raise didn't empty the fifo
         uvm_debug(cls, 'm_execute_scheduled_forks_fork_join_none', 'check list len')
         if len(objection.m_forked_list) > 0:
-- 
2.43.0


From 183b8868537c99661f392db4057bff0527f7d9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:39 +0000
Subject: [PATCH 017/126] fix: UVMPhase.wait_for_state() returns at once in the
 wanted state and never misses a change

---
 src/uvm/base/uvm_phase.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/uvm/base/uvm_phase.py b/src/uvm/base/uvm_phase.py
index a9440af..2664b30 100644
--- a/src/uvm/base/uvm_phase.py
+++ b/src/uvm/base/uvm_phase.py
@@ -302,7 +302,9 @@ class UVMPhase(UVMObject):
         uvm_debug(self, 'set_state', (self.get_name() + ': ' +
                 ph2str(self.m_state) + ' => ' + ph2str(state)))
         self.m_state = state
+        # Wakes up the processes waiting for a state change at this moment
         self.m_phase_set_state_event.set()
+        self.m_phase_set_state_event.clear()
         if self.m_state == UVM_PHASE_DONE:
             self.m_phase_done_event.set()
         if self.m_state >= UVM_PHASE_SYNCING:
@@ -919,11 +921,8 @@ class UVMPhase(UVMObject):
 
 
     async def _wait_state_change_func(self, func):
-        while True:
+        while not func():
             await self.m_phase_set_state_event.wait()
-            self.m_phase_set_state_event.clear()
-            if func():
-                break
 
     #
     #
-- 
2.43.0


From 8b6502299946dcb4767dfcb28813b1e1d3d650ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:39 +0000
Subject: [PATCH 018/126] fix: a phase reaches every component even if a
 callback walks the component hierarchy

---
 src/uvm/base/uvm_bottomup_phase.py | 7 ++-----
 src/uvm/base/uvm_topdown_phase.py  | 7 ++-----
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/uvm/base/uvm_bottomup_phase.py b/src/uvm/base/uvm_bottomup_phase.py
index 637bb38..f2fb0d2 100644
--- a/src/uvm/base/uvm_bottomup_phase.py
+++ b/src/uvm/base/uvm_bottomup_phase.py
@@ -67,11 +67,8 @@ class UVMBottomupPhase(UVMPhase):
         phase_domain = phase.get_domain()
         comp_domain = comp.get_domain()
 
-        if comp.has_first_child():
-            child = comp.get_first_child()
-            while child is not None:
-                self.traverse(child, phase, state)
-                child = comp.get_next_child()
+        for child in comp.m_children_ordered:
+            self.traverse(child, phase, state)
 
         if UVMPhase.m_phase_trace:
             dom_name = "unknown"
diff --git a/src/uvm/base/uvm_topdown_phase.py b/src/uvm/base/uvm_topdown_phase.py
index 0b0e032..73cda5c 100644
--- a/src/uvm/base/uvm_topdown_phase.py
+++ b/src/uvm/base/uvm_topdown_phase.py
@@ -102,11 +102,8 @@ class UVMTopdownPhase(UVMPhase):
             else:
                 uvm_report_fatal("PH_BADEXEC","topdown phase traverse internal error")
 
-        if comp.has_first_child():
-            child = comp.get_first_child()
-            while child is not None:
-                self.traverse(child, phase, state)
-                child = comp.get_next_child()
+        for child in comp.m_children_ordered:
+            self.traverse(child, phase, state)
 
     def execute(self, comp, phase):
         """
-- 
2.43.0


From a59bc850bbc8dfb73d7a788c0e50092c2565dd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:39 +0000
Subject: [PATCH 019/126] fix: the singletons of the run-time phases can be
 looked up more than once

---
 src/uvm/base/uvm_runtime_phases.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/uvm/base/uvm_runtime_phases.py b/src/uvm/base/uvm_runtime_phases.py
index 332dbc0..0c9f332 100644
--- a/src/uvm/base/uvm_runtime_phases.py
+++ b/src/uvm/base/uvm_runtime_phases.py
@@ -92,7 +92,7 @@ class UVMPreResetPhase(UVMTaskPhase):
         """
         if cls.m_inst is None:
             cls.m_inst = UVMPreResetPhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="pre_reset"):
         super().__init__(name)
@@ -144,7 +144,7 @@ class UVMResetPhase(UVMTaskPhase):
         """
         if cls.m_inst is None:
             cls.m_inst = UVMResetPhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="reset"):
         super().__init__(name)
@@ -189,7 +189,7 @@ class UVMPostResetPhase(UVMTaskPhase):
         """
         if(cls.m_inst is None):
             cls.m_inst = UVMPostResetPhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="post_reset"):
         super().__init__(name)
@@ -236,7 +236,7 @@ class UVMPreConfigurePhase(UVMTaskPhase):
         """
         if(cls.m_inst is None):
             cls.m_inst = UVMPreConfigurePhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="pre_configure"):
         super().__init__(name)
@@ -282,7 +282,7 @@ class UVMConfigurePhase(UVMTaskPhase):
         """
         if(cls.m_inst is None):
             cls.m_inst = UVMConfigurePhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="configure"):
         super().__init__(name)
@@ -329,7 +329,7 @@ class UVMPostConfigurePhase(UVMTaskPhase):
         """
         if(cls.m_inst is None):
             cls.m_inst = UVMPostConfigurePhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="post_configure"):
         super().__init__(name)
@@ -373,7 +373,7 @@ class UVMPreMainPhase(UVMTaskPhase):
         """
         if(cls.m_inst is None):
             cls.m_inst = UVMPreMainPhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="pre_main"):
         super().__init__(name)
@@ -465,7 +465,7 @@ class UVMPostMainPhase(UVMTaskPhase):
         """
         if(cls.m_inst is None):
             cls.m_inst = UVMPostMainPhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="post_main"):
         super().__init__(name)
@@ -508,7 +508,7 @@ class UVMPreShutdownPhase(UVMTaskPhase):
         """
         if(cls.m_inst is None):
             cls.m_inst = UVMPreShutdownPhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="pre_shutdown"):
         super().__init__(name)
@@ -554,7 +554,7 @@ class UVMShutdownPhase(UVMTaskPhase):
         """
         if(cls.m_inst is None):
             cls.m_inst = UVMShutdownPhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="shutdown"):
         super().__init__(name)
@@ -601,7 +601,7 @@ class UVMPostShutdownPhase(UVMTaskPhase):
         """
         if cls.m_inst is None:
             cls.m_inst = UVMPostShutdownPhase()
-            return cls.m_inst
+        return cls.m_inst
 
     def __init__(self, name="post_shutdown"):
         super().__init__(name)
-- 
2.43.0


From 9d93e39ded9a3a5e74763f404ce7641f5e05d648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:39 +0000
Subject: [PATCH 020/126] fix: phases added next to another phase do not share
 its successor/predecessor tables

---
 src/uvm/base/uvm_phase.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/uvm/base/uvm_phase.py b/src/uvm/base/uvm_phase.py
index 2664b30..f5ef795 100644
--- a/src/uvm/base/uvm_phase.py
+++ b/src/uvm/base/uvm_phase.py
@@ -525,8 +525,8 @@ class UVMPhase(UVMObject):
 
         # INSERT IN PARALLEL WITH 'WITH' PHASE
         if with_phase is not None:
-            begin_node.m_predecessors = with_phase.m_predecessors
-            end_node.m_successors = with_phase.m_successors
+            begin_node.m_predecessors = dict(with_phase.m_predecessors)
+            end_node.m_successors = dict(with_phase.m_successors)
             for pred in with_phase.m_predecessors:
                 pred.m_successors[begin_node] = 1
             for succ in with_phase.m_successors:
@@ -561,7 +561,7 @@ class UVMPhase(UVMObject):
             before_phase.m_predecessors[end_node] = 1
             if before_phase in after_phase.m_successors:
                 del after_phase.m_successors[before_phase]
-                del before_phase.m_successors[after_phase]
+                del before_phase.m_predecessors[after_phase]
 
         # Transition nodes to DORMANT state
         if new_node is None:
-- 
2.43.0


From 2ba48497b70ab08ae9e23e12983f0388579f0be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:06 +0000
Subject: [PATCH 021/126] fix: a phase never misses that its predecessors are
 done

---
 src/uvm/base/uvm_phase.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/uvm/base/uvm_phase.py b/src/uvm/base/uvm_phase.py
index f5ef795..bcb8a10 100644
--- a/src/uvm/base/uvm_phase.py
+++ b/src/uvm/base/uvm_phase.py
@@ -36,7 +36,7 @@ The following class are used to specify a phase and its implied functionality.
 
 from typing import Dict, List
 import cocotb
-from cocotb.triggers import Event, Combine
+from cocotb.triggers import Event
 
 from ..macros.uvm_object_defines import uvm_object_utils
 from ..macros.uvm_message_defines import uvm_fatal, uvm_info
@@ -1513,15 +1513,14 @@ class UVMPhase(UVMObject):
         nn = self.get_name()
         if self.has_predecessors():
             uvm_debug(self, '_wait_all_predecessors_done', nn + '| has predecessors() OK')
-            events = []
-            for pred in self.m_predecessors:
+            # Wait one by one: a done event never gets cleared, and a wait()
+            # trigger must not be created before it can be awaited, or the
+            # event in between would be missed
+            for pred in list(self.m_predecessors):
                 uvm_debug(self, '_wait_all_predecessors_done', 'pred is now ' + str(pred))
                 #wait (pred.m_state == UVM_PHASE_DONE)
-                #events.append(pred.get_phase_done_event())
-                events.append(pred.get_phase_done_event().wait())
+                await pred.get_phase_done_event().wait()
 
-            uvm_debug(self, '_wait_all_predecessors_done', nn + "| Before combining events")
-            await Combine(*events)  # Combine expects *args, not list
             uvm_debug(self, '_wait_all_predecessors_done', nn + "| After combining events")
         else:
             uvm_debug(self, '_wait_all_predecessors_done', nn + '| before yield Timer(0)')
@@ -1530,11 +1529,9 @@ class UVMPhase(UVMObject):
 
 
     async def _wait_phases_synced(self):
-        events = []
-        for phase in self.m_sync:
+        for phase in list(self.m_sync):
             if (phase.m_state < UVM_PHASE_SYNCING):
-                events.append(phase.get_phase_synced_event())
-        await Combine(*events)
+                await phase.get_phase_synced_event().wait()
 
     def has_predecessors(self):
         return len(self.m_predecessors) > 0
-- 
2.43.0


From 5fd95de8f8c2ea5eb9243143431959c19ec1c4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:44 +0000
Subject: [PATCH 022/126] fix: function phases running in parallel do not wait
 for each other forever

---
 src/uvm/base/uvm_phase.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/uvm/base/uvm_phase.py b/src/uvm/base/uvm_phase.py
index bcb8a10..6baad45 100644
--- a/src/uvm/base/uvm_phase.py
+++ b/src/uvm/base/uvm_phase.py
@@ -1407,6 +1407,12 @@ class UVMPhase(UVMObject):
                 # WAIT FOR PREDECESSORS:  // WAIT FOR PREDECESSORS:
                 # function phases only
                 if task_phase is None:
+                    # A function phase is ready to end once it has executed.
+                    # Without telling so, function phases running in parallel
+                    # would wait for each other forever
+                    state_chg.m_prev_state = self.m_state
+                    self.set_state(UVM_PHASE_READY_TO_END)
+                    uvm_do_callbacks(self, UVMPhaseCb, 'phase_state_change', self, state_chg)
                     await self.m_wait_for_pred()
 
             #-------
-- 
2.43.0


From 0fb68fbc162c2e500656a266f3914a79a2741865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:17 +0000
Subject: [PATCH 023/126] fix: UVMPhase.find() searches every branch of the
 phase graph

---
 src/uvm/base/uvm_phase.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/uvm/base/uvm_phase.py b/src/uvm/base/uvm_phase.py
index 6baad45..2c274b7 100644
--- a/src/uvm/base/uvm_phase.py
+++ b/src/uvm/base/uvm_phase.py
@@ -1020,7 +1020,8 @@ class UVMPhase(UVMObject):
                     (pred.get_schedule() == orig.get_schedule()) or
                     (pred.get_domain() == orig.get_domain())):
                 found = pred.m_find_predecessor(phase,stay_in_scope,orig)
-                return found
+                if found is not None:
+                    return found
         uvm_debug(self, 'm_find_pred', "Did not find precessors for " +
                 str(phase))
         return None
@@ -1049,7 +1050,8 @@ class UVMPhase(UVMObject):
                     (succ.get_schedule() == orig.get_schedule()) or
                     (succ.get_domain() == orig.get_domain())):
                 found = succ.m_find_successor(phase,stay_in_scope,orig)
-                return found
+                if found is not None:
+                    return found
         return None
 
 
-- 
2.43.0


From 55de234634c67e4f4dfafc1cbb8aafffe303d600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:03 +0000
Subject: [PATCH 024/126] fix: item_done wakes the sequence that waits for its
 item

---
 src/uvm/seq/uvm_sequencer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/uvm/seq/uvm_sequencer.py b/src/uvm/seq/uvm_sequencer.py
index e4452d4..a088636 100644
--- a/src/uvm/seq/uvm_sequencer.py
+++ b/src/uvm/seq/uvm_sequencer.py
@@ -181,6 +181,7 @@ class UVMSequencer(UVMSequencerParamBase):
             t = t[0]
             self.m_wait_for_item_sequence_id = t.get_sequence_id()
             self.m_wait_for_item_transaction_id = t.get_transaction_id()
+            self.m_event_value_changed.set()
 
         if item is not None:
             self.seq_item_export.put_response(item)
-- 
2.43.0


From fb97053673faeec103781d0b60916b8d62b5a905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:03 +0000
Subject: [PATCH 025/126] fix: waiting for a sequence to become relevant starts
 and ends all of its sub-tasks

---
 src/uvm/seq/uvm_sequencer_base.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/uvm/seq/uvm_sequencer_base.py b/src/uvm/seq/uvm_sequencer_base.py
index 536f184..efebc00 100644
--- a/src/uvm/seq/uvm_sequencer_base.py
+++ b/src/uvm/seq/uvm_sequencer_base.py
@@ -1148,27 +1148,28 @@ class UVMSequencerBase(UVMComponent):
 
     async def _fork_first_proc(self, is_relevant_entries):
         started_forks = []
+        rel_forks = []
         #fork
-        forked_proc1 = cocotb.start_soon(self._fork_first_proc_sub_fork1(is_relevant_entries))
+        forked_proc1 = cocotb.start_soon(
+            self._fork_first_proc_sub_fork1(is_relevant_entries, rel_forks))
         started_forks.append(forked_proc1)
         # The other path in the fork is for any queue entry to change
-        forked_proc2 = self.m_wait_arb_not_equal()
+        forked_proc2 = cocotb.start_soon(self.m_wait_arb_not_equal())
         started_forks.append(forked_proc2)
         ## await started_forks  # join_any
         await sv.fork_join_any(started_forks)
         # disable fork
-        for p in started_forks:
+        for p in started_forks + rel_forks:
             p.kill()  # type: ignore
 
 
-    async def _fork_first_proc_sub_fork1(self, is_relevant_entries):
+    async def _fork_first_proc_sub_fork1(self, is_relevant_entries, rel_forks):
         # One path in fork is for any wait_for_relevant to return
-        fork_procs_join_none = []
         self.set_value('m_is_relevant_completed', False)
         for i in range(len(is_relevant_entries)):
             #fork
             forked_proc = cocotb.start_soon(self._rel_entry_fork_proc(i, is_relevant_entries))
-            fork_procs_join_none.append(forked_proc)
+            rel_forks.append(forked_proc)
             #join_none
         await wait(lambda: self.m_is_relevant_completed > 0,
                    self.m_event_value_changed)
-- 
2.43.0


From 63dc2d11ad53e7c61688e50a73ef9b3236f909f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:32 +0000
Subject: [PATCH 026/126] fix: responses written to a sequencer's rsp_export
 reach the sequence

---
 src/uvm/seq/uvm_sequencer_param_base.py | 27 +++++++------------------
 1 file changed, 7 insertions(+), 20 deletions(-)

diff --git a/src/uvm/seq/uvm_sequencer_param_base.py b/src/uvm/seq/uvm_sequencer_param_base.py
index 2a12357..37ce215 100644
--- a/src/uvm/seq/uvm_sequencer_param_base.py
+++ b/src/uvm/seq/uvm_sequencer_param_base.py
@@ -345,7 +345,13 @@ class UVMSequencerParamBase(UVMSequencerBase):
 
     #  /* local */ extern virtual function void do_print (uvm_printer printer)
 
-    #  /* local */ extern virtual function void analysis_write(uvm_sequence_item t)
+    def analysis_write(self, t):
+        """
+         /* local */ extern virtual function void analysis_write(uvm_sequence_item t)
+        Args:
+            t:
+        """
+        self.put_response(t)
 
     def m_last_req_push_front(self, item):
         """
@@ -375,25 +381,6 @@ class UVMSequencerParamBase(UVMSequencerBase):
 #  printer.print_field_int("num_last_rsps", m_num_last_rsps, $bits(m_num_last_rsps), UVM_DEC)
 #endfunction
 #
-#
-#
-#// analysis_write
-#// --------------
-#
-#function void uvm_sequencer_param_base::analysis_write(uvm_sequence_item t)
-#  RSP response
-#
-#  if (!$cast(response, t)):
-#    uvm_report_fatal("ANALWRT", "Failure to cast analysis port write item", UVM_NONE)
-#  end
-#  put_response(response)
-#endfunction
-#
-#
-#
-#
-#
-#
 #// set_num_last_rsps
 #// -----------------
 #
-- 
2.43.0


From 7d1e1f74bcb36b74532715c1ddafe7ce3049e0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:25 +0000
Subject: [PATCH 027/126] fix: get_response(id) does not miss a response that
 arrives as another is taken

---
 src/uvm/seq/uvm_sequence_base.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/uvm/seq/uvm_sequence_base.py b/src/uvm/seq/uvm_sequence_base.py
index 318573a..0adf005 100644
--- a/src/uvm/seq/uvm_sequence_base.py
+++ b/src/uvm/seq/uvm_sequence_base.py
@@ -1279,9 +1279,10 @@ class UVMSequenceBase(UVMSequenceItem):
                     self.response_queue.delete(i)
                     self.m_resp_queue_event.set()
                     return
-            #wait (self.response_queue.size() != queue_size)
-            await wait(lambda: self.response_queue.size() != queue_size,
-                       self.m_resp_queue_event)
+            # A response may be taken and another one added before this
+            # resumes, hence every change is looked at, not only size changes
+            await self.m_resp_queue_event.wait()
+            self.m_resp_queue_event.clear()
 
 
     def m_get_sqr_sequence_id(self, sequencer_id, update_sequence_id):
-- 
2.43.0


From 6b26f11cf8345579ec5a42943664f48bde6f5105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:30 +0000
Subject: [PATCH 028/126] fix: the blocking transport mask is not the
 non-blocking put mask

---
 src/uvm/macros/uvm_tlm_defines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/macros/uvm_tlm_defines.py b/src/uvm/macros/uvm_tlm_defines.py
index 8a3c122..ed7b628 100644
--- a/src/uvm/macros/uvm_tlm_defines.py
+++ b/src/uvm/macros/uvm_tlm_defines.py
@@ -628,7 +628,7 @@ def UVM_SEQ_ITEM_PULL_IMP(T, imp):
 UVM_TLM_BLOCKING_PUT_MASK = (1 << 0)
 UVM_TLM_BLOCKING_GET_MASK = (1 << 1)
 UVM_TLM_BLOCKING_PEEK_MASK = (1 << 2)
-UVM_TLM_BLOCKING_TRANSPORT_MASK = (2 << 3)
+UVM_TLM_BLOCKING_TRANSPORT_MASK = (1 << 3)
 #
 UVM_TLM_NONBLOCKING_PUT_MASK = (1 << 4)
 UVM_TLM_NONBLOCKING_GET_MASK = (1 << 5)
-- 
2.43.0


From cda7f110a5386161f516723d80a00f0d010a1f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:30 +0000
Subject: [PATCH 029/126] fix: UVMBlockingSlaveExport exists under its public
 name

---
 src/uvm/tlm1/uvm_exports.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/uvm/tlm1/uvm_exports.py b/src/uvm/tlm1/uvm_exports.py
index d8816e6..af1806d 100644
--- a/src/uvm/tlm1/uvm_exports.py
+++ b/src/uvm/tlm1/uvm_exports.py
@@ -316,6 +316,7 @@ uvm_blocking_slave_export = UVM_EXPORT_COMMON(uvm_blocking_slave_export,  # type
     UVM_TLM_BLOCKING_SLAVE_MASK, "uvm_blocking_slave_export")
 UVM_BLOCKING_PUT_IMP('m_if', uvm_blocking_slave_export)
 UVM_BLOCKING_GET_PEEK_IMP('m_if', uvm_blocking_slave_export)
+UVMBlockingSlaveExport = uvm_blocking_slave_export
 
 #class uvm_nonblocking_slave_export #(type REQ=int, type RSP=REQ)
 #  extends uvm_port_base #(uvm_tlm_if_base #(RSP, REQ));
-- 
2.43.0


From 2e0cd8ed594a1720a53dcadd1a396e50653ca3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:25 +0000
Subject: [PATCH 030/126] fix: non-blocking TLM2 initiator socket accepts an
 explicit implementation

---
 src/uvm/tlm2/uvm_tlm2_sockets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/tlm2/uvm_tlm2_sockets.py b/src/uvm/tlm2/uvm_tlm2_sockets.py
index cc2a03a..9ea2370 100644
--- a/src/uvm/tlm2/uvm_tlm2_sockets.py
+++ b/src/uvm/tlm2/uvm_tlm2_sockets.py
@@ -155,9 +155,9 @@ class UVMTLMNbInitiatorSocket(UVMTLMNbInitiatorSocketBase):
     def __init__(self, name, parent, imp=None):
         super().__init__(name, parent)
 
-        if (imp is None):
+        if imp is None:
             imp = parent
-        else:
+        if imp is None:
             uvm_error("UVM/TLM2/NOIMP", cat("nb_initiator socket ", name,
                                      " has no implementation"))
         self.bw_imp = UVMTLMNbTransportBwImp("bw_imp", imp)
-- 
2.43.0


From fbe9ddc7fc26eb67469f20cb0deead6acfce3b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:25 +0000
Subject: [PATCH 031/126] fix: TLM2 pass-through sockets connect the backward
 path and report mismatches

---
 src/uvm/tlm2/uvm_tlm2_sockets.py | 41 ++++++++++++++++----------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/src/uvm/tlm2/uvm_tlm2_sockets.py b/src/uvm/tlm2/uvm_tlm2_sockets.py
index 9ea2370..452972f 100644
--- a/src/uvm/tlm2/uvm_tlm2_sockets.py
+++ b/src/uvm/tlm2/uvm_tlm2_sockets.py
@@ -257,11 +257,9 @@ class UVMTLMBPassthroughInitiatorSocket(UVMTLMBPassthroughInitiatorSocketBase):
         super().connect(provider)
 
         if not isinstance(provider, valid_providers):
-            # TODO:
-            # uvm_error_context(get_type_name(),
-            #    "type mismatch in connect -- connection cannot be completed",
-            #    self.get_comp())
-            pass
+            uvm_error_context(self.get_type_name(),
+                "type mismatch in connect -- connection cannot be completed",
+                self.get_comp())
 
 #//----------------------------------------------------------------------
 #// Class: uvm_tlm_b_passthrough_target_socket
@@ -283,11 +281,9 @@ class UVMTLMBPassthroughTargetSocket(UVMTLMBPassthroughTargetSocketBase):
         super().connect(provider)
 
         if not isinstance(provider, valid_providers):
-            # TODO:
-            # uvm_error_context(self.get_type_name(),
-            #    "type mismatch in connect -- connection cannot be completed",
-            #    self.get_comp())
-            pass
+            uvm_error_context(self.get_type_name(),
+                "type mismatch in connect -- connection cannot be completed",
+                self.get_comp())
 
 
 #//----------------------------------------------------------------------
@@ -312,11 +308,15 @@ class UVMTLMNbPassthroughInitiatorSocket(UVMTLMNbPassthroughInitiatorSocketBase)
         super().connect(provider)
 
         if not isinstance(provider, valid_providers):
-            # TODO:
-            # uvm_error_context(self.get_type_name(),
-            #     "type mismatch in connect -- connection cannot be completed",
-            #     self.get_comp())
-            pass
+            uvm_error_context(self.get_type_name(),
+                "type mismatch in connect -- connection cannot be completed",
+                self.get_comp())
+            return
+
+        if isinstance(provider, UVMTLMNbPassthroughInitiatorSocketBase):
+            provider.bw_export.connect(self.bw_export)
+        else:
+            provider.bw_port.connect(self.bw_export)
 
 #//----------------------------------------------------------------------
 #// Class -- NODOCS -- uvm_tlm_nb_passthrough_target_socket
@@ -339,8 +339,9 @@ class UVMTLMNbPassthroughTargetSocket(UVMTLMNbPassthroughTargetSocketBase):
         super().connect(provider)
 
         if not isinstance(provider, valid_providers):
-            # TODO:
-            # uvm_error_context(self.get_type_name(),
-            #     "type mismatch in connect -- connection cannot be completed",
-            #     self.get_comp())
-            pass
+            uvm_error_context(self.get_type_name(),
+                "type mismatch in connect -- connection cannot be completed",
+                self.get_comp())
+            return
+
+        provider.bw_port.connect(self.bw_port)
-- 
2.43.0


From bc28337cd8e34150272cc756919d6fb5c65ae933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:41 +0000
Subject: [PATCH 032/126] fix: register maps use the response of adapters that
 provide responses

---
 src/uvm/reg/uvm_reg_map.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/uvm/reg/uvm_reg_map.py b/src/uvm/reg/uvm_reg_map.py
index 970ef19..600f47d 100644
--- a/src/uvm/reg/uvm_reg_map.py
+++ b/src/uvm/reg/uvm_reg_map.py
@@ -1429,12 +1429,12 @@ class UVMRegMap(UVMObject):
                 await bus_req.end_event.wait_on()
 
                 if adapter.provides_responses:
-                    bus_rsp = None  # uvm_sequence_item
+                    bus_rsp = []  # uvm_sequence_item
                     op = None  # uvm_access_e
                     # TODO: need to test for right trans type, if not put back in q
                     await rw.parent.get_base_response(bus_rsp)
                     #rw_access = adapter.bus2reg(bus_rsp, rw_access)
-                    adapter.bus2reg(bus_rsp, rw_access)
+                    adapter.bus2reg(bus_rsp[0], rw_access)
                 else:
                     #rw_access = adapter.bus2reg(bus_req, rw_access)
                     adapter.bus2reg(bus_req, rw_access)
@@ -1578,11 +1578,11 @@ class UVMRegMap(UVMObject):
                 await bus_req.end_event.wait_on()
 
                 if adapter.provides_responses:
-                    bus_rsp = None  # uvm_sequence_item
+                    bus_rsp = []  # uvm_sequence_item
                     op = 0  # uvm_access_e
                     # TODO: need to test for right trans type, if not put back in q
                     await rw.parent.get_base_response(bus_rsp)
-                    adapter.bus2reg(bus_rsp, rw_access)
+                    adapter.bus2reg(bus_rsp[0], rw_access)
                 else:
                     adapter.bus2reg(bus_req,rw_access)
 
-- 
2.43.0


From 9ff48f96347a710194be4290adcd55d5f628a62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:01 +0000
Subject: [PATCH 033/126] fix: predicting a register skips fields whose byte
 lane is not enabled

---
 src/uvm/reg/uvm_reg_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/reg/uvm_reg_field.py b/src/uvm/reg/uvm_reg_field.py
index 25c6931..54d6cde 100644
--- a/src/uvm/reg/uvm_reg_field.py
+++ b/src/uvm/reg/uvm_reg_field.py
@@ -1265,7 +1265,7 @@ class UVMRegField(UVMObject):
 
         # Assume that the entire field is enabled
         if (0x00000001 & be) == 0:
-            raise Exception('DBG Early return field not enabled')
+            return
 
         self.m_fname = rw.fname
         self.m_lineno = rw.lineno
-- 
2.43.0


From 5bdd1503a39d7772f5bdb7bea552077bce3ac438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:13 +0000
Subject: [PATCH 034/126] fix: the register predictor assembles multi-access
 registers correctly

---
 src/uvm/reg/uvm_reg_predictor.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/uvm/reg/uvm_reg_predictor.py b/src/uvm/reg/uvm_reg_predictor.py
index 293d03f..5f50ec4 100644
--- a/src/uvm/reg/uvm_reg_predictor.py
+++ b/src/uvm/reg/uvm_reg_predictor.py
@@ -46,6 +46,7 @@ class UVMPredictS():
 
     def __init__(self):
         self.addr = {}
+        self.byte_en = 0  # Of the whole register, from all accesses
         self.reg_item = None
 
 
@@ -197,7 +198,10 @@ class UVMRegPredictor(UVMComponent):
             for i in range(len(map_info.addr)):
                 if rw.addr == map_info.addr[i]:
                     found = True
-                    reg_item.value[0] |= rw.data << (i * self.map.get_n_bytes()*8)
+                    n_bytes = local_map.get_n_bytes()
+                    reg_item.value[0] |= rw.data << (i * n_bytes * 8)
+                    predict_info.byte_en |= (
+                        rw.byte_en & ((1 << n_bytes) - 1)) << (i * n_bytes)
                     predict_info.addr[rw.addr] = 1
 
                     if len(predict_info.addr) == len(map_info.addr):
@@ -222,7 +226,7 @@ class UVMRegPredictor(UVMComponent):
                                      reg_item.kind == UVM_READ,
                                      local_map)
 
-                        rg.do_predict(reg_item, predict_kind, rw.byte_en)
+                        rg.do_predict(reg_item, predict_kind, predict_info.byte_en)
                         if reg_item.kind == UVM_WRITE:
                             uvm_info("REG_PREDICT", "Observed WRITE transaction to register "
                                      + ir.get_full_name() + ": value='h"
-- 
2.43.0


From 91a22cfc95c8a8ccceef4391782a2ad0012e4dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:48 +0000
Subject: [PATCH 035/126] fix: checking a register against its mirror ignores
 write-only fields

---
 src/uvm/reg/uvm_reg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index f057f99..e738968 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -1351,7 +1351,7 @@ class UVMReg(UVMObject):
 
         for i in range(len(self.m_fields)):
             acc = self.m_fields[i].get_access(_map)
-            acc = acc[0:1]
+            acc = acc[0:2]
             if (self.m_fields[i].get_compare() == UVM_NO_CHECK or
                     acc == "WO"):
                 lsb_pos = self.m_fields[i].get_lsb_pos()
@@ -1367,7 +1367,7 @@ class UVMReg(UVMObject):
         #foreach(self.m_fields[i]):
         for i in range(len(self.m_fields)):
             acc = self.m_fields[i].get_access(_map)
-            acc = acc[0:1]
+            acc = acc[0:2]
             if (not(self.m_fields[i].get_compare() == UVM_NO_CHECK or
                    acc == "WO")):
                 mask = ((1 << self.m_fields[i].get_n_bits())-1)
-- 
2.43.0


From fdc6d8e0687c44d26488894a88e64ecc2d9f1bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:48 +0000
Subject: [PATCH 036/126] fix: mirror() does not check the value of a read that
 failed

---
 src/uvm/reg/uvm_reg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index e738968..5ecc312 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -1136,7 +1136,7 @@ class UVMReg(UVMObject):
         await self.XreadX(status, v, path, _map, parent, prior, extension, fname, lineno)
         v = v[0]
 
-        if status == UVM_NOT_OK:
+        if status[-1] == UVM_NOT_OK:
             await self.XatomicX(0)
             return
 
-- 
2.43.0


From 301229b66a46903acd5be311fddd4bb551ffe06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:48 +0000
Subject: [PATCH 037/126] fix: check-on-read compares with the mirrored, not
 the desired, value

---
 src/uvm/reg/uvm_reg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index 5ecc312..01abbdb 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -1634,7 +1634,7 @@ class UVMReg(UVMObject):
             bkdr = self.get_backdoor()
             _map = UVMRegMap.backdoor()
             if _map.get_check_on_read():
-                exp = self.get()
+                exp = self.get_mirrored_value()
 
             if (bkdr is not None):
                 bkdr.read(rw)
@@ -1692,7 +1692,7 @@ class UVMReg(UVMObject):
             self.m_is_busy = True
 
             if (rw.local_map.get_check_on_read()):
-                exp = self.get()
+                exp = self.get_mirrored_value()
 
             map_info = arr_map_info[0]
             #  ...VIA USER FRONTDOOR
-- 
2.43.0


From 702f5dc938501c4dffa7cc9ef2335a447d7463ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:48 +0000
Subject: [PATCH 038/126] fix: update() of an up-to-date register returns a
 status

---
 src/uvm/reg/uvm_reg.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index 01abbdb..a0f05f1 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -1052,6 +1052,7 @@ class UVMReg(UVMObject):
         # status = UVM_IS_OK
 
         if self.needs_update() is False:
+            status.append(UVM_IS_OK)
             return
 
         # Concatenate the write-to-update values from each field
-- 
2.43.0


From 968869243302935bca326e8642a107303ea72b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:10 +0000
Subject: [PATCH 039/126] fix: update() of a block with sub-blocks returns the
 status

---
 src/uvm/reg/uvm_reg_block.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/uvm/reg/uvm_reg_block.py b/src/uvm/reg/uvm_reg_block.py
index aceea7a..8dd9862 100644
--- a/src/uvm/reg/uvm_reg_block.py
+++ b/src/uvm/reg/uvm_reg_block.py
@@ -949,9 +949,10 @@ class UVMRegBlock(UVMObject):
         uvm_check_output_args([status])
         stat_all = UVM_IS_OK
 
-        if self.needs_update() is False:
+        if not self.needs_update():
             uvm_info("RegModel", sv.sformatf("%s:%0d - RegModel block %s does not need updating",
                          fname, lineno, self.get_name()), UVM_HIGH)
+            status.append(stat_all)
             return
 
 
@@ -972,9 +973,9 @@ class UVMRegBlock(UVMObject):
         for blk_ in self.blks.key_list():
             blk = blk_
             stat_blk = []
-            await blk.update(status,path,parent,prior,extension,fname,lineno)
+            await blk.update(stat_blk,path,parent,prior,extension,fname,lineno)
             if (stat_blk[0] != UVM_IS_OK and stat_blk[0] != UVM_HAS_X):
-                stat_all = stat_blk
+                stat_all = stat_blk[0]
         status.append(stat_all)
 
 
-- 
2.43.0


From bf925d091d5240ac21a0ee80fcb069f88b62361d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:23 +0000
Subject: [PATCH 040/126] fix: addresses of wide registers below two levels of
 submaps

---
 src/uvm/reg/uvm_reg_map.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/uvm/reg/uvm_reg_map.py b/src/uvm/reg/uvm_reg_map.py
index 600f47d..71b0a5f 100644
--- a/src/uvm/reg/uvm_reg_map.py
+++ b/src/uvm/reg/uvm_reg_map.py
@@ -1156,6 +1156,7 @@ class UVMRegMap(UVMObject):
             for i in range(len(addr)):
                 addr[i] += self.m_base_addr
         else:
+            addr.clear()
             sys_addr = []
             base_addr = 0
             w = 0
-- 
2.43.0


From 1ef42a87b6f133f238f19134523ceb75bd2b2486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:39 +0000
Subject: [PATCH 041/126] fix: fields are writable through write-only maps

---
 src/uvm/reg/uvm_reg_field.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/uvm/reg/uvm_reg_field.py b/src/uvm/reg/uvm_reg_field.py
index 54d6cde..b9f1a2b 100644
--- a/src/uvm/reg/uvm_reg_field.py
+++ b/src/uvm/reg/uvm_reg_field.py
@@ -415,9 +415,10 @@ class UVMRegField(UVMObject):
                 field_access = "NOACCESS"
 
         elif rights == "WO":
-            field_access = "NOACCESS"
             if field_access == 'RW' or field_access == 'WO':
                 field_access = "WO"
+            else:
+                field_access = "NOACCESS"
         else:
             field_access = "NOACCESS"
             fname = ""
-- 
2.43.0


From b42898dbf9346d525141e30777f91190c723fa2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:30 +0000
Subject: [PATCH 042/126] fix: objects with own callbacks also run the
 type-wide ones

---
 src/uvm/base/uvm_callback.py | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/src/uvm/base/uvm_callback.py b/src/uvm/base/uvm_callback.py
index ce091e2..914e562 100644
--- a/src/uvm/base/uvm_callback.py
+++ b/src/uvm/base/uvm_callback.py
@@ -112,9 +112,10 @@ class UVMCallbacksBase(UVMObject):
 
     @classmethod
     def m_initialize(cls):
-        if cls.m_b_inst is None:
-            cls.m_b_inst = UVMCallbacksBase("callbacks_base")
-            cls.m_pool = UVMPool()
+        # All callback classes share one pool and one set of instances
+        if UVMCallbacksBase.m_b_inst is None:
+            UVMCallbacksBase.m_b_inst = UVMCallbacksBase("callbacks_base")
+            UVMCallbacksBase.m_pool = UVMPool()
         return UVMCallbacksBase.m_b_inst
 
     def m_am_i_a(self, obj):
@@ -603,8 +604,6 @@ class UVMCallbacks(UVMTypedCallbacks):
             if cb_base_type == cls.m_cb_typeid:
                 #cast(m_base_inst, m_inst)
                 cls.m_base_inst = cls.m_inst
-                # The base inst in the super class gets set to this base inst
-                cls.m_t_inst = cls.m_base_inst
                 UVMTypeIDBase.typeid_map[cls.m_typeid] = cls.m_inst
                 UVMTypeIDBase.type_map[cls.m_b_inst] = cls.m_typeid
             else:
@@ -752,18 +751,7 @@ class UVMCallbacks(UVMTypedCallbacks):
                 cls.m_base_inst.m_pool.add(obj,q)
 
             if len(q) == 0:
-                # Need to make sure that registered report catchers are added. This
-                # way users don't need to set up uvm_report_object as a super type.
-                o = []  # uvm_report_object
-
-                if (sv.cast(o,obj, UVMReportObject)):
-                    # uvm_queue#(uvm_callback) qr
-                    UVMCallbacks.get()
-                    qr = UVMCallbacks.m_t_inst.m_tw_cb_q
-                    for i in range(len(qr)):
-                        q.append(qr[i])
-
-                # for(int i=0; i<m_t_inst.m_tw_cb_q.size(); ++i)
+                # Type-wide callbacks (report catchers included) are in one queue
                 for i in range(len(cls.m_t_inst.m_tw_cb_q)):
                     q.append(cls.m_t_inst.m_tw_cb_q[i])
 
-- 
2.43.0


From 2741ebbf612cbafc064a3a2aae1d9de6dd081403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:30 +0000
Subject: [PATCH 043/126] fix: type-wide callbacks can be added after instance
 callbacks

---
 src/uvm/base/uvm_callback.py | 41 ++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 23 deletions(-)

diff --git a/src/uvm/base/uvm_callback.py b/src/uvm/base/uvm_callback.py
index 914e562..3cc1b2a 100644
--- a/src/uvm/base/uvm_callback.py
+++ b/src/uvm/base/uvm_callback.py
@@ -334,29 +334,24 @@ class UVMTypedCallbacks(UVMCallbacksBase):  # (type T=uvm_object) extends uvm_ca
             else:
                 cls.m_t_inst.m_tw_cb_q.insert(0, cb)
 
-        if cls.m_t_inst.m_pool.has_first():
-            obj = cls.m_t_inst.m_pool.get_first()
-            while True:
-                #if($cast(me,obj)):
-                me = obj
-                q = cls.m_t_inst.m_pool.get(obj)
-                if q is None:
-                    q = []
-                    cls.m_t_inst.m_pool.add(obj,q)
-
-                if self.m_cb_find(q,cb) == -1:
-                    if not warned:
-                        cls.m_cb_find_name(q, cb.get_name(), "object instance "
-                                + me.get_full_name())
-
-                    if ordering == UVM_APPEND:
-                        q.append(cb)
-                    else:
-                        q.insert(0, cb)
-
-                if cls.m_t_inst.m_pool.has_next() is False:
-                    break
-                #end while(m_t_inst.m_pool.next(obj))
+        for obj in cls.m_t_inst.m_pool.key_list():
+            if obj is None:
+                continue
+            me = obj
+            q = cls.m_t_inst.m_pool.get(obj)
+            if q is None:
+                q = []
+                cls.m_t_inst.m_pool.add(obj,q)
+
+            if self.m_cb_find(q,cb) == -1:
+                if not warned:
+                    cls.m_cb_find_name(q, cb.get_name(), "object instance "
+                            + me.get_full_name())
+
+                if ordering == UVM_APPEND:
+                    q.append(cb)
+                else:
+                    q.insert(0, cb)
 
         for i in range(len(self.m_derived_types)):
             cb_pair = UVMTypeIDBase.typeid_map[self.m_derived_types[i]]
-- 
2.43.0


From 2c3c155b1089eed360581dbca043a4aa0208abd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:30 +0000
Subject: [PATCH 044/126] fix: iterating without a callback type skips disabled
 callbacks

---
 src/uvm/base/uvm_callback.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/uvm/base/uvm_callback.py b/src/uvm/base/uvm_callback.py
index 3cc1b2a..a53b9a2 100644
--- a/src/uvm/base/uvm_callback.py
+++ b/src/uvm/base/uvm_callback.py
@@ -963,7 +963,7 @@ class UVMCallbacks(UVMTypedCallbacks):
             if CB is not None:
                 if sv.cast(cb, q[itr.m_i], CB) and cb[0].callback_mode():
                     return cb[0]
-            else:
+            elif q[itr.m_i].callback_mode():
                 return q[itr.m_i]  # Just return 1st index without type match
         return None
         #  endfunction
@@ -1003,7 +1003,7 @@ class UVMCallbacks(UVMTypedCallbacks):
             if CB is not None:
                 if sv.cast(cb, q[itr.m_i], CB) and cb[0].callback_mode():
                     return cb[0]
-            else:
+            elif q[itr.m_i].callback_mode():
                 return q[itr.m_i]  # Just return 1st index without type match
         return None
 
@@ -1043,7 +1043,7 @@ class UVMCallbacks(UVMTypedCallbacks):
             if CB is not None:
                 if sv.cast(cb, q[itr.m_i], CB) and cb[0].callback_mode():
                     return cb[0]
-            else:
+            elif q[itr.m_i].callback_mode():
                 return q[itr.m_i]
         return None
         #  endfunction
@@ -1087,7 +1087,7 @@ class UVMCallbacks(UVMTypedCallbacks):
             if CB is not None:
                 if sv.cast(cb, q[itr.m_i], CB) and cb[0].callback_mode():
                     return cb[0]
-            else:
+            elif q[itr.m_i].callback_mode():
                 return q[itr.m_i]
         return None
 
-- 
2.43.0


From b64a0a00fa72c161341a556f6d6075b6f6b879dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:30 +0000
Subject: [PATCH 045/126] fix: only report catchers are asked to catch a report

---
 src/uvm/base/uvm_report_catcher.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/uvm/base/uvm_report_catcher.py b/src/uvm/base/uvm_report_catcher.py
index dae815e..e459e80 100644
--- a/src/uvm/base/uvm_report_catcher.py
+++ b/src/uvm/base/uvm_report_catcher.py
@@ -51,6 +51,10 @@ class UVMReportCb(UVMCallbacks):
     def get_first(cls, itr, obj):
         return super().get_first(itr, obj, UVMReportCatcher)
 
+    @classmethod
+    def get_next(cls, itr, obj):
+        return super().get_next(itr, obj, UVMReportCatcher)
+
 
 UVMReportCbIter = UVMCallbackIter
 
-- 
2.43.0


From 1fb3a1d32e657c8e44da328a5d0ca776b40c3c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:30 +0000
Subject: [PATCH 046/126] fix: an action set by a report catcher is kept

---
 src/uvm/base/uvm_report_catcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_report_catcher.py b/src/uvm/base/uvm_report_catcher.py
index e459e80..6832b1e 100644
--- a/src/uvm/base/uvm_report_catcher.py
+++ b/src/uvm/base/uvm_report_catcher.py
@@ -294,7 +294,7 @@ class UVMReportCatcher(UVMCallback):
     #
     def set_action(self, action):
         self.m_modified_report_message.set_action(action)
-        self.m_set_action_called = 1
+        UVMReportCatcher.m_set_action_called = True
 
     #// Function: set_context
     #//
-- 
2.43.0


From 8ad7eb865a090ae1d72c30137f9f5f08239d0879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:54 +0000
Subject: [PATCH 047/126] fix: an exception in a report catcher does not
 disable all catchers

---
 src/uvm/base/uvm_report_catcher.py | 126 +++++++++++++++--------------
 1 file changed, 64 insertions(+), 62 deletions(-)

diff --git a/src/uvm/base/uvm_report_catcher.py b/src/uvm/base/uvm_report_catcher.py
index 6832b1e..120b2be 100644
--- a/src/uvm/base/uvm_report_catcher.py
+++ b/src/uvm/base/uvm_report_catcher.py
@@ -534,68 +534,70 @@ class UVMReportCatcher(UVMCallback):
         cls.in_catcher = 1
         UVMCallbacksBase.m_tracing = 0  # turn off cb tracing so catcher stuff doesn't print
 
-        orig_severity = rm.get_severity()  # cast to 'uvm_severity' removed
-        cls.m_modified_report_message = rm
-
-        catcher = UVMReportCb.get_first(_iter, l_report_object)
-        if catcher is not None:
-            if cls.m_debug_flags & cls.DO_NOT_MODIFY:
-                #process p = process::self(); // Keep random stability
-                p = None
-                randstate = ""
-                if p is not None:
-                    randstate = p.get_randstate()
-                cls.m_orig_report_message = rm.clone()
-                #sv.cast(m_orig_report_message, rm.clone()) # have to clone, rm can be extended type
-                if p is not None:
-                    p.set_randstate(randstate)
-
-        while catcher is not None:
-            prev_sev = 0  # uvm_severity
-
-            if catcher.callback_mode() is False:
-                catcher = UVMReportCb.get_next(_iter, l_report_object)
-                continue
-
-
-            prev_sev = cls.m_modified_report_message.get_severity()
-            cls.m_set_action_called = False
-            thrown = catcher.process_report_catcher()
-
-            # Set the action to the default action for the new severity
-            # if it is still at the default for the previous severity,
-            # unless it was explicitly set.
-            if (not cls.m_set_action_called and
-                cls.m_modified_report_message.get_severity() != prev_sev and
-                cls.m_modified_report_message.get_action() ==
-                l_report_object.get_report_action(prev_sev, "*@&*^*^*#")):
-
-                cls.m_modified_report_message.set_action(
-                    l_report_object.get_report_action(cls.m_modified_report_message.get_severity(), "*@&*^*^*#"))
-
-            if thrown == 0:
-                if orig_severity == UVM_FATAL:
-                    cls.m_caught_fatal += 1
-                elif orig_severity == UVM_ERROR:
-                    cls.m_caught_error += 1
-                elif orig_severity == UVM_WARNING:
-                    cls.m_caught_warning += 1
-                break
-            catcher = UVMReportCb.get_next(_iter,l_report_object)
-
-        # update counters if message was returned with demoted severity
-        if orig_severity == UVM_FATAL:
-            if cls.m_modified_report_message.get_severity() < orig_severity:
-                cls.m_demoted_fatal += 1
-        elif orig_severity == UVM_ERROR:
-            if cls.m_modified_report_message.get_severity() < orig_severity:
-                cls.m_demoted_error += 1
-        elif orig_severity == UVM_WARNING:
-            if cls.m_modified_report_message.get_severity() < orig_severity:
-                cls.m_demoted_warning += 1
-
-        cls.in_catcher = 0
-        UVMCallbacksBase.m_tracing = 1  # turn tracing stuff back on
+        try:
+            orig_severity = rm.get_severity()  # cast to 'uvm_severity' removed
+            cls.m_modified_report_message = rm
+
+            catcher = UVMReportCb.get_first(_iter, l_report_object)
+            if catcher is not None:
+                if cls.m_debug_flags & cls.DO_NOT_MODIFY:
+                    #process p = process::self(); // Keep random stability
+                    p = None
+                    randstate = ""
+                    if p is not None:
+                        randstate = p.get_randstate()
+                    cls.m_orig_report_message = rm.clone()
+                    #sv.cast(m_orig_report_message, rm.clone()) # have to clone, rm can be extended type
+                    if p is not None:
+                        p.set_randstate(randstate)
+
+            while catcher is not None:
+                prev_sev = 0  # uvm_severity
+
+                if catcher.callback_mode() is False:
+                    catcher = UVMReportCb.get_next(_iter, l_report_object)
+                    continue
+
+
+                prev_sev = cls.m_modified_report_message.get_severity()
+                cls.m_set_action_called = False
+                thrown = catcher.process_report_catcher()
+
+                # Set the action to the default action for the new severity
+                # if it is still at the default for the previous severity,
+                # unless it was explicitly set.
+                if (not cls.m_set_action_called and
+                    cls.m_modified_report_message.get_severity() != prev_sev and
+                    cls.m_modified_report_message.get_action() ==
+                    l_report_object.get_report_action(prev_sev, "*@&*^*^*#")):
+
+                    cls.m_modified_report_message.set_action(
+                        l_report_object.get_report_action(cls.m_modified_report_message.get_severity(), "*@&*^*^*#"))
+
+                if thrown == 0:
+                    if orig_severity == UVM_FATAL:
+                        cls.m_caught_fatal += 1
+                    elif orig_severity == UVM_ERROR:
+                        cls.m_caught_error += 1
+                    elif orig_severity == UVM_WARNING:
+                        cls.m_caught_warning += 1
+                    break
+                catcher = UVMReportCb.get_next(_iter,l_report_object)
+
+            # update counters if message was returned with demoted severity
+            if orig_severity == UVM_FATAL:
+                if cls.m_modified_report_message.get_severity() < orig_severity:
+                    cls.m_demoted_fatal += 1
+            elif orig_severity == UVM_ERROR:
+                if cls.m_modified_report_message.get_severity() < orig_severity:
+                    cls.m_demoted_error += 1
+            elif orig_severity == UVM_WARNING:
+                if cls.m_modified_report_message.get_severity() < orig_severity:
+                    cls.m_demoted_warning += 1
+        finally:
+            # also when a catcher raised an exception
+            cls.in_catcher = 0
+            UVMCallbacksBase.m_tracing = 1  # turn tracing stuff back on
         return thrown
 
 
-- 
2.43.0


From 9ef0cfa6b2d436db0f07ff4574021385dfa30e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:54 +0000
Subject: [PATCH 048/126] fix: reports with the UVM_RM_RECORD action can be
 recorded

---
 src/uvm/base/uvm_report_server.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/uvm/base/uvm_report_server.py b/src/uvm/base/uvm_report_server.py
index e0fc451..5ab8724 100644
--- a/src/uvm/base/uvm_report_server.py
+++ b/src/uvm/base/uvm_report_server.py
@@ -426,9 +426,9 @@ class UVMReportServer(UVMObject):
             ro = report_message.get_report_object()
             rh = report_message.get_report_handler()
 
-            # Check for pre-existing stream TODO
-            #if (m_streams.exists(ro.get_name()) && (m_streams[ro.get_name()].exists(rh.get_name())))
-            #stream = m_streams[ro.get_name()][rh.get_name()]
+            # Check for pre-existing stream
+            ro_streams = self.m_streams.setdefault(ro.get_name(), {})
+            stream = ro_streams.get(rh.get_name())
 
             # If no pre-existing stream (or for some reason pre-existing stream was ~null~)
             if stream is None:
@@ -444,7 +444,7 @@ class UVMReportServer(UVMObject):
                     # Open the stream.    Name=report object name, scope=report handler name, type=MESSAGES
                     stream = db.open_stream(ro.get_name(), rh.get_name(), "MESSAGES")
                     # Save off the openned stream
-                    self.m_streams[ro.get_name()][rh.get_name()] = stream
+                    ro_streams[rh.get_name()] = stream
             if stream is not None:
                 recorder = stream.open_recorder(report_message.get_name(), None,report_message.get_type_name())
                 if recorder is not None:
-- 
2.43.0


From 18537c6e8320903ca92f5e07009b2f6e3972b0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:54 +0000
Subject: [PATCH 049/126] fix: show_verbosity does not crash every report

---
 src/uvm/base/uvm_report_server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_report_server.py b/src/uvm/base/uvm_report_server.py
index 5ab8724..0846107 100644
--- a/src/uvm/base/uvm_report_server.py
+++ b/src/uvm/base/uvm_report_server.py
@@ -529,7 +529,7 @@ class UVMReportServer(UVMObject):
 
         if self.show_verbosity is True:
             verb = report_message.get_verbosity()
-            verbosity_str = "(" + verb + ")"
+            verbosity_str = "(" + str(verb) + ")"
 
         if self.show_terminator is True:
             terminator_str = " -" + sev_string
-- 
2.43.0


From 8221e5f71c3a457397156b9279023ce73e2e5085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:09 +0000
Subject: [PATCH 050/126] fix: message macros obey the verbosity of the
 reporting component

---
 src/uvm/macros/uvm_message_defines.py | 62 +++++++++++++--------------
 1 file changed, 29 insertions(+), 33 deletions(-)

diff --git a/src/uvm/macros/uvm_message_defines.py b/src/uvm/macros/uvm_message_defines.py
index 6ea63b5..d44408f 100644
--- a/src/uvm/macros/uvm_message_defines.py
+++ b/src/uvm/macros/uvm_message_defines.py
@@ -104,6 +104,18 @@ if UVM_REPORT_DISABLE_LINE:
 #//----------------------------------------------------------------------------
 
 
+def _get_reporter(frame):
+    """ Returns the object (or None) in whose method a macro is used """
+    return frame.f_locals.get('self')
+
+
+def _report_enabled(reporter, verbosity, severity, id):
+    """ Asks the reporter itself, or the root if it is not a report object """
+    if hasattr(reporter, 'uvm_report_enabled'):
+        return reporter.uvm_report_enabled(verbosity, severity, id)
+    return uvm_report_enabled(verbosity, severity, id)
+
+
 #// MACRO: `uvm_info
 #//
 #// Calls uvm_report_info if ~VERBOSITY~ is lower than the configured verbosity of
@@ -113,17 +125,13 @@ if UVM_REPORT_DISABLE_LINE:
 #// |`uvm_info(ID, MSG, VERBOSITY)
 
 def uvm_info(ID, MSG, VERBOSITY):
-    if uvm_report_enabled(VERBOSITY, UVM_INFO, ID):
+    reporter = _get_reporter(inspect.currentframe().f_back)  # type: ignore
+    if _report_enabled(reporter, VERBOSITY, UVM_INFO, ID):
         caller = getframeinfo(stack()[1][0])
         fname = caller.filename
         lineno = caller.lineno
-        f_locals = inspect.currentframe().f_back.f_locals  # type: ignore
-        if 'self' in f_locals:
-            parent_self = f_locals['self']
-            if hasattr(parent_self, 'uvm_report_info'):
-                parent_self.uvm_report_info(ID, MSG, VERBOSITY, fname, lineno, "", 1)
-            else:
-                uvm_report_info(ID, MSG, VERBOSITY, fname, lineno, "", 1)
+        if hasattr(reporter, 'uvm_report_info'):
+            reporter.uvm_report_info(ID, MSG, VERBOSITY, fname, lineno, "", 1)
         else:
             uvm_report_info(ID, MSG, VERBOSITY, fname, lineno, "", 1)
 
@@ -139,17 +147,13 @@ def uvm_info(ID, MSG, VERBOSITY):
 #// |`uvm_warning(ID, MSG)
 
 def uvm_warning(ID, MSG):
-    if uvm_report_enabled(UVM_NONE, UVM_WARNING,ID):
+    reporter = _get_reporter(inspect.currentframe().f_back)  # type: ignore
+    if _report_enabled(reporter, UVM_NONE, UVM_WARNING, ID):
         caller = getframeinfo(stack()[1][0])
         fname = caller.filename
         lineno = caller.lineno
-        f_locals = inspect.currentframe().f_back.f_locals  # type: ignore
-        if 'self' in f_locals:
-            parent_self = f_locals['self']
-            if hasattr(parent_self, 'uvm_report_warning'):
-                parent_self.uvm_report_warning(ID, MSG, UVM_NONE, fname, lineno, "", 1)
-            else:
-                uvm_report_warning(ID, MSG, UVM_NONE, fname, lineno, "", 1)
+        if hasattr(reporter, 'uvm_report_warning'):
+            reporter.uvm_report_warning(ID, MSG, UVM_NONE, fname, lineno, "", 1)
         else:
             uvm_report_warning(ID, MSG, UVM_NONE, fname, lineno, "", 1)
 
@@ -164,17 +168,13 @@ def uvm_warning(ID, MSG):
 #// |`uvm_error(ID, MSG)
 
 def uvm_error(ID, MSG):
-    if uvm_report_enabled(UVM_NONE, UVM_ERROR,ID):
+    reporter = _get_reporter(inspect.currentframe().f_back)  # type: ignore
+    if _report_enabled(reporter, UVM_NONE, UVM_ERROR, ID):
         caller = getframeinfo(stack()[1][0])
         fname = caller.filename
         lineno = caller.lineno
-        f_locals = inspect.currentframe().f_back.f_locals  # type: ignore
-        if 'self' in f_locals:
-            parent_self = f_locals['self']
-            if hasattr(parent_self, 'uvm_report_error'):
-                parent_self.uvm_report_error(ID, MSG, UVM_NONE, fname, lineno, "", 1)
-            else:
-                uvm_report_error(ID, MSG, UVM_NONE, fname, lineno, "", 1)
+        if hasattr(reporter, 'uvm_report_error'):
+            reporter.uvm_report_error(ID, MSG, UVM_NONE, fname, lineno, "", 1)
         else:
             uvm_report_error(ID, MSG, UVM_NONE, fname, lineno, "", 1)
 
@@ -190,19 +190,15 @@ def uvm_error(ID, MSG):
 
 
 def uvm_fatal(ID, MSG):
-    if uvm_report_enabled(UVM_NONE, UVM_FATAL,ID):
+    reporter = _get_reporter(inspect.currentframe().f_back)  # type: ignore
+    if _report_enabled(reporter, UVM_NONE, UVM_FATAL, ID):
         caller = getframeinfo(stack()[1][0])
         fname = caller.filename
         lineno = caller.lineno
-        f_locals = inspect.currentframe().f_back.f_locals  # type: ignore
-        if 'self' in f_locals:
-            parent_self = f_locals['self']
-            if hasattr(parent_self, 'uvm_report_fatal'):
-                parent_self.uvm_report_fatal(ID, MSG, UVM_NONE, fname, lineno, "", 1)
-            else:
-                uvm_report_fatal(ID, MSG, UVM_NONE, fname, lineno, "", True)
+        if hasattr(reporter, 'uvm_report_fatal'):
+            reporter.uvm_report_fatal(ID, MSG, UVM_NONE, fname, lineno, "", 1)
         else:
-            uvm_report_fatal(ID, MSG, UVM_NONE, fname, lineno, "", True)
+            uvm_report_fatal(ID, MSG, UVM_NONE, fname, lineno, "", 1)
 
 
 def uvm_info_context(ID, MSG, VERBOSITY, RO):
-- 
2.43.0


From 0d06c9d5943799a378659a97bb8d96826cf94c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 051/126] fix: uvm_do_callbacks_exit_on() tells which value was
 returned

---
 src/uvm/macros/uvm_callback_defines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/macros/uvm_callback_defines.py b/src/uvm/macros/uvm_callback_defines.py
index 17f59f9..6df5f3b 100644
--- a/src/uvm/macros/uvm_callback_defines.py
+++ b/src/uvm/macros/uvm_callback_defines.py
@@ -254,7 +254,7 @@ async def uvm_do_obj_callbacks_async(OBJ, CB, METHOD, *args):
 #`define uvm_do_callbacks_exit_on(T,CB,METHOD,VAL) \
 #  `uvm_do_obj_callbacks_exit_on(T,CB,this,METHOD,VAL) \
 def uvm_do_callbacks_exit_on(self,CB,METHOD,VAL, *args):
-    uvm_do_obj_callbacks_exit_on(self, CB, METHOD, VAL, *args)
+    return uvm_do_obj_callbacks_exit_on(self, CB, METHOD, VAL, *args)
 
 
 #//-----------------------------------------------------------------------------
-- 
2.43.0


From a328de7228b2107e063291480dae584a5c889fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:34 +0000
Subject: [PATCH 052/126] fix: scopes and names can be given as regular
 expressions

---
 src/uvm/base/sv.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/uvm/base/sv.py b/src/uvm/base/sv.py
index 414c4d6..c1d783d 100644
--- a/src/uvm/base/sv.py
+++ b/src/uvm/base/sv.py
@@ -44,6 +44,8 @@ RET_OK = 0
 
 
 def uvm_re_match(rex, _str):
+    if len(rex) > 1 and rex[0] == "/" and rex[-1] == "/":
+        rex = rex[1:-1]  # an explicit regular expression
     m = re.search(rex, _str)
     if m is not None:
         return RET_OK
-- 
2.43.0


From 2b610f7aaa0f2e8fd661d8eecafd43bb39daff07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:34 +0000
Subject: [PATCH 053/126] fix: a glob matches whole names of fields, components
 and types only

---
 src/uvm/base/uvm_globals.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/uvm/base/uvm_globals.py b/src/uvm/base/uvm_globals.py
index b20cadd..f3dd82f 100644
--- a/src/uvm/base/uvm_globals.py
+++ b/src/uvm/base/uvm_globals.py
@@ -247,6 +247,8 @@ def uvm_is_match(expr: str, _str: str) -> int:
     It must not contain any wildcards.
     """
     s = uvm_glob_to_re(expr)
+    if s != "" and not (s[0] == "/" and s[-1] == "/"):
+        s = "^(" + s + r")\Z"  # the whole string must match
     return uvm_re_match(s, _str) == 0
 
 
-- 
2.43.0


From 3294f1d16cb61697c0808fe7ba6d9d16da991d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:34 +0000
Subject: [PATCH 054/126] fix: repeating a configuration setting makes it the
 latest one

---
 src/uvm/base/uvm_resource.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_resource.py b/src/uvm/base/uvm_resource.py
index 0a8617d..9f233af 100644
--- a/src/uvm/base/uvm_resource.py
+++ b/src/uvm/base/uvm_resource.py
@@ -1514,7 +1514,7 @@ class UVMResourcePool:
         q.pop(i)
 
         if pri == PRI_HIGH:
-            q.append(rsrc)
+            q.insert(0, rsrc)
         elif pri == PRI_LOW:
             q.append(rsrc)
 
-- 
2.43.0


From 4d6086959cd9f587fc91610e0de4f0c5105df3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:34 +0000
Subject: [PATCH 055/126] fix: automatic configuration applies the setting of
 highest precedence

---
 src/uvm/base/uvm_component.py | 3 ++-
 src/uvm/base/uvm_resource.py  | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/uvm/base/uvm_component.py b/src/uvm/base/uvm_component.py
index 032489a..ed3d43a 100644
--- a/src/uvm/base/uvm_component.py
+++ b/src/uvm/base/uvm_component.py
@@ -1216,11 +1216,12 @@ class UVMComponent(UVMReportObject):
         # // rq is in precedence order now, so we have to go through in reverse
         # // order to do the settings.
         #  for(int i=rq.size()-1; i>=0; --i):
-        for i in range(len(rq)):
+        for i in range(len(rq) - 1, -1, -1):
 
             r = rq[i]
             name = r.get_name()
             # // does name have brackets [] in it?
+            j = 0
             while j < len(name):
                 if (name[j] == "[" or name[j] == "."):
                     break
diff --git a/src/uvm/base/uvm_resource.py b/src/uvm/base/uvm_resource.py
index 9f233af..150b48b 100644
--- a/src/uvm/base/uvm_resource.py
+++ b/src/uvm/base/uvm_resource.py
@@ -1283,7 +1283,7 @@ class UVMResourcePool:
                 _all[r.precedence] = UVMQueue()
             _all[r.precedence].push_front(r)  # since we will push_front in the final
         qq = []
-        for key in _all:
+        for key in sorted(_all):
             for j in range(len(_all[key])):
                 r = _all[key].get(j)
                 #qq.push_front(r)
-- 
2.43.0


From 778019afa96b3419e4ae7062b719fdd72fc98731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:34 +0000
Subject: [PATCH 056/126] fix: fields of a derived class are not added to its
 base class

---
 src/uvm/macros/uvm_object_defines.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/uvm/macros/uvm_object_defines.py b/src/uvm/macros/uvm_object_defines.py
index 03656bb..0349fd3 100644
--- a/src/uvm/macros/uvm_object_defines.py
+++ b/src/uvm/macros/uvm_object_defines.py
@@ -121,9 +121,10 @@ def uvm_object_utils_end(T):
 
 def uvm_field_utils_start(T):
     # Create static member containers for var names and masks
-    if not hasattr(T, "_m_uvm_field_names"):
+    # (fields of the base classes stay in the containers of those)
+    if "_m_uvm_field_names" not in T.__dict__:
         setattr(T, "_m_uvm_field_names", [])
-    if not hasattr(T, "_m_uvm_field_masks"):
+    if "_m_uvm_field_masks" not in T.__dict__:
         setattr(T, "_m_uvm_field_masks", {})
 
     def _m_uvm_field_automation(self, rhs, what__, str__):
-- 
2.43.0


From 2672cae43816bd6e7a4436a4590086d6bcd84b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:45 +0000
Subject: [PATCH 057/126] fix: configuration lookups can be restricted to a
 type of value

---
 src/uvm/base/uvm_resource.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/uvm/base/uvm_resource.py b/src/uvm/base/uvm_resource.py
index 150b48b..77f351e 100644
--- a/src/uvm/base/uvm_resource.py
+++ b/src/uvm/base/uvm_resource.py
@@ -870,8 +870,7 @@ class UVMResource(UVMResourceBase):
             first = i
             q_val = q[first]
             if T is not None:
-                arr_rsrc = []
-                if sv.cast(arr_rsrc, q_val, T):
+                if isinstance(q_val.val, T) or isinstance(q_val, T):
                     rsrc = q_val
                     break
             else:
@@ -889,9 +888,8 @@ class UVMResource(UVMResourceBase):
         # for(int i = first+1; i < q.size(); ++i):
         for i in range(first + 1, len(q)):
             if T is not None:
-                arr_r = []
-                if sv.cast(arr_r, q[i], T):
-                    r = q[i]
+                r = q[i]
+                if isinstance(r.val, T) or isinstance(r, T):
                     if r.precedence > prec:
                         rsrc = r
                         prec = r.precedence
-- 
2.43.0


From 192edcdb273d125a0d76a76100182acf0df321a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:48 +0000
Subject: [PATCH 058/126] fix: pairs of built-in values can be compared

---
 src/uvm/comps/uvm_pair.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/comps/uvm_pair.py b/src/uvm/comps/uvm_pair.py
index 3f21905..633f09a 100644
--- a/src/uvm/comps/uvm_pair.py
+++ b/src/uvm/comps/uvm_pair.py
@@ -139,7 +139,7 @@ class UVMBuiltInPair(UVMObject):
     def __init__(self, name=""):
         super().__init__(name)
         self.first = 0
-        self.seconds = 0
+        self.second = 0
 
 
     def get_type_name(self):
@@ -156,7 +156,7 @@ class UVMBuiltInPair(UVMObject):
             uvm_error("WRONG_TYPE", {"do_compare: rhs argument is not of type '",
                 self.get_type_name(),"'"})
             return 0
-        rhs_ = rhs[0]
+        rhs_ = rhs_[0]
         return self.first == rhs_.first and self.second == rhs_.second
 
 
-- 
2.43.0


From e960c4ed7694d55e32aedcd284a14c785745d7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:31 +0000
Subject: [PATCH 059/126] fix: objects with different string fields can be
 compared

---
 src/uvm/macros/uvm_object_defines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/macros/uvm_object_defines.py b/src/uvm/macros/uvm_object_defines.py
index 0349fd3..2495c9e 100644
--- a/src/uvm/macros/uvm_object_defines.py
+++ b/src/uvm/macros/uvm_object_defines.py
@@ -168,7 +168,7 @@ def uvm_field_utils_start(T):
                                 v_attr_self, v_attr_rhs, 0)
                         elif isinstance(v_attr_self, str):
                             T_cont.comparer.compare_string(v,
-                                v_attr_self, v_attr_rhs, 0)
+                                v_attr_self, v_attr_rhs)
                         elif hasattr(v_attr_self, "compare"):
                             T_cont.comparer.compare_object(v,
                                 v_attr_self, v_attr_rhs)
-- 
2.43.0


From e6989f64c55cb4f82a16f0756b8416ddc37abc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:34 +0000
Subject: [PATCH 060/126] fix: every transaction on a main stream is recorded,
 not only the first

---
 src/uvm/base/uvm_component.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_component.py b/src/uvm/base/uvm_component.py
index ed3d43a..72b98a0 100644
--- a/src/uvm/base/uvm_component.py
+++ b/src/uvm/base/uvm_component.py
@@ -2289,7 +2289,7 @@ class UVMComponent(UVMReportObject):
             if (stream_name == "") or (stream_name == "main"):
                 if self.m_main_stream is None:
                     self.m_main_stream = db.open_stream("main", self.get_full_name(), "TVM")
-                    stream = self.m_main_stream
+                stream = self.m_main_stream
             else:
                 stream = self.get_tr_stream(stream_name)
 
-- 
2.43.0


From 6f777b15eef6d0f1d5bea4cfab4a9598e4f32e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:34 +0000
Subject: [PATCH 061/126] fix: links between recorded transactions are
 established

---
 src/uvm/base/uvm_tr_database.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/uvm/base/uvm_tr_database.py b/src/uvm/base/uvm_tr_database.py
index 33c532d..16190a8 100644
--- a/src/uvm/base/uvm_tr_database.py
+++ b/src/uvm/base/uvm_tr_database.py
@@ -243,6 +243,7 @@ class UVMTrDatabase(UVMObject):
         if lhs is None:
             uvm_warning("UVM/TR_DB/BAD_LINK",
                 "left hand side '<None>' is not supported in links for 'UVMTrDatabase'")
+            return
 
         if rhs is None:
             uvm_warning("UVM/TR_DB/BAD_LINK",
@@ -250,24 +251,24 @@ class UVMTrDatabase(UVMObject):
             return
 
 
-        if (not sv.cast(s_lhs, lhs, UVMTrStream)) or (not sv.cast(r_lhs, lhs,
+        if (not sv.cast(s_lhs, lhs, UVMTrStream)) and (not sv.cast(r_lhs, lhs,
             UVMRecorder)):
             uvm_warning("UVM/TR_DB/BAD_LINK",
                 sv.sformatf("left hand side of type '%s' not supported in links for 'UVMTrDatabase'",
                 lhs.get_type_name()))
             return
         else:
-            s_lhs = s_lhs[0]
-            r_lhs = r_lhs[0]
+            s_lhs = s_lhs[0] if s_lhs else None
+            r_lhs = r_lhs[0] if r_lhs else None
 
-        if (not sv.cast(s_rhs, rhs, UVMTrStream)) or (not sv.cast(r_rhs, rhs, UVMRecorder)):
+        if (not sv.cast(s_rhs, rhs, UVMTrStream)) and (not sv.cast(r_rhs, rhs, UVMRecorder)):
             uvm_warning("UVM/TR_DB/BAD_LINK",
                 sv.sformatf("right hand side of type '%s' not supported in links for 'uvm_record_datbasae'",
                 rhs.get_type_name()))
             return
         else:
-            s_rhs = s_rhs[0]
-            r_rhs = r_rhs[0]
+            s_rhs = s_rhs[0] if s_rhs else None
+            r_rhs = r_rhs[0] if r_rhs else None
 
         if r_lhs is not None:
             s_lhs = r_lhs.get_stream()
@@ -433,12 +434,11 @@ class UVMTextTrDatabase(UVMTrDatabase):
 
         sv.cast(cast_r_lhs, lhs, UVMRecorder)
         sv.cast(cast_r_rhs, rhs, UVMRecorder)
-        r_lhs = cast_r_lhs[0]
-        r_rhs = cast_r_rhs[0]
-
-        if (r_lhs is None or r_rhs is None):
+        if not cast_r_lhs or not cast_r_rhs:
             return
         else:
+            r_lhs = cast_r_lhs[0]
+            r_rhs = cast_r_rhs[0]
             pc_link = []  # uvm_parent_child_link
             re_link = []  # uvm_related_link
             if sv.cast(pc_link, link, UVMParentChildLink):
-- 
2.43.0


From c7e1c6e59b32473fd833cfdc629f98581171ce06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:34 +0000
Subject: [PATCH 062/126] fix: a recorded child transaction is linked to its
 parent

---
 src/uvm/base/uvm_transaction.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/uvm/base/uvm_transaction.py b/src/uvm/base/uvm_transaction.py
index 55d6c20..cb6fc0e 100644
--- a/src/uvm/base/uvm_transaction.py
+++ b/src/uvm/base/uvm_transaction.py
@@ -22,6 +22,7 @@
 #-----------------------------------------------------------------------------
 
 from .sv import sv
+from .uvm_links import UVMParentChildLink
 from .uvm_recorder import UVMRecorder
 from .uvm_object import UVMObject
 from .uvm_pool import UVMEventPool
@@ -559,10 +560,8 @@ class UVMTransaction(UVMObject):
                         "Begin_End, Link")
 
                 if (self.tr_recorder is not None):
-                    pass
-                    #link = uvm_parent_child_link::get_link(parent_recorder, self.tr_recorder)
-                    # TODO
-                    #db.establish_link(link)
+                    link = UVMParentChildLink.get_link(parent_recorder, self.tr_recorder)
+                    db.establish_link(link)
 
             if (self.tr_recorder is not None):
                 m_begin_tr = self.tr_recorder.get_handle()
-- 
2.43.0


From 0a6af223b5e4e976911873f62382b68bbd4a7916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:34 +0000
Subject: [PATCH 063/126] fix: a transaction database can be opened again after
 it was closed

---
 src/uvm/base/uvm_tr_database.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/uvm/base/uvm_tr_database.py b/src/uvm/base/uvm_tr_database.py
index 16190a8..25d3868 100644
--- a/src/uvm/base/uvm_tr_database.py
+++ b/src/uvm/base/uvm_tr_database.py
@@ -89,7 +89,7 @@ class UVMTrDatabase(UVMObject):
            and return the result.
         Returns:
         """
-        if self.m_is_opened is False:
+        if not self.m_is_opened:
             self.m_is_opened = self.do_open_db()
         return self.m_is_opened
 
@@ -111,8 +111,8 @@ class UVMTrDatabase(UVMObject):
         """
         if self.m_is_opened:
             if self.do_close_db():
-                self.m_is_opened = 0
-        return self.m_is_opened == 0
+                self.m_is_opened = False
+        return not self.m_is_opened
 
     def is_open(self):
         """
@@ -394,6 +394,7 @@ class UVMTextTrDatabase(UVMTrDatabase):
             #fork // Needed because $fclose is a task
             sv.fclose(self.m_file)
             #join_none
+            self.m_file = NO_FILE_OPEN
             self.m_filename_dap.unlock()
         return 1
 
-- 
2.43.0


From 17bfbcb5ecc99a1f2f45db25fc2debc29e6077ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:34 +0000
Subject: [PATCH 064/126] fix: a recorder is closed once and has no handle once
 it is freed

---
 src/uvm/base/uvm_recorder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/base/uvm_recorder.py b/src/uvm/base/uvm_recorder.py
index 5b25dee..5f7d48d 100644
--- a/src/uvm/base/uvm_recorder.py
+++ b/src/uvm/base/uvm_recorder.py
@@ -199,7 +199,7 @@ class UVMRecorder(UVMObject):
         if (close_time == 0):
             close_time = sv.realtime()
 
-        if self.is_open() is False:
+        if not self.is_open():
             return
 
         self.do_close(close_time)
@@ -378,7 +378,7 @@ class UVMRecorder(UVMObject):
 
         Returns:
         """
-        if (self.is_open() is False and self.is_closed() is False):
+        if not self.is_open() and not self.is_closed():
             return 0
         else:
             handle = self.get_inst_id()
-- 
2.43.0


From 8b370df9a184db1760a8118032e8e00801a6d45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:34 +0000
Subject: [PATCH 065/126] fix: recording to a file that cannot be opened does
 not stop the simulation

---
 src/uvm/base/sv.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/uvm/base/sv.py b/src/uvm/base/sv.py
index c1d783d..cdc6ae7 100644
--- a/src/uvm/base/sv.py
+++ b/src/uvm/base/sv.py
@@ -149,7 +149,10 @@ class sv:
 
     @classmethod
     def fopen(cls, name, mode):
-        return open(name, mode)
+        try:
+            return open(name, mode)
+        except OSError:
+            return 0  # SV fopen behavior
 
     @classmethod
     def fclose(cls, handle):
-- 
2.43.0


From 144266738a23efde1788e04374069544abf64fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:44 +0000
Subject: [PATCH 066/126] fix: the file name of a text transaction database can
 be set

---
 src/uvm/dap/uvm_simple_lock_dap.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/uvm/dap/uvm_simple_lock_dap.py b/src/uvm/dap/uvm_simple_lock_dap.py
index 36207a6..8097635 100644
--- a/src/uvm/dap/uvm_simple_lock_dap.py
+++ b/src/uvm/dap/uvm_simple_lock_dap.py
@@ -72,15 +72,11 @@ class uvm_simple_lock_dap(uvm_set_get_dap_base):
     #   // updated, or a 0 if the value can not be updated due
     #   // to the DAP being locked.  No errors will be reported
     #   // if ~try_set~ fails.
-    #   virtual function bit try_set(T value);
-    #      if (m_locked)
-    #        return 0;
-    #      else begin
-    #         m_value = value;
-    #         return 1;
-    #      end
-    #   endfunction : try_set
-    #
+    def try_set(self, value):
+        if self.m_locked:
+            return 0
+        self.m_value = value
+        return 1
 
     #   // Function: get
     #   // Returns the current value stored within the DAP
-- 
2.43.0


From e83b840350d3eedfc96cc1c0b01377a1d207a5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:08 +0000
Subject: [PATCH 067/126] fix: objects with unset object fields can be recorded

---
 src/uvm/macros/uvm_object_defines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/macros/uvm_object_defines.py b/src/uvm/macros/uvm_object_defines.py
index 2495c9e..cffbdde 100644
--- a/src/uvm/macros/uvm_object_defines.py
+++ b/src/uvm/macros/uvm_object_defines.py
@@ -303,7 +303,7 @@ def uvm_field_utils_start(T):
                     val = getattr(self, v)
                     if isinstance(val, int):
                         T_cont.recorder.record_field(v, val, 32)
-                    elif isinstance(val, UVMObject):
+                    elif val is None or isinstance(val, UVMObject):
                         T_cont.recorder.record_object(v, val)
                     elif isinstance(val, str):
                         T_cont.recorder.record_string(v, val)
-- 
2.43.0


From 858001be70fa376e10797d6781358cc89b03a7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:41 +0000
Subject: [PATCH 068/126] fix: related records can be linked

---
 src/uvm/base/uvm_links.py | 37 +++++++++++--------------------------
 1 file changed, 11 insertions(+), 26 deletions(-)

diff --git a/src/uvm/base/uvm_links.py b/src/uvm/base/uvm_links.py
index 11eb197..94614c5 100644
--- a/src/uvm/base/uvm_links.py
+++ b/src/uvm/base/uvm_links.py
@@ -403,35 +403,20 @@ class UVMRelatedLink(UVMLinkBase):
         return ce_link
 
 
-    #   // Group: Implementation Callbacks
-    #
-    #   // Function: do_set_lhs
-    #   // Sets the left-hand-side
-    #   //
-    #   virtual def void do_set_lhs(self,UVMObject lhs):
-    #      m_lhs = lhs
-    #   endfunction : do_set_lhs
+    def do_set_lhs(self, lhs):
+        self.m_lhs = lhs
 
-    #   // Function: do_get_lhs
-    #   // Retrieves the left-hand-side
-    #   //
-    #   virtual def UVMObject do_get_lhs(self):
-    #      return m_lhs
-    #   endfunction : do_get_lhs
 
-    #   // Function: do_set_rhs
-    #   // Sets the right-hand-side
-    #   //
-    #   virtual def void do_set_rhs(self,UVMObject rhs):
-    #      m_rhs = rhs
-    #   endfunction : do_set_rhs
+    def do_get_lhs(self):
+        return self.m_lhs
 
-    #   // Function: do_get_rhs
-    #   // Retrieves the right-hand-side
-    #   //
-    #   virtual def UVMObject do_get_rhs(self):
-    #      return m_rhs
-    #   endfunction : do_get_rhs
+
+    def do_set_rhs(self, rhs):
+        self.m_rhs = rhs
+
+
+    def do_get_rhs(self):
+        return self.m_rhs
 
 
 uvm_object_utils(UVMRelatedLink)
-- 
2.43.0


From ceca52c32595f7e873f3c24028f17061a75767eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:49 +0000
Subject: [PATCH 069/126] fix: objections can be raised and dropped with
 tracing on

---
 src/uvm/base/uvm_objection.py | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/uvm/base/uvm_objection.py b/src/uvm/base/uvm_objection.py
index 7453f5c..3013c20 100644
--- a/src/uvm/base/uvm_objection.py
+++ b/src/uvm/base/uvm_objection.py
@@ -300,33 +300,31 @@ class UVMObjection(UVMReportObject):
             last_dot = 0
             sname = source_obj.get_full_name()
             nm = obj.get_full_name()
-            _max = sname.len()
-            if sname.len() > nm.len():
-                _max = nm.len()
+            _max = min(len(sname), len(nm))
 
             # For readability, only print the part of the source obj hierarchy underneath
             # the current object.
-            while ((sname[cpath] == nm[cpath]) and (cpath < _max)):
+            while cpath < _max and sname[cpath] == nm[cpath]:
                 if (sname[cpath] == "."):
                     last_dot = cpath
                 cpath += 1
 
             if last_dot:
-                sname = sname.substr(last_dot+1, sname.len())
+                sname = sname[last_dot+1:]
 
-        name = obj.get_full_name()
-        if name == "":
-            name = "uvm_top"
-        act_type = "subtracted"
-        if action == "raised":
-            act_type = "added"
-        act_dir = "from"
-        if action == "raised":
-            act_dir = "to"
-        uvm_report_info("OBJTN_TRC",
-            sv.sformatf("Object %0s %0s %0d objection(s) %0s its total (%s from"
-            " source object %s%s): count=%0d  total=%0d", name, act_type, count,
-            act_dir, action, sname, descr, _count, _total), UVM_NONE)
+            name = obj.get_full_name()
+            if name == "":
+                name = "uvm_top"
+            act_type = "subtracted"
+            if action == "raised":
+                act_type = "added"
+            act_dir = "from"
+            if action == "raised":
+                act_dir = "to"
+            uvm_report_info("OBJTN_TRC",
+                sv.sformatf("Object %0s %0s %0d objection(s) %0s its total (%s from"
+                " source object %s%s): count=%0d  total=%0d", name, act_type, count,
+                act_dir, action, sname, descr, _count, _total), UVM_NONE)
 
     #  // Function- m_get_parent
     #  //
-- 
2.43.0


From e8b127d58ec64817b1e974088e595eb494eea118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:50 +0000
Subject: [PATCH 070/126] fix: dropping objections does not create further
 objections

---
 src/uvm/base/uvm_objection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/base/uvm_objection.py b/src/uvm/base/uvm_objection.py
index 3013c20..87f2680 100644
--- a/src/uvm/base/uvm_objection.py
+++ b/src/uvm/base/uvm_objection.py
@@ -1178,7 +1178,7 @@ class UVMObjectionContextObject:
         self.description = ""
         self.count = 0
         #self.objection: Optional[UVMObjection] = None
-        self.objection = UVMObjection()
+        self.objection = None
 
     def clear(self):
         """
@@ -1189,4 +1189,4 @@ class UVMObjectionContextObject:
         self.source_obj = None
         self.description = ""
         self.count = 0
-        self.objection = UVMObjection()
+        self.objection = None
-- 
2.43.0


From 47d3285b1fc2a99615a4535ed88990930e9aadb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:12 +0000
Subject: [PATCH 071/126] fix: objections can be copied

---
 src/uvm/base/uvm_objection.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/uvm/base/uvm_objection.py b/src/uvm/base/uvm_objection.py
index 87f2680..555dc18 100644
--- a/src/uvm/base/uvm_objection.py
+++ b/src/uvm/base/uvm_objection.py
@@ -1156,10 +1156,10 @@ class UVMObjection(UVMReportObject):
 
     def do_copy(self, rhs):
         _rhs = rhs
-        self.m_source_count = _rhs.m_source_count
-        self.m_total_count  = _rhs.m_total_count
-        self.m_drain_time   = _rhs.m_drain_time
-        self.m_prop_mode    = _rhs.self.m_prop_mode
+        self.m_source_count = dict(_rhs.m_source_count)
+        self.m_total_count  = dict(_rhs.m_total_count)
+        self.m_drain_time   = dict(_rhs.m_drain_time)
+        self.m_prop_mode    = _rhs.m_prop_mode
 
 
 # Have a pool of context objects to use
-- 
2.43.0


From cce52b71a42d442449bb01f54365bb1787034c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:41 +0000
Subject: [PATCH 072/126] fix: the table of objections shows each object once,
 in order

---
 src/uvm/base/uvm_objection.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/uvm/base/uvm_objection.py b/src/uvm/base/uvm_objection.py
index 555dc18..b509008 100644
--- a/src/uvm/base/uvm_objection.py
+++ b/src/uvm/base/uvm_objection.py
@@ -1058,7 +1058,7 @@ class UVMObjection(UVMReportObject):
         blank = "                                                                                   "
         s = ""
         total = 0
-        lst = UVMPool()
+        lst = {}
         curr_obj = None
         depth = 0
         name = ""
@@ -1087,7 +1087,9 @@ class UVMObjection(UVMReportObject):
         this_obj_name = obj.get_full_name()
         curr_obj_name = this_obj_name
 
-        while True:
+        for curr_obj_name in sorted(lst):
+            if not curr_obj_name.startswith(this_obj_name):
+                continue
             curr_obj = lst[curr_obj_name]
 
             # determine depth, count dots "." in the name
@@ -1111,11 +1113,6 @@ class UVMObjection(UVMReportObject):
             s += sv.sformatf("%d       %d       %s'%s'\n", src_count, total_count,
                     blank[0:2*depth], name)
 
-            if not ((lst.has_next() and
-                    curr_obj_name[0:len(this_obj_name)] == this_obj_name)):
-                break
-            curr_obj_name = lst.next()
-
         s = s + "---------------------------------------------------------\n"
 
         return s
-- 
2.43.0


From e979d2e4c7344905380a813c0497a4063a87890c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:31 +0000
Subject: [PATCH 073/126] fix: illegal memory accesses are stopped before the
 bus

---
 src/uvm/reg/uvm_mem.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/uvm/reg/uvm_mem.py b/src/uvm/reg/uvm_mem.py
index b790fdb..576084b 100644
--- a/src/uvm/reg/uvm_mem.py
+++ b/src/uvm/reg/uvm_mem.py
@@ -908,7 +908,7 @@ class UVMMem(UVMObject):
                sv.sformatf("Offset 'h%0h exceeds size of memory, 'h%0h",
                  rw.offset, self.m_size))
             rw.status = UVM_NOT_OK
-            return 0
+            return False
 
         if rw.path == UVM_DEFAULT_PATH:
             rw.path = self.m_parent.get_default_path()
@@ -928,9 +928,9 @@ class UVMMem(UVMObject):
             if rw.local_map is None:
                 uvm_error(self.get_type_name(),
                     "No transactor available to physically access memory from map '"
-                    + rw.map.get_full_name() + "'")
+                    + (rw.map.get_full_name() if rw.map is not None else "") + "'")
                 rw.status = UVM_NOT_OK
-                return 0
+                return False
 
             _map_info_data = rw.local_map.get_mem_map_info(self)
             map_info.append(_map_info_data)
@@ -939,10 +939,10 @@ class UVMMem(UVMObject):
 
                 if (_map_info_data.unmapped):
                     uvm_error("RegModel", "Memory '" + self.get_full_name()
-                              + "' unmapped in map '" + rw.map.get_full_name()
+                              + "' unmapped in map '" + rw.local_map.get_full_name()
                               + "' and does not have a user-defined frontdoor")
                     rw.status = UVM_NOT_OK
-                    return 0
+                    return False
 
                 if len(rw.value) > 1:
                     if self.get_n_bits() > rw.local_map.get_n_bytes()*8:
@@ -950,18 +950,19 @@ class UVMMem(UVMObject):
                              sv.sformatf("Cannot burst a %0d-bit memory through a narrower data path (%0d bytes)",
                              self.get_n_bits(), rw.local_map.get_n_bytes()*8))
                         rw.status = UVM_NOT_OK
-                        return 0
+                        return False
 
                     if rw.offset + len(rw.value) > self.m_size:
                         uvm_error("RegModel",
                            sv.sformatf("Burst of size 'd%0d starting at offset 'd%0d exceeds size of memory, 'd%0d",
                                len(rw.value), rw.offset, self.m_size))
-                        return 0
+                        rw.status = UVM_NOT_OK
+                        return False
 
             if rw.map is None:
                 rw.map = rw.local_map
 
-        return 1
+        return True
 
 
     #   extern virtual task do_write (uvm_reg_item rw)
-- 
2.43.0


From 9bfb0c33e8fd684923a37721acbf437cbdb1696d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:31 +0000
Subject: [PATCH 074/126] fix: memories of a single word can be mapped

---
 src/uvm/reg/uvm_reg_map.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/uvm/reg/uvm_reg_map.py b/src/uvm/reg/uvm_reg_map.py
index 71b0a5f..780e4a6 100644
--- a/src/uvm/reg/uvm_reg_map.py
+++ b/src/uvm/reg/uvm_reg_map.py
@@ -189,7 +189,9 @@ class UVMRegMap(UVMObject):
                     max1 = addrs_max[len(addrs_max)-1]
                 max2 = addrs_max[0]
                 # address interval between consecutive mem offsets
-                stride = int((max2 - min2)/(mem.get_size() - 1))
+                stride = max2 - min2
+                if mem.get_size() > 1:
+                    stride = stride // (mem.get_size() - 1)
 
                 for reg_addr in top_map.m_regs_by_offset:
                     if (reg_addr >= min1 and reg_addr <= max1):
-- 
2.43.0


From f9349d968d3db3e092fdaac64b95ad1a162bc435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:31 +0000
Subject: [PATCH 075/126] fix: overlapping memories are reported, not a crash

---
 src/uvm/reg/uvm_reg_map.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/reg/uvm_reg_map.py b/src/uvm/reg/uvm_reg_map.py
index 780e4a6..70021a4 100644
--- a/src/uvm/reg/uvm_reg_map.py
+++ b/src/uvm/reg/uvm_reg_map.py
@@ -152,7 +152,7 @@ class UVMRegMap(UVMObject):
                         if (addr >= rr.min and addr <= rr.max):
                             a = sv.sformatf("%0h",addr)
                             b = sv.sformatf("[%0h:%0h]", rr.min, rr.max)
-                            uvm_warning("RegModel", ("In map '",
+                            uvm_warning("RegModel", ("In map '" +
                                     self.get_full_name() + "' register '" +
                                 rg.get_full_name() + "' with address " + a +
                                 "maps to same address as memory '" +
@@ -206,7 +206,7 @@ class UVMRegMap(UVMObject):
                     if (min1 <= rr.max and max1 >= rr.max or
                             min1 <= rr.min and max1 >= rr.min or
                             min1 >= rr.min and max1 <= rr.max):
-                        a = sv.sformatf("[%0h:%0h]",min,max)
+                        a = sv.sformatf("[%0h:%0h]", min1, max1)
                         uvm_warning("RegModel", ("In map '" + self.get_full_name()
                             + "' memory '" + mem.get_full_name() + "' overlaps with address range of memory '"
                             + top_map.m_mems_by_offset[rr].get_full_name()
-- 
2.43.0


From f2eaffc3eff9ba149578b982ef147d4ec22ecdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:05 +0000
Subject: [PATCH 076/126] fix: a burst read returns the words of the memory

---
 src/uvm/reg/uvm_mem.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/uvm/reg/uvm_mem.py b/src/uvm/reg/uvm_mem.py
index 576084b..764478a 100644
--- a/src/uvm/reg/uvm_mem.py
+++ b/src/uvm/reg/uvm_mem.py
@@ -721,7 +721,7 @@ class UVMMem(UVMObject):
         rw.element_kind = UVM_MEM
         rw.kind         = UVM_BURST_WRITE
         rw.offset       = offset
-        rw.value        = value
+        rw.value        = list(value)
         rw.path         = path
         rw.map          = _map
         rw.parent       = parent
@@ -759,13 +759,13 @@ class UVMMem(UVMObject):
     async def burst_read(self, status, offset,
     value, path=UVM_DEFAULT_PATH, _map=None, parent=None, prior=-1, extension=None, fname="",
             lineno=0):
-        uvm_check_output_args([status, value])
+        uvm_check_output_args([status])
         rw = UVMRegItem.type_id.create("mem_burst_read", None, self.get_full_name())
         rw.element      = self
         rw.element_kind = UVM_MEM
         rw.kind         = UVM_BURST_READ
         rw.offset       = offset
-        rw.value        = value
+        rw.value        = list(value)
         rw.path         = path
         rw.map          = _map
         rw.parent       = parent
@@ -776,8 +776,8 @@ class UVMMem(UVMObject):
 
         await self.do_read(rw)
         status.append(rw.status)
-        for val in rw.value:
-            value.append(val)
+        # As many words as there were elements in value have been read
+        value[:] = rw.value
 
 
     #   // Task: poke
-- 
2.43.0


From 33559496377cdb3a6a74e534b96b87e0d25efd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:05 +0000
Subject: [PATCH 077/126] fix: a failed transfer ends a burst access

---
 src/uvm/reg/uvm_reg_map.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/uvm/reg/uvm_reg_map.py b/src/uvm/reg/uvm_reg_map.py
index 70021a4..c758509 100644
--- a/src/uvm/reg/uvm_reg_map.py
+++ b/src/uvm/reg/uvm_reg_map.py
@@ -1460,6 +1460,9 @@ class UVMRegMap(UVMObject):
                 if rw.status == UVM_NOT_OK:
                     break
 
+            if rw.status == UVM_NOT_OK:
+                break  # A failed transfer ends the whole burst
+
             for i in range(len(addrs)):
                 addrs[i] = addrs[i] + map_info.mem_range.stride
 
@@ -1607,6 +1610,9 @@ class UVMRegMap(UVMObject):
                 if (rw.parent is not None and i == len(addrs)-1):
                     rw.parent.post_do(rw)
 
+            if rw.status == UVM_NOT_OK:
+                break  # A failed transfer ends the whole burst
+
             for i in range(len(addrs)):
                 addrs[i] = addrs[i] + map_info.mem_range.stride
 
-- 
2.43.0


From 7c58cc7baab6b6bc16c90c32fba20c4ecc5143d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:13 +0000
Subject: [PATCH 078/126] fix: the callbacks of a register run when it is
 written

---
 src/uvm/reg/uvm_reg.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index a0f05f1..650a9c6 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -1423,18 +1423,18 @@ class UVMReg(UVMObject):
         lsb = 0
 
         for i in range(len(self.m_fields)):
-            cbs = UVMRegFieldCbIter(self.m_fields[i])
+            field_cbs = UVMRegFieldCbIter(self.m_fields[i])
             f = self.m_fields[i]  # uvm_reg_field
             lsb = f.get_lsb_pos()
             msk = ((1 << f.get_n_bits() )-1) << lsb
             rw.value[0] = (value & msk) >> lsb
             await f.pre_write(rw)  # TODO yield?
-            cb = cbs.first()
+            cb = field_cbs.first()
             while cb is not None:
                 rw.element = f
                 rw.element_kind = UVM_FIELD
                 await cb.pre_write(rw)
-                cb = cbs.next()
+                cb = field_cbs.next()
             value = (value & ~msk) | (rw.value[0] << lsb)
 
         rw.element = self
@@ -1528,16 +1528,16 @@ class UVMReg(UVMObject):
 
         # POST-WRITE CBS - FIELDS
         for i in range(len(self.m_fields)):
-            cbs = UVMRegFieldCbIter(self.m_fields[i])
+            field_cbs = UVMRegFieldCbIter(self.m_fields[i])
             f = self.m_fields[i]  # uvm_reg_field
             rw.element = f
             rw.element_kind = UVM_FIELD
             rw.value[0] = (value >> f.get_lsb_pos()) & ((1 << f.get_n_bits())-1)
 
-            cb = cbs.first()
+            cb = field_cbs.first()
             while cb is not None:
                 cb.post_write(rw)
-                cb = cbs.next()
+                cb = field_cbs.next()
             await f.post_write(rw)
 
         rw.value[0] = value
-- 
2.43.0


From a552b033e886c048a4436220a2943f3850d2b1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:13 +0000
Subject: [PATCH 079/126] fix: register and memory callbacks are awaited

---
 src/uvm/reg/uvm_mem.py     | 2 +-
 src/uvm/reg/uvm_reg.py     | 8 ++++----
 src/uvm/reg/uvm_reg_cbs.py | 4 ++--
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/uvm/reg/uvm_mem.py b/src/uvm/reg/uvm_mem.py
index 764478a..6d1f19e 100644
--- a/src/uvm/reg/uvm_mem.py
+++ b/src/uvm/reg/uvm_mem.py
@@ -1087,7 +1087,7 @@ class UVMMem(UVMObject):
         await self.pre_read(rw)
         cb = cbs.first()
         while cb is not None:
-            cb.pre_read(rw)
+            await cb.pre_read(rw)
             cb = cbs.next()
 
         if rw.status != UVM_IS_OK:
diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index 650a9c6..6860892 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -1536,7 +1536,7 @@ class UVMReg(UVMObject):
 
             cb = field_cbs.first()
             while cb is not None:
-                cb.post_write(rw)
+                await cb.post_write(rw)
                 cb = field_cbs.next()
             await f.post_write(rw)
 
@@ -1621,7 +1621,7 @@ class UVMReg(UVMObject):
         await self.pre_read(rw)
         cb = cbs.first()
         while cb is not None:
-            cb.pre_read(rw)
+            await cb.pre_read(rw)
             cb = cbs.next()
 
         if rw.status != UVM_IS_OK:
@@ -1728,7 +1728,7 @@ class UVMReg(UVMObject):
         # POST-READ CBS - REG
         cb = cbs.first()
         while (cb is not None):
-            cb.post_read(rw)
+            await cb.post_read(rw)
             cb = cbs.next()
         await self.post_read(rw)
 
@@ -1742,7 +1742,7 @@ class UVMReg(UVMObject):
 
             cb = cbs.first()
             while (cb is not None):
-                cb.post_read(rw)
+                await cb.post_read(rw)
                 cb = cbs.next()
             await f.post_read(rw)
 
diff --git a/src/uvm/reg/uvm_reg_cbs.py b/src/uvm/reg/uvm_reg_cbs.py
index ac7f76d..21a534d 100644
--- a/src/uvm/reg/uvm_reg_cbs.py
+++ b/src/uvm/reg/uvm_reg_cbs.py
@@ -193,7 +193,7 @@ class UVMRegCbs(UVMCallback):
         await uvm_zero_delay()
 
 
-    def post_read(self, rw):
+    async def post_read(self, rw):
         """
            Task: post_read
 
@@ -234,7 +234,7 @@ class UVMRegCbs(UVMCallback):
         Args:
             rw:
         """
-        pass
+        await uvm_zero_delay()
 
 
     #   // Task: post_predict
-- 
2.43.0


From 0cf8978f5d4e219be90433df62a1dba757f97293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:37 +0000
Subject: [PATCH 080/126] fix: callbacks of a field can follow and change its
 prediction

---
 src/uvm/reg/uvm_reg_cbs.py   | 36 ++++++++++++++++++++----------------
 src/uvm/reg/uvm_reg_field.py | 12 ++++++++----
 2 files changed, 28 insertions(+), 20 deletions(-)

diff --git a/src/uvm/reg/uvm_reg_cbs.py b/src/uvm/reg/uvm_reg_cbs.py
index 21a534d..496d3dc 100644
--- a/src/uvm/reg/uvm_reg_cbs.py
+++ b/src/uvm/reg/uvm_reg_cbs.py
@@ -237,22 +237,26 @@ class UVMRegCbs(UVMCallback):
         await uvm_zero_delay()
 
 
-    #   // Task: post_predict
-    #   //
-    #   // Called by the <uvm_reg_field::predict()> method
-    #   // after a successful UVM_PREDICT_READ or UVM_PREDICT_WRITE prediction.
-    #   //
-    #   // ~previous~ is the previous value in the mirror and
-    #   // ~value~ is the latest predicted value. Any change to ~value~ will
-    #   // modify the predicted mirror value.
-    #   //
-    #   virtual function void post_predict(input uvm_reg_field  fld,
-    #                                      input uvm_reg_data_t previous,
-    #                                      inout uvm_reg_data_t value,
-    #                                      input uvm_predict_e  kind,
-    #                                      input uvm_path_e     path,
-    #                                      input uvm_reg_map    map)
-    #   endfunction
+    def post_predict(self, fld, previous, value, kind, path, _map):
+        """
+           Task: post_predict
+
+           Called by the <uvm_reg_field::predict()> method
+           after a successful UVM_PREDICT_READ or UVM_PREDICT_WRITE prediction.
+
+           `previous` is the previous value in the mirror and
+           the last element of list `value` is the latest predicted value. Any
+           change to it will modify the predicted mirror value.
+
+        Args:
+            fld (UVMRegField):
+            previous (int):
+            value (List[int]): Inout argument with the predicted value
+            kind:
+            path:
+            _map (UVMRegMap):
+        """
+        pass
 
 
     def encode(self, data):
diff --git a/src/uvm/reg/uvm_reg_field.py b/src/uvm/reg/uvm_reg_field.py
index b9f1a2b..be85567 100644
--- a/src/uvm/reg/uvm_reg_field.py
+++ b/src/uvm/reg/uvm_reg_field.py
@@ -1278,12 +1278,14 @@ class UVMRegField(UVMObject):
                 field_val = self.XpredictX(self.m_mirrored, field_val, rw.map)
             self.m_written = True
 
+            # The last element of inout arg is the value after the callbacks
+            new_val = [field_val]
             cb = cbs.first()
             while cb is not None:
-                cb.post_predict(self, self.m_mirrored, field_val,
+                cb.post_predict(self, self.m_mirrored, new_val,
                         UVM_PREDICT_WRITE, rw.path, rw.map)
                 cb = cbs.next()
-            field_val &= self._get_mask()
+            field_val = new_val[-1] & self._get_mask()
 
         elif kind == UVM_PREDICT_READ:
             cbs = UVMRegFieldCbIter(self)
@@ -1297,12 +1299,14 @@ class UVMRegField(UVMObject):
                     return
             # TODO callbacks
 
+            # The last element of inout arg is the value after the callbacks
+            new_val = [field_val]
             cb = cbs.first()
             while cb is not None:
-                cb.post_predict(self, self.m_mirrored, field_val,
+                cb.post_predict(self, self.m_mirrored, new_val,
                         UVM_PREDICT_READ, rw.path, rw.map)
                 cb = cbs.next()
-            field_val &= self._get_mask()
+            field_val = new_val[-1] & self._get_mask()
 
         elif UVM_PREDICT_DIRECT:
             if self.m_parent.is_busy():
-- 
2.43.0


From a4cbac6c0c59a4e662cd8315ddae27c7df2ff0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:37 +0000
Subject: [PATCH 081/126] fix: values changed by the post_read hooks of a
 register are returned

---
 src/uvm/reg/uvm_reg.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index 6860892..afa8cb4 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -1723,8 +1723,6 @@ class UVMReg(UVMObject):
                 self.do_predict(rw, UVM_PREDICT_READ)
                 rw.status = status
 
-        value = rw.value[0]  # preserve
-
         # POST-READ CBS - REG
         cb = cbs.first()
         while (cb is not None):
@@ -1732,19 +1730,24 @@ class UVMReg(UVMObject):
             cb = cbs.next()
         await self.post_read(rw)
 
+        value = rw.value[0]  # preserve
+
         # POST-READ CBS - FIELDS
         for i in range(len(self.m_fields)):
             cbs = UVMRegFieldCbIter(self.m_fields[i])
             f = self.m_fields[i]  # uvm_reg_field
             rw.element = f
             rw.element_kind = UVM_FIELD
-            rw.value[0] = (value >> f.get_lsb_pos()) & ((1 << f.get_n_bits())-1)
+            lsb = f.get_lsb_pos()
+            msk = ((1 << f.get_n_bits()) - 1) << lsb
+            rw.value[0] = (value & msk) >> lsb
 
             cb = cbs.first()
             while (cb is not None):
                 await cb.post_read(rw)
                 cb = cbs.next()
             await f.post_read(rw)
+            value = (value & ~msk) | ((rw.value[0] << lsb) & msk)
 
         rw.value[0] = value  # restore
         rw.element = self
-- 
2.43.0


From 8fd63d28351af412b60a8842e07035a1dea312e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:38 +0000
Subject: [PATCH 082/126] fix: a loop over a pool visits its keys

---
 src/uvm/base/uvm_pool.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/uvm/base/uvm_pool.py b/src/uvm/base/uvm_pool.py
index 137371f..b6abd6c 100644
--- a/src/uvm/base/uvm_pool.py
+++ b/src/uvm/base/uvm_pool.py
@@ -184,6 +184,13 @@ class UVMPool(UVMObject, Generic[KEY, VAL]):
         """
         return self.num()
 
+    def __iter__(self):
+        """
+        Iterates over keys: for key in pool
+        Returns:
+        """
+        return iter(self.pool)
+
     def __contains__(self, key) -> bool:
         """
         Implements X in Y operator
-- 
2.43.0


From e260d2118584ec8c924300a3678be158940609f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:35 +0000
Subject: [PATCH 083/126] fix: mirroring through a foreign map does not leave
 the register locked

---
 src/uvm/reg/uvm_reg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index afa8cb4..aed1ed1 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -1127,6 +1127,8 @@ class UVMReg(UVMObject):
             _map = self.get_local_map(_map, "read()")
 
         if _map is None:
+            status.append(UVM_NOT_OK)
+            await self.XatomicX(0)
             return
 
         # Remember what we think the value is before it gets updated
-- 
2.43.0


From a46443aaf567e56a7ddd48f72365e32a9c808240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:05 +0000
Subject: [PATCH 084/126] fix: instance overrides by name are applied by the
 factory (and +uvm_set_inst_override works)

---
 src/uvm/base/uvm_factory.py | 110 +++++++++++++++++-------------------
 1 file changed, 53 insertions(+), 57 deletions(-)

diff --git a/src/uvm/base/uvm_factory.py b/src/uvm/base/uvm_factory.py
index 91c943a..5308858 100644
--- a/src/uvm/base/uvm_factory.py
+++ b/src/uvm/base/uvm_factory.py
@@ -409,63 +409,59 @@ class UVMDefaultFactory(UVMFactory):
         self.m_inst_override_queues[original_type].push_back(override)
 
 
-    # set_inst_override_by_name
-    # TODO
-    #function void uvm_default_factory::set_inst_override_by_name (
-    # string original_type_name,
-    #                                                      string override_type_name,
-    #                                                      string full_inst_path)
-    #
-    #  uvm_factory_override override
-    #  uvm_object_wrapper original_type
-    #  uvm_object_wrapper override_type
-    #
-    #  if(self.m_type_names.exists(original_type_name))
-    #    original_type = self.m_type_names[original_type_name]
-    #
-    #  if(self.m_type_names.exists(override_type_name))
-    #    override_type = self.m_type_names[override_type_name]
-    #
-    #  // check that type is registered with the factory
-    #  if (override_type  is None):
-    #    uvm_report_error("TYPNTF", {"Cannot register instance override with type name '",
-    #    original_type_name,"' and instance path '",full_inst_path,"' because the type it's supposed ",
-    #    "to produce, '",override_type_name,"', is not registered with the factory."}, UVM_NONE)
-    #    return
-    #  end
-    #
-    #  if (original_type  is None)
-    #      m_lookup_strs[original_type_name] = 1
-    #
-    #  override = new(.full_inst_path(full_inst_path),
-    #                 .orig_type(original_type),
-    #                 .orig_type_name(original_type_name),
-    #                 .ovrd_type(override_type))
-    #
-    #  if(original_type != null):
-    #    if (check_inst_override_exists(original_type,override_type,full_inst_path))
-    #      return
-    #    if(!m_inst_override_queues.exists(original_type))
-    #      m_inst_override_queues[original_type] = new
-    #    m_inst_override_queues[original_type].queue.push_back(override)
-    #  end
-    #  else:
-    #    if(m_has_wildcard(original_type_name)):
-    #       foreach(self.m_type_names[i]):
-    #         if(uvm_is_match(original_type_name,i)):
-    #           this.set_inst_override_by_name(i, override_type_name, full_inst_path)
-    #         end
-    #       end
-    #       m_wildcard_inst_overrides.push_back(override)
-    #    end
-    #    else:
-    #      if(!self.m_inst_override_name_queues.exists(original_type_name))
-    #        self.m_inst_override_name_queues[original_type_name] = new
-    #      self.m_inst_override_name_queues[original_type_name].queue.push_back(override)
-    #    end
-    #  end
-    #
-    #endfunction
+    def set_inst_override_by_name(self, original_type_name, override_type_name,
+            full_inst_path):
+        """
+        Configures the factory to create an object of the override's type
+        whenever a request is made to create an object of the original type
+        using a context that matches `full_inst_path`.
+
+        Args:
+            original_type_name (str): Type name, may contain wildcards
+            override_type_name (str): Name of a registered type
+            full_inst_path (str): Path of the instances, may contain wildcards
+        """
+        original_type = None
+        override_type = None
+
+        if self.m_type_names.exists(original_type_name):
+            original_type = self.m_type_names.get(original_type_name)
+
+        if self.m_type_names.exists(override_type_name):
+            override_type = self.m_type_names.get(override_type_name)
+
+        # check that type is registered with the factory
+        if override_type is None:
+            uvm_report_error("TYPNTF", ("Cannot register instance override with type name '"
+                + original_type_name + "' and instance path '" + full_inst_path
+                + "' because the type it's supposed to produce, '" + override_type_name
+                + "', is not registered with the factory."), UVM_NONE)
+            return
+
+        if original_type is None:
+            self.m_lookup_strs.add(original_type_name, 1)
+
+        override = UVMFactoryOverride(full_inst_path=full_inst_path,
+                orig_type=original_type,
+                orig_type_name=original_type_name,
+                ovrd_type=override_type)
+
+        if original_type is not None:
+            if self.check_inst_override_exists(original_type, override_type, full_inst_path):
+                return
+            if original_type not in self.m_inst_override_queues:
+                self.m_inst_override_queues[original_type] = UVMQueue()
+            self.m_inst_override_queues[original_type].push_back(override)
+        elif m_has_wildcard(original_type_name):
+            for type_name in self.m_type_names.keys():
+                if uvm_is_match(original_type_name, type_name):
+                    self.set_inst_override_by_name(type_name, override_type_name,
+                        full_inst_path)
+            self.m_wildcard_inst_overrides.push_back(override)
+        else:
+            if original_type_name not in self.m_inst_override_name_queues:
+                self.m_inst_override_name_queues[original_type_name] = UVMQueue()
+            self.m_inst_override_name_queues[original_type_name].push_back(override)
 
     def create_object_by_name(self, requested_type_name, parent_inst_path="",
               name=""):
-- 
2.43.0


From b0667d6d1ba104145560a7abc58899c44fcd50aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:07 +0000
Subject: [PATCH 085/126] fix: printing the factory lists the instance
 overrides of all types

---
 src/uvm/base/uvm_factory.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/uvm/base/uvm_factory.py b/src/uvm/base/uvm_factory.py
index 5308858..1f1f9f8 100644
--- a/src/uvm/base/uvm_factory.py
+++ b/src/uvm/base/uvm_factory.py
@@ -732,8 +732,7 @@ class UVMDefaultFactory(UVMFactory):
 
         # sort the override queues
         for key in self.m_inst_override_queues:
-            obj = self.m_inst_override_queues[key]
-            tmp = obj.get_type_name()
+            tmp = key.get_type_name()
             if tmp == "":
                 tmp = "__unnamed_id_" + str(id)
                 id += 1
-- 
2.43.0


From 239edcbf6a261fffe9e755a9304379c4c9b932fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:37 +0000
Subject: [PATCH 086/126] fix: a type override by name does not change what the
 overridden type name stands for

---
 src/uvm/base/uvm_factory.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/uvm/base/uvm_factory.py b/src/uvm/base/uvm_factory.py
index 1f1f9f8..c544c49 100644
--- a/src/uvm/base/uvm_factory.py
+++ b/src/uvm/base/uvm_factory.py
@@ -333,7 +333,6 @@ class UVMDefaultFactory(UVMFactory):
                            ovrd_type=override_type)
 
             self.m_type_overrides.append(override)
-            self.m_type_names.add(original_type_name, override.ovrd_type)
 
     def check_inst_override_exists(self, original_type, override_type,
             full_inst_path):
-- 
2.43.0


From 8eecb56875bddbf357b48b7271abe6cd21646910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:48 +0000
Subject: [PATCH 087/126] fix: debugging creation by name accepts an override
 of a type by itself

---
 src/uvm/base/uvm_factory.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/uvm/base/uvm_factory.py b/src/uvm/base/uvm_factory.py
index c544c49..03de83f 100644
--- a/src/uvm/base/uvm_factory.py
+++ b/src/uvm/base/uvm_factory.py
@@ -640,6 +640,8 @@ class UVMDefaultFactory(UVMFactory):
 
         if UVMDefaultFactory.m_debug_pass and override is not None:
             lindex.used += 1
+            if override.get_type_name() == requested_type_name:
+                return override
             return self.find_override_by_type(override, full_inst_path)
 
         # No override found
-- 
2.43.0


From 372d3fca759e477ed835f1a2b03ab1b40ea4eb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:11 +0000
Subject: [PATCH 088/126] fix: a loop of overrides is reported without running
 off the list of overrides

---
 src/uvm/base/uvm_factory.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/uvm/base/uvm_factory.py b/src/uvm/base/uvm_factory.py
index 03de83f..4f409b2 100644
--- a/src/uvm/base/uvm_factory.py
+++ b/src/uvm/base/uvm_factory.py
@@ -663,12 +663,14 @@ class UVMDefaultFactory(UVMFactory):
             qc = self.m_inst_override_queues[requested_type]
 
         for index in range(0, len(self.m_override_info)):
-            if self.m_override_info[index].orig_type == requested_type:
+            info = self.m_override_info[index]
+            if info.orig_type == requested_type:
                 uvm_report_error("OVRDLOOP", "Recursive loop detected while finding override.", UVM_NONE)
-                if UVMDefaultFactory.m_debug_pass is False:
+                if not UVMDefaultFactory.m_debug_pass:
+                    # This rebuilds m_override_info
                     self.debug_create_by_type(requested_type, full_inst_path)
 
-                self.m_override_info[index].used += 1
+                info.used += 1
                 return requested_type
 
         # inst override; return first match; takes precedence over type overrides
-- 
2.43.0


From bcfcd97967c9a78c71ab4a637e19cedfbcbbe056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:40 +0000
Subject: [PATCH 089/126] fix: the reset test reads the registers of all
 blocks, once per map

---
 src/uvm/reg/sequences/uvm_reg_hw_reset_seq.py | 22 ++++++++-----------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/uvm/reg/sequences/uvm_reg_hw_reset_seq.py b/src/uvm/reg/sequences/uvm_reg_hw_reset_seq.py
index 35e237c..60ff4b3 100644
--- a/src/uvm/reg/sequences/uvm_reg_hw_reset_seq.py
+++ b/src/uvm/reg/sequences/uvm_reg_hw_reset_seq.py
@@ -29,7 +29,8 @@ from ...base.uvm_resource_db import UVMResourceDb
 from ...base.sv import sv
 from ...base import UVM_LOW, UVM_HIGH
 from ...base.uvm_globals import uvm_zero_delay
-from ..uvm_reg_model import UVM_CHECK, UVM_FRONTDOOR, UVM_IS_OK, uvm_status_e
+from ..uvm_reg_model import (UVM_CHECK, UVM_FRONTDOOR, UVM_IS_OK, UVM_NO_HIER,
+    uvm_status_e)
 
 
 class UVMRegHWResetSeq(UVMRegSequence):
@@ -97,7 +98,6 @@ class UVMRegHWResetSeq(UVMRegSequence):
     
     async def do_block(self, blk):
         maps = []  # uvm_reg_map maps[$]
-        sub_maps = []  # uvm_reg_map sub_maps[$]
         no_rr1 = UVMResourceDb.get_by_name("REG::" + blk.get_full_name(), "NO_REG_TESTS", 0)
         no_rr2 = UVMResourceDb.get_by_name("REG::" + blk.get_full_name(), "NO_REG_HW_RESET_TEST", 0)
 
@@ -108,17 +108,13 @@ class UVMRegHWResetSeq(UVMRegSequence):
 
         # Iterate over all maps defined for the RegModel block
         for d in range(len(maps)):
-            regs = []  # uvm_reg[]
-            maps[d].get_submaps(sub_maps)
-            if len(sub_maps) != 0:
-                continue
-
             # Iterate over all registers in the map, checking accesses
             # Note: if map were in inner loop, could test simulataneous
             # access to same reg via different bus interfaces
 
-            regs = []
-            maps[d].get_registers(regs)
+            regs = []  # uvm_reg[]
+            # The registers of submaps are tested with their own block
+            maps[d].get_registers(regs, UVM_NO_HIER)
 
             for i in range(len(regs)):
                 status = 0
@@ -143,10 +139,10 @@ class UVMRegHWResetSeq(UVMRegSequence):
                           sv.sformatf("Status was %s when reading reset value of register \"%s\" through map \"%s\".",
                           uvm_status_e(status), regs[i].get_full_name(), maps[d].get_full_name()))
 
-            blks = []  # uvm_reg_block blks[$]
-            blk.get_blocks(blks)
-            for i in range(len(blks)):
-                await self.do_block(blks[i])
+        blks = []  # uvm_reg_block blks[$]
+        blk.get_blocks(blks)
+        for i in range(len(blks)):
+            await self.do_block(blks[i])
 
         #   endtask:do_block
 
-- 
2.43.0


From d58bee4b44ea3b91be0a7a3634e4eca51fc682c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:41 +0000
Subject: [PATCH 090/126] fix: the built-in memory and access tests report a
 failed access instead of failing

---
 src/uvm/reg/sequences/uvm_mem_access_seq.py | 10 +++++-----
 src/uvm/reg/sequences/uvm_mem_walk_seq.py   |  2 +-
 src/uvm/reg/sequences/uvm_reg_access_seq.py |  8 ++++----
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/uvm/reg/sequences/uvm_mem_access_seq.py b/src/uvm/reg/sequences/uvm_mem_access_seq.py
index 4dbaa0c..714f23c 100644
--- a/src/uvm/reg/sequences/uvm_mem_access_seq.py
+++ b/src/uvm/reg/sequences/uvm_mem_access_seq.py
@@ -125,7 +125,7 @@ class UVMMemSingleAccessSeq(UVMRegSequence):  # (uvm_sequence #(uvm_reg_item))
                     if status != UVM_IS_OK:
                        uvm_error("UVMMemAccessSeq", sv.sformatf(
                            "Status was %s when reading \"%s[%0d]\" through backdoor.",
-                           status.name(), mem.get_full_name(), k))
+                           UVM_STATUS_NAMES[status], mem.get_full_name(), k))
                 else:
                     exp = val
 
@@ -135,7 +135,7 @@ class UVMMemSingleAccessSeq(UVMRegSequence):  # (uvm_sequence #(uvm_reg_item))
                 if status != UVM_IS_OK:
                     uvm_error("UVMMemAccessSeq", sv.sformatf(
                         "Status was %s when writing '%s[%0d]' through map '%s'.",
-                        status.name(), mem.get_full_name(), k, maps[j].get_full_name()))
+                        UVM_STATUS_NAMES[status], mem.get_full_name(), k, maps[j].get_full_name()))
                 await Timer(1, "NS")
 
                 val = []
@@ -146,7 +146,7 @@ class UVMMemSingleAccessSeq(UVMRegSequence):  # (uvm_sequence #(uvm_reg_item))
                 if status != UVM_IS_OK:
                     uvm_error("UVMMemAccessSeq", sv.sformatf(
                         "Status was %s when reading '%s[%0d]' through backdoor.",
-                        str(status), mem.get_full_name(), k))
+                        UVM_STATUS_NAMES[status], mem.get_full_name(), k))
 
                 else:
                     val = val[0]
@@ -163,7 +163,7 @@ class UVMMemSingleAccessSeq(UVMRegSequence):  # (uvm_sequence #(uvm_reg_item))
                 if status != UVM_IS_OK:
                     uvm_error("UVMMemAccessSeq", sv.sformatf(
                         "Status was %s when writing '%s[%0d-1]' through backdoor.",
-                        str(status), mem.get_full_name(), k))
+                        UVM_STATUS_NAMES[status], mem.get_full_name(), k))
 
                 status = []
                 val = []
@@ -173,7 +173,7 @@ class UVMMemSingleAccessSeq(UVMRegSequence):  # (uvm_sequence #(uvm_reg_item))
                 if status != UVM_IS_OK:
                     uvm_error("UVMMemAccessSeq", sv.sformatf(
                         "Status was %s when reading \"%s[%0d]\" through map \"%s\".",
-                        status.name(), mem.get_full_name(), k, maps[j].get_full_name()))
+                        UVM_STATUS_NAMES[status], mem.get_full_name(), k, maps[j].get_full_name()))
                 else:
                     if mode == "WO":
                         if val != 0:
diff --git a/src/uvm/reg/sequences/uvm_mem_walk_seq.py b/src/uvm/reg/sequences/uvm_mem_walk_seq.py
index a4d6bc3..8b11521 100644
--- a/src/uvm/reg/sequences/uvm_mem_walk_seq.py
+++ b/src/uvm/reg/sequences/uvm_mem_walk_seq.py
@@ -140,7 +140,7 @@ class UVMMemSingleWalkSeq(UVMRegSequence):  # (uvm_sequence #(uvm_reg_item))
                 if status != UVM_IS_OK:
                     uvm_error("UVMMemWalkSeq", sv.sformatf(
                         "Status was %s when writing \"%s[%0d]\" through map \"%s\".",
-                        status.name(), mem.get_full_name(), k, maps[j].get_full_name()))
+                        UVM_STATUS_NAMES[status], mem.get_full_name(), k, maps[j].get_full_name()))
 
                 if k > 0:
                     status = []
diff --git a/src/uvm/reg/sequences/uvm_reg_access_seq.py b/src/uvm/reg/sequences/uvm_reg_access_seq.py
index e85aa77..21b94e0 100644
--- a/src/uvm/reg/sequences/uvm_reg_access_seq.py
+++ b/src/uvm/reg/sequences/uvm_reg_access_seq.py
@@ -139,7 +139,7 @@ class UVMRegSingleAccessSeq(UVMRegSequence):
             status = status[0]
 
             if status != UVM_IS_OK:
-                uvm_error("UVMRegAccessSeq", ("Status was '" + status.name()
+                uvm_error("UVMRegAccessSeq", ("Status was '" + UVM_STATUS_NAMES[status]
                    + "' when writing '" + rg.get_full_name()
                    + "' through map '" + maps[j].get_full_name() + "'"))
             await Timer(1, "NS")  # tpoikela: Original UVM has #1
@@ -148,7 +148,7 @@ class UVMRegSingleAccessSeq(UVMRegSequence):
             await rg.mirror(status, UVM_CHECK, UVM_BACKDOOR, UVMRegMap.backdoor(), self)
             status = status[0]
             if status != UVM_IS_OK:
-                uvm_error("UVMRegAccessSeq", ("Status was '" + status.name()
+                uvm_error("UVMRegAccessSeq", ("Status was '" + UVM_STATUS_NAMES[status]
                                     + "' when reading reset value of register '"
                                     + rg.get_full_name() +  "' through backdoor"))
 
@@ -156,7 +156,7 @@ class UVMRegSingleAccessSeq(UVMRegSequence):
             await rg.write(status, v, UVM_BACKDOOR, maps[j], self)
             status = status[0]
             if status != UVM_IS_OK:
-                uvm_error("UVMRegAccessSeq", ("Status was '" + status.name()
+                uvm_error("UVMRegAccessSeq", ("Status was '" + UVM_STATUS_NAMES[status]
                    + "' when writing '" + rg.get_full_name()
                    + "' through backdoor"))
 
@@ -164,7 +164,7 @@ class UVMRegSingleAccessSeq(UVMRegSequence):
             await rg.mirror(status, UVM_CHECK, UVM_FRONTDOOR, maps[j], self)
             status = status[0]
             if status != UVM_IS_OK:
-                uvm_error("UVMRegAccessSeq", ("Status was '" + status.name()
+                uvm_error("UVMRegAccessSeq", ("Status was '" + UVM_STATUS_NAMES[status]
                    + "' when reading reset value of register '"
                    + rg.get_full_name() + "' through map '"
                    + maps[j].get_full_name() + "'"))
-- 
2.43.0


From 170dd9795da8b59a0f642c7263d361dbddb87ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:41 +0000
Subject: [PATCH 091/126] fix: NO_MEM_WALK_TEST, not NO_MEM_ACCESS_TEST,
 excludes a block from the memory walk

---
 src/uvm/reg/sequences/uvm_mem_walk_seq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/reg/sequences/uvm_mem_walk_seq.py b/src/uvm/reg/sequences/uvm_mem_walk_seq.py
index 8b11521..68c11f2 100644
--- a/src/uvm/reg/sequences/uvm_mem_walk_seq.py
+++ b/src/uvm/reg/sequences/uvm_mem_walk_seq.py
@@ -258,7 +258,7 @@ class UVMMemWalkSeq(UVMRegSequence):  # (uvm_sequence #(uvm_reg_item))
             UVMResourceDb.get_by_name("REG::" + blk.get_full_name(),
                 "NO_MEM_TESTS", 0) is not None or
             UVMResourceDb.get_by_name("REG::" + blk.get_full_name(),
-                "NO_MEM_ACCESS_TEST", 0) is not None):
+                "NO_MEM_WALK_TEST", 0) is not None):
             return
 
         # Iterate over all memories, checking accesses
-- 
2.43.0


From 886791347c0a2922be040c6da90abc29035edf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:53 +0000
Subject: [PATCH 092/126] fix: a default sequence set for a phase of a
 sequencer is started

---
 src/uvm/seq/uvm_sequencer_base.py | 51 +++++++++++--------------------
 1 file changed, 18 insertions(+), 33 deletions(-)

diff --git a/src/uvm/seq/uvm_sequencer_base.py b/src/uvm/seq/uvm_sequencer_base.py
index efebc00..affd445 100644
--- a/src/uvm/seq/uvm_sequencer_base.py
+++ b/src/uvm/seq/uvm_sequencer_base.py
@@ -24,14 +24,13 @@
 import cocotb
 from cocotb.triggers import Event
 
-from .uvm_sequence import UVMSequence
 from .uvm_sequence_base import UVMSequenceBase
 
 from ..base.sv import sv, process
 from ..base.uvm_component import UVMComponent
 # from ..base.uvm_event import UVMEvent
 from ..base.uvm_resource import UVMResourcePool, UVMResource
-from ..base.uvm_config_db import UVMConfigDb
+from ..base.uvm_factory import UVMObjectWrapper
 from ..macros.uvm_message_defines import (
     uvm_error, uvm_fatal, uvm_info, uvm_report_fatal, uvm_warning)
 from ..base.uvm_object_globals import (UVM_FINISHED, UVM_FULL, UVM_NONE,
@@ -284,42 +283,28 @@ class UVMSequencerBase(UVMComponent):
         for i in range(len(rq)):
             if seq is not None:
                 break
-            rsrc = rq[i]  # uvm_resource_base
-            sbr = []  # type: List[UVMResource]
-            owr = []  # type: List[UVMResource]
-
-            # uvm_config_db#(uvm_sequence_base)?
-            # Priority is given to uvm_sequence_base because it is a specific sequence instance
-            # and thus more specific than one that is dynamically created via the
-            # factory and the object wrapper.
-            if (sv.cast(sbr, rsrc, UVMConfigDb) and sbr[0] is not None):
-                seq = sbr[0].read(self)
-                if seq is None:
-                    uvm_info("UVM/SQR/PH/DEF/SB/None", "Default phase sequence for phase '"
-                            + phase.get_name() + "' explicitly disabled", UVM_FULL)
-                    await uvm_zero_delay()
-                    return
+            value = rq[i].read(self)
 
-            # uvm_config_db#(uvm_object_wrapper)?
-            elif (sv.cast(owr, rsrc, UVMConfigDb) and owr is not None):
-                wrapper = None  # uvm_object_wrapper
-                wrapper = owr[0].read(self)
-                if wrapper is None:
-                    uvm_info("UVM/SQR/PH/DEF/OW/None", "Default phase sequence for phase '"
-                            + phase.get_name() + "' explicitly disabled", UVM_FULL)
-                    await uvm_zero_delay()
-                    return
+            if value is None:
+                uvm_info("UVM/SQR/PH/DEF/SB/None", "Default phase sequence for phase '"
+                        + phase.get_name() + "' explicitly disabled", UVM_FULL)
+                await uvm_zero_delay()
+                return
+
+            # A sequence instance?
+            if isinstance(value, UVMSequenceBase):
+                seq = value
 
-                new_obj = f.create_object_by_type(wrapper, self.get_full_name(),
-                        wrapper.get_type_name())
-                seq_arr = []
-                if not(sv.cast(seq_arr, new_obj, UVMSequence) or seq_arr[0] is None):
+            # A sequence type (object wrapper)?
+            elif isinstance(value, UVMObjectWrapper):
+                new_obj = f.create_object_by_type(value, self.get_full_name(),
+                        value.get_type_name())
+                if not isinstance(new_obj, UVMSequenceBase):
                     uvm_warning("PHASESEQ", "Default sequence for phase '" +
-                            phase.get_name() + "' %s is not a sequence type")
+                            phase.get_name() + "' is not a sequence type")
                     await uvm_zero_delay()
                     return
-                else:
-                    seq = seq_arr[0]
+                seq = new_obj
 
         if seq is None:
             uvm_info("PHASESEQ", "No default phase sequence for phase '"
-- 
2.43.0


From 5eed8150fe6637844c50d7fd0e8dd8e8a49b252c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:53 +0000
Subject: [PATCH 093/126] fix: killing a sequence stops it with its children
 and frees its sequencer

---
 src/uvm/seq/uvm_sequence_base.py  | 66 +++++++++++++++----------------
 src/uvm/seq/uvm_sequencer_base.py |  2 +-
 2 files changed, 32 insertions(+), 36 deletions(-)

diff --git a/src/uvm/seq/uvm_sequence_base.py b/src/uvm/seq/uvm_sequence_base.py
index 0adf005..1b4325d 100644
--- a/src/uvm/seq/uvm_sequence_base.py
+++ b/src/uvm/seq/uvm_sequence_base.py
@@ -167,6 +167,7 @@ class UVMSequenceBase(UVMSequenceItem):
         """
         UVMSequenceItem.__init__(self, name)
         self.m_sequence_state = UVM_CREATED
+        self.m_auto_objection_raised = False
         self.m_wait_for_grant_semaphore = 0
         self.m_init_phase_daps(1)
         self.m_next_transaction_id = 1
@@ -380,6 +381,7 @@ class UVMSequenceBase(UVMSequenceItem):
         # Raise the objection if enabled
         # (This will lock the uvm_get_to_lock_dap)
         if self.get_automatic_phase_objection():
+            self.m_auto_objection_raised = True
             self.m_safe_raise_starting_phase("automatic phase objection")
 
         await self.pre_start()
@@ -419,6 +421,7 @@ class UVMSequenceBase(UVMSequenceItem):
 
         # Drop the objection if enabled
         if self.get_automatic_phase_objection():
+            self.m_auto_objection_raised = False
             self.m_safe_drop_starting_phase("automatic phase objection")
 
         self.m_sequence_state = UVM_FINISHED
@@ -898,28 +901,22 @@ class UVMSequenceBase(UVMSequenceItem):
     #  // with the other sequencer(s) using the sequencer unregister_sequence()
     #  // method.
     #
-    #  function void kill()
-    #    if (m_sequence_process is not None) begin
-    #      // If we are not connected to a sequencer, then issue
-    #      // kill locally.
-    #      if (self.m_sequencer == None) begin
-    #        m_kill()
-    #        // We need to drop the objection if we raised it...
-    #        if (get_automatic_phase_objection()) begin
-    #           m_safe_drop_starting_phase("automatic phase objection")
-    #        end
-    #        return
-    #      end
-    #      // If we are attached to a sequencer, then the sequencer
-    #      // will clear out queues, and then kill this sequence
-    #      self.m_sequencer.kill_sequence(this)
-    #      // We need to drop the objection if we raised it...
-    #      if (get_automatic_phase_objection()) begin
-    #         m_safe_drop_starting_phase("automatic phase objection")
-    #      end
-    #      return
-    #    end
-    #  endfunction
+    def kill(self):
+        # Nothing to do unless the sequence is running
+        if self.m_sequence_state in [UVM_CREATED, UVM_STOPPED, UVM_FINISHED]:
+            return
+        raised = self.m_auto_objection_raised
+        if self.m_sequencer is None:
+            # If we are not connected to a sequencer, then issue kill locally
+            self.m_kill()
+        else:
+            # If we are attached to a sequencer, then the sequencer
+            # will clear out queues, and then kill this sequence
+            self.m_sequencer.kill_sequence(self)
+        # We need to drop the objection if we raised it...
+        if raised:
+            self.m_auto_objection_raised = False
+            self.m_safe_drop_starting_phase("automatic phase objection")
 
 
     def do_kill(self):
@@ -933,19 +930,18 @@ class UVMSequenceBase(UVMSequenceItem):
         return
 
 
-    #  function void m_kill()
-    #    do_kill()
-    #    foreach(children_array[i]) begin
-    #       i.kill()
-    #    end
-    #    if (m_sequence_process is not None) begin
-    #      m_sequence_process.kill
-    #      m_sequence_process = None
-    #    end
-    #    m_sequence_state = UVM_STOPPED
-    #    if ((self.m_parent_sequence is not None) && (self.m_parent_sequence.children_array.exists(this)))
-    #      self.m_parent_sequence.children_array.delete(this)
-    #  endfunction
+    def m_kill(self):
+        self.do_kill()
+        for child in list(self.children_array):
+            child.kill()
+        self.m_sequence_state = UVM_STOPPED
+        if self.m_sequence_process is not None:
+            process = self.m_sequence_process
+            self.m_sequence_process = None
+            process.kill()
+        if (self.m_parent_sequence is not None and
+                self in self.m_parent_sequence.children_array):
+            del self.m_parent_sequence.children_array[self]
 
 
     """
diff --git a/src/uvm/seq/uvm_sequencer_base.py b/src/uvm/seq/uvm_sequencer_base.py
index affd445..2c2bac5 100644
--- a/src/uvm/seq/uvm_sequencer_base.py
+++ b/src/uvm/seq/uvm_sequencer_base.py
@@ -1048,7 +1048,7 @@ class UVMSequencerBase(UVMComponent):
         # when deleting all sequences
         if sequence_id == -1:
             if self.reg_sequences.has_first():
-                return self.reg_sequences.first()
+                return self.reg_sequences[self.reg_sequences.first()]
             return None
 
         if not self.reg_sequences.exists(sequence_id):
-- 
2.43.0


From d639bb24a9a0bdc640a6e0668c3a7789a070d7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:01 +0000
Subject: [PATCH 094/126] fix: the command line processor returns whole
 plusargs and only UVM arguments

---
 src/uvm/base/uvm_cmdline_processor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/base/uvm_cmdline_processor.py b/src/uvm/base/uvm_cmdline_processor.py
index b4b064d..d9eccf0 100644
--- a/src/uvm/base/uvm_cmdline_processor.py
+++ b/src/uvm/base/uvm_cmdline_processor.py
@@ -526,11 +526,11 @@ class UVMCmdlineProcessor(UVMReportObject):
                 continue
             self.m_argv.append(arg)
             if arg[0] == "+":
-                self.m_plus_argv.append(arg[0])
+                self.m_plus_argv.append(arg)
                 uvm_debug(self, '__init__', "Simple UVM plusarg %s" % (arg))
             sub = arg[1:4]
             sub = sub.upper()
-            if sub == "UVM":
+            if arg[0] in "+-" and sub == "UVM":
                 self.m_uvm_argv.append(arg)
                 uvm_debug(self, '__init__', "Found UVM plusarg %s" % (arg))
 
-- 
2.43.0


From d94cf3ce52358c9a3c4816a175f90948a72f61f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:28 +0000
Subject: [PATCH 095/126] fix: a malformed verbosity setting of the command
 line does not disturb the others

---
 src/uvm/base/uvm_component.py | 8 ++------
 src/uvm/base/uvm_root.py      | 2 ++
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/uvm/base/uvm_component.py b/src/uvm/base/uvm_component.py
index 72b98a0..b6df24d 100644
--- a/src/uvm/base/uvm_component.py
+++ b/src/uvm/base/uvm_component.py
@@ -2368,18 +2368,14 @@ class UVMComponent(UVMReportObject):
             uvm_split_string(values[i], ",", args)
 
             # Warning is already issued in uvm_root, so just don't keep it
-            len_match = len(args) not in [4, 5]
-            setting.verbosity = clp.m_convert_verb(args[2])
-            if UVMComponent.first_m_set_cl_verb and (len_match or setting.verbosity == -1):
-                del values[i]
-            else:
+            if len(args) in [4, 5] and clp.m_convert_verb(args[2]) != -1:
                 setting.comp = args[0]
                 setting.id = args[1]
                 setting.verbosity = clp.m_convert_verb(args[2])
                 setting.phase = args[3]
                 setting.offset = 0
                 if len(args) == 5:
-                    setting.offset = int(args[4])
+                    setting.offset = int(args[4]) if args[4].isdigit() else 0
                 if ((setting.phase == "time") and (self == top)):
                     UVMComponent.m_time_settings.append(setting)
 
diff --git a/src/uvm/base/uvm_root.py b/src/uvm/base/uvm_root.py
index 5bbd5dc..15122a3 100644
--- a/src/uvm/base/uvm_root.py
+++ b/src/uvm/base/uvm_root.py
@@ -538,10 +538,12 @@ class UVMRoot(UVMComponent):
         self.clp.get_arg_values("+uvm_set_verbosity=", set_verbosity_settings)
 
         for i in range(len(set_verbosity_settings)):
+            split_vals = []
             uvm_split_string(set_verbosity_settings[i], ",", split_vals)
             if len(split_vals) < 4 or len(split_vals) > 5:
                 self.uvm_report_warning("INVLCMDARGS",
                   sv.sformatf(MSG_INVLCMDARGS, set_verbosity_settings[i]), UVM_NONE, "", "")
+                continue
 
             # Invalid verbosity
             if self.clp.m_convert_verb(split_vals[2]) == -1:
-- 
2.43.0


From 5bee778367f2f304d72967d0612100ac1c7a5f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:28 +0000
Subject: [PATCH 096/126] fix: verbosity settings of the command line for a
 phase take effect in that phase

---
 src/uvm/base/uvm_component.py | 41 +++++++++++++++--------------------
 1 file changed, 18 insertions(+), 23 deletions(-)

diff --git a/src/uvm/base/uvm_component.py b/src/uvm/base/uvm_component.py
index b6df24d..b51b1ef 100644
--- a/src/uvm/base/uvm_component.py
+++ b/src/uvm/base/uvm_component.py
@@ -2571,29 +2571,24 @@ class UVMComponent(UVMReportObject):
         Args:
             phase:
         """
-        pass
-        for i in self.m_verbosity_settings:
-            if phase.get_name() == self.m_verbosity_settings[i].phase:
-                if self.m_verbosity_settings[i].offset == 0:
-                    if self.m_verbosity_settings[i].id == "_ALL_":
-                        self.set_report_verbosity_level(self.m_verbosity_settings[i].verbosity)
-                    else:
-                        self.set_report_id_verbosity(self.m_verbosity_settings[i].id,
-                                self.m_verbosity_settings[i].verbosity)
-                else:
-                    #process p = process::self()
-                    #string p_rand = p.get_randstate()
-                    #fork begin
-                    setting = self.m_verbosity_settings[i]
-                    #setting.offset
-                    if setting.id == "_ALL_":
-                        self.set_report_verbosity_level(setting.verbosity)
-                    else:
-                        self.set_report_id_verbosity(setting.id, setting.verbosity)
-                    #end join_none
-                    #p.set_randstate(p_rand)
-                # Remove after use
-                del self.m_verbosity_settings[i]
+        settings = [s for s in self.m_verbosity_settings if s.phase == phase.get_name()]
+        for setting in settings:
+            # Remove after use
+            self.m_verbosity_settings.remove(setting)
+            if setting.offset == 0:
+                self.m_set_verbosity(setting)
+            else:
+                cocotb.start_soon(self.m_set_verbosity_later(setting))
+
+    def m_set_verbosity(self, setting):
+        if setting.id == "_ALL_":
+            self.set_report_verbosity_level(setting.verbosity)
+        else:
+            self.set_report_id_verbosity(setting.id, setting.verbosity)
+
+    async def m_set_verbosity_later(self, setting):
+        await Timer(setting.offset)
+        self.m_set_verbosity(setting)
 
     def kill(self):
         """
-- 
2.43.0


From 9a51a17503bc9e9abe62ec05df543f1cba4ba593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:28 +0000
Subject: [PATCH 097/126] fix: timed verbosity settings of the command line
 take effect at their own times

---
 src/uvm/base/uvm_component.py | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/src/uvm/base/uvm_component.py b/src/uvm/base/uvm_component.py
index b51b1ef..36d95bb 100644
--- a/src/uvm/base/uvm_component.py
+++ b/src/uvm/base/uvm_component.py
@@ -2402,24 +2402,16 @@ class UVMComponent(UVMReportObject):
         last_time = 0
         if len(m_time_settings) > 0:
             m_time_settings.sort(key=lambda item: item.offset)
-        for i in range(len(m_time_settings)):
+        for setting in m_time_settings:
+            duration = setting.offset - last_time
+            last_time = setting.offset
+            if duration > 0:
+                await Timer(duration)
             comps = []
-            top.find_all(m_time_settings[i].comp, comps)
-            duration = m_time_settings[i].offset - last_time
-            last_time = m_time_settings[i].offset
-            cocotb.start_soon(self.m_set_comp_settings(i, comps.copy(), duration))
-        #end join_none // fork begin
-
-
-    async def m_set_comp_settings(self, i, comps, dur):
-        m_time_settings = UVMComponent.m_time_settings
-        await Timer(dur)
-        if m_time_settings[i].id == "_ALL_":
+            top.find_all(setting.comp, comps)
             for comp in comps:
-                comp.set_report_verbosity_level(m_time_settings[i].verbosity)
-        else:
-            for comp in comps:
-                comp.set_report_id_verbosity(m_time_settings[i].id, m_time_settings[i].verbosity)
+                comp.m_set_verbosity(setting)
+        #end join_none // fork begin
 
 
     initialized_m_set_cl_action = 0
-- 
2.43.0


From 367b3efc7ec2a93dd91435a76b5bcc02b56adb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:02 +0000
Subject: [PATCH 098/126] fix: action and severity settings of the command line
 are checked before they are used

---
 src/uvm/base/uvm_component.py |  7 ++++---
 src/uvm/base/uvm_globals.py   | 27 +++++++++------------------
 2 files changed, 13 insertions(+), 21 deletions(-)

diff --git a/src/uvm/base/uvm_component.py b/src/uvm/base/uvm_component.py
index 36d95bb..432c1ba 100644
--- a/src/uvm/base/uvm_component.py
+++ b/src/uvm/base/uvm_component.py
@@ -2435,12 +2435,13 @@ class UVMComponent(UVMReportObject):
 
                 if len(args) != 4:
                     uvm_warning("INVLCMDARGS", sv.sformatf(INV_WARN1, len(args), values[idx]))
+                    continue
 
-                if((args[2] != "_ALL_") and not uvm_string_to_severity(args[2], sev)):
+                if((args[2] != "_ALL_") and uvm_string_to_severity(args[2], sev) == -1):
                     uvm_warning("INVLCMDARGS", sv.sformatf(INV_WARN2, args[2], values[idx]))
                     continue
 
-                if not uvm_string_to_action(args[3], action):
+                if uvm_string_to_action(args[3], action) == -1:
                     uvm_warning("INVLCMDARGS", sv.sformatf(INV_WARN3, args[3], values[idx]))
                     continue
                 t.args = args
@@ -2496,7 +2497,7 @@ class UVMComponent(UVMReportObject):
                     uvm_warning("INVLCMDARGS", sv.sformatf(INV_WARN4, len(args), values[idx]))
                     continue
 
-                if args[2] != "_ALL_" and not uvm_string_to_severity(args[2], orig_sev):
+                if args[2] != "_ALL_" and uvm_string_to_severity(args[2], orig_sev) == -1:
                     uvm_warning("INVLCMDARGS", sv.sformatf(INV_WARN5, args[2], values[idx]))
                     continue
 
diff --git a/src/uvm/base/uvm_globals.py b/src/uvm/base/uvm_globals.py
index f3dd82f..be0b82c 100644
--- a/src/uvm/base/uvm_globals.py
+++ b/src/uvm/base/uvm_globals.py
@@ -211,25 +211,16 @@ def uvm_string_to_severity(sev_str, sev):
 
 
 def uvm_string_to_action(action_str, action):
-    actions = action_str.split('|')  # uvm_split_string(action_str,"|",actions)
+    """ Returns the action of the given name(s), or -1 if a name is not known """
+    names = {"UVM_NO_ACTION": UVM_NO_ACTION, "UVM_DISPLAY": UVM_DISPLAY,
+        "UVM_LOG": UVM_LOG, "UVM_COUNT": UVM_COUNT, "UVM_EXIT": UVM_EXIT,
+        "UVM_CALL_HOOK": UVM_CALL_HOOK, "UVM_STOP": UVM_STOP,
+        "UVM_RM_RECORD": UVM_RM_RECORD}
     action = 0x0
-    for i in range(len(actions)):
-        if actions[i] == "UVM_NO_ACTION":
-            action |= UVM_NO_ACTION
-        if actions[i] == "UVM_DISPLAY":
-            action |= UVM_DISPLAY
-        if actions[i] == "UVM_LOG":
-            action |= UVM_LOG
-        if actions[i] == "UVM_COUNT":
-            action |= UVM_COUNT
-        if actions[i] == "UVM_EXIT":
-            action |= UVM_EXIT
-        if actions[i] == "UVM_CALL_HOOK":
-            action |= UVM_CALL_HOOK
-        if actions[i] == "UVM_STOP":
-            action |= UVM_STOP
-        if actions[i] == "UVM_RM_RECORD":
-            action |= UVM_RM_RECORD
+    for name in action_str.split('|'):
+        if name not in names:
+            return -1
+        action |= names[name]
     return action
 
 """
-- 
2.43.0


From c22604b41428544d49ce878c2e46c9de367f864f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:02 +0000
Subject: [PATCH 099/126] fix: +UVM_TIMEOUT sets the timeout it gives

---
 src/uvm/base/uvm_root.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/uvm/base/uvm_root.py b/src/uvm/base/uvm_root.py
index 15122a3..9fda47b 100644
--- a/src/uvm/base/uvm_root.py
+++ b/src/uvm/base/uvm_root.py
@@ -581,9 +581,10 @@ class UVMRoot(UVMComponent):
                 sv.sformatf("'+UVM_TIMEOUT=%s' provided on the command line is being applied.",
                     timeout), UVM_NONE)
 
-            matches = sv.sscanf(timeout,"%d,%s", timeout_int, override_spec)
-            if len(matches) == 2:
-                override_spec, timeout_int = matches
+            split_timeout = uvm_split_string(timeout, ",", [])
+            timeout_int = int(split_timeout[0])
+            if len(split_timeout) > 1:
+                override_spec = split_timeout[1]
             if override_spec == "YES":
                 self.set_timeout(timeout_int, 1)
             elif override_spec == "NO":
-- 
2.43.0


From 2fff05ddedb303c7a43a758a09d249c2cbcc0003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:02 +0000
Subject: [PATCH 100/126] fix: +uvm_set_type_override sets the type override

---
 src/uvm/base/uvm_root.py | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_root.py b/src/uvm/base/uvm_root.py
index 9fda47b..815c09e 100644
--- a/src/uvm/base/uvm_root.py
+++ b/src/uvm/base/uvm_root.py
@@ -641,7 +641,31 @@ class UVMRoot(UVMComponent):
         Args:
             ovr:
         """
-        pass  # TODO
+        split_val = []
+        replace = True
+        cs = UVMCoreService.get()
+        factory = cs.get_factory()
+
+        uvm_split_string(ovr, ",", split_val)
+
+        if len(split_val) not in (2, 3):
+            self.uvm_report_error("UVM_CMDLINE_PROC", "Invalid setting for +uvm_set_type_override="
+                + ovr
+                + ", setting must specify <requested_type>,<override_type>[,<replace>]", UVM_NONE)
+            return
+
+        # Replace arg is optional. If set, must be 0 or 1
+        if len(split_val) == 3:
+            if split_val[2] not in ("0", "1"):
+                self.uvm_report_error("UVM_CMDLINE_PROC", ("Invalid replace arg for "
+                    + "+uvm_set_type_override=" + ovr + " value must be 0 or 1"), UVM_NONE)
+                return
+            replace = split_val[2] == "1"
+
+        uvm_info("UVM_CMDLINE_PROC",
+            "Applying type override from the command line: +uvm_set_type_override=" + str(ovr),
+            UVM_NONE)
+        factory.set_type_override_by_name(split_val[0], split_val[1], replace)
 
 
     def m_do_config_settings(self):
-- 
2.43.0


From c31c0c5960518d04a77eb73c623ea3ced2996660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:38 +0000
Subject: [PATCH 101/126] fix: +uvm_set_default_sequence sets the default
 sequence

---
 src/uvm/base/uvm_root.py | 89 ++++++++++++++++++----------------------
 1 file changed, 41 insertions(+), 48 deletions(-)

diff --git a/src/uvm/base/uvm_root.py b/src/uvm/base/uvm_root.py
index 815c09e..c321f02 100644
--- a/src/uvm/base/uvm_root.py
+++ b/src/uvm/base/uvm_root.py
@@ -684,10 +684,9 @@ class UVMRoot(UVMComponent):
         for i in range(len(args)):
             self.m_process_config(args[i][23:len(args[i])], 0)
 
-        # TODO might not be needed, ever
-        #self.clp.get_arg_matches("/^\\+(UVM_SET_DEFAULT_SEQUENCE|uvm_set_default_sequence)=/", args)
-        #for i in range(len(args)):
-        #    self.m_process_default_sequence(args[i][26:len(args[i])])
+        self.clp.get_arg_matches("/^\\+(UVM_SET_DEFAULT_SEQUENCE|uvm_set_default_sequence)=/", args)
+        for i in range(len(args)):
+            self.m_process_default_sequence(args[i][26:len(args[i])])
 
 
     def m_do_max_quit_settings(self):
@@ -802,7 +801,44 @@ class UVMRoot(UVMComponent):
             UVMConfigDb.set(m_uvm_top, split_val[0], split_val[1], split_val[2])
 
 
-    #  extern local function void m_process_default_sequence(string cfg)
+    def m_process_default_sequence(self, cfg):
+        """
+        extern local function void m_process_default_sequence(string cfg)
+        Args:
+            cfg:
+        """
+        from .uvm_coreservice import UVMCoreService
+        split_val = []
+        cs = UVMCoreService.get()
+        f = cs.get_factory()
+
+        uvm_split_string(cfg, ",", split_val)
+        if len(split_val) == 1:
+            self.uvm_report_error("UVM_CMDLINE_PROC", ("Invalid +uvm_set_default_sequence command\""
+                + cfg + "\" missing phase and type: sequencer is \"" + split_val[0] + "\""), UVM_NONE)
+            return
+
+        if len(split_val) == 2:
+            self.uvm_report_error("UVM_CMDLINE_PROC", ("Invalid +uvm_set_default_sequence command\""
+                + cfg + "\" missing type: sequencer is \"" + split_val[0] + "\"  phase is \""
+                + split_val[1] + "\""), UVM_NONE)
+            return
+
+        if len(split_val) > 3:
+            self.uvm_report_error("UVM_CMDLINE_PROC", sv.sformatf(
+                "Invalid +uvm_set_default_sequence command\"%s\" : "
+                + "expected only 3 fields (sequencer, phase and type).", cfg), UVM_NONE)
+            return
+
+        w = f.find_wrapper_by_name(split_val[2])
+        if w is None:
+            self.uvm_report_error("UVM_CMDLINE_PROC",
+                sv.sformatf("Invalid type '%s' provided to +uvm_set_default_sequence", split_val[2]),
+                UVM_NONE)
+            return
+        self.uvm_report_info("UVM_CMDLINE_PROC", ("Setting default sequence "
+            + "from the command line: +uvm_set_default_sequence=" + cfg), UVM_NONE)
+        UVMConfigDb.set(self, split_val[0] + "." + split_val[1], "default_sequence", w)
 
     def m_check_verbosity(self):
         """
@@ -1010,46 +1046,3 @@ uvm_top: UVMRoot = UVMRoot.get()
 #  factory.set_type_override_by_name(split_val[0], split_val[1], replace)
 #endfunction
 
-#// m_process_default_sequence
-#// ----------------
-#
-#function void uvm_root::m_process_default_sequence(string cfg)
-#  string split_val[$]
-#  uvm_coreservice_t cs = uvm_coreservice_t::get()
-#  uvm_root m_uvm_top = cs.get_root();
-#  uvm_factory f = cs.get_factory()
-#  uvm_object_wrapper w
-#
-#  uvm_split_string(cfg, ",", split_val)
-#  if(split_val.size() == 1):
-#    uvm_report_error("UVM_CMDLINE_PROC", {"Invalid +uvm_set_default_sequence command\"", cfg,
-#      "\" missing phase and type: sequencer is \"", split_val[0], "\""}, UVM_NONE)
-#    return
-#  end
-#
-#  if(split_val.size() == 2):
-#    uvm_report_error("UVM_CMDLINE_PROC", {"Invalid +uvm_set_default_sequence command\"", cfg,
-#      "\" missing type: sequencer is \"", split_val[0], "\"  phase is \"", split_val[1], "\""}, UVM_NONE)
-#    return
-#  end
-#
-#  if(split_val.size() > 3):
-#    uvm_report_error("UVM_CMDLINE_PROC",
-#      $sformatf("Invalid +uvm_set_default_sequence command\"%s\" : expected only 3 fields (sequencer, phase and type).", cfg), UVM_NONE)
-#    return
-#  end
-#
-#  w = f.find_wrapper_by_name(split_val[2])
-#  if (w == None):
-#      uvm_report_error("UVM_CMDLINE_PROC",
-#                       $sformatf("Invalid type '%s' provided to +uvm_set_default_sequence", split_val[2]),
-#                       UVM_NONE)
-#      return
-#  end
-#  else begin
-#      self.uvm_report_info("UVM_CMDLINE_PROC", {"Setting default sequence from the command line: +uvm_set_default_sequence=", cfg}, UVM_NONE)
-#      uvm_config_db#(uvm_object_wrapper)::set(this, {split_val[0], ".", split_val[1]}, "default_sequence", w)
-#  end
-#
-#endfunction : m_process_default_sequence
-
-- 
2.43.0


From a9a3dbec1818bc94437d393e10ae76829cbc048d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:56 +0000
Subject: [PATCH 102/126] fix: a malformed number of a command line setting is
 reported and skipped

---
 src/uvm/base/uvm_root.py | 55 ++++++++++++++++++++++++++--------------
 1 file changed, 36 insertions(+), 19 deletions(-)

diff --git a/src/uvm/base/uvm_root.py b/src/uvm/base/uvm_root.py
index c321f02..36db187 100644
--- a/src/uvm/base/uvm_root.py
+++ b/src/uvm/base/uvm_root.py
@@ -582,7 +582,12 @@ class UVMRoot(UVMComponent):
                     timeout), UVM_NONE)
 
             split_timeout = uvm_split_string(timeout, ",", [])
-            timeout_int = int(split_timeout[0])
+            try:
+                timeout_int = int(split_timeout[0])
+            except (ValueError, IndexError):
+                self.uvm_report_warning("INVLCMDARGS",
+                    sv.sformatf("Invalid timeout on the command line: '+UVM_TIMEOUT=%s'", timeout), UVM_NONE)
+                return
             if len(split_timeout) > 1:
                 override_spec = split_timeout[1]
             if override_spec == "YES":
@@ -717,7 +722,13 @@ class UVMRoot(UVMComponent):
                 sv.sformatf("'+UVM_MAX_QUIT_COUNT=%s' provided on the command line is being applied.",
                     max_quit), UVM_NONE)
             uvm_split_string(max_quit, ",", split_max_quit)
-            max_quit_int = int(split_max_quit[0])
+            try:
+                max_quit_int = int(split_max_quit[0])
+            except (ValueError, IndexError):
+                self.uvm_report_warning("INVLCMDARGS",
+                    sv.sformatf("Invalid count on the command line: '+UVM_MAX_QUIT_COUNT=%s'", max_quit),
+                    UVM_NONE)
+                return
             if len(split_max_quit) > 1:
                 if split_max_quit[1] == "YES":
                     srvr.set_max_quit_count(max_quit_int, 1)
@@ -775,22 +786,27 @@ class UVMRoot(UVMComponent):
             return
 
         if is_int:
-            if len(split_val[2]) > 2:
-                #base = split_val[2].substr(0,1)
-                base = split_val[2][0:2]
-                extval = split_val[2][2:len(split_val[2])]
-                if base in ["'b", "0b"]:
-                    v = int(extval, 2)
-                elif base == "'o":
-                    v = int(extval, 8)
-                elif base == "'d":
-                    v = int(extval, 10)
-                elif base in ["'h", "'x", "0x"]:
-                    v = int(extval, 16)
+            try:
+                if len(split_val[2]) > 2:
+                    #base = split_val[2].substr(0,1)
+                    base = split_val[2][0:2]
+                    extval = split_val[2][2:len(split_val[2])]
+                    if base in ["'b", "0b"]:
+                        v = int(extval, 2)
+                    elif base == "'o":
+                        v = int(extval, 8)
+                    elif base == "'d":
+                        v = int(extval, 10)
+                    elif base in ["'h", "'x", "0x"]:
+                        v = int(extval, 16)
+                    else:
+                        v = int(split_val[2])
                 else:
                     v = int(split_val[2])
-            else:
-                v = int(split_val[2])
+            except ValueError:
+                uvm_report_error("UVM_CMDLINE_PROC", "Invalid +uvm_set_config_int command\""
+                    + cfg + "\": value \"" + split_val[2] + "\" is not an integer", UVM_NONE)
+                return
 
             self.uvm_report_info("UVM_CMDLINE_PROC", ("Applying config setting "
                     + "from the command line: +uvm_set_config_int=" + cfg), UVM_NONE)
@@ -852,8 +868,6 @@ class UVMRoot(UVMComponent):
 
         # Retrieve the verbosities provided on the command line.
         verb_count = self.clp.get_arg_values("+UVM_VERBOSITY=", verb_settings)
-        if verb_count:
-            verb_settings.append(verb_string)
 
         # If none provided, provide message about the default being used.
         if verb_count == 0:
@@ -903,7 +917,10 @@ class UVMRoot(UVMComponent):
             elif verb_string == "DEBUG":
                 verbosity = UVM_DEBUG
             else:
-                verbosity = int(verb_string)
+                try:
+                    verbosity = int(verb_string)
+                except ValueError:
+                    verbosity = 0
                 if verbosity > 0:
                     self.uvm_report_info("NSTVERB",
                             sv.sformatf(NON_STD_VERB, verbosity), UVM_NONE)
-- 
2.43.0


From 72827a836f1e2412d496ac2ca0625653afc79de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:11 +0000
Subject: [PATCH 103/126] fix: a regular expression finds command line
 arguments it matches anywhere

---
 src/uvm/base/uvm_cmdline_processor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_cmdline_processor.py b/src/uvm/base/uvm_cmdline_processor.py
index d9eccf0..ef49c17 100644
--- a/src/uvm/base/uvm_cmdline_processor.py
+++ b/src/uvm/base/uvm_cmdline_processor.py
@@ -255,7 +255,7 @@ def uvm_dpi_regcomp(match):
 
 
 def uvm_dpi_regexec(exp_h, elem):
-    if exp_h.match(elem) is not None:
+    if exp_h.search(elem) is not None:
         return 0
     return 1
 
-- 
2.43.0


From 6165257e03a90db4f6c7975a30180b5136eb3d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:45 +0000
Subject: [PATCH 104/126] fix: +uvm_set_type_override finds the factory

---
 src/uvm/base/uvm_root.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/uvm/base/uvm_root.py b/src/uvm/base/uvm_root.py
index 36db187..52087f0 100644
--- a/src/uvm/base/uvm_root.py
+++ b/src/uvm/base/uvm_root.py
@@ -646,6 +646,7 @@ class UVMRoot(UVMComponent):
         Args:
             ovr:
         """
+        from .uvm_coreservice import UVMCoreService
         split_val = []
         replace = True
         cs = UVMCoreService.get()
-- 
2.43.0


From 9d6eb133c04a7be81c68f315913c2cd0870fe45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:26 +0000
Subject: [PATCH 105/126] fix: a maximum quit count of the command line can be
 made final

---
 src/uvm/base/uvm_report_server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_report_server.py b/src/uvm/base/uvm_report_server.py
index 0846107..224ed1c 100644
--- a/src/uvm/base/uvm_report_server.py
+++ b/src/uvm/base/uvm_report_server.py
@@ -191,7 +191,7 @@ class UVMReportServer(UVMObject):
     # before a UVM_EXIT action is taken. The default is 0, which specifies
     # no maximum.
     def set_max_quit_count(self, count, overridable=True):
-        if self.max_quit_overridable is False:
+        if not self.max_quit_overridable:
             uvm_report_info("NOMAXQUITOVR",
                 "The max quit count setting of {} is not overridable to {} due to a previous setting."
                 .format(self.m_max_quit_count, count), UVM_NONE)
-- 
2.43.0


From d31e77e792cf0dc0fa53e6b0fc99f58bd1be43f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:11 +0000
Subject: [PATCH 106/126] fix: a search leaves a traversal of the children in
 place

find_all used the iterator of get_first_child/get_next_child, so that a
search in the middle of a loop over the children ended that loop.
---
 src/uvm/base/uvm_root.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/uvm/base/uvm_root.py b/src/uvm/base/uvm_root.py
index 52087f0..c62e6db 100644
--- a/src/uvm/base/uvm_root.py
+++ b/src/uvm/base/uvm_root.py
@@ -475,16 +475,10 @@ class UVMRoot(UVMComponent):
             comps:
             comp:
         """
-        child_comp = None
-
-        if comp.has_first_child():
-            child_comp = comp.get_first_child()
-            while True:
-                self.m_find_all_recurse(comp_match, comps, child_comp)
-                if not comp.has_next_child():
-                    break
-                else:
-                    child_comp = comp.get_next_child()
+        children = []
+        comp.get_children(children)
+        for child_comp in children:
+            self.m_find_all_recurse(comp_match, comps, child_comp)
         if uvm_is_match(comp_match, comp.get_full_name()) and comp.get_name() != "":
             comps.append(comp)
 
-- 
2.43.0


From ef0acaceb61a333fc597c14ed1ba36d79a82f3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:11 +0000
Subject: [PATCH 107/126] fix: a search that finds nothing warns instead of
 raising

---
 src/uvm/base/uvm_root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/base/uvm_root.py b/src/uvm/base/uvm_root.py
index c62e6db..8d97a02 100644
--- a/src/uvm/base/uvm_root.py
+++ b/src/uvm/base/uvm_root.py
@@ -415,7 +415,7 @@ class UVMRoot(UVMComponent):
 
         if len(comp_list) == 0:
             uvm_report_warning("CMPNFD",
-              "Component matching '", comp_match,
+              "Component matching '" + comp_match +
                "' was not found in the list of uvm_components", UVM_NONE)
             return None
 
-- 
2.43.0


From da410d545eebe0fabb0bae61aea5912d9f104ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:18 +0000
Subject: [PATCH 108/126] fix: printing leaves a traversal of the children in
 place

---
 src/uvm/base/uvm_printer.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/uvm/base/uvm_printer.py b/src/uvm/base/uvm_printer.py
index bc3d587..a907b38 100644
--- a/src/uvm/base/uvm_printer.py
+++ b/src/uvm/base/uvm_printer.py
@@ -245,15 +245,11 @@ class UVMPrinter():
                 comp = value
                 name = ""
                 if hasattr(comp, "has_first_child"):
-                    if comp.has_first_child():
-                        child_comp = comp.get_first_child()
-                        ok = True
-                        while ok is True:
-                            if child_comp.print_enabled:
-                                self.print_object("", child_comp)
-                            ok = comp.has_next_child()
-                            if ok is True:
-                                child_comp = comp.get_next_child()
+                    children = []
+                    comp.get_children(children)
+                    for child_comp in children:
+                        if child_comp.print_enabled:
+                            self.print_object("", child_comp)
 
                 # print members of object
                 value.sprint(self)
-- 
2.43.0


From 0e1fb9d3a9641d5a455957e8d9cd6f21bb9d4b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:34 +0000
Subject: [PATCH 109/126] fix: an object with a random sub-object given as an
 object can be randomized

---
 src/uvm/base/sv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/base/sv.py b/src/uvm/base/sv.py
index cdc6ae7..ecc8c17 100644
--- a/src/uvm/base/sv.py
+++ b/src/uvm/base/sv.py
@@ -471,7 +471,7 @@ class sv_obj(crv.Randomized):
             if recurse:
                 for entry in self._sv_rand_obj:
                     obj = entry
-                    if hasattr(self, entry):
+                    if isinstance(entry, str):
                         obj = getattr(self, entry)
                     ok = ok and obj.randomize()
             super().randomize()
@@ -506,7 +506,7 @@ class sv_obj(crv.Randomized):
             ok = True
             for entry in self._sv_rand_obj:
                 obj = entry
-                if hasattr(self, entry):
+                if isinstance(entry, str):
                     obj = getattr(self, entry)
                 ok = ok and obj.randomize()
             super().randomize_with(*constr)
-- 
2.43.0


From 2d77dbe4a948b21a43fab1115440b83517316314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:34 +0000
Subject: [PATCH 110/126] fix: each object draws its random values from its own
 state only

randomize_with() drew from whatever state the last user had left, and an
object with random sub-objects went on with the state of the last of them.
---
 src/uvm/base/sv.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/uvm/base/sv.py b/src/uvm/base/sv.py
index ecc8c17..cdb2b6c 100644
--- a/src/uvm/base/sv.py
+++ b/src/uvm/base/sv.py
@@ -467,6 +467,7 @@ class sv_obj(crv.Randomized):
         try:
             random.setstate(self._sv_rand_state)
             self.pre_randomize()
+            state = random.getstate()
             ok = True
             if recurse:
                 for entry in self._sv_rand_obj:
@@ -474,6 +475,8 @@ class sv_obj(crv.Randomized):
                     if isinstance(entry, str):
                         obj = getattr(self, entry)
                     ok = ok and obj.randomize()
+            # the sub-objects have drawn from their own states
+            random.setstate(state)
             super().randomize()
             self.post_randomize()
             self._sv_rand_state = random.getstate()
@@ -502,15 +505,19 @@ class sv_obj(crv.Randomized):
         if self._rand_mode is False:
             return True
         try:
+            random.setstate(self._sv_rand_state)
             self.pre_randomize()
+            state = random.getstate()
             ok = True
             for entry in self._sv_rand_obj:
                 obj = entry
                 if isinstance(entry, str):
                     obj = getattr(self, entry)
                 ok = ok and obj.randomize()
+            random.setstate(state)
             super().randomize_with(*constr)
             self.post_randomize()
+            self._sv_rand_state = random.getstate()
             return True and ok
         except Exception as e:
             raise RandomizeError(
-- 
2.43.0


From bc536b77a5f9d282435a265c3b07082da90246da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:34 +0000
Subject: [PATCH 111/126] fix: pre_randomize and post_randomize are called once
 per randomization

---
 src/uvm/base/sv.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/uvm/base/sv.py b/src/uvm/base/sv.py
index cdb2b6c..c893f12 100644
--- a/src/uvm/base/sv.py
+++ b/src/uvm/base/sv.py
@@ -454,6 +454,21 @@ class sv_obj(crv.Randomized):
         """
         pass
 
+    def _solve(self, solver, *constr):
+        """
+        Draws the values of the object's own variables. The callbacks are left
+        out, as they are called around the randomization of the sub-objects.
+        """
+        names = ("pre_randomize", "post_randomize")
+        own = {n: self.__dict__[n] for n in names if n in self.__dict__}
+        self.pre_randomize = self.post_randomize = lambda: None
+        try:
+            solver(*constr)
+        finally:
+            for n in names:
+                del self.__dict__[n]
+            self.__dict__.update(own)
+
     def randomize(self, recurse=True):
         """
         Randomizes properties in object marked with rand(). Recurses to sub-objects
@@ -477,7 +492,7 @@ class sv_obj(crv.Randomized):
                     ok = ok and obj.randomize()
             # the sub-objects have drawn from their own states
             random.setstate(state)
-            super().randomize()
+            self._solve(super().randomize)
             self.post_randomize()
             self._sv_rand_state = random.getstate()
             return True and ok
@@ -515,7 +530,7 @@ class sv_obj(crv.Randomized):
                     obj = getattr(self, entry)
                 ok = ok and obj.randomize()
             random.setstate(state)
-            super().randomize_with(*constr)
+            self._solve(super().randomize_with, *constr)
             self.post_randomize()
             self._sv_rand_state = random.getstate()
             return True and ok
-- 
2.43.0


From 1dd85098ed7a014a3d325fbfe68db33802ec5714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:07 +0000
Subject: [PATCH 112/126] fix: wait for the user-defined backdoor of a register

---
 src/uvm/reg/uvm_reg.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index aed1ed1..06c9222 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -1463,7 +1463,7 @@ class UVMReg(UVMObject):
             # Mimick the final value after a physical read
             rw.kind = UVM_READ
             if bkdr is not None:
-                bkdr.read(rw)
+                await bkdr.read(rw)
             else:
                 self.backdoor_read(rw)
 
@@ -1483,7 +1483,7 @@ class UVMReg(UVMObject):
             rw.value[0] = final_val
 
             if bkdr is not None:
-                bkdr.write(rw)
+                await bkdr.write(rw)
             else:
                 self.backdoor_write(rw)
 
@@ -1640,7 +1640,7 @@ class UVMReg(UVMObject):
                 exp = self.get_mirrored_value()
 
             if (bkdr is not None):
-                bkdr.read(rw)
+                await bkdr.read(rw)
             else:
                 self.backdoor_read(rw)
             value = rw.value[0]
@@ -1676,7 +1676,7 @@ class UVMReg(UVMObject):
                     saved = rw.value[0]
                     rw.value[0] = value
                     if bkdr is not None:
-                        bkdr.write(rw)
+                        await bkdr.write(rw)
                     else:
                         self.backdoor_write(rw)
                     rw.value[0] = saved
-- 
2.43.0


From 195dd8bbbd53354f5dd27defb5f67ffedacf17e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:07 +0000
Subject: [PATCH 113/126] fix: read the slices of an HDL path

---
 src/uvm/reg/uvm_mem.py | 5 +++--
 src/uvm/reg/uvm_reg.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/uvm/reg/uvm_mem.py b/src/uvm/reg/uvm_mem.py
index 6d1f19e..15fedfc 100644
--- a/src/uvm/reg/uvm_mem.py
+++ b/src/uvm/reg/uvm_mem.py
@@ -1487,9 +1487,10 @@ class UVMMem(UVMObject):
                         val = arr[0]
                         continue
 
-                    _slice = 0
                     k = hdl_concat.slices[j].offset
-                    ok &= uvm_hdl.uvm_hdl_read(hdl_path, _slice)
+                    arr = []
+                    ok &= uvm_hdl.uvm_hdl_read(hdl_path, arr)
+                    _slice = arr[0]
 
                     # TODO Loops all bits one by one
                     for n in range(hdl_concat.slices[j].size):
diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index 06c9222..319bf3f 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -2149,10 +2149,11 @@ class UVMReg(UVMObject):
                     val = arr[0]
                     continue
 
-                _slice = 0
                 k = hdl_concat.slices[j].offset
 
-                ok &= uvm_hdl.uvm_hdl_read(hdl_concat.slices[j].path, _slice)
+                arr = []
+                ok &= uvm_hdl.uvm_hdl_read(hdl_concat.slices[j].path, arr)
+                _slice = arr[0]
 
                 for _ in range(hdl_concat.slices[j].size):
                     bit_val = _slice & 0x1
-- 
2.43.0


From c6288c699b0955f2574950495307bce0ffe34470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:07 +0000
Subject: [PATCH 114/126] fix: memory peek and poke wait for the user-defined
 backdoor

---
 src/uvm/reg/sequences/uvm_mem_access_seq.py |  8 ++++----
 src/uvm/reg/uvm_mem.py                      | 10 +++++-----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/uvm/reg/sequences/uvm_mem_access_seq.py b/src/uvm/reg/sequences/uvm_mem_access_seq.py
index 714f23c..d4c256f 100644
--- a/src/uvm/reg/sequences/uvm_mem_access_seq.py
+++ b/src/uvm/reg/sequences/uvm_mem_access_seq.py
@@ -120,8 +120,10 @@ class UVMMemSingleAccessSeq(UVMRegSequence):  # (uvm_sequence #(uvm_reg_item))
                     val = (val << 32) | sv.random()
                 if mode == "RO":
                     status = []
+                    exp = []
                     await mem.peek(status, k, exp)
                     status = status[0]
+                    exp = exp[0] if exp else 0
                     if status != UVM_IS_OK:
                        uvm_error("UVMMemAccessSeq", sv.sformatf(
                            "Status was %s when reading \"%s[%0d]\" through backdoor.",
@@ -140,8 +142,7 @@ class UVMMemSingleAccessSeq(UVMRegSequence):  # (uvm_sequence #(uvm_reg_item))
 
                 val = []
                 status = []
-                #yield mem.peek(status, k, val)
-                mem.peek(status, k, val)
+                await mem.peek(status, k, val)
                 status = status[0]
                 if status != UVM_IS_OK:
                     uvm_error("UVMMemAccessSeq", sv.sformatf(
@@ -157,8 +158,7 @@ class UVMMemSingleAccessSeq(UVMRegSequence):  # (uvm_sequence #(uvm_reg_item))
 
                 exp = ~exp & ((1 << n_bits)-1)
                 status = []
-                #yield mem.poke(status, k, exp)
-                mem.poke(status, k, exp)
+                await mem.poke(status, k, exp)
                 status = status[0]
                 if status != UVM_IS_OK:
                     uvm_error("UVMMemAccessSeq", sv.sformatf(
diff --git a/src/uvm/reg/uvm_mem.py b/src/uvm/reg/uvm_mem.py
index 15fedfc..972cbdd 100644
--- a/src/uvm/reg/uvm_mem.py
+++ b/src/uvm/reg/uvm_mem.py
@@ -798,7 +798,7 @@ class UVMMem(UVMObject):
     #                            input  uvm_object         extension = None,
     #                            input  string             fname = "",
     #                            input  int                lineno = 0)
-    def poke(self, status,
+    async def poke(self, status,
             offset, value, kind="", parent=None, extension=None, fname="", lineno=0):
         uvm_check_output_args([status])
         bkdr = self.get_backdoor()  # uvm_reg_backdoor
@@ -818,7 +818,7 @@ class UVMMem(UVMObject):
         rw.element      = self
         rw.path         = UVM_BACKDOOR
         rw.element_kind = UVM_MEM
-        rw.kind         = UVM_READ
+        rw.kind         = UVM_WRITE
         rw.offset       = offset
         rw.value[0]     = value & ((1 << self.m_n_bits)-1)
         rw.bd_kind      = kind
@@ -828,7 +828,7 @@ class UVMMem(UVMObject):
         rw.lineno       = lineno
 
         if bkdr is not None:
-            bkdr.write(rw)
+            await bkdr.write(rw)
         else:
             self.backdoor_write(rw)
 
@@ -857,7 +857,7 @@ class UVMMem(UVMObject):
     #                            input  uvm_object         extension = None,
     #                            input  string             fname = "",
     #                            input  int                lineno = 0)
-    def peek(self, status, offset, value, kind="", parent=None, extension=None, fname="",
+    async def peek(self, status, offset, value, kind="", parent=None, extension=None, fname="",
             lineno=0):
         uvm_check_output_args([status, value])
         bkdr = self.get_backdoor()  # uvm_reg_backdoor
@@ -886,7 +886,7 @@ class UVMMem(UVMObject):
         rw.lineno       = lineno
 
         if bkdr is not None:
-            bkdr.read(rw)
+            await bkdr.read(rw)
         else:
             self.backdoor_read(rw)
 
-- 
2.43.0


From 53f94a26c3020f1450cbf4b8cbf46f587cf763aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:19 +0000
Subject: [PATCH 115/126] fix: callbacks of a user-defined backdoor run to
 completion

---
 src/uvm/reg/uvm_reg_backdoor.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/uvm/reg/uvm_reg_backdoor.py b/src/uvm/reg/uvm_reg_backdoor.py
index 0b1545e..1921eed 100644
--- a/src/uvm/reg/uvm_reg_backdoor.py
+++ b/src/uvm/reg/uvm_reg_backdoor.py
@@ -25,7 +25,7 @@
 import cocotb
 from uvm.base.uvm_object import UVMObject
 from uvm.base.uvm_callback import UVMCallbackIter
-from uvm.macros import (uvm_object_utils, uvm_fatal, uvm_do_obj_callbacks)
+from uvm.macros import (uvm_object_utils, uvm_fatal, uvm_do_obj_callbacks_async)
 from uvm.reg.uvm_reg_model import UVM_NOT_OK
 from uvm.base.uvm_globals import uvm_zero_delay
 from .uvm_reg_cbs import UVMRegCbs
@@ -73,7 +73,7 @@ class UVMRegBackdoor(UVMObject):
             rw: 
         """
         await self.pre_read(rw)
-        uvm_do_obj_callbacks(self, UVMRegCbs, 'pre_read', self, rw)
+        await uvm_do_obj_callbacks_async(self, UVMRegCbs, 'pre_read', rw)
 
     async def do_post_read(self, rw):
         """         
@@ -91,11 +91,11 @@ class UVMRegBackdoor(UVMObject):
         iter = UVMCallbackIter(self)
         # for(uvm_reg_cbs cb = iter.last(); cb is not None; cb=iter.prev())
         #     cb.decode(rw.value)
-        cb = iter.first()
+        cb = iter.last()
         while cb is not None:
             cb.decode(rw.value)
-            cb = iter.next()
-        uvm_do_obj_callbacks(self, UVMRegCbs,'post_read',self,rw)
+            cb = iter.prev()
+        await uvm_do_obj_callbacks_async(self, UVMRegCbs, 'post_read', rw)
         await self.post_read(rw)
 
 
@@ -114,12 +114,12 @@ class UVMRegBackdoor(UVMObject):
         #uvm_callback_iter#(UVMRegBackdoor, uvm_reg_cbs) iter = new(self)
         iter = UVMCallbackIter(self)
         await self.pre_write(rw)
-        uvm_do_obj_callbacks(self, UVMRegCbs,'pre_write',self,rw)
+        await uvm_do_obj_callbacks_async(self, UVMRegCbs, 'pre_write', rw)
         #      for(uvm_reg_cbs cb = iter.first(); cb is not None; cb = iter.next())
         #         cb.encode(rw.value)
         cb = iter.first()
         while cb is not None:
-            cb.decode(rw.value)
+            cb.encode(rw.value)
             cb = iter.next()
 
 
@@ -134,7 +134,7 @@ class UVMRegBackdoor(UVMObject):
         Args:
             rw: 
         """
-        uvm_do_obj_callbacks(self, UVMRegCbs, 'post_write', self, rw)
+        await uvm_do_obj_callbacks_async(self, UVMRegCbs, 'post_write', rw)
         await self.post_write(rw)
 
 
-- 
2.43.0


From bbb7ca60d1169bffd8bbd7e397d68bbb6c9c194c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:19 +0000
Subject: [PATCH 116/126] fix: HDL paths given as [path, offset, size] lists

---
 src/uvm/reg/uvm_reg_model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/uvm/reg/uvm_reg_model.py b/src/uvm/reg/uvm_reg_model.py
index 99b58d0..e394a09 100644
--- a/src/uvm/reg/uvm_reg_model.py
+++ b/src/uvm/reg/uvm_reg_model.py
@@ -343,7 +343,12 @@ class uvm_hdl_path_concat:
     # Function: set
     # Initialize the concatenation using an array literal
     def set(self, t):
-        self.slices = t
+        self.slices = []
+        for s in t:
+            if isinstance(s, uvm_hdl_path_slice):
+                self.add_slice(s)
+            else:
+                self.add_path(*s)
 
     # Function: add_slice
     # Append the specified ~slice~ literal to the path concatenation
-- 
2.43.0


From 25fa21057599865566e6a70c8c3a64a9adc4c017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:38 +0000
Subject: [PATCH 117/126] fix: concurrent accesses through one user frontdoor

---
 src/uvm/reg/uvm_mem.py          | 10 ++--------
 src/uvm/reg/uvm_reg.py          | 10 ++--------
 src/uvm/reg/uvm_reg_sequence.py | 22 ++++++++++++++++++++++
 3 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/uvm/reg/uvm_mem.py b/src/uvm/reg/uvm_mem.py
index 972cbdd..d5f597c 100644
--- a/src/uvm/reg/uvm_mem.py
+++ b/src/uvm/reg/uvm_mem.py
@@ -1002,10 +1002,7 @@ class UVMMem(UVMObject):
             system_map = rw.local_map.get_root_map()
             if map_info.frontdoor is not None:
                 fd = map_info.frontdoor  # uvm_reg_frontdoor
-                fd.rw_info = rw
-                if fd.sequencer is None:
-                    fd.sequencer = system_map.get_sequencer()
-                await fd.start(fd.sequencer, rw.parent)
+                await fd.m_access(rw, system_map.get_sequencer())
             else:
                 await rw.local_map.do_write(rw)
 
@@ -1103,10 +1100,7 @@ class UVMMem(UVMObject):
 
             if (map_info.frontdoor is not None):
                 fd = map_info.frontdoor  # uvm_reg_frontdoor
-                fd.rw_info = rw
-                if fd.sequencer is None:
-                    fd.sequencer = system_map.get_sequencer()
-                await fd.start(fd.sequencer, rw.parent)
+                await fd.m_access(rw, system_map.get_sequencer())
             else:
                 await rw.local_map.do_read(rw)
 
diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index 319bf3f..ab630cd 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -1498,10 +1498,7 @@ class UVMReg(UVMObject):
             # ...VIA USER FRONTDOOR
             if map_info is not None and map_info.frontdoor is not None:
                 fd = map_info.frontdoor  # uvm_reg_frontdoor
-                fd.rw_info = rw
-                if fd.sequencer is None:
-                    fd.sequencer = system_map.get_sequencer()
-                await fd.start(fd.sequencer, rw.parent)
+                await fd.m_access(rw, system_map.get_sequencer())
 
             # ...VIA BUILT-IN FRONTDOOR
             else:  # built_in_frontdoor
@@ -1701,10 +1698,7 @@ class UVMReg(UVMObject):
             #  ...VIA USER FRONTDOOR
             if map_info.frontdoor is not None:
                 fd = map_info.frontdoor  # uvm_reg_frontdoor
-                fd.rw_info = rw
-                if fd.sequencer is None:
-                    fd.sequencer = system_map.get_sequencer()
-                await fd.start(fd.sequencer, rw.parent)
+                await fd.m_access(rw, system_map.get_sequencer())
             # ...VIA BUILT-IN FRONTDOOR
             else:
                 await rw.local_map.do_read(rw)
diff --git a/src/uvm/reg/uvm_reg_sequence.py b/src/uvm/reg/uvm_reg_sequence.py
index 37a7c0f..8bd8b94 100644
--- a/src/uvm/reg/uvm_reg_sequence.py
+++ b/src/uvm/reg/uvm_reg_sequence.py
@@ -28,6 +28,7 @@ from ..seq.uvm_sequence import UVMSequence
 from ..macros import uvm_object_utils, uvm_fatal, uvm_warning, uvm_info
 from ..base import UVM_LOW, UVM_HIGH
 from ..base.uvm_globals import uvm_zero_delay
+from ..base.uvm_mailbox import UVMMailbox
 from .uvm_reg_model import UVM_WRITE
 
 #//------------------------------------------------------------------------------
@@ -536,6 +537,9 @@ class UVMRegFrontdoor(UVMRegSequence):  # (uvm_sequence #(uvm_sequence_item));
         self.rw_info = None
         self.fname = ""
         self.lineno = 0
+        # Accesses through one frontdoor wait for each other
+        self.m_atomic = UVMMailbox(1)
+        self.m_atomic.try_put(1)
         #
         #   // Variable: sequencer
         #   //
@@ -543,3 +547,21 @@ class UVMRegFrontdoor(UVMRegSequence):  # (uvm_sequence #(uvm_sequence_item));
         #   //
         #   uvm_sequencer_base sequencer;
         self.sequencer = None
+
+    async def m_access(self, rw, sequencer):
+        """
+        Executes an access via this frontdoor, once the accesses started
+        earlier have ended.
+
+        Args:
+            rw: the abstract item of the access
+            sequencer: used unless the frontdoor has one of its own
+        """
+        await self.m_atomic.get([])
+        try:
+            self.rw_info = rw
+            if self.sequencer is None:
+                self.sequencer = sequencer
+            await self.start(self.sequencer, rw.parent)
+        finally:
+            self.m_atomic.try_put(1)
-- 
2.43.0


From b127b782b118089bd9cd4e35db2f1b276a48e36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:04 +0000
Subject: [PATCH 118/126] fix: return the access policy of a memory in several
 maps

---
 src/uvm/reg/uvm_mem.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/uvm/reg/uvm_mem.py b/src/uvm/reg/uvm_mem.py
index d5f597c..c7384bf 100644
--- a/src/uvm/reg/uvm_mem.py
+++ b/src/uvm/reg/uvm_mem.py
@@ -433,6 +433,7 @@ class UVMMem(UVMObject):
         else:
             uvm_error("RegModel", "Shared memory '" + self.get_full_name()
                 + "' is not shared in map '" + _map.get_full_name() + "'")
+        return get_access
 
     #   // Function: get_size
     #   //
-- 
2.43.0


From d9337cf6b56d2b9060880741bbd829bcee7ea1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:55 +0000
Subject: [PATCH 119/126] fix: a moved or unmapped register leaves its old
 addresses

---
 src/uvm/reg/uvm_reg_map.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uvm/reg/uvm_reg_map.py b/src/uvm/reg/uvm_reg_map.py
index c758509..5ac66c8 100644
--- a/src/uvm/reg/uvm_reg_map.py
+++ b/src/uvm/reg/uvm_reg_map.py
@@ -671,7 +671,7 @@ class UVMRegMap(UVMObject):
         if blk.is_locked():
 
             # remove any existing cached addresses
-            if info.unmapped is False:
+            if not info.unmapped:
                 for addr in info.addr:
                     if addr not in top_map.m_regs_by_offset_wo:
                         del top_map.m_regs_by_offset[addr]
@@ -732,7 +732,7 @@ class UVMRegMap(UVMObject):
 
                 info.addr = addrs # cache it
 
-        if unmapped is True:
+        if unmapped:
             info.offset   = -1
             info.unmapped = 1
         else:
-- 
2.43.0


From 3a5b00abcf6f57bf6ad6343568c18a33829c978d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:25 +0000
Subject: [PATCH 120/126] fix: a copy of a register item has its own values

The index written by an indirect access overwrote the data to be written.
---
 src/uvm/reg/uvm_reg_item.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uvm/reg/uvm_reg_item.py b/src/uvm/reg/uvm_reg_item.py
index 7799aea..8f6fd69 100644
--- a/src/uvm/reg/uvm_reg_item.py
+++ b/src/uvm/reg/uvm_reg_item.py
@@ -215,7 +215,7 @@ class UVMRegItem(UVMSequenceItem):
         self.element_kind = rhs_.element_kind
         self.element = rhs_.element
         self.kind = rhs_.kind
-        self.value = rhs_.value
+        self.value = list(rhs_.value)
         self.offset = rhs_.offset
         self.status = rhs_.status
         self.local_map = rhs_.local_map
-- 
2.43.0


From bc7f2a952ea5009963bab4b119bf2f9520bd8429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:25 +0000
Subject: [PATCH 121/126] fix: an indirect access whose index cannot be written
 ends and says so

It kept the index and data registers locked for ever, and reported success.
---
 src/uvm/reg/uvm_reg_indirect.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/uvm/reg/uvm_reg_indirect.py b/src/uvm/reg/uvm_reg_indirect.py
index b40803c..dbc884e 100644
--- a/src/uvm/reg/uvm_reg_indirect.py
+++ b/src/uvm/reg/uvm_reg_indirect.py
@@ -390,6 +390,9 @@ class uvm_reg_indirect_ftdr_seq(UVMRegFrontdoor):
         await self.m_addr_reg.do_write(rw)
 
         if rw.status == UVM_NOT_OK:
+            await self.m_addr_reg.XatomicX(0)
+            await self.m_data_reg.XatomicX(0)
+            self.rw_info.status = rw.status
             return
 
         arr = []
-- 
2.43.0


From e6243f4fabdaa484f69a2322ab11db088e04f5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:25 +0000
Subject: [PATCH 122/126] fix: write and update of FIFO registers push each
 value once

A write took itself for a value that was set and needs an update.
---
 src/uvm/reg/uvm_reg.py      | 12 +++++++++++-
 src/uvm/reg/uvm_reg_fifo.py |  5 +++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index ab630cd..86a7258 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -895,7 +895,7 @@ class UVMReg(UVMObject):
         # create an abstract transaction for this operation
         rw = UVMRegItem.type_id.create("write_item", None, self.get_full_name())
         await self.XatomicX(1, rw)
-        self.set(value)
+        self.XsetX(value)
 
         rw.element      = self
         rw.element_kind = UVM_REG
@@ -915,6 +915,16 @@ class UVMReg(UVMObject):
         return rw.status
 
 
+    def XsetX(self, value):
+        """
+        Sets the desired value as part of a write. Overridden by registers for
+        which `set` has further effects.
+
+        Args:
+            value (int):
+        """
+        self.set(value)
+
     async def read(self, status, value, path=UVM_DEFAULT_PATH, _map=None,
             parent=None, prior=-1, extension=None, fname="", lineno=0):
         """
diff --git a/src/uvm/reg/uvm_reg_fifo.py b/src/uvm/reg/uvm_reg_fifo.py
index 332bf06..b4b9eab 100644
--- a/src/uvm/reg/uvm_reg_fifo.py
+++ b/src/uvm/reg/uvm_reg_fifo.py
@@ -155,6 +155,11 @@ class UVMRegFIFO(UVMReg):
         self.fifo.append(self.value.value)
 
 
+    def XsetX(self, value):
+        # A write does not preload the abstract FIFO
+        super().set(value)
+
+
     #    // Function: update
     #    //
     #    // Pushes (writes) all values preloaded using <set()> to the DUT.
-- 
2.43.0


From f3f83d429a23a0cbce5f9ec9a19f45bf269f04ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:25 +0000
Subject: [PATCH 123/126] fix: update of a FIFO register with nothing to write
 gives a status

---
 src/uvm/reg/uvm_reg_fifo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/uvm/reg/uvm_reg_fifo.py b/src/uvm/reg/uvm_reg_fifo.py
index b4b9eab..5b5a1e2 100644
--- a/src/uvm/reg/uvm_reg_fifo.py
+++ b/src/uvm/reg/uvm_reg_fifo.py
@@ -23,7 +23,7 @@
 import cocotb
 from .uvm_reg import UVMReg
 from .uvm_reg_field import UVMRegField
-from .uvm_reg_model import (UVM_CHECK, UVM_DEFAULT_PATH, UVM_NOT_OK,
+from .uvm_reg_model import (UVM_CHECK, UVM_DEFAULT_PATH, UVM_IS_OK, UVM_NOT_OK,
     UVM_PREDICT_WRITE, UVM_PREDICT_DIRECT, UVM_PREDICT_READ)
 from ..macros import uvm_warning, uvm_error
 from ..base.sv import sv
@@ -171,6 +171,7 @@ class UVMRegFIFO(UVMReg):
             prior=-1, extension=None, fname="", lineno=0):
         upd = 0x0
         if self.m_set_cnt == 0 or len(self.fifo) == 0:
+            status.append(UVM_IS_OK)
             return
         self.m_update_in_progress = 1
         i = len(self.fifo)-self.m_set_cnt
-- 
2.43.0


From 516b4ff4e2c32b8a1b282ec7d039989598063c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:12 +0000
Subject: [PATCH 124/126] fix: an object can be copied more than once

After a copy whose do_copy called copy, as that of UVMRegItem does, further
copies of the same object were silently left out.
---
 src/uvm/base/uvm_object.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/uvm/base/uvm_object.py b/src/uvm/base/uvm_object.py
index 46170f5..2ccbb0f 100644
--- a/src/uvm/base/uvm_object.py
+++ b/src/uvm/base/uvm_object.py
@@ -520,7 +520,6 @@ class UVMObject(sv_obj):
             rhs (UVMObject): An object to be copied.
         """
         # For cycle checking
-        UVMObject.depth = 0
         if (rhs is not None) and rhs in UVMObject.uvm_global_copy_map:
             return
 
@@ -531,12 +530,13 @@ class UVMObject(sv_obj):
 
         UVMObject.uvm_global_copy_map[rhs] = self
         UVMObject.depth += 1
-        self._m_uvm_field_automation(rhs, UVM_COPY, "")
-        self.do_copy(rhs)
-
-        UVMObject.depth -= 1
-        if UVMObject.depth == 0:
-            UVMObject.uvm_global_copy_map = {}
+        try:
+            self._m_uvm_field_automation(rhs, UVM_COPY, "")
+            self.do_copy(rhs)
+        finally:
+            UVMObject.depth -= 1
+            if UVMObject.depth == 0:
+                UVMObject.uvm_global_copy_map = {}
 
     def do_copy(self, rhs) -> None:
         """
-- 
2.43.0


From dde63518f03abd936a619f344314ce39b2aa7325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:56 +0000
Subject: [PATCH 125/126] fix: a register behind an index can have an address
 of its own

The data register calls UVMReg.set_frontdoor, which did not exist.
---
 src/uvm/reg/uvm_reg.py | 113 +++++++++++++++++------------------------
 1 file changed, 47 insertions(+), 66 deletions(-)

diff --git a/src/uvm/reg/uvm_reg.py b/src/uvm/reg/uvm_reg.py
index 86a7258..b8adc92 100644
--- a/src/uvm/reg/uvm_reg.py
+++ b/src/uvm/reg/uvm_reg.py
@@ -1792,38 +1792,54 @@ class UVMReg(UVMObject):
     #   //-----------------
     #   // Group: Frontdoor
     #   //-----------------
-    #
-    #   // Function: set_frontdoor
-    #   //
-    #   // Set a user-defined frontdoor for this register
-    #   //
-    #   // By default, registers are mapped linearly into the address space
-    #   // of the address maps that instantiate them.
-    #   // If registers are accessed using a different mechanism,
-    #   // a user-defined access
-    #   // mechanism must be defined and associated with
-    #   // the corresponding register abstraction class
-    #   //
-    #   // If the register is mapped in multiple address maps, an address ~map~
-    #   // must be specified.
-    #   //
-    #   extern function void set_frontdoor(uvm_reg_frontdoor ftdr,
-    #                                      uvm_reg_map       map = None,
-    #                                      string            fname = "",
-    #                                      int               lineno = 0)
 
-    #   // Function: get_frontdoor
-    #   //
-    #   // Returns the user-defined frontdoor for this register
-    #   //
-    #   // If ~None~, no user-defined frontdoor has been defined.
-    #   // A user-defined frontdoor is defined
-    #   // by using the `UVMReg.set_frontdoor` method.
-    #   //
-    #   // If the register is mapped in multiple address maps, an address ~map~
-    #   // must be specified.
-    #   //
-    #   extern function uvm_reg_frontdoor get_frontdoor(uvm_reg_map map = None)
+    def set_frontdoor(self, ftdr, _map=None, fname="", lineno=0):
+        """
+        Set a user-defined frontdoor for this register
+
+        By default, registers are mapped linearly into the address space
+        of the address maps that instantiate them.
+        If registers are accessed using a different mechanism,
+        a user-defined access
+        mechanism must be defined and associated with
+        the corresponding register abstraction class
+
+        If the register is mapped in multiple address maps, an address `map`
+        must be specified.
+
+        Args:
+            ftdr (UVMRegFrontdoor):
+            _map (UVMRegMap):
+            fname (str):
+            lineno (int):
+        """
+        ftdr.fname = fname
+        ftdr.lineno = lineno
+        _map = self.get_local_map(_map, "set_frontdoor()")
+        if _map is None:
+            return
+        _map.m_regs_info[self].frontdoor = ftdr
+
+    def get_frontdoor(self, _map=None):
+        """
+        Returns the user-defined frontdoor for this register
+
+        If `None`, no user-defined frontdoor has been defined.
+        A user-defined frontdoor is defined
+        by using the `UVMReg.set_frontdoor` method.
+
+        If the register is mapped in multiple address maps, an address `map`
+        must be specified.
+
+        Args:
+            _map (UVMRegMap):
+        Returns:
+            UVMRegFrontdoor: Frontdoor of the register in the map
+        """
+        _map = self.get_local_map(_map, "get_frontdoor()")
+        if _map is None:
+            return None
+        return _map.m_regs_info[self].frontdoor
 
     #   //----------------
     #   // Group: Backdoor
@@ -2585,41 +2601,6 @@ class UVMReg(UVMObject):
 #// IMPLEMENTATION
 #//------------------------------------------------------------------------------
 #
-#//----------------------
-#// Group- User Frontdoor
-#//----------------------
-#
-#// set_frontdoor
-#
-#function void uvm_reg::set_frontdoor(uvm_reg_frontdoor ftdr,
-#                                     uvm_reg_map       map = None,
-#                                     string            fname = "",
-#                                     int               lineno = 0)
-#   uvm_reg_map_info map_info
-#   ftdr.fname = self.m_fname
-#   ftdr.lineno = self.m_lineno
-#   map = get_local_map(map, "set_frontdoor()")
-#   if (map is None)
-#     return
-#   map_info = map.get_reg_map_info(this)
-#   if (map_info is None)
-#      map.add_reg(this, -1, "RW", 1, ftdr)
-#   else begin
-#      map_info.frontdoor = ftdr
-#   end
-#endfunction: set_frontdoor
-#
-#
-#// get_frontdoor
-#
-#function uvm_reg_frontdoor uvm_reg::get_frontdoor(uvm_reg_map map = None)
-#   uvm_reg_map_info map_info
-#   map = get_local_map(map, "get_frontdoor()")
-#   if (map is None)
-#     return None
-#   map_info = map.get_reg_map_info(this)
-#   return map_info.frontdoor
-#endfunction: get_frontdoor
 #
 #
 #// set_backdoor
-- 
2.43.0


From 01dc0d34ee94ddfb94d3b7f1e906e89cb7d1683f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:56 +0000
Subject: [PATCH 126/126] fix: update and mirror of an indirect data register
 leave it alone

They accessed the element that happened to be selected; update wrote 0 to it.
Backdoor accesses are refused as for write.
---
 src/uvm/reg/uvm_reg_indirect.py | 94 +++++++++------------------------
 1 file changed, 25 insertions(+), 69 deletions(-)

diff --git a/src/uvm/reg/uvm_reg_indirect.py b/src/uvm/reg/uvm_reg_indirect.py
index dbc884e..ff98607 100644
--- a/src/uvm/reg/uvm_reg_indirect.py
+++ b/src/uvm/reg/uvm_reg_indirect.py
@@ -275,80 +275,36 @@ class UVMRegIndirectData(UVMReg):
         #   endtask
 
 
-    #   virtual task read(output uvm_status_e      status,
-    #                     output uvm_reg_data_t    value,
-    #                     input  uvm_path_e        path = UVM_DEFAULT_PATH,
-    #                     input  uvm_reg_map       map = None,
-    #                     input  uvm_sequence_base parent = None,
-    #                     input  int               prior = -1,
-    #                     input  uvm_object        extension = None,
-    #                     input  string            fname = "",
-    #                     input  int               lineno = 0)
-    #
-    #      if (path == UVM_DEFAULT_PATH):
-    #         uvm_reg_block blk = get_parent()
-    #         path = blk.get_default_path()
-    #      end
-    #
-    #      if (path == UVM_BACKDOOR):
-    #         `uvm_warning(get_full_name(), "Cannot backdoor-read an indirect data access register. Switching to frontdoor.")
-    #         path = UVM_FRONTDOOR
-    #      end
-    #
-    #      super.read(status, value, path, map, parent, prior, extension, fname, lineno)
-    #   endtask
+    async def read(self, status, value, path=UVM_DEFAULT_PATH, _map=None,
+            parent=None, prior=-1, extension=None, fname="", lineno=0):
+        if path == UVM_DEFAULT_PATH:
+            path = self.get_parent().get_default_path()
+
+        if path == UVM_BACKDOOR:
+            uvm_warning(self.get_full_name(),
+                "Cannot backdoor-read an indirect data access register. Switching to frontdoor.")
+            path = UVM_FRONTDOOR
 
+        return await super().read(status, value, path, _map, parent, prior,
+            extension, fname, lineno)
 
-    #   virtual task poke(output uvm_status_e      status,
-    #                     input  uvm_reg_data_t    value,
-    #                     input  string            kind = "",
-    #                     input  uvm_sequence_base parent = None,
-    #                     input  uvm_object        extension = None,
-    #                     input  string            fname = "",
-    #                     input  int               lineno = 0)
-    #      `uvm_error(get_full_name(), "Cannot poke() an indirect data access register")
-    #      status = UVM_NOT_OK
-    #   endtask
+    async def poke(self, status, value, kind="", parent=None, extension=None,
+            fname="", lineno=0):
+        uvm_error(self.get_full_name(), "Cannot poke() an indirect data access register")
+        status.append(UVM_NOT_OK)
 
-    #
-    #   virtual task peek(output uvm_status_e      status,
-    #                     output uvm_reg_data_t    value,
-    #                     input  string            kind = "",
-    #                     input  uvm_sequence_base parent = None,
-    #                     input  uvm_object        extension = None,
-    #                     input  string            fname = "",
-    #                     input  int               lineno = 0)
-    #      `uvm_error(get_full_name(), "Cannot peek() an indirect data access register")
-    #      status = UVM_NOT_OK
-    #   endtask
+    async def peek(self, status, value, kind="", parent=None, extension=None,
+            fname="", lineno=0):
+        uvm_error(self.get_full_name(), "Cannot peek() an indirect data access register")
+        status.append(UVM_NOT_OK)
 
-    #
-    #   virtual task update(output uvm_status_e      status,
-    #                       input  uvm_path_e        path = UVM_DEFAULT_PATH,
-    #                       input  uvm_reg_map       map = None,
-    #                       input  uvm_sequence_base parent = None,
-    #                       input  int               prior = -1,
-    #                       input  uvm_object        extension = None,
-    #                       input  string            fname = "",
-    #                       input  int               lineno = 0)
-    #      status = UVM_IS_OK
-    #   endtask
+    async def update(self, status, path=UVM_DEFAULT_PATH, _map=None, parent=None,
+            prior=-1, extension=None, fname="", lineno=0):
+        status.append(UVM_IS_OK)
 
-    #
-    #   virtual task mirror(output uvm_status_e      status,
-    #                       input uvm_check_e        check  = UVM_NO_CHECK,
-    #                       input uvm_path_e         path = UVM_DEFAULT_PATH,
-    #                       input uvm_reg_map        map = None,
-    #                       input uvm_sequence_base  parent = None,
-    #                       input int                prior = -1,
-    #                       input  uvm_object        extension = None,
-    #                       input string             fname = "",
-    #                       input int                lineno = 0)
-    #      status = UVM_IS_OK
-
-    #   endtask
-    #
-    #endclass : uvm_reg_indirect_data
+    async def mirror(self, status, check=UVM_NO_CHECK, path=UVM_DEFAULT_PATH, _map=None,
+            parent=None, prior=-1, extension=None, fname="", lineno=0):
+        status.append(UVM_IS_OK)
 
 
 class uvm_reg_indirect_ftdr_seq(UVMRegFrontdoor):
-- 
2.43.0

