From f8721da4a341fe577d4913c987c5f18eacdf21ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:56 +0000
Subject: [PATCH 01/21] fix: MemoryInterface.read_byte returns the byte read
 for every kind of region

---
 cocotbext/axi/address_space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/axi/address_space.py b/cocotbext/axi/address_space.py
index 4851940..ea99c53 100644
--- a/cocotbext/axi/address_space.py
+++ b/cocotbext/axi/address_space.py
@@ -85,7 +85,7 @@ class MemoryInterface:
         return await self.read_words(address, count, byteorder, 8, **kwargs)
 
     async def read_byte(self, address, **kwargs):
-        return (await self.read(address, 1, **kwargs)).data[0]
+        return bytes(await self.read(address, 1, **kwargs))[0]
 
     async def read_word(self, address, byteorder='little', ws=2, **kwargs):
         return (await self.read_words(address, 1, byteorder, ws, **kwargs))[0]
-- 
2.43.0


From 24964706c4efb094a142355fc25ee8d2bc01f19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:56 +0000
Subject: [PATCH 02/21] fix: write_byte works with mmap-backed memory

---
 cocotbext/axi/address_space.py | 2 +-
 cocotbext/axi/memory.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocotbext/axi/address_space.py b/cocotbext/axi/address_space.py
index ea99c53..cd517d8 100644
--- a/cocotbext/axi/address_space.py
+++ b/cocotbext/axi/address_space.py
@@ -117,7 +117,7 @@ class MemoryInterface:
         await self.write_words(address, data, byteorder, 8, **kwargs)
 
     async def write_byte(self, address, data, **kwargs):
-        await self.write(address, [data], **kwargs)
+        await self.write(address, bytes([data]), **kwargs)
 
     async def write_word(self, address, data, byteorder='little', ws=2, **kwargs):
         await self.write_words(address, [data], byteorder, ws, **kwargs)
diff --git a/cocotbext/axi/memory.py b/cocotbext/axi/memory.py
index a4199a8..a7fe1b9 100644
--- a/cocotbext/axi/memory.py
+++ b/cocotbext/axi/memory.py
@@ -55,7 +55,7 @@ class Memory:
         self.write_words(address, data, byteorder, 8)
 
     def write_byte(self, address, data):
-        self.write(address, [data])
+        self.write(address, bytes([data]))
 
     def write_word(self, address, data, byteorder='little', ws=2):
         self.write_words(address, [data], byteorder, ws)
-- 
2.43.0


From 0732235e8b2ef7c22a98c6678b8172010cf0efb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:56 +0000
Subject: [PATCH 03/21] fix: allow memory models of the default size of 2**64
 bytes

---
 cocotbext/axi/memory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cocotbext/axi/memory.py b/cocotbext/axi/memory.py
index a7fe1b9..e582002 100644
--- a/cocotbext/axi/memory.py
+++ b/cocotbext/axi/memory.py
@@ -32,7 +32,8 @@ class Memory:
             self.mem = mem
         else:
             self.mem = SparseMemory(size)
-        self.size = len(self.mem)
+        # len() cannot represent the size of large sparse memories
+        self.size = self.mem.size if isinstance(self.mem, SparseMemory) else len(self.mem)
         super().__init__(**kwargs)
 
     def read(self, address, length):
-- 
2.43.0


From d8587919a6d5f4bcca044c2e8c491f3ddf33e0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:56 +0000
Subject: [PATCH 04/21] fix: PeripheralRegion performs each access exactly once

---
 cocotbext/axi/address_space.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/cocotbext/axi/address_space.py b/cocotbext/axi/address_space.py
index cd517d8..a315239 100644
--- a/cocotbext/axi/address_space.py
+++ b/cocotbext/axi/address_space.py
@@ -22,6 +22,7 @@ THE SOFTWARE.
 
 """
 
+import inspect
 import mmap
 
 from .buddy_allocator import BuddyAllocator
@@ -252,16 +253,15 @@ class PeripheralRegion(Region):
         self.obj = obj
 
     async def _read(self, address, length, **kwargs):
-        try:
-            return await self.obj.read(address, length, **kwargs)
-        except TypeError:
-            return self.obj.read(address, length, **kwargs)
+        data = self.obj.read(address, length, **kwargs)
+        if inspect.isawaitable(data):
+            data = await data
+        return data
 
     async def _write(self, address, data, **kwargs):
-        try:
-            await self.obj.write(address, data, **kwargs)
-        except TypeError:
-            self.obj.write(address, data, **kwargs)
+        ret = self.obj.write(address, data, **kwargs)
+        if inspect.isawaitable(ret):
+            await ret
 
 
 class AddressSpace(Region):
-- 
2.43.0


From 62aac46680ecff3d1e19d149941f42fd4c8f95ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:56 +0000
Subject: [PATCH 05/21] fix: BuddyAllocator does not hand out blocks past the
 end of the pool

---
 cocotbext/axi/buddy_allocator.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/cocotbext/axi/buddy_allocator.py b/cocotbext/axi/buddy_allocator.py
index fba90bc..1a31702 100644
--- a/cocotbext/axi/buddy_allocator.py
+++ b/cocotbext/axi/buddy_allocator.py
@@ -42,25 +42,24 @@ class BuddyAllocator:
         orig_bucket = bucket
 
         while bucket < len(self.free_lists):
-            if not self.free_lists[bucket]:
-                # find free block
+            # find free block, ignoring space past the end
+            blocks = [block for block in self.free_lists[bucket] if block+size <= self.size]
+
+            if not blocks:
                 bucket += 1
                 continue
 
+            block = blocks[0]
+            self.free_lists[bucket].remove(block)
+
             while bucket > orig_bucket:
-                # split block
-                block = self.free_lists[bucket].pop(0)
+                # split block, keep lower half
                 bucket -= 1
-                self.free_lists[bucket].append(block)
                 self.free_lists[bucket].append(block+2**bucket)
 
-            if self.free_lists[bucket]:
-                # allocate
-                block = self.free_lists[bucket].pop(0)
-                self.allocations[block] = bucket
-                return block
-
-            break
+            # allocate
+            self.allocations[block] = bucket
+            return block
 
         raise Exception("out of memory")
 
-- 
2.43.0


From 5d7a8bcbb87c62c25850900dc313c10add510c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:56 +0000
Subject: [PATCH 06/21] fix: AddressSpace rejects accesses and regions past its
 end

---
 cocotbext/axi/address_space.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cocotbext/axi/address_space.py b/cocotbext/axi/address_space.py
index a315239..aec059e 100644
--- a/cocotbext/axi/address_space.py
+++ b/cocotbext/axi/address_space.py
@@ -276,6 +276,8 @@ class AddressSpace(Region):
             raise ValueError("address out of range")
         if length < 0:
             raise ValueError("invalid length")
+        if address+length > self.size:
+            raise ValueError("operation out of range")
         length = max(length, 1)
         for (base, size, translate, region) in self.regions:
             if address < base+size and base < address+length:
-- 
2.43.0


From 24b217971f46dbf68ccbe55200e9f0e4ddcf0003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:56 +0000
Subject: [PATCH 07/21] fix: ApbMaster clears the current command when it
 completes

---
 cocotbext/axi/apb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/axi/apb.py b/cocotbext/axi/apb.py
index 50360d6..6faa6ae 100644
--- a/cocotbext/axi/apb.py
+++ b/cocotbext/axi/apb.py
@@ -454,7 +454,7 @@ class ApbMaster(ApbPause, Region, Reset):
                 read_resp = ApbReadResp(cmd.address, bytes(read_data), resp)
                 cmd.event.set(read_resp)
 
-            self.current_write_command = None
+            self.current_command = None
 
             self.in_flight_operations -= 1
 
-- 
2.43.0


From 69637f83dce5d11af945388e3cb293693564e469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:56 +0000
Subject: [PATCH 08/21] fix: ApbMaster does not sample prdata on writes

---
 cocotbext/axi/apb.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cocotbext/axi/apb.py b/cocotbext/axi/apb.py
index 6faa6ae..4d64460 100644
--- a/cocotbext/axi/apb.py
+++ b/cocotbext/axi/apb.py
@@ -425,7 +425,9 @@ class ApbMaster(ApbPause, Region, Reset):
 
                 self.bus.penable.value = False
 
-                cycle_data = int(self.bus.prdata.value)
+                cycle_data = 0
+                if not pwrite:
+                    cycle_data = int(self.bus.prdata.value)
                 if self.pslverr_present and int(self.bus.pslverr.value):
                     resp = AxiResp.SLVERR
 
-- 
2.43.0


From 7bd1b094b48e1ea2920ccc60a90a531c32329199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:56 +0000
Subject: [PATCH 09/21] fix: reject IDs that do not fit in the ID signal

---
 cocotbext/axi/axi_master.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cocotbext/axi/axi_master.py b/cocotbext/axi/axi_master.py
index d041211..f1d3a89 100644
--- a/cocotbext/axi/axi_master.py
+++ b/cocotbext/axi/axi_master.py
@@ -299,7 +299,7 @@ class AxiMasterWrite(Region, Reset):
 
         if awid is None or awid < 0:
             awid = None
-        elif awid > self.id_count:
+        elif awid >= self.id_count:
             raise ValueError("Requested ID exceeds maximum ID allowed for ID signal width")
 
         burst = AxiBurstType(burst)
@@ -368,7 +368,7 @@ class AxiMasterWrite(Region, Reset):
 
         if awid is None or awid < 0:
             awid = None
-        elif awid > self.id_count:
+        elif awid >= self.id_count:
             raise ValueError("Requested ID exceeds maximum ID allowed for ID signal width")
 
         burst = AxiBurstType(burst)
@@ -734,7 +734,7 @@ class AxiMasterRead(Region, Reset):
 
         if arid is None or arid < 0:
             arid = None
-        elif arid > self.id_count:
+        elif arid >= self.id_count:
             raise ValueError("Requested ID exceeds maximum ID allowed for ID signal width")
 
         burst = AxiBurstType(burst)
@@ -791,7 +791,7 @@ class AxiMasterRead(Region, Reset):
 
         if arid is None or arid < 0:
             arid = None
-        elif arid > self.id_count:
+        elif arid >= self.id_count:
             raise ValueError("Requested ID exceeds maximum ID allowed for ID signal width")
 
         burst = AxiBurstType(burst)
-- 
2.43.0


From 72bc78af22b3b23ba6486a21b220634be058f980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:11 +0000
Subject: [PATCH 10/21] fix: clearing a full sink resumes reception

---
 cocotbext/axi/axis.py   | 1 +
 cocotbext/axi/stream.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/cocotbext/axi/axis.py b/cocotbext/axi/axis.py
index 6a4429e..060df9b 100644
--- a/cocotbext/axi/axis.py
+++ b/cocotbext/axi/axis.py
@@ -360,6 +360,7 @@ class AxiStreamBase(Reset):
             frame.sim_time_end = None
             frame.handle_tx_complete()
         self.dequeue_event.set()
+        self.wake_event.set()
         self.idle_event.set()
         self.active_event.clear()
         self.queue_occupancy_bytes = 0
diff --git a/cocotbext/axi/stream.py b/cocotbext/axi/stream.py
index 0aa6625..2a5fec5 100644
--- a/cocotbext/axi/stream.py
+++ b/cocotbext/axi/stream.py
@@ -146,6 +146,7 @@ class StreamBase(Reset):
         while not self.queue.empty():
             self.queue.get_nowait()
         self.dequeue_event.set()
+        self.wake_event.set()
         self.idle_event.set()
         self.active_event.clear()
 
-- 
2.43.0


From 4831839f14cf381aacd32272f86bc63b91296705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:11 +0000
Subject: [PATCH 11/21] fix: clear() does not signal idle while a transfer is
 in progress

---
 cocotbext/axi/axis.py   | 3 ++-
 cocotbext/axi/stream.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/cocotbext/axi/axis.py b/cocotbext/axi/axis.py
index 060df9b..8a86976 100644
--- a/cocotbext/axi/axis.py
+++ b/cocotbext/axi/axis.py
@@ -361,7 +361,8 @@ class AxiStreamBase(Reset):
             frame.handle_tx_complete()
         self.dequeue_event.set()
         self.wake_event.set()
-        self.idle_event.set()
+        if not self.active:
+            self.idle_event.set()
         self.active_event.clear()
         self.queue_occupancy_bytes = 0
         self.queue_occupancy_frames = 0
diff --git a/cocotbext/axi/stream.py b/cocotbext/axi/stream.py
index 2a5fec5..49ddb51 100644
--- a/cocotbext/axi/stream.py
+++ b/cocotbext/axi/stream.py
@@ -147,7 +147,8 @@ class StreamBase(Reset):
             self.queue.get_nowait()
         self.dequeue_event.set()
         self.wake_event.set()
-        self.idle_event.set()
+        if not self.active:
+            self.idle_event.set()
         self.active_event.clear()
 
     def _handle_reset(self, state):
-- 
2.43.0


From 1629808cebbdf1998c7a24ec03e20bb2259e50ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:11 +0000
Subject: [PATCH 12/21] fix: complete empty AXI stream frames

---
 cocotbext/axi/axis.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cocotbext/axi/axis.py b/cocotbext/axi/axis.py
index 8a86976..d728148 100644
--- a/cocotbext/axi/axis.py
+++ b/cocotbext/axi/axis.py
@@ -546,6 +546,13 @@ class AxiStreamSource(AxiStreamBase, AxiStreamPause):
                     self.active = True
                     frame_offset = 0
 
+                    if not frame:
+                        # nothing to transmit
+                        frame.sim_time_end = get_sim_time()
+                        frame.handle_tx_complete()
+                        frame = None
+                        self.current_frame = None
+
                 if frame and not self.pause:
                     tdata_val = 0
                     tlast_val = 0
-- 
2.43.0


From 2b1695593f7027e7c811f8a6678af3ad86b1cb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:37 +0000
Subject: [PATCH 13/21] fix: normalize AXI stream frames with empty sideband
 lists

---
 cocotbext/axi/axis.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cocotbext/axi/axis.py b/cocotbext/axi/axis.py
index d728148..2f520bc 100644
--- a/cocotbext/axi/axis.py
+++ b/cocotbext/axi/axis.py
@@ -95,12 +95,12 @@ class AxiStreamFrame:
         # normalize all sideband signals to the same size as tdata
         n = len(self.tdata)
 
-        if self.tkeep is not None:
+        if self.tkeep is not None and self.tkeep != []:
             self.tkeep = self.tkeep[:n] + [self.tkeep[-1]]*(n-len(self.tkeep))
         else:
             self.tkeep = [1]*n
 
-        if self.tid is not None:
+        if self.tid is not None and self.tid != []:
             if type(self.tid) in (int, bool):
                 self.tid = [self.tid]*n
             else:
@@ -108,7 +108,7 @@ class AxiStreamFrame:
         else:
             self.tid = [0]*n
 
-        if self.tdest is not None:
+        if self.tdest is not None and self.tdest != []:
             if type(self.tdest) in (int, bool):
                 self.tdest = [self.tdest]*n
             else:
@@ -116,7 +116,7 @@ class AxiStreamFrame:
         else:
             self.tdest = [0]*n
 
-        if self.tuser is not None:
+        if self.tuser is not None and self.tuser != []:
             if type(self.tuser) in (int, bool):
                 self.tuser = [self.tuser]*n
             else:
-- 
2.43.0


From af0eaec4cb1b22174272fe3a1a7ecaf4a8d35c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:37 +0000
Subject: [PATCH 14/21] fix: compact AXI stream frames with absent or scalar
 sideband values

---
 cocotbext/axi/axis.py | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/cocotbext/axi/axis.py b/cocotbext/axi/axis.py
index 2f520bc..c8e1c07 100644
--- a/cocotbext/axi/axis.py
+++ b/cocotbext/axi/axis.py
@@ -125,7 +125,7 @@ class AxiStreamFrame:
             self.tuser = [0]*n
 
     def compact(self):
-        if len(self.tkeep):
+        if self.tkeep:
             # remove tkeep=0 bytes
             for k in range(len(self.tdata)-1, -1, -1):
                 if not self.tkeep[k]:
@@ -133,11 +133,11 @@ class AxiStreamFrame:
                         del self.tdata[k]
                     if k < len(self.tkeep):
                         del self.tkeep[k]
-                    if k < len(self.tid):
+                    if type(self.tid) is list and k < len(self.tid):
                         del self.tid[k]
-                    if k < len(self.tdest):
+                    if type(self.tdest) is list and k < len(self.tdest):
                         del self.tdest[k]
-                    if k < len(self.tuser):
+                    if type(self.tuser) is list and k < len(self.tuser):
                         del self.tuser[k]
 
         # remove tkeep
@@ -145,20 +145,23 @@ class AxiStreamFrame:
 
         # clean up other sideband signals
         # either remove or consolidate if values are identical
-        if len(self.tid) == 0:
-            self.tid = None
-        elif all(self.tid[0] == i for i in self.tid):
-            self.tid = self.tid[0]
-
-        if len(self.tdest) == 0:
-            self.tdest = None
-        elif all(self.tdest[0] == i for i in self.tdest):
-            self.tdest = self.tdest[0]
-
-        if len(self.tuser) == 0:
-            self.tuser = None
-        elif all(self.tuser[0] == i for i in self.tuser):
-            self.tuser = self.tuser[0]
+        if type(self.tid) is list:
+            if len(self.tid) == 0:
+                self.tid = None
+            elif all(self.tid[0] == i for i in self.tid):
+                self.tid = self.tid[0]
+
+        if type(self.tdest) is list:
+            if len(self.tdest) == 0:
+                self.tdest = None
+            elif all(self.tdest[0] == i for i in self.tdest):
+                self.tdest = self.tdest[0]
+
+        if type(self.tuser) is list:
+            if len(self.tuser) == 0:
+                self.tuser = None
+            elif all(self.tuser[0] == i for i in self.tuser):
+                self.tuser = self.tuser[0]
 
     def handle_tx_complete(self):
         if isinstance(self.tx_complete, Event):
-- 
2.43.0


From ae06eb1f95e926016fcd08f1bf26db05b61f95e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:37 +0000
Subject: [PATCH 15/21] fix: define_stream adds explicitly named handshake
 signals to the signal list

---
 cocotbext/axi/stream.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cocotbext/axi/stream.py b/cocotbext/axi/stream.py
index 49ddb51..6866e0b 100644
--- a/cocotbext/axi/stream.py
+++ b/cocotbext/axi/stream.py
@@ -449,8 +449,8 @@ def define_stream(name, signals, optional_signals=None, valid_signal=None, ready
         for s in all_signals:
             if s.lower().endswith('valid'):
                 valid_signal = s
-    if valid_signal not in all_signals:
-        signals += valid_signal
+    if valid_signal is not None and valid_signal not in all_signals:
+        signals = signals + [valid_signal]
 
     if ready_signal is None:
         for s in all_signals:
@@ -458,7 +458,7 @@ def define_stream(name, signals, optional_signals=None, valid_signal=None, ready
                 ready_signal = s
     else:
         if ready_signal not in all_signals:
-            signals += ready_signal
+            signals = signals + [ready_signal]
 
     if signal_widths is None:
         signal_widths = {}
-- 
2.43.0


From 5c529fa6a20e64426fc97adfaee1037d10a893f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:37 +0000
Subject: [PATCH 16/21] fix: setting target on AxiSlave and AxiLiteSlave takes
 effect

---
 cocotbext/axi/axi_slave.py  | 9 +++++++++
 cocotbext/axi/axil_slave.py | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/cocotbext/axi/axi_slave.py b/cocotbext/axi/axi_slave.py
index 5f10107..9cd6147 100644
--- a/cocotbext/axi/axi_slave.py
+++ b/cocotbext/axi/axi_slave.py
@@ -345,3 +345,12 @@ class AxiSlave:
 
         self.write_if = AxiSlaveWrite(bus.write, clock, reset, target, reset_active_level)
         self.read_if = AxiSlaveRead(bus.read, clock, reset, target, reset_active_level)
+
+    @property
+    def target(self):
+        return self.write_if.target
+
+    @target.setter
+    def target(self, target):
+        self.write_if.target = target
+        self.read_if.target = target
diff --git a/cocotbext/axi/axil_slave.py b/cocotbext/axi/axil_slave.py
index 3214d31..e7569ac 100644
--- a/cocotbext/axi/axil_slave.py
+++ b/cocotbext/axi/axil_slave.py
@@ -257,3 +257,12 @@ class AxiLiteSlave:
 
         self.write_if = AxiLiteSlaveWrite(bus.write, clock, reset, target, reset_active_level)
         self.read_if = AxiLiteSlaveRead(bus.read, clock, reset, target, reset_active_level)
+
+    @property
+    def target(self):
+        return self.write_if.target
+
+    @target.setter
+    def target(self, target):
+        self.write_if.target = target
+        self.read_if.target = target
-- 
2.43.0


From 9d1cdc8bf69dc9e70433d20146ca0e0ad19e4ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:03 +0000
Subject: [PATCH 17/21] fix: count operations started by init_read and
 init_write immediately

---
 cocotbext/axi/apb.py         | 16 ++++++++--------
 cocotbext/axi/axi_master.py  | 25 +++++++++++--------------
 cocotbext/axi/axil_master.py | 16 ++++++++--------
 3 files changed, 27 insertions(+), 30 deletions(-)

diff --git a/cocotbext/axi/apb.py b/cocotbext/axi/apb.py
index 4d64460..baeda68 100644
--- a/cocotbext/axi/apb.py
+++ b/cocotbext/axi/apb.py
@@ -213,7 +213,10 @@ class ApbMaster(ApbPause, Region, Reset):
 
         data = bytes(data)
 
-        cocotb.start_soon(self._write_wrapper(address, bytes(data), prot, event))
+        self.in_flight_operations += 1
+        self._idle.clear()
+
+        self.command_queue.put_nowait(ApbWriteCmd(address, data, prot, event))
 
         return event
 
@@ -236,7 +239,10 @@ class ApbMaster(ApbPause, Region, Reset):
         if not self.pprot_present and prot != AxiProt.NONSECURE:
             raise ValueError("arprot sideband signal value specified, but signal is not connected")
 
-        cocotb.start_soon(self._read_wrapper(address, length, prot, event))
+        self.in_flight_operations += 1
+        self._idle.clear()
+
+        self.command_queue.put_nowait(ApbReadCmd(address, length, prot, event))
 
         return event
 
@@ -270,9 +276,6 @@ class ApbMaster(ApbPause, Region, Reset):
         await event.wait()
         return event.data
 
-    async def _write_wrapper(self, address, data, prot, event):
-        event.set(await self.write(address, data, prot))
-
     async def read(self, address, length, prot=AxiProt.NONSECURE):
         if address < 0 or address >= 2**self.address_width:
             raise ValueError("Address out of range")
@@ -296,9 +299,6 @@ class ApbMaster(ApbPause, Region, Reset):
         await event.wait()
         return event.data
 
-    async def _read_wrapper(self, address, length, prot, event):
-        event.set(await self.read(address, length, prot))
-
     def _handle_reset(self, state):
         if state:
             self.log.info("Reset asserted")
diff --git a/cocotbext/axi/axi_master.py b/cocotbext/axi/axi_master.py
index f1d3a89..54fcc95 100644
--- a/cocotbext/axi/axi_master.py
+++ b/cocotbext/axi/axi_master.py
@@ -342,8 +342,12 @@ class AxiMasterWrite(Region, Reset):
 
         data = bytes(data)
 
-        cocotb.start_soon(self._write_wrapper(address, data, awid, burst, size,
-                lock, cache, prot, qos, region, user, wuser, event))
+        self.in_flight_operations += 1
+        self._idle.clear()
+
+        cmd = AxiWriteCmd(address, data, awid, burst, size, lock,
+            cache, prot, qos, region, user, wuser, event)
+        self.write_command_queue.put_nowait(cmd)
 
         return event
 
@@ -422,11 +426,6 @@ class AxiMasterWrite(Region, Reset):
         await event.wait()
         return event.data
 
-    async def _write_wrapper(self, address, data, awid, burst, size,
-            lock, cache, prot, qos, region, user, wuser, event):
-        event.set(await self.write(address, data, awid, burst, size,
-                lock, cache, prot, qos, region, user, wuser))
-
     def _handle_reset(self, state):
         if state:
             self.log.info("Reset asserted")
@@ -765,8 +764,11 @@ class AxiMasterRead(Region, Reset):
         if not self.aruser_present and user != 0:
             raise ValueError("aruser sideband signal value specified, but signal is not connected")
 
-        cocotb.start_soon(self._read_wrapper(address, length, arid, burst, size,
-                lock, cache, prot, qos, region, user, event))
+        self.in_flight_operations += 1
+        self._idle.clear()
+
+        cmd = AxiReadCmd(address, length, arid, burst, size, lock, cache, prot, qos, region, user, event)
+        self.read_command_queue.put_nowait(cmd)
 
         return event
 
@@ -833,11 +835,6 @@ class AxiMasterRead(Region, Reset):
         await event.wait()
         return event.data
 
-    async def _read_wrapper(self, address, length, arid, burst, size,
-            lock, cache, prot, qos, region, user, event):
-        event.set(await self.read(address, length, arid, burst, size,
-                lock, cache, prot, qos, region, user))
-
     def _handle_reset(self, state):
         if state:
             self.log.info("Reset asserted")
diff --git a/cocotbext/axi/axil_master.py b/cocotbext/axi/axil_master.py
index d40a1ef..0ab3948 100644
--- a/cocotbext/axi/axil_master.py
+++ b/cocotbext/axi/axil_master.py
@@ -170,7 +170,10 @@ class AxiLiteMasterWrite(Region, Reset):
 
         data = bytes(data)
 
-        cocotb.start_soon(self._write_wrapper(address, bytes(data), prot, event))
+        self.in_flight_operations += 1
+        self._idle.clear()
+
+        self.write_command_queue.put_nowait(AxiLiteWriteCmd(address, data, prot, event))
 
         return event
 
@@ -204,9 +207,6 @@ class AxiLiteMasterWrite(Region, Reset):
         await event.wait()
         return event.data
 
-    async def _write_wrapper(self, address, data, prot, event):
-        event.set(await self.write(address, data, prot))
-
     def _handle_reset(self, state):
         if state:
             self.log.info("Reset asserted")
@@ -422,7 +422,10 @@ class AxiLiteMasterRead(Region, Reset):
         if not self.arprot_present and prot != AxiProt.NONSECURE:
             raise ValueError("arprot sideband signal value specified, but signal is not connected")
 
-        cocotb.start_soon(self._read_wrapper(address, length, prot, event))
+        self.in_flight_operations += 1
+        self._idle.clear()
+
+        self.read_command_queue.put_nowait(AxiLiteReadCmd(address, length, prot, event))
 
         return event
 
@@ -456,9 +459,6 @@ class AxiLiteMasterRead(Region, Reset):
         await event.wait()
         return event.data
 
-    async def _read_wrapper(self, address, length, prot, event):
-        event.set(await self.read(address, length, prot))
-
     def _handle_reset(self, state):
         if state:
             self.log.info("Reset asserted")
-- 
2.43.0


From dd4c4ac9cecbebb309cf440275bee66869c67bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:47 +0000
Subject: [PATCH 18/21] fix: AxiMaster keeps the byte lanes fixed within FIXED
 bursts

---
 cocotbext/axi/axi_master.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/cocotbext/axi/axi_master.py b/cocotbext/axi/axi_master.py
index 54fcc95..d971ece 100644
--- a/cocotbext/axi/axi_master.py
+++ b/cocotbext/axi/axi_master.py
@@ -90,6 +90,7 @@ class AxiReadCmd(NamedTuple):
 class AxiReadRespCmd(NamedTuple):
     address: int
     length: int
+    burst: AxiBurstType
     size: int
     cycles: int
     prot: AxiProt
@@ -480,7 +481,7 @@ class AxiMasterWrite(Region, Reset):
             word_addr = (cmd.address // self.byte_lanes) * self.byte_lanes
 
             start_offset = cmd.address % self.byte_lanes
-            end_offset = ((cmd.address + len(cmd.data) - 1) % self.byte_lanes) + 1
+            end_offset = ((cmd.address + len(cmd.data) - 1) % num_bytes) + 1
 
             cycles = (len(cmd.data) + (cmd.address % num_bytes) + num_bytes-1) // num_bytes
 
@@ -512,7 +513,7 @@ class AxiMasterWrite(Region, Reset):
                 if k == 0:
                     start = start_offset
                 if k == cycles-1:
-                    stop = end_offset
+                    stop = cycle_offset+end_offset
 
                 strb = (self.strb_mask << start) & self.strb_mask & (self.strb_mask >> (self.byte_lanes - stop))
 
@@ -577,7 +578,9 @@ class AxiMasterWrite(Region, Reset):
                     cur_addr = aligned_addr + num_bytes
                 else:
                     cur_addr += num_bytes
-                cycle_offset = (cycle_offset + num_bytes) % self.byte_lanes
+
+                if cmd.burst != AxiBurstType.FIXED:
+                    cycle_offset = (cycle_offset + num_bytes) % self.byte_lanes
 
             resp_cmd = AxiWriteRespCmd(cmd.address, len(cmd.data), cmd.size, cycles, cmd.prot, burst_list, cmd.event)
             self.tag_context_manager.start_cmd(awid, resp_cmd)
@@ -942,7 +945,7 @@ class AxiMasterRead(Region, Reset):
                 else:
                     cur_addr += num_bytes
 
-            resp_cmd = AxiReadRespCmd(cmd.address, cmd.length, cmd.size, cycles, cmd.prot, burst_list, cmd.event)
+            resp_cmd = AxiReadRespCmd(cmd.address, cmd.length, cmd.burst, cmd.size, cycles, cmd.prot, burst_list, cmd.event)
             self.tag_context_manager.start_cmd(arid, resp_cmd)
 
             self.current_read_command = None
@@ -1005,7 +1008,8 @@ class AxiMasterRead(Region, Reset):
                 for j in range(start, stop):
                     data.append((cycle_data >> j*8) & 0xff)
 
-                cycle_offset = (cycle_offset + num_bytes) % self.byte_lanes
+                if cmd.burst != AxiBurstType.FIXED:
+                    cycle_offset = (cycle_offset + num_bytes) % self.byte_lanes
 
                 first = False
 
-- 
2.43.0


From 17fc188468c25a6e9acad591c7dad7c38488cd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:47 +0000
Subject: [PATCH 19/21] fix: AxiMaster limits FIXED bursts to 16 transfers

---
 cocotbext/axi/axi_master.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cocotbext/axi/axi_master.py b/cocotbext/axi/axi_master.py
index d971ece..0c34598 100644
--- a/cocotbext/axi/axi_master.py
+++ b/cocotbext/axi/axi_master.py
@@ -528,6 +528,9 @@ class AxiMasterWrite(Region, Reset):
 
                     # split on burst length
                     burst_length = min(cycles-k, min(max(self.max_burst_len, 1), 256))
+                    # FIXED bursts are limited to 16 transfers
+                    if cmd.burst == AxiBurstType.FIXED:
+                        burst_length = min(burst_length, 16)
                     # split on 4k address boundary
                     burst_length = (min(burst_length*num_bytes, 0x1000-(cur_addr & 0xfff))+num_bytes-1)//num_bytes
 
@@ -914,6 +917,9 @@ class AxiMasterRead(Region, Reset):
 
                     # split on burst length
                     burst_length = min(cycles-k, min(max(self.max_burst_len, 1), 256))
+                    # FIXED bursts are limited to 16 transfers
+                    if cmd.burst == AxiBurstType.FIXED:
+                        burst_length = min(burst_length, 16)
                     # split on 4k address boundary
                     burst_length = (min(burst_length*num_bytes, 0x1000-(cur_addr & 0xfff))+num_bytes-1)//num_bytes
 
-- 
2.43.0


From 530cee8c35a362d4cf938d13b527a36f5cfff5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:15 +0000
Subject: [PATCH 20/21] fix: hexdump of memory models of the default size

---
 cocotbext/axi/memory.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cocotbext/axi/memory.py b/cocotbext/axi/memory.py
index e582002..787b95e 100644
--- a/cocotbext/axi/memory.py
+++ b/cocotbext/axi/memory.py
@@ -93,10 +93,10 @@ class Memory:
         return self.read_qwords(address, 1, byteorder)[0]
 
     def hexdump(self, address, length, prefix=""):
-        hexdump(self.mem, address, length, prefix=prefix)
+        hexdump(self.read(address, length), prefix=prefix, offset=address)
 
     def hexdump_lines(self, address, length, prefix=""):
-        return hexdump_lines(self.mem, address, length, prefix=prefix)
+        return hexdump_lines(self.read(address, length), prefix=prefix, offset=address)
 
     def hexdump_str(self, address, length, prefix=""):
-        return hexdump_str(self.mem, address, length, prefix=prefix)
+        return hexdump_str(self.read(address, length), prefix=prefix, offset=address)
-- 
2.43.0


From b723fc196a76f94ce2aa78f43060c6bb3f070131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:36 +0000
Subject: [PATCH 21/21] fix: do not lose an APB operation when reset hits right
 after it is dequeued

---
 cocotbext/axi/apb.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cocotbext/axi/apb.py b/cocotbext/axi/apb.py
index baeda68..bc1c3d2 100644
--- a/cocotbext/axi/apb.py
+++ b/cocotbext/axi/apb.py
@@ -339,6 +339,7 @@ class ApbMaster(ApbPause, Region, Reset):
         while True:
             if self.command_queue.empty():
                 cmd = await self.command_queue.get()
+                self.current_command = cmd
                 await clock_edge_event
             else:
                 cmd = self.command_queue.get_nowait()
-- 
2.43.0

