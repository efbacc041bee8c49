From c8c1c52ffe53c9bd1998c1199a8bbab8595fecf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:07 +0000
Subject: [PATCH 01/15] fix: wake a stream sink stalled on its queue limit when
 its queue is cleared

---
 cocotbext/axi/axis.py   | 1 +
 cocotbext/axi/stream.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/cocotbext/axi/axis.py b/cocotbext/axi/axis.py
index 6a4429e..8583779 100644
--- a/cocotbext/axi/axis.py
+++ b/cocotbext/axi/axis.py
@@ -362,6 +362,7 @@ class AxiStreamBase(Reset):
         self.dequeue_event.set()
         self.idle_event.set()
         self.active_event.clear()
+        self.wake_event.set()
         self.queue_occupancy_bytes = 0
         self.queue_occupancy_frames = 0
 
diff --git a/cocotbext/axi/stream.py b/cocotbext/axi/stream.py
index 0aa6625..36a9183 100644
--- a/cocotbext/axi/stream.py
+++ b/cocotbext/axi/stream.py
@@ -148,6 +148,7 @@ class StreamBase(Reset):
         self.dequeue_event.set()
         self.idle_event.set()
         self.active_event.clear()
+        self.wake_event.set()
 
     def _handle_reset(self, state):
         if state:
-- 
2.43.0


From bbc312c644b2d99d38a8db6b6b16ca5483899b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:07 +0000
Subject: [PATCH 02/15] fix: do not flush an already completed APB operation on
 reset

---
 cocotbext/axi/apb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/axi/apb.py b/cocotbext/axi/apb.py
index 50360d6..6faa6ae 100644
--- a/cocotbext/axi/apb.py
+++ b/cocotbext/axi/apb.py
@@ -454,7 +454,7 @@ class ApbMaster(ApbPause, Region, Reset):
                 read_resp = ApbReadResp(cmd.address, bytes(read_data), resp)
                 cmd.event.set(read_resp)
 
-            self.current_write_command = None
+            self.current_command = None
 
             self.in_flight_operations -= 1
 
-- 
2.43.0


From 33481f372388a7b9dcb4b1fbcc44e042e32fd8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:07 +0000
Subject: [PATCH 03/15] fix: release an APB operation when reset hits just
 after it was dequeued

---
 cocotbext/axi/apb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cocotbext/axi/apb.py b/cocotbext/axi/apb.py
index 6faa6ae..c39b488 100644
--- a/cocotbext/axi/apb.py
+++ b/cocotbext/axi/apb.py
@@ -339,10 +339,11 @@ class ApbMaster(ApbPause, Region, Reset):
         while True:
             if self.command_queue.empty():
                 cmd = await self.command_queue.get()
+                self.current_command = cmd
                 await clock_edge_event
             else:
                 cmd = self.command_queue.get_nowait()
-            self.current_command = cmd
+                self.current_command = cmd
 
             length = 0
             pwrite = False
-- 
2.43.0


From af339cf7c305557dc807b2c6e2a70451ea54cc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:07 +0000
Subject: [PATCH 04/15] fix: reject AXI master IDs that do not fit the ID
 signal

---
 cocotbext/axi/axi_master.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cocotbext/axi/axi_master.py b/cocotbext/axi/axi_master.py
index d041211..f1d3a89 100644
--- a/cocotbext/axi/axi_master.py
+++ b/cocotbext/axi/axi_master.py
@@ -299,7 +299,7 @@ class AxiMasterWrite(Region, Reset):
 
         if awid is None or awid < 0:
             awid = None
-        elif awid > self.id_count:
+        elif awid >= self.id_count:
             raise ValueError("Requested ID exceeds maximum ID allowed for ID signal width")
 
         burst = AxiBurstType(burst)
@@ -368,7 +368,7 @@ class AxiMasterWrite(Region, Reset):
 
         if awid is None or awid < 0:
             awid = None
-        elif awid > self.id_count:
+        elif awid >= self.id_count:
             raise ValueError("Requested ID exceeds maximum ID allowed for ID signal width")
 
         burst = AxiBurstType(burst)
@@ -734,7 +734,7 @@ class AxiMasterRead(Region, Reset):
 
         if arid is None or arid < 0:
             arid = None
-        elif arid > self.id_count:
+        elif arid >= self.id_count:
             raise ValueError("Requested ID exceeds maximum ID allowed for ID signal width")
 
         burst = AxiBurstType(burst)
@@ -791,7 +791,7 @@ class AxiMasterRead(Region, Reset):
 
         if arid is None or arid < 0:
             arid = None
-        elif arid > self.id_count:
+        elif arid >= self.id_count:
             raise ValueError("Requested ID exceeds maximum ID allowed for ID signal width")
 
         burst = AxiBurstType(burst)
-- 
2.43.0


From ec1a2c7a5614e21c9a81d4f1096d6b468da71511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:07 +0000
Subject: [PATCH 05/15] fix: make read_byte work on memory regions, windows and
 address spaces

---
 cocotbext/axi/address_space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocotbext/axi/address_space.py b/cocotbext/axi/address_space.py
index 4851940..ea99c53 100644
--- a/cocotbext/axi/address_space.py
+++ b/cocotbext/axi/address_space.py
@@ -85,7 +85,7 @@ class MemoryInterface:
         return await self.read_words(address, count, byteorder, 8, **kwargs)
 
     async def read_byte(self, address, **kwargs):
-        return (await self.read(address, 1, **kwargs)).data[0]
+        return bytes(await self.read(address, 1, **kwargs))[0]
 
     async def read_word(self, address, byteorder='little', ws=2, **kwargs):
         return (await self.read_words(address, 1, byteorder, ws, **kwargs))[0]
-- 
2.43.0


From 00788ad152e6653073c0a4beefa3863b9af34c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:07 +0000
Subject: [PATCH 06/15] fix: make write_byte work on mmap-backed memories

---
 cocotbext/axi/address_space.py | 2 +-
 cocotbext/axi/memory.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocotbext/axi/address_space.py b/cocotbext/axi/address_space.py
index ea99c53..cd517d8 100644
--- a/cocotbext/axi/address_space.py
+++ b/cocotbext/axi/address_space.py
@@ -117,7 +117,7 @@ class MemoryInterface:
         await self.write_words(address, data, byteorder, 8, **kwargs)
 
     async def write_byte(self, address, data, **kwargs):
-        await self.write(address, [data], **kwargs)
+        await self.write(address, bytes([data]), **kwargs)
 
     async def write_word(self, address, data, byteorder='little', ws=2, **kwargs):
         await self.write_words(address, [data], byteorder, ws, **kwargs)
diff --git a/cocotbext/axi/memory.py b/cocotbext/axi/memory.py
index a4199a8..a7fe1b9 100644
--- a/cocotbext/axi/memory.py
+++ b/cocotbext/axi/memory.py
@@ -55,7 +55,7 @@ class Memory:
         self.write_words(address, data, byteorder, 8)
 
     def write_byte(self, address, data):
-        self.write(address, [data])
+        self.write(address, bytes([data]))
 
     def write_word(self, address, data, byteorder='little', ws=2):
         self.write_words(address, [data], byteorder, ws)
-- 
2.43.0


From 59521b67880a7c8cf3640ca7202ec0cbe947bb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:07 +0000
Subject: [PATCH 07/15] fix: call methods of a wrapped peripheral object
 exactly once per access

---
 cocotbext/axi/address_space.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/cocotbext/axi/address_space.py b/cocotbext/axi/address_space.py
index cd517d8..efa0c0b 100644
--- a/cocotbext/axi/address_space.py
+++ b/cocotbext/axi/address_space.py
@@ -22,6 +22,7 @@ THE SOFTWARE.
 
 """
 
+import inspect
 import mmap
 
 from .buddy_allocator import BuddyAllocator
@@ -252,16 +253,15 @@ class PeripheralRegion(Region):
         self.obj = obj
 
     async def _read(self, address, length, **kwargs):
-        try:
-            return await self.obj.read(address, length, **kwargs)
-        except TypeError:
-            return self.obj.read(address, length, **kwargs)
+        result = self.obj.read(address, length, **kwargs)
+        if inspect.isawaitable(result):
+            result = await result
+        return result
 
     async def _write(self, address, data, **kwargs):
-        try:
-            await self.obj.write(address, data, **kwargs)
-        except TypeError:
-            self.obj.write(address, data, **kwargs)
+        result = self.obj.write(address, data, **kwargs)
+        if inspect.isawaitable(result):
+            await result
 
 
 class AddressSpace(Region):
-- 
2.43.0


From 570bd522ebbca79daac85b2439252c42e03ea0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:07 +0000
Subject: [PATCH 08/15] fix: keep the byte lanes of narrow FIXED bursts
 constant in the AXI master

---
 cocotbext/axi/axi_master.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cocotbext/axi/axi_master.py b/cocotbext/axi/axi_master.py
index f1d3a89..c5486bc 100644
--- a/cocotbext/axi/axi_master.py
+++ b/cocotbext/axi/axi_master.py
@@ -90,6 +90,7 @@ class AxiReadCmd(NamedTuple):
 class AxiReadRespCmd(NamedTuple):
     address: int
     length: int
+    burst: AxiBurstType
     size: int
     cycles: int
     prot: AxiProt
@@ -578,7 +579,8 @@ class AxiMasterWrite(Region, Reset):
                     cur_addr = aligned_addr + num_bytes
                 else:
                     cur_addr += num_bytes
-                cycle_offset = (cycle_offset + num_bytes) % self.byte_lanes
+                if cmd.burst != AxiBurstType.FIXED:
+                    cycle_offset = (cycle_offset + num_bytes) % self.byte_lanes
 
             resp_cmd = AxiWriteRespCmd(cmd.address, len(cmd.data), cmd.size, cycles, cmd.prot, burst_list, cmd.event)
             self.tag_context_manager.start_cmd(awid, resp_cmd)
@@ -945,7 +947,7 @@ class AxiMasterRead(Region, Reset):
                 else:
                     cur_addr += num_bytes
 
-            resp_cmd = AxiReadRespCmd(cmd.address, cmd.length, cmd.size, cycles, cmd.prot, burst_list, cmd.event)
+            resp_cmd = AxiReadRespCmd(cmd.address, cmd.length, cmd.burst, cmd.size, cycles, cmd.prot, burst_list, cmd.event)
             self.tag_context_manager.start_cmd(arid, resp_cmd)
 
             self.current_read_command = None
@@ -1008,7 +1010,8 @@ class AxiMasterRead(Region, Reset):
                 for j in range(start, stop):
                     data.append((cycle_data >> j*8) & 0xff)
 
-                cycle_offset = (cycle_offset + num_bytes) % self.byte_lanes
+                if cmd.burst != AxiBurstType.FIXED:
+                    cycle_offset = (cycle_offset + num_bytes) % self.byte_lanes
 
                 first = False
 
-- 
2.43.0


From cdf7c988179defbb3d444ee2e120e64ab913e00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:34 +0000
Subject: [PATCH 09/15] fix: count operations started with init_read/init_write
 as outstanding at once

---
 cocotbext/axi/apb.py         | 16 ++++++++--------
 cocotbext/axi/axi_master.py  | 25 +++++++++++--------------
 cocotbext/axi/axil_master.py | 16 ++++++++--------
 3 files changed, 27 insertions(+), 30 deletions(-)

diff --git a/cocotbext/axi/apb.py b/cocotbext/axi/apb.py
index c39b488..f246258 100644
--- a/cocotbext/axi/apb.py
+++ b/cocotbext/axi/apb.py
@@ -213,7 +213,10 @@ class ApbMaster(ApbPause, Region, Reset):
 
         data = bytes(data)
 
-        cocotb.start_soon(self._write_wrapper(address, bytes(data), prot, event))
+        self.in_flight_operations += 1
+        self._idle.clear()
+
+        self.command_queue.put_nowait(ApbWriteCmd(address, data, prot, event))
 
         return event
 
@@ -236,7 +239,10 @@ class ApbMaster(ApbPause, Region, Reset):
         if not self.pprot_present and prot != AxiProt.NONSECURE:
             raise ValueError("arprot sideband signal value specified, but signal is not connected")
 
-        cocotb.start_soon(self._read_wrapper(address, length, prot, event))
+        self.in_flight_operations += 1
+        self._idle.clear()
+
+        self.command_queue.put_nowait(ApbReadCmd(address, length, prot, event))
 
         return event
 
@@ -270,9 +276,6 @@ class ApbMaster(ApbPause, Region, Reset):
         await event.wait()
         return event.data
 
-    async def _write_wrapper(self, address, data, prot, event):
-        event.set(await self.write(address, data, prot))
-
     async def read(self, address, length, prot=AxiProt.NONSECURE):
         if address < 0 or address >= 2**self.address_width:
             raise ValueError("Address out of range")
@@ -296,9 +299,6 @@ class ApbMaster(ApbPause, Region, Reset):
         await event.wait()
         return event.data
 
-    async def _read_wrapper(self, address, length, prot, event):
-        event.set(await self.read(address, length, prot))
-
     def _handle_reset(self, state):
         if state:
             self.log.info("Reset asserted")
diff --git a/cocotbext/axi/axi_master.py b/cocotbext/axi/axi_master.py
index c5486bc..efd40ce 100644
--- a/cocotbext/axi/axi_master.py
+++ b/cocotbext/axi/axi_master.py
@@ -343,8 +343,12 @@ class AxiMasterWrite(Region, Reset):
 
         data = bytes(data)
 
-        cocotb.start_soon(self._write_wrapper(address, data, awid, burst, size,
-                lock, cache, prot, qos, region, user, wuser, event))
+        self.in_flight_operations += 1
+        self._idle.clear()
+
+        cmd = AxiWriteCmd(address, data, awid, burst, size, lock,
+            cache, prot, qos, region, user, wuser, event)
+        self.write_command_queue.put_nowait(cmd)
 
         return event
 
@@ -423,11 +427,6 @@ class AxiMasterWrite(Region, Reset):
         await event.wait()
         return event.data
 
-    async def _write_wrapper(self, address, data, awid, burst, size,
-            lock, cache, prot, qos, region, user, wuser, event):
-        event.set(await self.write(address, data, awid, burst, size,
-                lock, cache, prot, qos, region, user, wuser))
-
     def _handle_reset(self, state):
         if state:
             self.log.info("Reset asserted")
@@ -767,8 +766,11 @@ class AxiMasterRead(Region, Reset):
         if not self.aruser_present and user != 0:
             raise ValueError("aruser sideband signal value specified, but signal is not connected")
 
-        cocotb.start_soon(self._read_wrapper(address, length, arid, burst, size,
-                lock, cache, prot, qos, region, user, event))
+        self.in_flight_operations += 1
+        self._idle.clear()
+
+        cmd = AxiReadCmd(address, length, arid, burst, size, lock, cache, prot, qos, region, user, event)
+        self.read_command_queue.put_nowait(cmd)
 
         return event
 
@@ -835,11 +837,6 @@ class AxiMasterRead(Region, Reset):
         await event.wait()
         return event.data
 
-    async def _read_wrapper(self, address, length, arid, burst, size,
-            lock, cache, prot, qos, region, user, event):
-        event.set(await self.read(address, length, arid, burst, size,
-                lock, cache, prot, qos, region, user))
-
     def _handle_reset(self, state):
         if state:
             self.log.info("Reset asserted")
diff --git a/cocotbext/axi/axil_master.py b/cocotbext/axi/axil_master.py
index d40a1ef..0ab3948 100644
--- a/cocotbext/axi/axil_master.py
+++ b/cocotbext/axi/axil_master.py
@@ -170,7 +170,10 @@ class AxiLiteMasterWrite(Region, Reset):
 
         data = bytes(data)
 
-        cocotb.start_soon(self._write_wrapper(address, bytes(data), prot, event))
+        self.in_flight_operations += 1
+        self._idle.clear()
+
+        self.write_command_queue.put_nowait(AxiLiteWriteCmd(address, data, prot, event))
 
         return event
 
@@ -204,9 +207,6 @@ class AxiLiteMasterWrite(Region, Reset):
         await event.wait()
         return event.data
 
-    async def _write_wrapper(self, address, data, prot, event):
-        event.set(await self.write(address, data, prot))
-
     def _handle_reset(self, state):
         if state:
             self.log.info("Reset asserted")
@@ -422,7 +422,10 @@ class AxiLiteMasterRead(Region, Reset):
         if not self.arprot_present and prot != AxiProt.NONSECURE:
             raise ValueError("arprot sideband signal value specified, but signal is not connected")
 
-        cocotb.start_soon(self._read_wrapper(address, length, prot, event))
+        self.in_flight_operations += 1
+        self._idle.clear()
+
+        self.read_command_queue.put_nowait(AxiLiteReadCmd(address, length, prot, event))
 
         return event
 
@@ -456,9 +459,6 @@ class AxiLiteMasterRead(Region, Reset):
         await event.wait()
         return event.data
 
-    async def _read_wrapper(self, address, length, prot, event):
-        event.set(await self.read(address, length, prot))
-
     def _handle_reset(self, state):
         if state:
             self.log.info("Reset asserted")
-- 
2.43.0


From f1b92ad9e7827f1f665c6dda96a299fdd1a79a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:34 +0000
Subject: [PATCH 10/15] fix: support the default 2**64 byte size in the RAM
 models

---
 cocotbext/axi/memory.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cocotbext/axi/memory.py b/cocotbext/axi/memory.py
index a7fe1b9..4d0bfda 100644
--- a/cocotbext/axi/memory.py
+++ b/cocotbext/axi/memory.py
@@ -32,7 +32,8 @@ class Memory:
             self.mem = mem
         else:
             self.mem = SparseMemory(size)
-        self.size = len(self.mem)
+        # len() is limited to sys.maxsize
+        self.size = self.mem.size if isinstance(self.mem, SparseMemory) else len(self.mem)
         super().__init__(**kwargs)
 
     def read(self, address, length):
@@ -92,10 +93,10 @@ class Memory:
         return self.read_qwords(address, 1, byteorder)[0]
 
     def hexdump(self, address, length, prefix=""):
-        hexdump(self.mem, address, length, prefix=prefix)
+        hexdump(self.read(address, length), prefix=prefix, offset=address)
 
     def hexdump_lines(self, address, length, prefix=""):
-        return hexdump_lines(self.mem, address, length, prefix=prefix)
+        return hexdump_lines(self.read(address, length), prefix=prefix, offset=address)
 
     def hexdump_str(self, address, length, prefix=""):
-        return hexdump_str(self.mem, address, length, prefix=prefix)
+        return hexdump_str(self.read(address, length), prefix=prefix, offset=address)
-- 
2.43.0


From d9408ba987d409a1488a5ab37358f3394c961ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:34 +0000
Subject: [PATCH 11/15] fix: declare streams without a valid signal or with
 explicitly named handshake signals

---
 cocotbext/axi/stream.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cocotbext/axi/stream.py b/cocotbext/axi/stream.py
index 36a9183..038e16c 100644
--- a/cocotbext/axi/stream.py
+++ b/cocotbext/axi/stream.py
@@ -448,8 +448,9 @@ def define_stream(name, signals, optional_signals=None, valid_signal=None, ready
         for s in all_signals:
             if s.lower().endswith('valid'):
                 valid_signal = s
-    if valid_signal not in all_signals:
-        signals += valid_signal
+    else:
+        if valid_signal not in all_signals:
+            signals = signals + [valid_signal]
 
     if ready_signal is None:
         for s in all_signals:
@@ -457,7 +458,7 @@ def define_stream(name, signals, optional_signals=None, valid_signal=None, ready
                 ready_signal = s
     else:
         if ready_signal not in all_signals:
-            signals += ready_signal
+            signals = signals + [ready_signal]
 
     if signal_widths is None:
         signal_widths = {}
-- 
2.43.0


From 2311a033643dce11610e3c2eab4d0ea210485201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:34 +0000
Subject: [PATCH 12/15] fix: normalize and compact AXI stream frames with
 empty, scalar or absent sideband fields

---
 cocotbext/axi/axis.py | 49 +++++++++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 23 deletions(-)

diff --git a/cocotbext/axi/axis.py b/cocotbext/axi/axis.py
index 8583779..dbf763c 100644
--- a/cocotbext/axi/axis.py
+++ b/cocotbext/axi/axis.py
@@ -95,37 +95,34 @@ class AxiStreamFrame:
         # normalize all sideband signals to the same size as tdata
         n = len(self.tdata)
 
-        if self.tkeep is not None:
+        if self.tkeep:
             self.tkeep = self.tkeep[:n] + [self.tkeep[-1]]*(n-len(self.tkeep))
         else:
             self.tkeep = [1]*n
 
-        if self.tid is not None:
-            if type(self.tid) in (int, bool):
-                self.tid = [self.tid]*n
-            else:
-                self.tid = self.tid[:n] + [self.tid[-1]]*(n-len(self.tid))
+        if type(self.tid) in (int, bool):
+            self.tid = [self.tid]*n
+        elif self.tid:
+            self.tid = self.tid[:n] + [self.tid[-1]]*(n-len(self.tid))
         else:
             self.tid = [0]*n
 
-        if self.tdest is not None:
-            if type(self.tdest) in (int, bool):
-                self.tdest = [self.tdest]*n
-            else:
-                self.tdest = self.tdest[:n] + [self.tdest[-1]]*(n-len(self.tdest))
+        if type(self.tdest) in (int, bool):
+            self.tdest = [self.tdest]*n
+        elif self.tdest:
+            self.tdest = self.tdest[:n] + [self.tdest[-1]]*(n-len(self.tdest))
         else:
             self.tdest = [0]*n
 
-        if self.tuser is not None:
-            if type(self.tuser) in (int, bool):
-                self.tuser = [self.tuser]*n
-            else:
-                self.tuser = self.tuser[:n] + [self.tuser[-1]]*(n-len(self.tuser))
+        if type(self.tuser) in (int, bool):
+            self.tuser = [self.tuser]*n
+        elif self.tuser:
+            self.tuser = self.tuser[:n] + [self.tuser[-1]]*(n-len(self.tuser))
         else:
             self.tuser = [0]*n
 
     def compact(self):
-        if len(self.tkeep):
+        if self.tkeep:
             # remove tkeep=0 bytes
             for k in range(len(self.tdata)-1, -1, -1):
                 if not self.tkeep[k]:
@@ -133,11 +130,11 @@ class AxiStreamFrame:
                         del self.tdata[k]
                     if k < len(self.tkeep):
                         del self.tkeep[k]
-                    if k < len(self.tid):
+                    if type(self.tid) is list and k < len(self.tid):
                         del self.tid[k]
-                    if k < len(self.tdest):
+                    if type(self.tdest) is list and k < len(self.tdest):
                         del self.tdest[k]
-                    if k < len(self.tuser):
+                    if type(self.tuser) is list and k < len(self.tuser):
                         del self.tuser[k]
 
         # remove tkeep
@@ -145,17 +142,23 @@ class AxiStreamFrame:
 
         # clean up other sideband signals
         # either remove or consolidate if values are identical
-        if len(self.tid) == 0:
+        if self.tid is None or type(self.tid) in (int, bool):
+            pass
+        elif len(self.tid) == 0:
             self.tid = None
         elif all(self.tid[0] == i for i in self.tid):
             self.tid = self.tid[0]
 
-        if len(self.tdest) == 0:
+        if self.tdest is None or type(self.tdest) in (int, bool):
+            pass
+        elif len(self.tdest) == 0:
             self.tdest = None
         elif all(self.tdest[0] == i for i in self.tdest):
             self.tdest = self.tdest[0]
 
-        if len(self.tuser) == 0:
+        if self.tuser is None or type(self.tuser) in (int, bool):
+            pass
+        elif len(self.tuser) == 0:
             self.tuser = None
         elif all(self.tuser[0] == i for i in self.tuser):
             self.tuser = self.tuser[0]
-- 
2.43.0


From aa3d489807d69401abfc7737d905669fcf50fec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:07 +0000
Subject: [PATCH 13/15] fix: never allocate buddy allocator blocks past the end
 of the managed range

---
 cocotbext/axi/buddy_allocator.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/cocotbext/axi/buddy_allocator.py b/cocotbext/axi/buddy_allocator.py
index fba90bc..224b71a 100644
--- a/cocotbext/axi/buddy_allocator.py
+++ b/cocotbext/axi/buddy_allocator.py
@@ -42,25 +42,22 @@ class BuddyAllocator:
         orig_bucket = bucket
 
         while bucket < len(self.free_lists):
-            if not self.free_lists[bucket]:
-                # find free block
+            # find free block that fits (blocks may extend past the end if size is not a power of two)
+            block = next((b for b in self.free_lists[bucket] if b+size <= self.size), None)
+            if block is None:
                 bucket += 1
                 continue
 
+            self.free_lists[bucket].remove(block)
+
             while bucket > orig_bucket:
                 # split block
-                block = self.free_lists[bucket].pop(0)
                 bucket -= 1
-                self.free_lists[bucket].append(block)
                 self.free_lists[bucket].append(block+2**bucket)
 
-            if self.free_lists[bucket]:
-                # allocate
-                block = self.free_lists[bucket].pop(0)
-                self.allocations[block] = bucket
-                return block
-
-            break
+            # allocate
+            self.allocations[block] = bucket
+            return block
 
         raise Exception("out of memory")
 
-- 
2.43.0


From 795a7439ecdc2e602040e2a5895a581a3e5b3e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:28 +0000
Subject: [PATCH 14/15] fix: select the right lanes for the last beat of a
 narrow FIXED burst in the AXI master

The end lane was computed from the address of the last byte as if the burst
were incrementing, so the last beat lost or misplaced its data.
---
 cocotbext/axi/axi_master.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocotbext/axi/axi_master.py b/cocotbext/axi/axi_master.py
index efd40ce..d8d1675 100644
--- a/cocotbext/axi/axi_master.py
+++ b/cocotbext/axi/axi_master.py
@@ -481,7 +481,7 @@ class AxiMasterWrite(Region, Reset):
             word_addr = (cmd.address // self.byte_lanes) * self.byte_lanes
 
             start_offset = cmd.address % self.byte_lanes
-            end_offset = ((cmd.address + len(cmd.data) - 1) % self.byte_lanes) + 1
+            end_offset = ((cmd.address + len(cmd.data) - 1) % num_bytes) + 1
 
             cycles = (len(cmd.data) + (cmd.address % num_bytes) + num_bytes-1) // num_bytes
 
@@ -513,7 +513,7 @@ class AxiMasterWrite(Region, Reset):
                 if k == 0:
                     start = start_offset
                 if k == cycles-1:
-                    stop = end_offset
+                    stop = cycle_offset + end_offset
 
                 strb = (self.strb_mask << start) & self.strb_mask & (self.strb_mask >> (self.byte_lanes - stop))
 
-- 
2.43.0


From c25f0c443b5108bf9ced358e79be2bfaffa0457b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:48 +0000
Subject: [PATCH 15/15] fix: report absolute addresses of regions and windows
 that were built before their parent was registered

---
 cocotbext/axi/address_space.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cocotbext/axi/address_space.py b/cocotbext/axi/address_space.py
index efa0c0b..f95b3d9 100644
--- a/cocotbext/axi/address_space.py
+++ b/cocotbext/axi/address_space.py
@@ -35,6 +35,7 @@ class MemoryInterface:
         self._parent = parent
         self._size = size
         self._base = base
+        self._parent_address = None
         self.window_type = Window
         self.window_pool_type = WindowPool
         super().__init__(**kwargs)
@@ -49,6 +50,8 @@ class MemoryInterface:
 
     @property
     def base(self):
+        if self._parent_address is not None:
+            return self._parent.get_absolute_address(self._parent_address)
         return self._base
 
     def check_range(self, address, length=0):
@@ -154,6 +157,7 @@ class Window(MemoryInterface):
     def __init__(self, parent, offset, size, base=0, **kwargs):
         super().__init__(size, base=base, parent=parent, **kwargs)
         self._offset = offset
+        self._parent_address = offset
 
     @property
     def offset(self):
@@ -289,10 +293,8 @@ class AddressSpace(Region):
         if self.find_regions(base, size):
             raise ValueError("overlaps existing region")
         region._parent = self
-        if offset == 0:
-            region._base = self.get_absolute_address(base)
-        else:
-            region._base = None
+        region._base = None
+        region._parent_address = base if offset == 0 else None
         self.regions.append((base, size, offset, region))
 
     async def read(self, address, length, **kwargs):
-- 
2.43.0

