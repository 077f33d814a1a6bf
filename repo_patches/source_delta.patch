From 7c90e7f973ee84c366db9d748595eb80eabed5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:58 +0000
Subject: [PATCH 01/30] fix: compute the data slice of every Modbus TCP write
 request

A write longer than the per-request maximum failed with an unbound local.
---
 sunspec/core/modbus/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 7509187..11b4d8e 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -943,8 +943,8 @@ class ModbusClientDeviceTCP(object):
                     write_count = self.max_count
                 else:
                     write_count = count
-                    start = (write_offset * 2)
-                    end = int((write_offset + write_count) * 2)
+                start = int(write_offset * 2)
+                end = int((write_offset + write_count) * 2)
                 self._write(addr + write_offset, data[start:end])
                 count -= write_count
                 write_offset += write_count
-- 
2.43.0


From d0755226cb4be9f3fc94bab3acb8c6f801c2f0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:59 +0000
Subject: [PATCH 02/30] fix: leave the Modbus TCP device disconnected after a
 failed connect or close

The half-open socket was kept, so every later request used it and failed.
---
 sunspec/core/modbus/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 11b4d8e..4f0fe5e 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -727,6 +727,7 @@ class ModbusClientDeviceTCP(object):
 
             self.socket.connect((self.ipaddr, self.ipport))
         except Exception as e:
+            self.disconnect()
             raise ModbusClientError('Connection error: %s' % str(e))
 
     def disconnect(self):
@@ -736,9 +737,9 @@ class ModbusClientDeviceTCP(object):
         try:
             if self.socket:
                 self.socket.close()
-            self.socket = None
         except Exception:
             pass
+        self.socket = None
 
     def _read(self, addr, count, op=FUNC_READ_HOLDING):
 
-- 
2.43.0


From 6118a85bce7f2a209af1c17aa76d3c0661424123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:59 +0000
Subject: [PATCH 03/30] fix: report receive failures as Modbus client errors

Socket timeouts and serial port errors escaped as raw OSErrors.
---
 sunspec/core/modbus/client.py | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 4f0fe5e..242acc1 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -236,14 +236,17 @@ class ModbusClientRTU(object):
                 s += '%02X' % (ord(c))
             trace_func(s)
 
-        self.serial.flushInput()
         try:
+            self.serial.flushInput()
             self.serial.write(req)
         except Exception as e:
             raise ModbusClientError('Serial write error: %s' % str(e))
 
         while len_remaining > 0:
-            c = self.serial.read(len_remaining)
+            try:
+                c = self.serial.read(len_remaining)
+            except Exception as e:
+                raise ModbusClientError('Serial read error: %s' % str(e))
             if type(c) == bytes and sys.version_info > (3,):
                 temp = ""
                 for i in c:
@@ -359,8 +362,8 @@ class ModbusClientRTU(object):
                 s += '%02X' % (ord(c))
             trace_func(s)
 
-        self.serial.flushInput()
         try:
+            self.serial.flushInput()
             if sys.version_info > (3,):
                 req = bytes(req, "latin-1")
             self.serial.write(req)
@@ -368,7 +371,10 @@ class ModbusClientRTU(object):
             raise ModbusClientError('Serial write error: %s' % str(e))
 
         while len_remaining > 0:
-            c = self.serial.read(len_remaining)
+            try:
+                c = self.serial.read(len_remaining)
+            except Exception as e:
+                raise ModbusClientError('Serial read error: %s' % str(e))
             if type(c) == bytes and sys.version_info > (3,):
                 temp = ""
                 for i in c:
@@ -762,7 +768,12 @@ class ModbusClientDeviceTCP(object):
             raise ModbusClientError('Socket write error: %s' % str(e))
 
         while len_remaining > 0:
-            c = self.socket.recv(len_remaining)
+            try:
+                c = self.socket.recv(len_remaining)
+            except socket.timeout:
+                raise ModbusClientTimeout('Response timeout')
+            except Exception as e:
+                raise ModbusClientError('Socket read error: %s' % str(e))
             # print('c = {0}'.format(c))
             len_read = len(c);
             if len_read > 0:
@@ -877,7 +888,12 @@ class ModbusClientDeviceTCP(object):
             raise ModbusClientError('Socket write error: %s' % str(e))
 
         while len_remaining > 0:
-            c = self.socket.recv(len_remaining)
+            try:
+                c = self.socket.recv(len_remaining)
+            except socket.timeout:
+                raise ModbusClientTimeout('Response timeout')
+            except Exception as e:
+                raise ModbusClientError('Socket read error: %s' % str(e))
             # print('c = {0}'.format(c))
             len_read = len(c);
             if len_read > 0:
-- 
2.43.0


From 843fd18b335886fb2262d232b4d6728e25878a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:00 +0000
Subject: [PATCH 04/30] fix: report map file failures of mapped devices as
 Modbus client errors

They escaped the client error handling, so a scan stopped at the first base
address that the map does not have.
---
 sunspec/core/modbus/client.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 242acc1..9789122 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -1023,9 +1023,12 @@ class ModbusClientDeviceMapped(object):
 
         if name is not None:
             self.modbus_map = mbmap.ModbusMap(slave_id)
-            self.modbus_map.from_xml(name, pathlist)
+            try:
+                self.modbus_map.from_xml(name, pathlist)
+            except mbmap.ModbusMapError as e:
+                raise ModbusClientError(str(e))
         else:
-            raise mbmap.ModbusMapError('No modbus map file provided during initialization')
+            raise ModbusClientError('No modbus map file provided during initialization')
 
     def close(self):
         """Close the device. Called when device is not longer in use.
@@ -1054,7 +1057,10 @@ class ModbusClientDeviceMapped(object):
         """
 
         if self.modbus_map is not None:
-            return self.modbus_map.read(addr, count, op)
+            try:
+                return self.modbus_map.read(addr, count, op)
+            except mbmap.ModbusMapError as e:
+                raise ModbusClientError(str(e))
         else:
             raise ModbusClientError('No modbus map set for device')
 
@@ -1072,7 +1078,10 @@ class ModbusClientDeviceMapped(object):
         """
 
         if self.modbus_map is not None:
-            return self.modbus_map.write(addr, data)
+            try:
+                return self.modbus_map.write(addr, data)
+            except mbmap.ModbusMapError as e:
+                raise ModbusClientError(str(e))
         else:
             raise ModbusClientError('No modbus map set for device')
 
-- 
2.43.0


From a42e8e27921ed443018a7397e04a1465c9b2822f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:00 +0000
Subject: [PATCH 05/30] fix: report connect failures of a scan as client errors
 and always disconnect

A refused connection escaped as a Modbus error and a failed scan left its
connection open.
---
 sunspec/core/client.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index 4962a9a..c78036f 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -232,16 +232,27 @@ class ClientDevice(device.Device):
         SunSpec model definitions.
         """
 
-        error = ''
-
         connect = False
         if self.modbus_device and type(self.modbus_device) == modbus.ModbusClientDeviceTCP:
-            self.modbus_device.connect()
+            try:
+                self.modbus_device.connect()
+            except modbus.ModbusClientError as e:
+                raise SunSpecClientError('Modbus error: %s' % str(e))
             connect = True
 
             if delay is not None:
                 time.sleep(delay)
 
+        try:
+            self._scan(progress, delay)
+        finally:
+            if connect:
+                self.modbus_device.disconnect()
+
+    def _scan(self, progress=None, delay=None):
+
+        error = ''
+
         if self.base_addr is None:
             for addr in self.base_addr_list:
                 # print('trying base address %s' % (addr))
@@ -303,9 +314,6 @@ class ClientDevice(device.Device):
                 error = 'Unknown error'
             raise SunSpecClientError(error)
 
-        if connect:
-            self.modbus_device.disconnect()
-
 class ClientModel(device.Model):
     """A derived class based on :const:`sunspec.core.device.Model`. It adds
     Modbus device access capability to the model base class.
-- 
2.43.0


From fe7552917b8f10b3510aa9f1026577d85df4bccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:01 +0000
Subject: [PATCH 06/30] fix: scan a device whose base address is already known

The first model id was taken from an unbound local.
---
 sunspec/core/client.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index c78036f..0708938 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -270,6 +270,8 @@ class ClientDevice(device.Device):
 
                 if delay is not None:
                     time.sleep(delay)
+        else:
+            data = self.read(self.base_addr, 3)
 
         if self.base_addr is not None:
             # print('base address = %s' % (self.base_addr))
-- 
2.43.0


From c0e1d2e430dad3d4205e045ae57517bea63c23e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:01 +0000
Subject: [PATCH 07/30] fix: treat uint64 and acc64 points as unsigned

Large values were read as negative, an unimplemented uint64 was read as -1 and
values from 2**63 could not be written.
---
 sunspec/core/suns.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sunspec/core/suns.py b/sunspec/core/suns.py
index 3204939..063be93 100644
--- a/sunspec/core/suns.py
+++ b/sunspec/core/suns.py
@@ -182,8 +182,8 @@ suns_point_type_info = {
     SUNS_TYPE_BITFIELD32: (2, suns_is_impl_bitfield32, util.data_to_u32, util.u32_to_data, suns_to_long, 0),
     SUNS_TYPE_IPADDR: (2, suns_is_impl_ipaddr, util.data_to_u32, util.u32_to_data, suns_to_long, 0),
     SUNS_TYPE_INT64: (4, suns_is_impl_int64, util.data_to_s64, util.s64_to_data, suns_to_long, 0),
-    SUNS_TYPE_UINT64: (4, suns_is_impl_uint64, util.data_to_s64, util.s64_to_data, suns_to_long, 0),
-    SUNS_TYPE_ACC64: (4, suns_is_impl_acc64, util.data_to_s64, util.s64_to_data, suns_to_long, 0),
+    SUNS_TYPE_UINT64: (4, suns_is_impl_uint64, util.data_to_u64, util.u64_to_data, suns_to_long, 0),
+    SUNS_TYPE_ACC64: (4, suns_is_impl_acc64, util.data_to_u64, util.u64_to_data, suns_to_long, 0),
     SUNS_TYPE_IPV6ADDR: (8, suns_is_impl_ipv6addr, util.data_to_ipv6addr, util.ipv6addr_to_data, suns_to_str, 0),
     SUNS_TYPE_FLOAT32: (2, suns_is_impl_float32, util.data_to_float, util.float_to_data32, suns_to_float, 0),
     SUNS_TYPE_STRING: (None, suns_is_impl_string, util.data_to_str, util.str_to_data, suns_to_str, ''),
-- 
2.43.0


From 3e14d3c1c6773b7de3df39116c38d143712bbcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:01 +0000
Subject: [PATCH 08/30] fix: accept the length argument in eui48_to_data

Every write of an eui48 point failed with a TypeError.
---
 sunspec/core/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/util.py b/sunspec/core/util.py
index 2c59734..0475d42 100644
--- a/sunspec/core/util.py
+++ b/sunspec/core/util.py
@@ -150,7 +150,7 @@ def str_to_data(s, slen=None):
         slen += 1
     return struct.pack(str(slen) + 's', s)
 
-def eui48_to_data(eui48):
+def eui48_to_data(eui48, len=None):
     return (b'\x00\x00' + base64.b16decode(eui48.replace(':', '')))
 
 
-- 
2.43.0


From 1ac3b25cc6f0dc7f1928d93165e61e4ca88f5d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:02 +0000
Subject: [PATCH 09/30] fix: encode string points to exactly the length of the
 point

A point shorter than 8 registers got an extra byte, which made the write
malformed and shifted the points written with it.
---
 sunspec/core/util.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sunspec/core/util.py b/sunspec/core/util.py
index 0475d42..f86d4d2 100644
--- a/sunspec/core/util.py
+++ b/sunspec/core/util.py
@@ -141,13 +141,13 @@ def float_to_data(f, len=None):
     return struct.pack('>d', f)
 
 def str_to_data(s, slen=None):
-    if slen is None:
-        slen = len(s)
     if sys.version_info > (3,):
         s = bytes(s, 'latin-1')
-    if slen < 16:
-        s += b'\x00'
-        slen += 1
+    if slen is None:
+        slen = len(s)
+        if slen < 16:
+            s += b'\x00'
+            slen += 1
     return struct.pack(str(slen) + 's', s)
 
 def eui48_to_data(eui48, len=None):
-- 
2.43.0


From 43e64a14d4ac4969507238e0a2789430fe86cb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:02 +0000
Subject: [PATCH 10/30] fix: load PICS documents that give a base address or
 omit a model length

Both failed with a TypeError.
---
 sunspec/core/device.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index cafc223..66d13d7 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -165,7 +165,7 @@ class Device(object):
                 d = element
             if d.tag != pics.PICS_DEVICE:
                 raise SunSpecError("Unexpected device tag: '%s'" % (d.tag))
-            self.base_addr = d.attrib.get(pics.PICS_ATTR_BASE_ADDR, pics.PICS_BASE_ADDR_DEFAULT)
+            self.base_addr = int(d.attrib.get(pics.PICS_ATTR_BASE_ADDR, pics.PICS_BASE_ADDR_DEFAULT))
             addr = self.base_addr + 2
 
             for m in d.findall('*'):
@@ -177,10 +177,8 @@ class Device(object):
                 model_id = m.attrib.get(pics.PICS_ATTR_ID)
                 if model_id is None:
                     raise SunSpecError('Module id error')
-                model_len = m.attrib.get(pics.PICS_ATTR_LEN)
-                if model_len is not None:
-                    # raise SunSpecError('Module len error in model %d' % (model_id))
-                    model_len = int(model_len)
+                # a length of 0 selects the length in the model definition
+                model_len = int(m.attrib.get(pics.PICS_ATTR_LEN, 0))
 
                 # move address past model id and length (even though address is not real in the case)
                 model = Model(self, model_id, addr + 2, model_len)
-- 
2.43.0


From a3975eb136ced22717d78db71026cfff401fbfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:03 +0000
Subject: [PATCH 11/30] fix: format the unresolved scale factor and attribute
 count messages

Building them raised an unrelated TypeError or AttributeError.
---
 sunspec/core/device.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index 66d13d7..90a9bb2 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -763,7 +763,7 @@ class Model(object):
                         if point.sf_point is None:
                             # ### what state should model be left in on exception
                             raise SunSpecError('Unable to resolve scale factor point %s for point %s in model %s' %
-                                point.point_type.sf, point.point_type.pid, self.id)
+                                (point.point_type.sf, point.point_type.id, self.id))
 
                 block_addr += block_len
                 block_type = self.model_type.repeating_block
@@ -1427,7 +1427,7 @@ class PointType(object):
         if point_type is None:
             return "PointType '%s' is None" % (str(self.id))
         if len(self.__dict__) != len(point_type.__dict__):
-            return "PointType '%s' attribute count not equal': %s  %s" % (str(self.id))
+            return "PointType '%s' attribute count not equal: %d  %d" % (str(self.id), len(self.__dict__), len(point_type.__dict__))
         for k, v in self.__dict__.items():
             if k != 'block_type':
                 value = point_type.__dict__.get(k)
-- 
2.43.0


From 7bddcbd73516a81207a08be567ee4fccd6dff56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:03 +0000
Subject: [PATCH 12/30] fix: keep points marked as modified until they have
 been written

A failed write cleared the marks, so a repeated write sent nothing.
---
 sunspec/core/client.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index 0708938..5ce906d 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -428,6 +428,7 @@ class ClientModel(device.Model):
         addr = None
         next_addr = None
         data = b''
+        pending = []
 
         for block in self.blocks:
             for point in block.points_list:
@@ -441,13 +442,19 @@ class ClientModel(device.Model):
                     else:
                         if point_addr != next_addr:
                             block.model.device.write(addr, data)
+                            for written in pending:
+                                written.dirty = False
+                            pending = []
                             addr = point_addr
                             data = b''
                     next_addr = point_addr + point_len
                     data += point_data
-                    point.dirty = False
+                    pending.append(point)
             if addr is not None:
                 block.model.device.write(addr, data)
+                for written in pending:
+                    written.dirty = False
+                pending = []
                 addr = None
 
 class ClientBlock(device.Block):
-- 
2.43.0


From fa399e9baf9dacca12fb4b7a24a90042e1ec5c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:04 +0000
Subject: [PATCH 13/30] fix: read unimplemented points that have a scale factor
 as None

Reading the value raised a TypeError.
---
 sunspec/core/device.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index 90a9bb2..e27847b 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -508,7 +508,7 @@ class Point(object):
     # use older property format to support earlier python 2.x versions
     def value_getter(self):
 
-        if self.value_sf:
+        if self.value_sf and self.value_base is not None:
             return self.value_base * math.pow(10, self.value_sf)
         else:
             return self.value_base
-- 
2.43.0


From 64cafdbf50b298289cb6073b616ab250acecbc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:04 +0000
Subject: [PATCH 14/30] fix: clear the value of a point that PICS data marks as
 not implemented

A repeating block kept the value given for the first block, so a saved device
was not restored.
---
 sunspec/core/device.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index e27847b..782b3f9 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -548,7 +548,9 @@ class Point(object):
         else:
             self.impl = False
 
-        if self.impl and value is not None:
+        if not self.impl:
+            self.value_base = None
+        elif value is not None:
             self.value_base = value
 
     def to_pics(self, parent):
-- 
2.43.0


From 755cc8662726e7d62b3e1fbf1c96c3aad2d8840c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:05 +0000
Subject: [PATCH 15/30] fix: reject PICS repeating block indexes that are out
 of range

The index one past the end raised an IndexError and index 0 changed the fixed
block.
---
 sunspec/core/device.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index 782b3f9..be038dc 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -818,7 +818,7 @@ class Model(object):
                             block.from_pics(b)
                 else:
                     block_index = int(block_index)
-                    if len(self.blocks) < block_index:
+                    if not 0 < block_index < len(self.blocks):
                         raise SunSpecError('Block index out of range: %s' % (str(block_index)))
                     self.blocks[block_index].from_pics(b)
             else:
-- 
2.43.0


From 18a57f0bb203f3c65c8f32de4d244d4fb8f3232e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:05 +0000
Subject: [PATCH 16/30] fix: reject repeating blocks without a length

Loading such a model never ended.
---
 sunspec/core/device.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index be038dc..72d69a7 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -776,6 +776,8 @@ class Model(object):
                 block_len = int(block_type.len)
                 if end_addr == block_end:
                     break
+                if block_len <= 0:
+                    raise SunSpecError('Repeating block of model %s has no length' % (self.id))
         else:
             raise SunSpecError('Unknown model type - id: %s' % str(self.id))
 
-- 
2.43.0


From d23e9acbec275f2769049344154a1892d77c4e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:05 +0000
Subject: [PATCH 17/30] fix: compare symbols by content

Two devices loaded from the same definitions were reported as not equal.
---
 sunspec/core/device.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index 72d69a7..740da93 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -1471,6 +1471,16 @@ class Symbol(object):
             if self.id is None:
                 raise SunSpecError('Missing point id attribute')
 
+    def __eq__(self, symbol):
+
+        return isinstance(symbol, Symbol) and self.__dict__ == symbol.__dict__
+
+    def __ne__(self, symbol):
+
+        return not self == symbol
+
+    __hash__ = None
+
     def __str__(self):
 
         return 'Symbol: id = {} value = {}'.format(self.id, self.value)
-- 
2.43.0


From 690127c772ae525c519b112e4c1b911c5218c69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:06 +0000
Subject: [PATCH 18/30] fix: search the directories that follow a zip file in a
 path list

The zip file stayed selected for every later path and was never closed.
---
 sunspec/core/util.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/sunspec/core/util.py b/sunspec/core/util.py
index f86d4d2..22c2331 100644
--- a/sunspec/core/util.py
+++ b/sunspec/core/util.py
@@ -204,12 +204,10 @@ class PathList(object):
     """
     def read(self, filename):
 
-        file_path = ''
-        zip_file_path = ''
-
         # traverse path list until first instance of file found
         for p in self.path:
             file_path = ''
+            zip_file_path = ''
             element_list = p.split(os.sep)
             sep = os.sep
 
@@ -234,12 +232,12 @@ class PathList(object):
                 file_path += sep
             file_path  += filename
             if zip_file_path:
-                zip_file = zipfile.ZipFile(zip_file_path)
-                try:
-                    zip_file.getinfo(file_path)
-                except Exception as e:
-                    continue
-                return zip_file.read(file_path)
+                with zipfile.ZipFile(zip_file_path) as zip_file:
+                    try:
+                        zip_file.getinfo(file_path)
+                    except Exception as e:
+                        continue
+                    return zip_file.read(file_path)
             else:
                 if os.path.exists(file_path):
                     with open(file_path, 'rb') as f:
-- 
2.43.0


From 3f19f5e39fa1f4cc7b1682664102658c10df0cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:06 +0000
Subject: [PATCH 19/30] fix: derive whole register counts from map contents

A string without a length was truncated or rejected, and a hex block without a
length could not be read to its end or saved and loaded again.
---
 sunspec/core/modbus/mbmap.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sunspec/core/modbus/mbmap.py b/sunspec/core/modbus/mbmap.py
index 0a010d3..e7d086d 100644
--- a/sunspec/core/modbus/mbmap.py
+++ b/sunspec/core/modbus/mbmap.py
@@ -140,7 +140,7 @@ class ModbusMap(object):
                             else:
                                 data += c
 
-            mmr = ModbusMapRegs(offset, len(data)/2, data, MBMAP_REGS_ACCESS_RW)
+            mmr = ModbusMapRegs(offset, len(data) // 2, data, MBMAP_REGS_ACCESS_RW)
             self.regs.append(mmr)
             f.close()
         except Exception as e:
@@ -248,7 +248,7 @@ class ModbusMap(object):
                     rlen = 4
                 elif rtype == MBMAP_REGS_TYPE_STRING:
                     if rlen == 0:
-                        rlen = (len(text) + 3)/4
+                        rlen = (len(text) + 1) // 2
 
                     # Python 3 compatibility for byte strings
                     if sys.version_info > (3,):
@@ -263,7 +263,7 @@ class ModbusMap(object):
                     if text_len % 4 != 0:
                         raise ModbusMapError('Hex string content length must be a multiple of 4 bytes')
                     if rlen == 0:
-                        rlen = text_len/4
+                        rlen = text_len // 4
                     text_index = 0
                     while text_index < text_len:
                         c = struct.pack('B', int(text[text_index:text_index + 2], 16))
-- 
2.43.0


From 87c5bc1274eb2c63764bc27c77d02c797d32ab3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:07 +0000
Subject: [PATCH 20/30] fix: reject map registers with more hex data than
 registers

The excess shifted every register that follows in the block.
---
 sunspec/core/modbus/mbmap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sunspec/core/modbus/mbmap.py b/sunspec/core/modbus/mbmap.py
index e7d086d..2988f3d 100644
--- a/sunspec/core/modbus/mbmap.py
+++ b/sunspec/core/modbus/mbmap.py
@@ -264,6 +264,8 @@ class ModbusMap(object):
                         raise ModbusMapError('Hex string content length must be a multiple of 4 bytes')
                     if rlen == 0:
                         rlen = text_len // 4
+                    if rlen * 4 < text_len:
+                        raise ModbusMapError('Hex string content is longer than the register length')
                     text_index = 0
                     while text_index < text_len:
                         c = struct.pack('B', int(text[text_index:text_index + 2], 16))
-- 
2.43.0


From 9db6a70ac4421d64caf2b476b860fed1e29c4e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:07 +0000
Subject: [PATCH 21/30] fix: load the base address of a map as a number

Adding registers by address failed and equal maps were reported as different.
---
 sunspec/core/modbus/mbmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/modbus/mbmap.py b/sunspec/core/modbus/mbmap.py
index 2988f3d..d1ea804 100644
--- a/sunspec/core/modbus/mbmap.py
+++ b/sunspec/core/modbus/mbmap.py
@@ -186,7 +186,7 @@ class ModbusMap(object):
             if value is None:
                 raise ModbusMapError('Unsupported function: %s' % (func))
             self.func = value
-            self.base_addr = root.attrib.get(MBMAP_ADDR, 40000)
+            self.base_addr = int(root.attrib.get(MBMAP_ADDR, MBMAP_BASE_ADDR_DEFAULT))
             self.ns = root.attrib.get(MBMAP_NS)
             self.lid = root.attrib.get(MBMAP_LID)
             self.mapid = root.attrib.get(MBMAP_MAPID)
-- 
2.43.0


From 09d8ffc069ee73b63b776f02d9cd90799647cd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:07 +0000
Subject: [PATCH 22/30] fix: save the access of map registers

Writable registers were read-only after saving and loading a map.
---
 sunspec/core/modbus/mbmap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sunspec/core/modbus/mbmap.py b/sunspec/core/modbus/mbmap.py
index d1ea804..ea1274b 100644
--- a/sunspec/core/modbus/mbmap.py
+++ b/sunspec/core/modbus/mbmap.py
@@ -316,7 +316,8 @@ class ModbusMap(object):
             element = ET.SubElement(parent, MBMAP_ROOT, attrib=attr)
 
         for regs in self.regs:
-            e = ET.SubElement(element, MBMAP_REGS, attrib={MBMAP_REGS_OFFSET: str(regs.offset), MBMAP_REGS_LEN: str(regs.count)})
+            e = ET.SubElement(element, MBMAP_REGS, attrib={MBMAP_REGS_OFFSET: str(regs.offset), MBMAP_REGS_LEN: str(regs.count),
+                                                                MBMAP_REGS_ACCESS: regs.access})
 
             if no_data is False:
                 s = ''
-- 
2.43.0


From fa36c5857ef4f5be9b2a78c36f891df6b2340dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:08 +0000
Subject: [PATCH 23/30] fix: leave the map unchanged by a write that does not
 fit

The registers that exist were overwritten before the error was raised.
---
 sunspec/core/modbus/mbmap.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sunspec/core/modbus/mbmap.py b/sunspec/core/modbus/mbmap.py
index ea1274b..c2fd87c 100644
--- a/sunspec/core/modbus/mbmap.py
+++ b/sunspec/core/modbus/mbmap.py
@@ -419,7 +419,8 @@ class ModbusMap(object):
         """
 
         data_len = len(data)
-        count_remaining = data_len/2
+        count_remaining = data_len // 2
+        writes = []
 
         if data_len % 2 != 0:
             raise ModbusMapError('Data length not even number of bytes - addr: %d  data len: %d' % (addr, data_len))
@@ -437,9 +438,9 @@ class ModbusMap(object):
                     # data += regs.read(offset, read_count)
                     start = data_offset
                     end = int(data_offset + (write_count * 2))
-                    regs.write(offset, data[start:end])
+                    writes.append((regs, offset, data[start:end]))
                     offset += write_count
-                    data_offset += write_count
+                    data_offset += write_count * 2
                     count_remaining -= write_count
                 else:
                     continue
@@ -449,6 +450,8 @@ class ModbusMap(object):
         # must have written all data for success
         if count_remaining > 0:
            raise ModbusMapError('Data write error')
+        for regs, offset, regs_data in writes:
+            regs.write(offset, regs_data)
 
     def not_equal(self, mbmap):
         """ Determines if the specified modbus map instance is not equal based
-- 
2.43.0


From 07e4bcd3356b31bd846212855453bf1654939b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:08 +0000
Subject: [PATCH 24/30] fix: keep the index and namespace of model data

They were swapped when added and an index could not be saved.
---
 sunspec/core/data.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/sunspec/core/data.py b/sunspec/core/data.py
index f1d6260..262f851 100644
--- a/sunspec/core/data.py
+++ b/sunspec/core/data.py
@@ -138,7 +138,7 @@ class DeviceData(object):
 
     def model_add(self, model_id=None, index=None, namespace=None):
 
-    	m = ModelData(model_id, namespace, index)
+    	m = ModelData(model_id, index, namespace)
     	self.model_data.append(m)
     	return m
 
@@ -244,12 +244,8 @@ class ModelData(object):
 
         attr = {SDX_MODEL_ID: str(self.model_id)}
 
-        if self.index is None and sys.version_info > (3,):
-            self.index = -233
-        if self.index > 1:
-            attr[SDX_MODEL_INDEX] = self.index
-        if self.index is -233 and sys.version_info > (3,):
-            self.index = None
+        if self.index is not None and self.index > 1:
+            attr[SDX_MODEL_INDEX] = str(self.index)
         if self.namespace:
             attr[SDX_MODEL_NAMESPACE] = self.namespace
 
-- 
2.43.0


From 300d08807e708bca5b083b80130ec7baddd9b5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:08 +0000
Subject: [PATCH 25/30] fix: keep the timestamp of loaded device data

It was lost when the data was saved again.
---
 sunspec/core/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/data.py b/sunspec/core/data.py
index 262f851..23ba860 100644
--- a/sunspec/core/data.py
+++ b/sunspec/core/data.py
@@ -157,7 +157,7 @@ class DeviceData(object):
         self.man = element.attrib.get(SDX_DEVICE_MAN)
         self.mod = element.attrib.get(SDX_DEVICE_MOD)
         self.sn = element.attrib.get(SDX_DEVICE_SN)
-        self.time = element.attrib.get(SDX_DEVICE_TIME)
+        self.timestamp = self.time = element.attrib.get(SDX_DEVICE_TIME)
         self.cid = element.attrib.get(SDX_DEVICE_CORRELATION_ID)
 
         for m in element.findall('*'):
-- 
2.43.0


From 5c56a9cddaf544dd652c959691946ba3f25af4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:09 +0000
Subject: [PATCH 26/30] fix: trace requests on Python 3

Tracing a request raised a TypeError.
---
 sunspec/core/modbus/client.py | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 9789122..906bd61 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -232,8 +232,8 @@ class ModbusClientRTU(object):
 
         if trace_func:
             s = '{}:{}[addr={}] ->'.format(self.name, str(slave_id), addr)
-            for c in req:
-                s += '%02X' % (ord(c))
+            for c in bytearray(req):
+                s += '%02X' % (c)
             trace_func(s)
 
         try:
@@ -350,22 +350,14 @@ class ModbusClientRTU(object):
                 data = bytes(data, "latin-1")
         req += data
         req += struct.pack('>H', computeCRC(req))
-        if sys.version_info > (3,):
-            temp = ""
-            for i in req:
-                temp += chr(i)
-            req = temp
-
         if trace_func:
             s = '{}:{}[addr={}] ->'.format(self.name, str(slave_id), addr)
-            for c in req:
-                s += '%02X' % (ord(c))
+            for c in bytearray(req):
+                s += '%02X' % (c)
             trace_func(s)
 
         try:
             self.serial.flushInput()
-            if sys.version_info > (3,):
-                req = bytes(req, "latin-1")
             self.serial.write(req)
         except Exception as e:
             raise ModbusClientError('Serial write error: %s' % str(e))
@@ -758,8 +750,8 @@ class ModbusClientDeviceTCP(object):
 
         if self.trace_func:
             s = '{}:{}:{}[addr={}] ->'.format(self.ipaddr, str(self.ipport), str(self.slave_id), addr)
-            for c in req:
-                s += '%02X' % (ord(c))
+            for c in bytearray(req):
+                s += '%02X' % (c)
             self.trace_func(s)
 
         try:
@@ -878,8 +870,8 @@ class ModbusClientDeviceTCP(object):
 
         if self.trace_func:
             s = '{}:{}:{}[addr={}] ->'.format(self.ipaddr, str(self.ipport), str(self.slave_id), addr)
-            for c in req:
-                s += '%02X' % (ord(c))
+            for c in bytearray(req):
+                s += '%02X' % (c)
             self.trace_func(s)
 
         try:
-- 
2.43.0


From 925fdd8a4025461f4bbf912482e1c61443dd8c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:09 +0000
Subject: [PATCH 27/30] fix: set attributes of a client device by name

It always raised an AttributeError.
---
 sunspec/core/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index 5ce906d..fc8d21f 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -879,7 +879,7 @@ class SunSpecClientDevice(object):
         return self.__dict__.get(key, None)
 
     def __setitem__(self, key, item):
-        self.__dict__.set(key, item)
+        self.__dict__[key] = item
 
     def __str__(self):
 
-- 
2.43.0


From 7925a8a6a2f62531af5756e97bc096147f7eb18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:09 +0000
Subject: [PATCH 28/30] fix: return a byte string from every serial read

A response without data made the read return None.
---
 sunspec/core/modbus/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 906bd61..e7f2209 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -326,7 +326,7 @@ class ModbusClientRTU(object):
                     count -= read_count
                     read_offset += read_count
                 else:
-                    return
+                    break
         else:
             raise ModbusClientError('Client serial port not open: %s' % self.name)
 
-- 
2.43.0


From 7b0b8a03044c632205414cb80125dac8e1723e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:09 +0000
Subject: [PATCH 29/30] fix: report a model read that returned no data

The read appeared to succeed and left the previous values in place.
---
 sunspec/core/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index fc8d21f..ae69ed6 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -374,7 +374,7 @@ class ClientModel(device.Model):
                         else:
                             read_len = self.addr + self.len - addr
                         data += self.device.read(addr, read_len)
-                if data:
+                if data is not None:
                     # print('data len = ', len(data))
                     data_len = len(data)/2
                     if data_len != self.len:
-- 
2.43.0


From af9b4744cb341375a0cddccff483f8f7283c827b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:10 +0000
Subject: [PATCH 30/30] fix: list devices that contain unknown models

The script stopped with an AttributeError.
---
 scripts/suns.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/suns.py b/scripts/suns.py
index 146e403..329c687 100644
--- a/scripts/suns.py
+++ b/scripts/suns.py
@@ -88,7 +88,7 @@ if __name__ == "__main__":
         sd.read()
 
         for model in sd.device.models_list:
-            if model.model_type.label:
+            if model.model_type is not None and model.model_type.label:
                 label = '%s (%s)' % (model.model_type.label, str(model.id))
             else:
                 label = '(%s)' % (str(model.id))
-- 
2.43.0

