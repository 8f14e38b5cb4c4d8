From c40f634e1fc5a914b72bde3a20f51b683aafde12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:30 +0000
Subject: [PATCH 01/30] fix: do not write a part of a truncated multiple write
 request

Functions 15, 16 and 23 stored the values that were present before they
failed on the first missing one.
---
 modbus_tk/modbus.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 17080d3..177c72c 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -624,6 +624,10 @@ class Slave(object):
             # maximum allowed size is 123 registers in one reading
             raise ModbusError(defines.ILLEGAL_DATA_VALUE)
 
+        if len(request_pdu) < 10 + byte_count_to_write:
+            # some of the values are missing: do not write only a part of them
+            raise ModbusError(defines.ILLEGAL_DATA_VALUE)
+
         # look for the block corresponding to the request
         block, offset = self._get_block_and_offset(defines.HOLDING_REGISTERS, starting_write_address, quantity_of_x_to_write)
 
@@ -656,6 +660,10 @@ class Slave(object):
             # maximum allowed size is 123 registers in one reading
             raise ModbusError(defines.ILLEGAL_DATA_VALUE)
 
+        if len(request_pdu) < 6 + byte_count:
+            # some of the values are missing: do not write only a part of them
+            raise ModbusError(defines.ILLEGAL_DATA_VALUE)
+
         # look for the block corresponding to the request
         block, offset = self._get_block_and_offset(defines.HOLDING_REGISTERS, starting_address, quantity_of_x)
 
@@ -681,6 +689,10 @@ class Slave(object):
             # maximum allowed size is 1968 coils
             raise ModbusError(defines.ILLEGAL_DATA_VALUE)
 
+        if len(request_pdu) < 6 + byte_count:
+            # some of the values are missing: do not write only a part of them
+            raise ModbusError(defines.ILLEGAL_DATA_VALUE)
+
         # look for the block corresponding to the request
         block, offset = self._get_block_and_offset(defines.COILS, starting_address, quantity_of_x)
 
-- 
2.43.0


From e9154d4a343cd2826cfcd9a27a7648f5a555e1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:30 +0000
Subject: [PATCH 02/30] fix: read/write multiple registers writes before it
 reads

---
 modbus_tk/modbus.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 177c72c..ae20a4b 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -608,18 +608,9 @@ class Slave(object):
             raise ModbusError(defines.ILLEGAL_DATA_VALUE)
 
         # look for the block corresponding to the request
-        block, offset = self._get_block_and_offset(defines.HOLDING_REGISTERS, starting_read_address, quantity_of_x_to_read)
+        read_block, read_offset = self._get_block_and_offset(defines.HOLDING_REGISTERS, starting_read_address, quantity_of_x_to_read)
 
-        # get the values
-        values = block[offset:offset+quantity_of_x_to_read]
-        # write the response header
-        response = struct.pack(">B", 2 * quantity_of_x_to_read)
-        # add the values of every register on 2 bytes
-        for reg in values:
-            fmt = "H" if self.unsigned else "h"
-            response += struct.pack(">"+fmt, reg)
-
-        # write part
+        # write part: done before reading as defined by the modbus specification
         if (quantity_of_x_to_write <= 0) or (quantity_of_x_to_write > 123) or (byte_count_to_write != (quantity_of_x_to_write * 2)):
             # maximum allowed size is 123 registers in one reading
             raise ModbusError(defines.ILLEGAL_DATA_VALUE)
@@ -637,6 +628,15 @@ class Slave(object):
             fmt = "H" if self.unsigned else "h"
             block[offset+i] = struct.unpack(">"+fmt, request_pdu[10+2*i:12+2*i])[0]
 
+        # get the values
+        values = read_block[read_offset:read_offset+quantity_of_x_to_read]
+        # write the response header
+        response = struct.pack(">B", 2 * quantity_of_x_to_read)
+        # add the values of every register on 2 bytes
+        for reg in values:
+            fmt = "H" if self.unsigned else "h"
+            response += struct.pack(">"+fmt, reg)
+
         return response
 
     def _mask_write_register(self, request_pdu):
-- 
2.43.0


From 622b85699709e7970d77440470d5bab3436f89b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:30 +0000
Subject: [PATCH 03/30] fix: mask write stores a signed value on a signed slave

Otherwise the register holds a value out of the signed range and every
later read of it fails.
---
 modbus_tk/modbus.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index ae20a4b..2e88990 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -646,7 +646,11 @@ class Slave(object):
         (data_address, and_mask, or_mask) = struct.unpack(">HHH", request_pdu[1:7])
         # look for the block corresponding to the request
         block, offset = self._get_block_and_offset(defines.HOLDING_REGISTERS, data_address, 1)
-        block[offset] = (block[offset] & and_mask) | (or_mask & ~and_mask)
+        value = (block[offset] & and_mask) | (or_mask & ~and_mask)
+        if not self.unsigned and value > 0x7fff:
+            # the registers of a signed slave are two's complement values
+            value -= 0x10000
+        block[offset] = value
         # returns echo of the command
         return request_pdu[1:]
 
-- 
2.43.0


From b89150794650f09176a128cbb0d6a38e129a5833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:30 +0000
Subject: [PATCH 04/30] fix: a ModbusError raised by a handle_request hook is
 answered as any other

The function code was not known yet when the exception response was built.
---
 modbus_tk/modbus.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 2e88990..45aac88 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -752,13 +752,13 @@ class Slave(object):
         # thread-safe
         with self._data_lock:
             try:
+                # get the function code
+                (function_code, ) = struct.unpack(">B", request_pdu[0:1])
+
                 retval = call_hooks("modbus.Slave.handle_request", (self, request_pdu))
                 if retval is not None:
                     return retval
 
-                # get the function code
-                (function_code, ) = struct.unpack(">B", request_pdu[0:1])
-
                 # check if the function code is valid. If not returns error response
                 if function_code not in self._fn_code_map:
                     raise ModbusError(defines.ILLEGAL_FUNCTION)
-- 
2.43.0


From 5a1230a35c8a4a799d08587c515c03381af9154b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:30 +0000
Subject: [PATCH 05/30] fix: exception response to a function code above 127

function_code+128 does not fit in one byte for them: struct.pack failed
and no exception response was built.
---
 modbus_tk/modbus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 45aac88..48cce3f 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -787,7 +787,7 @@ class Slave(object):
             except ModbusError as excpt:
                 LOGGER.debug(str(excpt))
                 call_hooks("modbus.Slave.on_exception", (self, function_code, excpt))
-                return struct.pack(">BB", function_code+128, excpt.get_exception_code())
+                return struct.pack(">BB", function_code | 0x80, excpt.get_exception_code())
 
     def add_block(self, block_name, block_type, starting_address, size):
         """Add a new block identified by its name"""
-- 
2.43.0


From fb3bd57deea89092b225962bdea4dcf07f44d875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:30 +0000
Subject: [PATCH 06/30] fix: keep the blocks of a table sorted

A block behind all the others was inserted at the beginning: the search
for overlaps, which relies on the order, then missed overlapping blocks.
---
 modbus_tk/modbus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 48cce3f..dd96ea4 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -808,7 +808,7 @@ class Slave(object):
             # check that the new block doesn't overlap an existing block
             # it means that only 1 block per type must correspond to a given address
             # for example: it must not have 2 holding registers at address 100
-            index = 0
+            index = len(self._memory[block_type])
             for i in range(len(self._memory[block_type])):
                 block = self._memory[block_type][i]
                 if block.is_in(starting_address, size):
-- 
2.43.0


From b92c37800e17aa01adebe2473a5ab7483ad020a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:30 +0000
Subject: [PATCH 07/30] fix: a broadcast reaches every slave even if one of
 them fails

The failure of one slave stopped the broadcast and was answered. The map of
slaves was iterated without its lock.
---
 modbus_tk/modbus.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index dd96ea4..bc16945 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -965,8 +965,14 @@ class Databank(object):
             # get the slave and let him executes the action
             if slave_id == 0:
                 # broadcast
-                for key in self._slaves:
-                    self._slaves[key].handle_request(request_pdu, broadcast=True)
+                with self._lock:
+                    slaves = list(self._slaves.values())
+                for slave in slaves:
+                    try:
+                        slave.handle_request(request_pdu, broadcast=True)
+                    except Exception as excpt:
+                        # the other slaves must get the request anyway
+                        LOGGER.error("broadcast failed: " + str(excpt))
                 return
             else:
                 try:
-- 
2.43.0


From 8011420694921931fb4c97888b14e0e6cd6bc930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:30 +0000
Subject: [PATCH 08/30] fix: the server failure response is a complete frame

The exception response was sent without TCP header or RTU address and CRC,
and also as answer to requests that could not be parsed.
---
 modbus_tk/modbus.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index bc16945..f8cc842 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -958,6 +958,7 @@ class Databank(object):
         when a request is received, handle it and returns the response pdu
         """
         request_pdu = ""
+        slave_id = 0
         try:
             # extract the pdu and the slave id
             (slave_id, request_pdu) = query.parse_request(request)
@@ -999,12 +1000,16 @@ class Databank(object):
             call_hooks("modbus.Databank.on_error", (self, excpt, request_pdu))
             LOGGER.error("handle request failed: " + str(excpt))
 
+        if slave_id == 0:
+            # The request could not be parsed or is a broadcast, do not send any response
+            return ""
+
         # If the request was not handled correctly, return a server error response
         func_code = 1
         if len(request_pdu) > 0:
             (func_code, ) = struct.unpack(">B", request_pdu[0:1])
 
-        return struct.pack(">BB", func_code + 0x80, defines.SLAVE_DEVICE_FAILURE)
+        return query.build_response(struct.pack(">BB", func_code | 0x80, defines.SLAVE_DEVICE_FAILURE))
 
 
 class Server(object):
-- 
2.43.0


From 99e7e109a57f6bcf851008a22a689e8e8b661bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:30 +0000
Subject: [PATCH 09/30] fix: an empty value returned by a handle_request hook
 of a server is used

As documented, only None keeps the request or response.
---
 modbus_tk/modbus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index f8cc842..5def0ba 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -1110,12 +1110,12 @@ class Server(object):
         query = self._make_query()
 
         retval = call_hooks("modbus.Server.before_handle_request", (self, request))
-        if retval:
+        if retval is not None:
             request = retval
 
         response = self._databank.handle_request(query, request)
         retval = call_hooks("modbus.Server.after_handle_request", (self, response))
-        if retval:
+        if retval is not None:
             response = retval
 
         if response and self._verbose:
-- 
2.43.0


From e2c49307df16f6b2164f6fe4ddb3c11d3ad6200d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:30 +0000
Subject: [PATCH 10/30] fix: call the hooks out of the lock of the hook table

Hooks which wait for another thread could dead-lock with any other user of
hooks, a KeyError raised by a hook was lost, and a hook which uninstalls
itself made the next one be skipped.
---
 modbus_tk/hooks.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/modbus_tk/hooks.py b/modbus_tk/hooks.py
index 29f60b6..83fca76 100644
--- a/modbus_tk/hooks.py
+++ b/modbus_tk/hooks.py
@@ -99,12 +99,11 @@ def uninstall_hook(name, fct=None):
 def call_hooks(name, args):
     """call the function associated with the hook and pass the given args"""
     with _LOCK:
-        try:
-            for fct in _HOOKS[name]:
-                retval = fct(args)
-                if retval is not None:
-                    return retval
-        except KeyError:
-            pass
-        return None
+        fcts = list(_HOOKS.get(name, ()))
+    # the lock is not held while the hooks are running: they may be long or use other locks
+    for fct in fcts:
+        retval = fct(args)
+        if retval is not None:
+            return retval
+    return None
 
-- 
2.43.0


From 6b80f3ca63618d1986434a498f4e2d0a9f7bb23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:30 +0000
Subject: [PATCH 11/30] fix: uninstalling all the hooks of a name never used is
 not an error

---
 modbus_tk/hooks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modbus_tk/hooks.py b/modbus_tk/hooks.py
index 83fca76..3146104 100644
--- a/modbus_tk/hooks.py
+++ b/modbus_tk/hooks.py
@@ -93,7 +93,7 @@ def uninstall_hook(name, fct=None):
         if fct:
             _HOOKS[name].remove(fct)
         else:
-            del _HOOKS[name][:]
+            _HOOKS.pop(name, None)
 
 
 def call_hooks(name, args):
-- 
2.43.0


From 788d5e9ca58ee22f1063fe1aa368b1467ae8461f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:30 +0000
Subject: [PATCH 12/30] fix: RtuOverTcpMaster does not wait for ever on a
 closed connection

---
 modbus_tk/modbus_rtu_over_tcp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modbus_tk/modbus_rtu_over_tcp.py b/modbus_tk/modbus_rtu_over_tcp.py
index becc866..33eddc3 100644
--- a/modbus_tk/modbus_rtu_over_tcp.py
+++ b/modbus_tk/modbus_rtu_over_tcp.py
@@ -26,6 +26,9 @@ class RtuOverTcpMaster(TcpMaster):
             rcv_byte = self._sock.recv(1)
             if rcv_byte:
                 response += rcv_byte
+            else:
+                # the connection has been closed by the slave
+                break
             if expected_length >= 0 and len(response) >= expected_length:
                 break
         retval = call_hooks("modbus_rtu_over_tcp.RtuOverTcpMaster.after_recv", (self, response))
-- 
2.43.0


From 4bd85882356cad791d4db02c2c95cba79e89b99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:49 +0000
Subject: [PATCH 13/30] fix: send the whole TCP frame

socket.send may send a part of the data only.
---
 modbus_tk/modbus_tcp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modbus_tk/modbus_tcp.py b/modbus_tk/modbus_tcp.py
index e4808e9..ad81206 100644
--- a/modbus_tk/modbus_tcp.py
+++ b/modbus_tk/modbus_tcp.py
@@ -202,7 +202,7 @@ class TcpMaster(Master):
             #try to reconnect
             LOGGER.error('Error while flushing the socket: {0}'.format(msg))
             self._do_open()
-        self._sock.send(request)
+        self._sock.sendall(request)
 
     def _recv(self, expected_length=-1):
         """
@@ -346,7 +346,7 @@ class TcpServer(Server):
                                 retval = call_hooks("modbus_tcp.TcpServer.before_send", (self, sock, response))
                                 if retval is not None:
                                     response = retval
-                                sock.send(response)
+                                sock.sendall(response)
                                 call_hooks("modbus_tcp.TcpServer.after_send", (self, sock, response))
                             except Exception as msg:
                                 is_ok = False
-- 
2.43.0


From 73d6fcc64e315410233087f16d4ae65df05cd2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:49 +0000
Subject: [PATCH 14/30] fix: the TcpServer keeps listening when a new
 connection fails

An error in accept or in the on_connect hook closed the listening socket,
and an error in the on_error hook stopped the server.
---
 modbus_tk/modbus_tcp.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/modbus_tk/modbus_tcp.py b/modbus_tk/modbus_tcp.py
index ad81206..c15232e 100644
--- a/modbus_tk/modbus_tcp.py
+++ b/modbus_tk/modbus_tcp.py
@@ -355,6 +355,11 @@ class TcpServer(Server):
                                 )
             except Exception as excpt:
                 LOGGER.warning("Error while processing data on socket %d: %s", sock.fileno(), excpt)
-                call_hooks("modbus_tcp.TcpServer.on_error", (self, sock, excpt))
-                sock.close()
-                self._sockets.remove(sock)
+                try:
+                    call_hooks("modbus_tcp.TcpServer.on_error", (self, sock, excpt))
+                except Exception as msg:
+                    LOGGER.error("Error in on_error hook: %s", msg)
+                if sock != self._sock:
+                    # never stop listening because a new connection failed
+                    sock.close()
+                    self._sockets.remove(sock)
-- 
2.43.0


From f0e22c4172bf449f656f465df4f834e2d616f51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:49 +0000
Subject: [PATCH 15/30] fix: a server which fails releases its sockets or port
 and can be restarted

---
 modbus_tk/modbus.py     | 18 +++++++++++-------
 modbus_tk/modbus_tcp.py |  5 +++--
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 5def0ba..6833dfd 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -1089,16 +1089,20 @@ class Server(object):
     def _run_server(self):
         """main function of the main thread"""
         try:
-            self._do_init()
-            while self._go.isSet():
-                self._do_run()
-            LOGGER.debug("%s has stopped", self.__class__)
-            self._do_exit()
+            try:
+                self._do_init()
+                while self._go.isSet():
+                    self._do_run()
+                LOGGER.debug("%s has stopped", self.__class__)
+            finally:
+                # release the resources whatever happened
+                self._do_exit()
         except Exception as excpt:
             LOGGER.error("server error: %s", str(excpt))
             call_hooks("modbus.Server.on_exception", (self, excpt))
-        # make possible to rerun in future
-        self._make_thread()
+        finally:
+            # make possible to rerun in future
+            self._make_thread()
 
     def _handle(self, request):
         """handle a received sentence"""
diff --git a/modbus_tk/modbus_tcp.py b/modbus_tk/modbus_tcp.py
index c15232e..b78be69 100644
--- a/modbus_tk/modbus_tcp.py
+++ b/modbus_tk/modbus_tcp.py
@@ -278,8 +278,9 @@ class TcpServer(Server):
             except Exception as msg:
                 LOGGER.warning("Error while closing socket, Exception occurred: %s", msg)
         self._sockets = []
-        self._sock.close()
-        self._sock = None
+        if self._sock:
+            self._sock.close()
+            self._sock = None
 
     def _do_run(self):
         """called in a almost-for-ever loop by the server"""
-- 
2.43.0


From 4782f03916aa60caf54e07baff735a0935501670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:49 +0000
Subject: [PATCH 16/30] fix: stop of a server joins the thread it has stopped

self._thread may be replaced by the ending thread between clear and join:
joining the new thread, which is not started, raises RuntimeError.
---
 modbus_tk/modbus.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 6833dfd..dfc646d 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -1082,9 +1082,11 @@ class Server(object):
 
     def stop(self):
         """stop the server. It doesn't handle request anymore"""
-        if self._thread.is_alive():
+        # the server thread replaces self._thread when it ends
+        thread = self._thread
+        if thread.is_alive():
             self._go.clear()
-            self._thread.join()
+            thread.join()
 
     def _run_server(self):
         """main function of the main thread"""
-- 
2.43.0


From bc3b68f3a991f43ba90617a1c6c4e9a0ca492ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:49 +0000
Subject: [PATCH 17/30] fix: a RtuMaster whose port has been closed elsewhere
 can be reopened

close left it open for ever and the port was never opened again.
---
 modbus_tk/modbus_rtu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modbus_tk/modbus_rtu.py b/modbus_tk/modbus_rtu.py
index 11c9ee8..513f6d5 100644
--- a/modbus_tk/modbus_rtu.py
+++ b/modbus_tk/modbus_rtu.py
@@ -114,7 +114,7 @@ class RtuMaster(Master):
         if self._serial.is_open:
             self._serial.close()
             call_hooks("modbus_rtu.RtuMaster.after_close", (self, ))
-            return True
+        return True
 
     def set_timeout(self, timeout_in_sec, use_sw_timeout=False):
         """Change the timeout value"""
-- 
2.43.0


From 6b03bddcf7fc84bd89517659e94e6f76e52f0341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:24 +0000
Subject: [PATCH 18/30] fix: default data_format of the diagnostic function

The response repeats the sub-function before the data, the default format
and length have to count it, also when there is no data.
---
 modbus_tk/modbus.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index dfc646d..3dbb0e9 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -292,16 +292,16 @@ class Master(object):
         elif function_code == defines.DIAGNOSTIC:
             # SubFuncCode  are in starting_address
             pdu = struct.pack(">BH", function_code, starting_address)
-            if len(output_value) > 0:
-                for j in output_value:
-                    # copy data in pdu
-                    pdu += struct.pack(">B", j)
-                if not data_format:
-                    data_format = ">" + (len(output_value) * "B")
-                if expected_length < 0:
-                    # No length was specified and calculated length can be used:
-                    # slave + func + SubFunc1 + SubFunc2 + Data + crc1 + crc2
-                    expected_length = len(output_value) + 6
+            for j in output_value:
+                # copy data in pdu
+                pdu += struct.pack(">B", j)
+            if not data_format:
+                # SubFunc + Data
+                data_format = ">H" + (len(output_value) * "B")
+            if expected_length < 0:
+                # No length was specified and calculated length can be used:
+                # slave + func + SubFunc1 + SubFunc2 + Data + crc1 + crc2
+                expected_length = len(output_value) + 6
 
         elif function_code == defines.READ_WRITE_MULTIPLE_REGISTERS:
             is_read_function = True
-- 
2.43.0


From f5e77e40ced1a61e1e52c694120ecf3f28d2a7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:56 +0000
Subject: [PATCH 19/30] fix: the RPC of the simulator works with Python 3

Text was sent on the socket and bytes were handled as text: every call
failed, and the bytes received stopped the command loop of the simulator.
---
 modbus_tk/simulator.py            | 6 +++++-
 modbus_tk/simulator_rpc_client.py | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/modbus_tk/simulator.py b/modbus_tk/simulator.py
index a220c52..0b8d7b4 100644
--- a/modbus_tk/simulator.py
+++ b/modbus_tk/simulator.py
@@ -91,12 +91,16 @@ class RpcHandler(SocketServer.BaseRequestHandler):
         # self.request is the TCP socket connected to the client
         # read the incoming command
         request = self.request.recv(1024).strip()
+        if modbus_tk.utils.PY3:
+            request = request.decode()
         # write to the queue waiting to be processed by the server
         INPUT_QUEUE.put(request)
         # wait for the server answer in the output queue
         response = OUTPUT_QUEUE.get(timeout=5.0)
         # send back the answer
-        self.request.send(response)
+        if modbus_tk.utils.PY3:
+            response = response.encode()
+        self.request.sendall(response)
 
 
 class RpcInterface(threading.Thread):
diff --git a/modbus_tk/simulator_rpc_client.py b/modbus_tk/simulator_rpc_client.py
index 28049e7..27f84ef 100644
--- a/modbus_tk/simulator_rpc_client.py
+++ b/modbus_tk/simulator_rpc_client.py
@@ -12,6 +12,7 @@ from __future__ import print_function
 
 import socket
 import modbus_tk.defines
+import modbus_tk.utils
 
 
 class SimulatorRpcClient(object):
@@ -28,9 +29,11 @@ class SimulatorRpcClient(object):
         sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
         sock.settimeout(self.timeout)
         sock.connect((self.host, self.port))
-        sock.send(query)
+        sock.sendall(query.encode() if modbus_tk.utils.PY3 else query)
         response = sock.recv(1024)
         sock.close()
+        if modbus_tk.utils.PY3:
+            response = response.decode()
         return self._response_to_values(response.strip("\r\n"), query.split(" ")[0])
 
     def _response_to_values(self, response, command):
-- 
2.43.0


From 25d2ec181030fddb531ea10751f549d3b1609fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:56 +0000
Subject: [PATCH 20/30] fix: read methods of PyModbusClientTCP return the
 values

They returned a map object which fails when it is used, and read_coils used
an attribute which does not exist.
---
 modbus_tk/pymodbusclient.py | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/modbus_tk/pymodbusclient.py b/modbus_tk/pymodbusclient.py
index c466591..bfc5688 100644
--- a/modbus_tk/pymodbusclient.py
+++ b/modbus_tk/pymodbusclient.py
@@ -15,10 +15,7 @@ class PyModbusClientTCP():
         return self.client._is_opened
 
     def read_input_registers(self, register, num=1):
-        ret = self.client.execute(1, cst.READ_INPUT_REGISTERS, register, num)
-        to_array = None
-        to_array = map(to_array, ret)
-        return to_array
+        return list(self.client.execute(1, cst.READ_INPUT_REGISTERS, register, num))
 
     def write_single_register(self, register, word):
         self.client.execute(1, cst.WRITE_SINGLE_REGISTER, register, output_value=word)
@@ -28,17 +25,10 @@ class PyModbusClientTCP():
         self.client.execute(1, cst.WRITE_SINGLE_COIL, coil, output_value=value)
 
     def read_coils(self, bit_addr, bit_number=1):
-        self.client.execute(1, cst.READ_COILS, bit_addr, bit_number)
-        coils = self.coils[bit_addr:bit_addr+bit_number]
-        to_array = None
-        to_array = map(to_array, coils)
-        return to_array
+        return list(self.client.execute(1, cst.READ_COILS, bit_addr, bit_number))
 
     def read_discrete_inputs(self, bit_addr, bit_number=1):
-        registers = self.client.execute(1, cst.READ_DISCRETE_INPUTS, bit_addr, bit_number)
-        to_array = None
-        to_array = map(to_array, registers)
-        return to_array
+        return list(self.client.execute(1, cst.READ_DISCRETE_INPUTS, bit_addr, bit_number))
 
     def last_error(self):
         # TODO: Needs to have something here
-- 
2.43.0


From 024368668b7375cce38271d3300b4df1647c5640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:22 +0000
Subject: [PATCH 21/30] fix: uninstall_hook of the simulator removes the given
 function only

---
 modbus_tk/simulator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/simulator.py b/modbus_tk/simulator.py
index 0b8d7b4..9337155 100644
--- a/modbus_tk/simulator.py
+++ b/modbus_tk/simulator.py
@@ -319,8 +319,10 @@ class Simulator(object):
         If no function is given, uninstall all functions
         """
         hook_name = args[1]
+        fct_name = args[2] if len(args) > 2 else ""
+        fct = self._hooks_fct[fct_name] if fct_name else None
         try:
-            hooks.uninstall_hook(hook_name)
+            hooks.uninstall_hook(hook_name, fct)
         except KeyError as exception:
             LOGGER.error(str(exception))
 
-- 
2.43.0


From aa8c9a67f9ed25d6f05bfad0f1754cfcffebcc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:22 +0000
Subject: [PATCH 22/30] fix: SimulatorRpcClient reads the whole answer

The values after the first 1024 bytes were lost.
---
 modbus_tk/simulator_rpc_client.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modbus_tk/simulator_rpc_client.py b/modbus_tk/simulator_rpc_client.py
index 27f84ef..501a1af 100644
--- a/modbus_tk/simulator_rpc_client.py
+++ b/modbus_tk/simulator_rpc_client.py
@@ -31,6 +31,12 @@ class SimulatorRpcClient(object):
         sock.connect((self.host, self.port))
         sock.sendall(query.encode() if modbus_tk.utils.PY3 else query)
         response = sock.recv(1024)
+        while response and not response.endswith(b"\n"):
+            # a long answer may come in several parts
+            data = sock.recv(1024)
+            if not data:
+                break
+            response += data
         sock.close()
         if modbus_tk.utils.PY3:
             response = response.decode()
-- 
2.43.0


From 1718d1ef3bb125dc7ffa7083c82c1d1189571872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:41 +0000
Subject: [PATCH 23/30] fix: a MissingKeyError raised by a hook is answered as
 any other failure

It was taken for an unknown slave and the master got no answer.
---
 modbus_tk/modbus.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 3dbb0e9..a89b8f0 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -978,11 +978,11 @@ class Databank(object):
             else:
                 try:
                     slave = self.get_slave(slave_id)
-                except MissingKeyError:
+                except MissingKeyError as excpt:
+                    # No slave with this ID in server, do not send any response
                     if self.error_on_missing_slave:
-                        raise
-                    else:
-                        return ""
+                        LOGGER.error("handle request failed: " + str(excpt))
+                    return ""
 
                 response_pdu = slave.handle_request(request_pdu)
                 # make the full response
@@ -992,10 +992,6 @@ class Databank(object):
             # Request is invalid, do not send any response
             LOGGER.error("invalid request: " + str(excpt))
             return ""
-        except MissingKeyError as excpt:
-            # No slave with this ID in server, do not send any response
-            LOGGER.error("handle request failed: " + str(excpt))
-            return ""
         except Exception as excpt:
             call_hooks("modbus.Databank.on_error", (self, excpt, request_pdu))
             LOGGER.error("handle request failed: " + str(excpt))
-- 
2.43.0


From 8293547c42cb45485584db459d3f4de4b309c1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:34 +0000
Subject: [PATCH 24/30] fix: a response with function code 0x80 is an error

---
 modbus_tk/modbus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index a89b8f0..50f3d4c 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -372,7 +372,7 @@ class Master(object):
             # analyze the received data
             (return_code, byte_2) = struct.unpack(">BB", response_pdu[0:2])
 
-            if return_code > 0x80:
+            if return_code >= 0x80:
                 # the slave has returned an error
                 exception_code = byte_2
                 raise ModbusError(exception_code)
-- 
2.43.0


From babab02d536a51b2cbc7a4a35fa2c9ced787b5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:29 +0000
Subject: [PATCH 25/30] fix: a failed reconnection leaves the master closed

---
 modbus_tk/modbus_tcp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/modbus_tcp.py b/modbus_tk/modbus_tcp.py
index b78be69..344d67b 100644
--- a/modbus_tk/modbus_tcp.py
+++ b/modbus_tk/modbus_tcp.py
@@ -201,7 +201,9 @@ class TcpMaster(Master):
             #if we can't flush the socket successfully: a disconnection may happened
             #try to reconnect
             LOGGER.error('Error while flushing the socket: {0}'.format(msg))
-            self._do_open()
+            # if it fails the master is not opened any more
+            self._is_opened = False
+            self.open()
         self._sock.sendall(request)
 
     def _recv(self, expected_length=-1):
-- 
2.43.0


From 78b429e2ebcb729337365e01f5edd1912c3069d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:52 +0000
Subject: [PATCH 26/30] fix: a failing on_error hook does not end the RtuServer

---
 modbus_tk/modbus_rtu.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/modbus_rtu.py b/modbus_tk/modbus_rtu.py
index 513f6d5..341d2a0 100644
--- a/modbus_tk/modbus_rtu.py
+++ b/modbus_tk/modbus_rtu.py
@@ -311,4 +311,7 @@ class RtuServer(Server):
 
         except Exception as excpt:
             LOGGER.error("Error while handling request, Exception occurred: %s", excpt)
-            call_hooks("modbus_rtu.RtuServer.on_error", (self, excpt))
+            try:
+                call_hooks("modbus_rtu.RtuServer.on_error", (self, excpt))
+            except Exception as msg:
+                LOGGER.error("Error in on_error hook: %s", msg)
-- 
2.43.0


From 3f8802867ec3a3c8dbefe67213482b9ae2b01e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:45 +0000
Subject: [PATCH 27/30] fix: the RtuServer closes its port even if the
 before_close hook fails

---
 modbus_tk/modbus_rtu.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modbus_tk/modbus_rtu.py b/modbus_tk/modbus_rtu.py
index 341d2a0..e978687 100644
--- a/modbus_tk/modbus_rtu.py
+++ b/modbus_tk/modbus_rtu.py
@@ -204,8 +204,10 @@ class RtuServer(Server):
     def close(self):
         """close the serial communication"""
         if self._serial.is_open:
-            call_hooks("modbus_rtu.RtuServer.before_close", (self, ))
-            self._serial.close()
+            try:
+                call_hooks("modbus_rtu.RtuServer.before_close", (self, ))
+            finally:
+                self._serial.close()
             call_hooks("modbus_rtu.RtuServer.after_close", (self, ))
 
     def set_timeout(self, timeout):
-- 
2.43.0


From a2e0e1c802e8d77e4fbf6cc6e9d05a071024d7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:14 +0000
Subject: [PATCH 28/30] fix: a failing log handler does not break the
 application

---
 modbus_tk/utils.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/modbus_tk/utils.py b/modbus_tk/utils.py
index 3d6be34..c8289c9 100644
--- a/modbus_tk/utils.py
+++ b/modbus_tk/utils.py
@@ -78,7 +78,11 @@ class ConsoleHandler(logging.Handler):
 
     def emit(self, record):
         """format and print the record on the console"""
-        print(self.format(record))
+        try:
+            print(self.format(record))
+        except Exception:
+            # as any other handler: a failing log must never break the application
+            self.handleError(record)
 
 
 class LogitHandler(logging.Handler):
@@ -92,10 +96,14 @@ class LogitHandler(logging.Handler):
 
     def emit(self, record):
         """format and send the record over udp"""
-        data = self.format(record) + "\r\n"
-        if PY3:
-            data = to_data(data)
-        self._sock.sendto(data, self._dest)
+        try:
+            data = self.format(record) + "\r\n"
+            if PY3:
+                data = to_data(data)
+            self._sock.sendto(data, self._dest)
+        except Exception:
+            # as any other handler: a failing log must never break the application
+            self.handleError(record)
 
 
 class DummyHandler(logging.Handler):
-- 
2.43.0


From 1e94df67bc930dd75808adb0a319e51990fdc7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:06 +0000
Subject: [PATCH 29/30] fix: PyModbusClientTCP can be used with default
 settings

---
 modbus_tk/pymodbusclient.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modbus_tk/pymodbusclient.py b/modbus_tk/pymodbusclient.py
index bfc5688..7765b4c 100644
--- a/modbus_tk/pymodbusclient.py
+++ b/modbus_tk/pymodbusclient.py
@@ -5,7 +5,10 @@ class PyModbusClientTCP():
     """ Client that allows a drop in replacement for pymodbus without any code change """
 
     def __init__(self, host=None, port=None, timeout=None, **kwargs):
-        self.client = modbus_tcp.TcpMaster(host=host, port=port, timeout_in_sec=timeout)
+        settings = {"host": host, "port": port, "timeout_in_sec": timeout}
+        # what is not given has the default value of the master
+        settings = dict((key, value) for (key, value) in settings.items() if value is not None)
+        self.client = modbus_tcp.TcpMaster(**settings)
 
     def open(self):
         self.client.open()
-- 
2.43.0


From bdf67fd1f740c26a4c23c5764f1da7cc496066ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:49 +0000
Subject: [PATCH 30/30] fix: a file record response with other record lengths
 than requested is invalid

---
 modbus_tk/modbus.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/modbus_tk/modbus.py b/modbus_tk/modbus.py
index 50f3d4c..c228ba8 100644
--- a/modbus_tk/modbus.py
+++ b/modbus_tk/modbus.py
@@ -155,6 +155,7 @@ class Master(object):
 
         is_read_function = False
         nb_of_digits = 0
+        record_lengths = None
         if number_file is None:
             number_file = tuple()
 
@@ -205,6 +206,7 @@ class Master(object):
             pdu = struct.pack(">BB", function_code, count_seq * 7) + b''.join(map(lambda zip_param: struct.pack(">BHHH", *zip_param), zip(count_seq * (6, ), number_file, starting_address, quantity_of_x)))
             if not data_format:
                 data_format = ">BB" + 'BB'.join(map(lambda x: x*'H', quantity_of_x))
+                record_lengths = quantity_of_x
             if expected_length < 0:
                 # No length was specified and calculated length can be used:
                 # slave + func + bytcodeLen + (byteLenSubReq+byteref+bytecode[] x 2)*countSubReq + crc1 + crc2
@@ -411,6 +413,11 @@ class Master(object):
                     sub_seq = list()
                     ptr = 0
                     while ptr < len(result):
+                        if record_lengths is not None and result[ptr] // 2 != record_lengths[len(sub_seq)]:
+                            # the values are not those of the requested records
+                            raise ModbusInvalidResponseError(
+                                "Record {0} has a length of {1}. ".format(len(sub_seq), result[ptr])
+                            )
                         sub_seq += ((ptr + 2, ptr + 2 + result[ptr] // 2), )
                         ptr += result[ptr] // 2 + 2
                     result = tuple(map(lambda sub_seq_x: result[sub_seq_x[0]:sub_seq_x[1]], sub_seq))
-- 
2.43.0

