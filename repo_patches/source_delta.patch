From 42466f251e982010a25fc433b2ee491719a073b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:32 +0000
Subject: [PATCH 01/44] fix: aio listener left requests with an empty or
 unencodable result unanswered

---
 anthunder/listener/aio_listener.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/anthunder/listener/aio_listener.py b/anthunder/listener/aio_listener.py
index 106a43e..8c501bb 100644
--- a/anthunder/listener/aio_listener.py
+++ b/anthunder/listener/aio_listener.py
@@ -163,14 +163,16 @@ class AioListener(BaseListener):
             await self._write_msg(writer, FailResponse.response_to(request_id, RESPSTATUS.UNKNOWN).to_stream())
             return
 
-        if result:
-            header = dict()
-            tracer.inject(spanctx, opentracing.Format.TEXT_MAP, header)
-            pkg = BoltResponse.response_to(result, request_id=request_id)
-            try:
-                await self._write_msg(writer, pkg.to_stream())
-            except Exception:
-                logger.error(traceback.format_exc())
+        try:
+            msg = BoltResponse.response_to(result, request_id=request_id).to_stream()
+        except Exception:
+            logger.error(traceback.format_exc())
+            msg = FailResponse.response_to(request_id, RESPSTATUS.SERVER_SERIAL_EXCEPTION).to_stream()
+
+        try:
+            await self._write_msg(writer, msg)
+        except Exception:
+            logger.error(traceback.format_exc())
 
     async def _write_msg(self, writer, msg):
         await writer.drain()  # clean the buffer, avoid backpressure
-- 
2.43.0


From ad8d8665e2d36b09e19ffdeb7906ab14201bbb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:32 +0000
Subject: [PATCH 02/44] fix: aio listener left requests with a broken trace
 context unanswered

---
 anthunder/listener/aio_listener.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/anthunder/listener/aio_listener.py b/anthunder/listener/aio_listener.py
index 8c501bb..3a53772 100644
--- a/anthunder/listener/aio_listener.py
+++ b/anthunder/listener/aio_listener.py
@@ -135,9 +135,8 @@ class AioListener(BaseListener):
             logger.error("Missing method name in sofa header [{}]".format(sofa_header))
             return
 
-        spanctx = tracer.extract(opentracing.Format.TEXT_MAP, sofa_header)
-
         try:
+            spanctx = tracer.extract(opentracing.Format.TEXT_MAP, sofa_header)
             future = self.handler.handle_request(spanctx, service, method, body)
         except NoProcessorError:
             await self._write_msg(writer,
-- 
2.43.0


From a0c6ba54384c9f734e718c1e0005ecf2f58754a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:32 +0000
Subject: [PATCH 03/44] fix: aio listener parsed the body of a frame with a
 broken header block as the next frame

---
 anthunder/listener/aio_listener.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/anthunder/listener/aio_listener.py b/anthunder/listener/aio_listener.py
index 3a53772..058b7da 100644
--- a/anthunder/listener/aio_listener.py
+++ b/anthunder/listener/aio_listener.py
@@ -208,10 +208,12 @@ class AioListener(BaseListener):
                 bs = await reader.readexactly(header['header_len'])
                 logger.debug("received sofa header({})".format(bs))
 
-                sofa_header = SofaHeader.from_bytes(bs)
                 body = await reader.readexactly(header['content_len'])
                 logger.debug("received sofa body({})".format(body))
 
+                # decode after the whole frame is consumed, or the body will be parsed as the next frame
+                sofa_header = SofaHeader.from_bytes(bs)
+
                 if cmdcode == CMDCODE.HEARTBEAT:
                     logger.info("received heartbeat, request_id={}".format(header['request_id']))
                     asyncio.ensure_future(
-- 
2.43.0


From 400d910fbaf229a8fa3e49522dca4f432d8e69d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:32 +0000
Subject: [PATCH 04/44] fix: aio listener answered the previous request again
 when the peer closed the connection

---
 anthunder/listener/aio_listener.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/anthunder/listener/aio_listener.py b/anthunder/listener/aio_listener.py
index 058b7da..fdda060 100644
--- a/anthunder/listener/aio_listener.py
+++ b/anthunder/listener/aio_listener.py
@@ -186,6 +186,7 @@ class AioListener(BaseListener):
         logger.info("connection created.")
         first_req = True
         while True:
+            header = None
             try:
                 try:
                     fixed_header_bs = await reader.readexactly(BoltRequest.bolt_header_size())
-- 
2.43.0


From 2800032f601ce93b89f155bcf31b451aee3b1401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:32 +0000
Subject: [PATCH 05/44] fix: a service method raising SystemExit stopped the
 aio listener's event loop

---
 anthunder/listener/aio_listener.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/anthunder/listener/aio_listener.py b/anthunder/listener/aio_listener.py
index fdda060..3d7e14f 100644
--- a/anthunder/listener/aio_listener.py
+++ b/anthunder/listener/aio_listener.py
@@ -157,7 +157,8 @@ class AioListener(BaseListener):
             logger.error("Task run cancelled/timeout in {}ms, service:[{}]: error:[{}]".format(timeout_ms, service, e))
             await self._write_msg(writer, FailResponse.response_to(request_id, RESPSTATUS.TIMEOUT).to_stream())
             return
-        except Exception:
+        except (Exception, SystemExit, KeyboardInterrupt):
+            # a service which tries to exit must not stop the event loop
             logger.error(traceback.format_exc())
             await self._write_msg(writer, FailResponse.response_to(request_id, RESPSTATUS.UNKNOWN).to_stream())
             return
-- 
2.43.0


From 14050cecd3edd52f6a0210cf117f5f44acddd212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:38 +0000
Subject: [PATCH 06/44] fix: one-way calls of the aio client were sent as
 two-way requests

---
 anthunder/client/aio_client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anthunder/client/aio_client.py b/anthunder/client/aio_client.py
index 3fef513..0519c56 100644
--- a/anthunder/client/aio_client.py
+++ b/anthunder/client/aio_client.py
@@ -73,7 +73,7 @@ class AioClient(_BaseClient):
 
     def invoke_oneway(self, interface, method, content, *, spanctx, **headers):
         header = SofaHeader.build_header(spanctx, interface, method, **headers)
-        pkg = BoltRequest.new_request(header, content, timeout_ms=-1)
+        pkg = BoltRequest.new_request(header, content, ptype=PTYPE.ONEWAY, timeout_ms=-1)
         asyncio.run_coroutine_threadsafe(self.invoke(pkg), loop=self._loop)
 
     def invoke_sync(self, interface, method, content, *, spanctx, timeout_ms, **headers):
-- 
2.43.0


From 2e55f9664ab6db56be2bf0a36ebd97b856f1b8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:38 +0000
Subject: [PATCH 07/44] fix: calls with a fractional timeout could not be
 encoded

---
 anthunder/protocol/_request_pkg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/anthunder/protocol/_request_pkg.py b/anthunder/protocol/_request_pkg.py
index 91796b5..f991d06 100644
--- a/anthunder/protocol/_request_pkg.py
+++ b/anthunder/protocol/_request_pkg.py
@@ -21,6 +21,7 @@
    Change Activity:
         version0 : 2018/4/28 11:39 by jiaqi.hjq  init
 """
+import math
 import struct
 from anthunder.helpers.request_id import RequestId
 from .constants import PTYPE, CMDCODE
@@ -48,4 +49,4 @@ class BoltRequest(BoltPackage):
     @classmethod
     def new_request(cls, header, content, ptype=PTYPE.REQUEST, timeout_ms=None):
         return cls(header, content, ptype=ptype, cmdcode=CMDCODE.REQUEST,
-                   request_id=next(RequestId), timeout=timeout_ms or -1)
+                   request_id=next(RequestId), timeout=math.ceil(timeout_ms or -1))
-- 
2.43.0


From cfa75e5805f26f6b1631469de11989da1044cc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:38 +0000
Subject: [PATCH 08/44] fix: a request which can not be encoded tore down the
 shared aio connection

---
 anthunder/client/aio_client.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/anthunder/client/aio_client.py b/anthunder/client/aio_client.py
index 0519c56..e72a0a1 100644
--- a/anthunder/client/aio_client.py
+++ b/anthunder/client/aio_client.py
@@ -182,6 +182,8 @@ class AioClient(_BaseClient):
         :return:
         """
         assert isinstance(request, BoltRequest)
+        # encode first, a request which can not be encoded must not break the connection
+        stream = request.to_stream()
 
         async def _send(retry=3):
             if retry <= 0:
@@ -189,7 +191,7 @@ class AioClient(_BaseClient):
             readtask, writer = await self._get_connection(address)
             try:
                 await writer.drain()  # avoid back pressure
-                writer.write(request.to_stream())
+                writer.write(stream)
                 await writer.drain()
             except Exception as e:
                 logger.error("Request sent to {} failed: {}, may try again.".format(address, e))
-- 
2.43.0


From 8e048be15ab53b9f4c26cd5b2dd8d61eb78cca4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:39 +0000
Subject: [PATCH 09/44] fix: aio client calls which could not be sent ended
 with a result of None

---
 anthunder/client/aio_client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anthunder/client/aio_client.py b/anthunder/client/aio_client.py
index e72a0a1..308cc22 100644
--- a/anthunder/client/aio_client.py
+++ b/anthunder/client/aio_client.py
@@ -207,11 +207,11 @@ class AioClient(_BaseClient):
         except PyboltError:
             logger.error("failed to send request {}".format(request.request_id))
             self.request_mapping.pop(request.request_id)
-            return
+            raise
         except Exception:
             logger.error(traceback.format_exc())
             self.request_mapping.pop(request.request_id)
-            return
+            raise
 
         if request.ptype == PTYPE.ONEWAY:
             self.request_mapping.pop(request.request_id)
-- 
2.43.0


From cdfe413eea18a51c07845739849d0273b54695bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 10/44] fix: timed out calls stayed in the aio client, and
 replies during sending raised KeyError

---
 anthunder/client/aio_client.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/anthunder/client/aio_client.py b/anthunder/client/aio_client.py
index 308cc22..8aed519 100644
--- a/anthunder/client/aio_client.py
+++ b/anthunder/client/aio_client.py
@@ -86,6 +86,7 @@ class AioClient(_BaseClient):
             ret = fut.result(timeout=timeout_ms / 1000)
         except (TimeoutError, CancelledError) as e:
             logger.error("call to [{}:{}] timeout/cancelled. {}".format(interface, method, e))
+            fut.cancel()
             raise
         return ret.content
 
@@ -167,12 +168,17 @@ class AioClient(_BaseClient):
         address = address or self._get_address(request.header['service'])
         logger.debug("invoke to address: {}".format(address))
 
-        event = await self._send_request(request, address=address)
-        if event is None:
-            logger.debug("no related event, should be a async/oneway call, return now")
-            return
-        await event.wait()
-        return self.response_mapping.pop(request.request_id)
+        try:
+            event = await self._send_request(request, address=address)
+            if event is None:
+                logger.debug("no related event, should be a async/oneway call, return now")
+                return
+            await event.wait()
+            return self.response_mapping.pop(request.request_id)
+        finally:
+            # replied, failed or given up, nobody waits any more
+            self.request_mapping.pop(request.request_id, None)
+            self.response_mapping.pop(request.request_id, None)
 
     async def _send_request(self, request: BoltRequest, *, address):
         """
@@ -201,23 +207,21 @@ class AioClient(_BaseClient):
                 await _send(retry - 1)
 
         # generate event object first, ensure every successfully sent request has a event
-        self.request_mapping[request.request_id] = asyncio.Event()
+        event = self.request_mapping[request.request_id] = asyncio.Event()
         try:
             await _send()
         except PyboltError:
             logger.error("failed to send request {}".format(request.request_id))
-            self.request_mapping.pop(request.request_id)
             raise
         except Exception:
             logger.error(traceback.format_exc())
-            self.request_mapping.pop(request.request_id)
             raise
 
         if request.ptype == PTYPE.ONEWAY:
-            self.request_mapping.pop(request.request_id)
             return
 
-        return self.request_mapping[request.request_id]
+        # do not look it up again, the response may have arrived already
+        return event
 
     async def _recv_response(self, reader, writer):
         """
-- 
2.43.0


From 48367d116b0c7124479dd66abd766bfdea467961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 11/44] fix: replies with a failure status or undecodable
 content broke the waiting call with KeyError or left it hanging

---
 anthunder/client/aio_client.py | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/anthunder/client/aio_client.py b/anthunder/client/aio_client.py
index 8aed519..5ddb76d 100644
--- a/anthunder/client/aio_client.py
+++ b/anthunder/client/aio_client.py
@@ -23,7 +23,6 @@ import functools
 import logging
 import threading
 import traceback
-from contextlib import suppress
 
 try:
     import uvloop
@@ -52,7 +51,7 @@ class AioClient(_BaseClient):
         super(AioClient, self).__init__(app_name, **kwargs)
         self._loop = asyncio.new_event_loop()
         self.request_mapping = dict()  # request_id: event
-        self.response_mapping = dict()  # request_id: response_pkg
+        self.response_mapping = dict()  # request_id: response_pkg or exception
         self.connection_mapping = dict()  # address: (reader_coro, writer)
         self.loop_thread = self._init()
         self._pending_dial = dict()  # address: (asyncio.Lock)
@@ -174,7 +173,10 @@ class AioClient(_BaseClient):
                 logger.debug("no related event, should be a async/oneway call, return now")
                 return
             await event.wait()
-            return self.response_mapping.pop(request.request_id)
+            response = self.response_mapping.pop(request.request_id)
+            if isinstance(response, Exception):
+                raise response
+            return response
         finally:
             # replied, failed or given up, nobody waits any more
             self.request_mapping.pop(request.request_id, None)
@@ -230,11 +232,12 @@ class AioClient(_BaseClient):
         :return:
         """
         while True:
-            pkg = None
+            request_id = None
             try:
                 fixed_header_bs = await reader.readexactly(BoltResponse.bolt_header_size())
                 header = BoltResponse.bolt_header_from_stream(fixed_header_bs)
                 bs = await reader.readexactly(header['class_len'] + header['header_len'] + header['content_len'])
+                request_id = header['request_id']
                 pkg = BoltResponse.bolt_content_from_stream(bs, header)
                 if pkg.class_name != BoltResponse.class_name:
                     raise ServerError("wrong class_name:[{}]".format(pkg.class_name))
@@ -245,12 +248,13 @@ class AioClient(_BaseClient):
                     raise ServerError("wrong cmdcode:[{}]".format(pkg.cmdcode))
                 if pkg.respstatus != RESPSTATUS.SUCCESS:
                     raise ServerError.from_statuscode(pkg.respstatus)
-                if pkg.request_id not in self.request_mapping:
-                    continue
-                self.response_mapping[pkg.request_id] = pkg
+                self._on_response(request_id, pkg)
 
             except PyboltError as e:
                 logger.error(e)
+                if request_id is not None:
+                    # tell the caller that its call failed
+                    self._on_response(request_id, e)
             except (asyncio.CancelledError, EOFError, ConnectionResetError) as e:
                 logger.error(e)
                 writer.close()
@@ -259,8 +263,12 @@ class AioClient(_BaseClient):
                 logger.error(traceback.format_exc())
                 writer.close()
                 break
-            finally:
-                with suppress(AttributeError, KeyError):
-                    # wake up the coro
-                    event = self.request_mapping.pop(pkg.request_id)
-                    event.set()
+
+    def _on_response(self, request_id, response):
+        """put response(a package or an exception) in response_mapping, and wake up the invoke coro"""
+        event = self.request_mapping.pop(request_id, None)
+        if event is None:
+            return
+        self.response_mapping[request_id] = response
+        event.set()
+
-- 
2.43.0


From 392445b9af57d3e02f7c6eacd51b2e6fd4673058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:32 +0000
Subject: [PATCH 12/44] fix: the first heartbeat of the aio client, answered or
 not, ended its heartbeat timer

---
 anthunder/client/aio_client.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/anthunder/client/aio_client.py b/anthunder/client/aio_client.py
index 5ddb76d..639d2ce 100644
--- a/anthunder/client/aio_client.py
+++ b/anthunder/client/aio_client.py
@@ -52,6 +52,7 @@ class AioClient(_BaseClient):
         self._loop = asyncio.new_event_loop()
         self.request_mapping = dict()  # request_id: event
         self.response_mapping = dict()  # request_id: response_pkg or exception
+        self.heartbeats = set()  # request_id of heartbeats without response yet
         self.connection_mapping = dict()  # address: (reader_coro, writer)
         self.loop_thread = self._init()
         self._pending_dial = dict()  # address: (asyncio.Lock)
@@ -122,7 +123,11 @@ class AioClient(_BaseClient):
         """Invoke heartbeat periodly"""
         while True:
             await asyncio.sleep(interval)
-            await self.invoke_heartbeat(address)
+            try:
+                await asyncio.wait_for(self.invoke_heartbeat(address), interval)
+            except Exception as e:
+                # lost, refused or unanswered, the next one may succeed
+                logger.error("heartbeat to {} failed: {!r}".format(address, e))
 
     async def invoke_heartbeat(self, address):
         """
@@ -132,7 +137,11 @@ class AioClient(_BaseClient):
         TODO: to break the connection if server response wrongly
         """
         pkg = HeartbeatRequest.new_request()
-        resp = await self.invoke(pkg, address=address)
+        self.heartbeats.add(pkg.request_id)
+        try:
+            resp = await self.invoke(pkg, address=address)
+        finally:
+            self.heartbeats.discard(pkg.request_id)
         if resp.request_id != pkg.request_id:
             logger.error("heartbeat response request_id({}) mismatch with request({}).".format(resp.request_id,
                                                                                                pkg.request_id))
@@ -242,6 +251,8 @@ class AioClient(_BaseClient):
                 if pkg.class_name != BoltResponse.class_name:
                     raise ServerError("wrong class_name:[{}]".format(pkg.class_name))
                 if pkg.cmdcode == CMDCODE.HEARTBEAT:
+                    if request_id in self.heartbeats:
+                        self._on_response(request_id, pkg)
                     continue
                 elif pkg.cmdcode == CMDCODE.REQUEST:
                     # raise error, the connection will be dropped
-- 
2.43.0


From 350be4a3dbf32a3fa32bddd9d09265fcd07cfe67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:32 +0000
Subject: [PATCH 13/44] fix: calls waiting on a lost aio connection were never
 told, and replacing it could fail or leak connections

---
 anthunder/client/aio_client.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/anthunder/client/aio_client.py b/anthunder/client/aio_client.py
index 639d2ce..7efd11b 100644
--- a/anthunder/client/aio_client.py
+++ b/anthunder/client/aio_client.py
@@ -54,6 +54,7 @@ class AioClient(_BaseClient):
         self.response_mapping = dict()  # request_id: response_pkg or exception
         self.heartbeats = set()  # request_id of heartbeats without response yet
         self.connection_mapping = dict()  # address: (reader_coro, writer)
+        self.sent_mapping = dict()  # request_id: reader_coro of the connection it was sent on
         self.loop_thread = self._init()
         self._pending_dial = dict()  # address: (asyncio.Lock)
 
@@ -163,11 +164,24 @@ class AioClient(_BaseClient):
 
                 reader, writer = await asyncio.open_connection(*address)
                 task = asyncio.ensure_future(self._recv_response(reader, writer))
+                task.add_done_callback(functools.partial(self._on_connection_lost, address, writer))
                 return self.connection_mapping.setdefault(address, (task, writer))
         except Exception as e:
             logger.error("Get connection of {} failed: {}".format(address, e))
             raise
 
+    def _drop_connection(self, address, task):
+        """forget the connection, unless another one has taken its place"""
+        if self.connection_mapping.get(address, (None, None))[0] is task:
+            self.connection_mapping.pop(address)
+
+    def _on_connection_lost(self, address, writer, task):
+        """nothing will be received any more, fail the calls which wait for a response of this connection"""
+        self._drop_connection(address, task)
+        writer.close()
+        for request_id in [k for k, v in self.sent_mapping.items() if v is task]:
+            self._on_response(request_id, PyboltError("connection to {} is lost.".format(address)))
+
     async def invoke(self, request: BoltRequest, *, address=None):
         """
         A request response wrapper
@@ -190,6 +204,7 @@ class AioClient(_BaseClient):
             # replied, failed or given up, nobody waits any more
             self.request_mapping.pop(request.request_id, None)
             self.response_mapping.pop(request.request_id, None)
+            self.sent_mapping.pop(request.request_id, None)
 
     async def _send_request(self, request: BoltRequest, *, address):
         """
@@ -208,13 +223,19 @@ class AioClient(_BaseClient):
             readtask, writer = await self._get_connection(address)
             try:
                 await writer.drain()  # avoid back pressure
+                if readtask.done():
+                    raise ConnectionResetError("connection lost")
+                self.sent_mapping[request.request_id] = readtask
                 writer.write(stream)
                 await writer.drain()
             except Exception as e:
                 logger.error("Request sent to {} failed: {}, may try again.".format(address, e))
+                self._drop_connection(address, readtask)
+                if event.is_set():
+                    # already failed with the connection
+                    return
+                self.sent_mapping.pop(request.request_id, None)
                 readtask.cancel()
-                self.connection_mapping.pop(address)
-                self._pending_dial.pop(address)
                 await _send(retry - 1)
 
         # generate event object first, ensure every successfully sent request has a event
-- 
2.43.0


From cb60f256bc1436b3f752df25fe60355c92a70c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:00 +0000
Subject: [PATCH 14/44] fix: a peer closing inside a frame left its sock
 listener thread spinning forever

---
 anthunder/listener/sock_listener.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/anthunder/listener/sock_listener.py b/anthunder/listener/sock_listener.py
index 5942867..b803ebf 100644
--- a/anthunder/listener/sock_listener.py
+++ b/anthunder/listener/sock_listener.py
@@ -85,7 +85,10 @@ class SockBoltHandler(StreamRequestHandler):
     def _readexactly(self, bs_cnt):
         bs = b''
         while len(bs) < bs_cnt:
-            bs += self.rfile.read(bs_cnt - len(bs))
+            chunk = self.rfile.read(bs_cnt - len(bs))
+            if not chunk:
+                raise EOFError("Connection closed by remote")
+            bs += chunk
         return bs
 
     def handle(self):
-- 
2.43.0


From 9f60eb07d69548c89ac776ca3dd83b49e2a32739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:00 +0000
Subject: [PATCH 15/44] fix: sock listener answered one-way requests

---
 anthunder/listener/sock_listener.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/anthunder/listener/sock_listener.py b/anthunder/listener/sock_listener.py
index b803ebf..abedfcb 100644
--- a/anthunder/listener/sock_listener.py
+++ b/anthunder/listener/sock_listener.py
@@ -30,7 +30,7 @@ from anthunder.command.fail_response import FailResponse
 from anthunder.command.heartbeat import HeartbeatResponse
 from anthunder.exceptions import ClientError
 from anthunder.protocol import BoltRequest, SofaHeader
-from anthunder.protocol.constants import CMDCODE, RESPSTATUS
+from anthunder.protocol.constants import CMDCODE, PTYPE, RESPSTATUS
 from anthunder.protocol import BoltResponse
 
 from .base_listener import BaseListener, BaseHandler, NoProcessorError
@@ -132,6 +132,8 @@ class SockBoltHandler(StreamRequestHandler):
             spanctx = tracer.extract(opentracing.Format.TEXT_MAP, sofa_header)
             # call servicehandler
             ret = self.service_handler.handle_request(spanctx, service, method, body)
+            if call_type == PTYPE.ONEWAY:
+                return
             self.wfile.write(BoltResponse.response_to(ret, request_id=request_id).to_stream())
             self.wfile.flush()
 
-- 
2.43.0


From 87f1fec0e01f30a193cc83c50359bc300244df0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:00 +0000
Subject: [PATCH 16/44] fix: requests of a sock listener ran on the services of
 the listener created last

---
 anthunder/listener/sock_listener.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/anthunder/listener/sock_listener.py b/anthunder/listener/sock_listener.py
index abedfcb..6dd74ba 100644
--- a/anthunder/listener/sock_listener.py
+++ b/anthunder/listener/sock_listener.py
@@ -150,9 +150,9 @@ class SockListener(BaseListener):
 
     def __init__(self, *args, **kwargs):
         super(SockListener, self).__init__(*args, **kwargs)
-        # inject service_handler
-        SockBoltHandler.service_handler = self.handler
-        self.server = ThreadingTCPServer(self.address, SockBoltHandler)
+        # inject service_handler, to a subclass, other listeners have their own
+        handler_cls = type("SockBoltHandler", (SockBoltHandler,), {"service_handler": self.handler})
+        self.server = ThreadingTCPServer(self.address, handler_cls)
 
     def run_forever(self):
         self.server.serve_forever()
-- 
2.43.0


From a5fc6b0b18fe83cd11d82e9af659359b87f85d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:00 +0000
Subject: [PATCH 17/44] fix: services registered on one listener were served
 and published by all others

---
 anthunder/listener/aio_listener.py  | 1 +
 anthunder/listener/base_listener.py | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/anthunder/listener/aio_listener.py b/anthunder/listener/aio_listener.py
index 3d7e14f..4fb77cf 100644
--- a/anthunder/listener/aio_listener.py
+++ b/anthunder/listener/aio_listener.py
@@ -52,6 +52,7 @@ class AioThreadpoolRequestHandler(BaseHandler):
     MAX_WORKER = 30
 
     def __init__(self):
+        super(AioThreadpoolRequestHandler, self).__init__()
         self.executor = ThreadPoolExecutor(max_workers=self.MAX_WORKER)
         self.local = threading.local()
         self.lock = RLock()
diff --git a/anthunder/listener/base_listener.py b/anthunder/listener/base_listener.py
index a5e0ac3..4e85ab1 100644
--- a/anthunder/listener/base_listener.py
+++ b/anthunder/listener/base_listener.py
@@ -42,7 +42,11 @@ class BaseHandler(object):
     """Handle bolt request"""
     # stores interface:
     #   "interface": (function, protobuf_cls)
-    interface_mapping = dict()
+    interface_mapping = None
+
+    def __init__(self):
+        # every handler has its own services
+        self.interface_mapping = dict()
 
     def register_interface(self, interface, service_cls, *service_cls_args, **service_cls_kwargs):
         raise NotImplementedError()
-- 
2.43.0


From e28788c01aba58e7edb9259aff4ba95119b5aa1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:00 +0000
Subject: [PATCH 18/44] fix: publish and unpublish failed when an interface was
 registered meanwhile

---
 anthunder/listener/base_listener.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anthunder/listener/base_listener.py b/anthunder/listener/base_listener.py
index 4e85ab1..78feb7e 100644
--- a/anthunder/listener/base_listener.py
+++ b/anthunder/listener/base_listener.py
@@ -89,7 +89,7 @@ class BaseListener(object):
         Publish all the interfaces in handler.interface_mapping to mosnd
         """
         if self._mesh_client:
-            for service_name in self.handler.interface_mapping:
+            for service_name in list(self.handler.interface_mapping):
                 self._mesh_client.publish(PublishServiceRequest(
                     port=str(self.address[1]),
                     serviceName=service_name,
@@ -103,7 +103,7 @@ class BaseListener(object):
         Revoke all the interfaces in handler.interface_mapping from mosnd.
         """
         if self._mesh_client:
-            for service_name in self.handler.interface_mapping:
+            for service_name in list(self.handler.interface_mapping):
                 self._mesh_client.unpublish(service_name)
 
     def run_forever(self):
-- 
2.43.0


From 06b5ae368ff66fc61b9a0d6ba2b9eed5f671a141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:00 +0000
Subject: [PATCH 19/44] fix: recvexactly looped forever on a closed connection,
 sendall failed on a full send buffer

---
 mysockpool/connection.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mysockpool/connection.py b/mysockpool/connection.py
index a7bc2a9..df56fe4 100644
--- a/mysockpool/connection.py
+++ b/mysockpool/connection.py
@@ -58,9 +58,11 @@ class SocketConnection(object):
         wait_for_write(self.sock)
         return self.sock.send(*args, **kw)
 
-    def sendall(self, *args, **kw):
-        wait_for_write(self.sock)
-        return self.sock.sendall(*args, **kw)
+    def sendall(self, data, *args, **kw):
+        # the socket is non-blocking, its own sendall fails if the send buffer fills up
+        view = memoryview(data)
+        while view:
+            view = view[self.send(view, *args, **kw):]
 
     def recv(self, *args, **kw):
         return self.sock.recv(*args, **kw)
@@ -71,6 +73,8 @@ class SocketConnection(object):
         while read < size:
             wait_for_read(self.sock)
             bs = self.sock.recv(size - read)
+            if not bs:
+                raise EOFError("Connection closed by remote")
             buf.write(bs)
             read += len(bs)
         return buf.getvalue()
-- 
2.43.0


From 79f174a5f983bdecbd4fd9bb9829eb8aa9d09502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:00 +0000
Subject: [PATCH 20/44] fix: the blocking client sent large requests only in
 part, waited on connections it could not send on, and lost its deadline

---
 anthunder/client/client.py | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/anthunder/client/client.py b/anthunder/client/client.py
index 46ab811..7f520de 100644
--- a/anthunder/client/client.py
+++ b/anthunder/client/client.py
@@ -29,7 +29,7 @@ try:
 except ImportError:
     from selectors34 import DefaultSelector, EVENT_READ
 
-from mysockpool import PoolManager
+from mysockpool import PoolManager, wait_for_write
 from mysockpool.exceptions import SocketValueError
 
 from anthunder.exceptions import ServerError
@@ -53,7 +53,7 @@ class Client(_BaseClient):
     """
 
     def _raw_invoke(self, interface, method_name, content, spanctx=None, target_app="", uid="",
-                    timeout_ms=None, bolt_ptype=PTYPE.REQUEST, **sofa_headers_extra):
+                    timeout_ms=None, bolt_ptype=PTYPE.REQUEST, deadline=None, **sofa_headers_extra):
 
         """
         :param content:
@@ -69,24 +69,40 @@ class Client(_BaseClient):
         header = SofaHeader.build_header(spanctx, interface, method_name, target_app=target_app, uid=uid,
                                          **sofa_headers_extra)
         p = BoltRequest.new_request(header, content, timeout_ms=timeout_ms or -1, ptype=bolt_ptype)
+        stream = p.to_stream()
         for i in range(3):
             # try three times, to avoid connection failure
             try:
                 conn = self._get_pool(interface).get_conn()
-                conn.send(p.to_stream())
+                self._send_stream(conn, stream, deadline)
             except SocketValueError as e:
                 logger.info("Call to interface {} failed, requiest_id: {}, "
                             "retried: {}, reason: {}".format(interface, p.request_id, i, e))
+                if i == 2:
+                    raise
                 continue
             except Exception as e:
                 logger.error("Call to interface {} failed, requiest_id: {}, "
                              "retried: {}, reason: {}".format(interface, p.request_id, i, e))
-                break
+                raise
             else:
                 break
         logger.debug("Called interface {}, request_id: {}".format(interface, p.request_id))
         return p.request_id, conn
 
+    @staticmethod
+    def _send_stream(conn, stream, deadline):
+        """send all of the stream, send() may take a part of it only"""
+        view = memoryview(stream)
+        try:
+            while view:
+                if deadline is not None and not wait_for_write(conn, timeout=max(deadline - time.monotonic(), 0)):
+                    raise TimeoutError('Sync call timeout')
+                view = view[conn.send(view):]
+        except Exception:
+            conn.close()
+            raise
+
     def _get_pool(self, interface):
         return PoolManager().connection_pool_from_pool_key(
             PoolManager.PoolCls.ConnectionCls.PoolKeyCls(*self._get_address(interface)))
@@ -110,9 +126,9 @@ class Client(_BaseClient):
         """
         assert isinstance(timeout_ms, (int, float))
         pkg = BoltResponse
-        deadline = time.time() + timeout_ms / 1000 + 1
+        deadline = time.monotonic() + timeout_ms / 1000 + 1
         req_id, c = self._raw_invoke(interface, method_name, content, target_app=target_app, uid=uid,
-                                     spanctx=spanctx, timeout_ms=timeout_ms)
+                                     spanctx=spanctx, timeout_ms=timeout_ms, deadline=deadline)
 
         with DefaultSelector() as sel:
             sel.register(c, EVENT_READ)
@@ -120,7 +136,7 @@ class Client(_BaseClient):
             resp_bytes = b''
             header = None
             while len(resp_bytes) < total_size:
-                ready = sel.select(timeout=deadline - time.time())
+                ready = sel.select(timeout=deadline - time.monotonic())
                 if not ready:
                     # timeout
                     c.close()
-- 
2.43.0


From 219b6d995cb78a7518da2f37708651eb110235e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:00 +0000
Subject: [PATCH 21/44] fix: a connection closed before the reply kept the
 blocking client spinning beyond its deadline

---
 anthunder/client/client.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/anthunder/client/client.py b/anthunder/client/client.py
index 7f520de..801ffc7 100644
--- a/anthunder/client/client.py
+++ b/anthunder/client/client.py
@@ -137,12 +137,16 @@ class Client(_BaseClient):
             header = None
             while len(resp_bytes) < total_size:
                 ready = sel.select(timeout=deadline - time.monotonic())
-                if not ready:
+                if not ready or time.monotonic() > deadline:
                     # timeout
                     c.close()
                     raise TimeoutError('Sync call timeout')
                 for key, event in ready:
-                    resp_bytes += key.fileobj.recv(total_size - len(resp_bytes))
+                    bs = key.fileobj.recv(total_size - len(resp_bytes))
+                    if not bs:
+                        c.close()
+                        raise ServerError("Connection closed by remote")
+                    resp_bytes += bs
                 if not header and len(resp_bytes) >= total_size:
                     header = pkg.bolt_header_from_stream(resp_bytes)
                     body_size = header['class_len'] + header['header_len'] + header['content_len']
-- 
2.43.0


From e4660968a0a5502bee7cf422fb091d35157b1e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:00 +0000
Subject: [PATCH 22/44] fix: the pool exceeded its maximum under concurrency
 and lost capacity when a connection could not be created

---
 mysockpool/connection_pool.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mysockpool/connection_pool.py b/mysockpool/connection_pool.py
index 44ce63f..b11a98b 100644
--- a/mysockpool/connection_pool.py
+++ b/mysockpool/connection_pool.py
@@ -84,11 +84,16 @@ class ConnectionPool(object):
                                      "Pool reached maximum size and no more "
                                      "connections are allowed.")
 
-        self.num_connections += 1
+            self.num_connections += 1
         log.debug("Starting new connection (%d): %r",
                   self.num_connections, self.pool_key)
 
-        conn = self.ConnectionCls(self.pool_key)
+        try:
+            conn = self.ConnectionCls(self.pool_key)
+        except Exception:
+            with self._lock:
+                self.num_connections -= 1
+            raise
         return conn
 
     def get_conn(self, timeout=None):
-- 
2.43.0


From 593a4539ce8944a4dab051f26c5a42e6bd512f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:00 +0000
Subject: [PATCH 23/44] fix: the pool lent dropped connections after closing
 them

---
 mysockpool/connection_pool.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mysockpool/connection_pool.py b/mysockpool/connection_pool.py
index b11a98b..6a14445 100644
--- a/mysockpool/connection_pool.py
+++ b/mysockpool/connection_pool.py
@@ -129,6 +129,7 @@ class ConnectionPool(object):
         if conn and is_connection_dropped(conn):
             log.debug("Resetting dropped connection: %r", self.pool_key)
             conn.close()
+            conn = None
             with self._lock:
                 self.num_connections -= 1
 
-- 
2.43.0


From 725176e8cdb9141a84238f00b1df714ad9ee880e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:18 +0000
Subject: [PATCH 24/44] fix: spans started by several threads from one parent
 got the same rpc id

---
 mytracer/_rpc_id.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mytracer/_rpc_id.py b/mytracer/_rpc_id.py
index 07a7877..3fa1844 100644
--- a/mytracer/_rpc_id.py
+++ b/mytracer/_rpc_id.py
@@ -21,9 +21,12 @@
    Change Activity:
         version0 : 2018/5/28 14:59 by jiaqi.hjq  init
 """
+import threading
 
 
 class RpcId(object):
+    _lock = threading.Lock()  # guards the child counters
+
     def __init__(self, *rpcids):
         """
         span id, represented as `a.b.c...`, where `a`, `b`, `c` are numbers.
@@ -60,8 +63,10 @@ class RpcId(object):
         return cls(*new_ids)
 
     def _new_child_of(self):
-        self._child_count += 1
-        obj = self.extend_id(self.rpcids, self._child_count)
+        with self._lock:
+            self._child_count += 1
+            count = self._child_count
+        obj = self.extend_id(self.rpcids, count)
         obj._parent = self  # attach a link to parent rpcId
         return obj
 
-- 
2.43.0


From b1edd80318d408c8a1c346646d7adedfba04fe67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:18 +0000
Subject: [PATCH 25/44] fix: a follow-up span got the rpc id of its next
 sibling

---
 mytracer/_rpc_id.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mytracer/_rpc_id.py b/mytracer/_rpc_id.py
index 3fa1844..b8acee2 100644
--- a/mytracer/_rpc_id.py
+++ b/mytracer/_rpc_id.py
@@ -71,12 +71,10 @@ class RpcId(object):
         return obj
 
     def _new_follows_from(self):
-        obj = self.extend_id(self.rpcids[:-1], self.rpcids[-1] + 1)
         if self._parent:
             # a follows up span is a sibling span, means it is a child span of parent
-            self._parent._child_count += 1
-            obj._parent = self._parent
-        return obj
+            return self._parent._new_child_of()
+        return self.extend_id(self.rpcids[:-1], self.rpcids[-1] + 1)
 
     def new_by_reference_type(self, ref_type):
         return getattr(self, '_new_' + ref_type)()
-- 
2.43.0


From 60f31149ec0c4452ac87fed2576d526edfdefbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:36 +0000
Subject: [PATCH 26/44] fix: two threads binding the same key of the service
 map could both succeed

---
 anthunder/helpers/immutable_dict.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/anthunder/helpers/immutable_dict.py b/anthunder/helpers/immutable_dict.py
index de68451..bc9551e 100644
--- a/anthunder/helpers/immutable_dict.py
+++ b/anthunder/helpers/immutable_dict.py
@@ -18,12 +18,16 @@
    Author : jiaqi.hjq
 """
 import logging
+import threading
 
 logger = logging.getLogger(__name__)
 
 
 class ImmutableValueDict(dict):
+    _lock = threading.Lock()
+
     def __setitem__(self, key, value):
-        if key in self:
-            raise KeyError("Key {} exists, cannot be set to value {}".format(key, value))
-        super(ImmutableValueDict, self).__setitem__(key, value)
+        with self._lock:
+            if key in self:
+                raise KeyError("Key {} exists, cannot be set to value {}".format(key, value))
+            super(ImmutableValueDict, self).__setitem__(key, value)
-- 
2.43.0


From a4c085c881143199576f35e59d0bc579c1175aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:52 +0000
Subject: [PATCH 27/44] fix: closing a closed pool raised AttributeError,
 leaving other pools of a cleared manager open

---
 mysockpool/connection_pool.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mysockpool/connection_pool.py b/mysockpool/connection_pool.py
index 6a14445..bf33f12 100644
--- a/mysockpool/connection_pool.py
+++ b/mysockpool/connection_pool.py
@@ -173,6 +173,8 @@ class ConnectionPool(object):
         """
         # Disable access to the pool
         old_pool, self.pool = self.pool, None
+        if old_pool is None:
+            return  # closed already
 
         try:
             while True:
-- 
2.43.0


From 071dbc12c16a7063005e27fe0b46bc3dfaad6b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:52 +0000
Subject: [PATCH 28/44] fix: the pool lost an idle connection when a spare one
 could not be created

---
 mysockpool/connection_pool.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mysockpool/connection_pool.py b/mysockpool/connection_pool.py
index bf33f12..95832f9 100644
--- a/mysockpool/connection_pool.py
+++ b/mysockpool/connection_pool.py
@@ -113,7 +113,11 @@ class ConnectionPool(object):
             conn = self.pool.get(block=self.block, timeout=timeout)
 
             if self.pool.qsize() < self.min_free_connections:
-                self.put_conn(self._new_conn())
+                try:
+                    self.put_conn(self._new_conn())
+                except OSError as e:
+                    # could not be replenished, but there is one to lend
+                    log.warning("Replenishing pool %r failed: %s", self.pool_key, e)
 
         except AttributeError:  # self.pool is None
             raise ClosedPoolError(self, "Pool is closed.")
-- 
2.43.0


From 1c15f73eccca369808baa37c2b1a0285aca5e370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:19 +0000
Subject: [PATCH 29/44] fix: the pool opened one connection too many while it
 discarded a surplus one

---
 mysockpool/connection_pool.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mysockpool/connection_pool.py b/mysockpool/connection_pool.py
index 95832f9..1c133f7 100644
--- a/mysockpool/connection_pool.py
+++ b/mysockpool/connection_pool.py
@@ -164,8 +164,12 @@ class ConnectionPool(object):
             log.warning(
                 "Connection pool is full, discarding connection: %s",
                 self.pool_key)
+            # makes room for another one only once it is closed
+            if conn:
+                conn.close()
             with self._lock:
                 self.num_connections -= 1
+            return
 
         # Connection never got put back into the pool, close it.
         if conn:
-- 
2.43.0


From c15a3046f4be544b99c193609f96b0f5053796dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:35 +0000
Subject: [PATCH 30/44] fix: updating the service map silently replaced bound
 addresses

---
 anthunder/helpers/immutable_dict.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/anthunder/helpers/immutable_dict.py b/anthunder/helpers/immutable_dict.py
index bc9551e..2117738 100644
--- a/anthunder/helpers/immutable_dict.py
+++ b/anthunder/helpers/immutable_dict.py
@@ -31,3 +31,15 @@ class ImmutableValueDict(dict):
             if key in self:
                 raise KeyError("Key {} exists, cannot be set to value {}".format(key, value))
             super(ImmutableValueDict, self).__setitem__(key, value)
+
+    def setdefault(self, key, default=None):
+        with self._lock:
+            return super(ImmutableValueDict, self).setdefault(key, default)
+
+    def update(self, *args, **kwargs):
+        for key, value in dict(*args, **kwargs).items():
+            self[key] = value
+
+    def __ior__(self, other):
+        self.update(other)
+        return self
-- 
2.43.0


From 90b999b5066c808386a90f7194f5afc3f8945801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:37 +0000
Subject: [PATCH 31/44] fix: spans could not be started with tags

---
 mytracer/tracer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mytracer/tracer.py b/mytracer/tracer.py
index 025a8c8..371f61a 100644
--- a/mytracer/tracer.py
+++ b/mytracer/tracer.py
@@ -96,7 +96,7 @@ class MyTracer(opentracing.Tracer):
         span.set_operation_name(operation_name)
 
         _tags = tags or dict()
-        for k, v in _tags:
+        for k, v in _tags.items():
             span.set_tag(k, v)
         if start_time:
             span.set_start_time(start_time)
-- 
2.43.0


From d6d2d7f98c6f7196225614d122a355ca5ed46034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:51 +0000
Subject: [PATCH 32/44] fix: a response is not held up while the rest of its
 connection's requests are sent

An invocation whose response (or failure) arrived while the write buffer of the
connection was still above its high-water mark kept waiting in drain(), as long
as the peer did not read on. Back pressure is applied before writing.
---
 anthunder/client/aio_client.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/anthunder/client/aio_client.py b/anthunder/client/aio_client.py
index 7efd11b..bbe3b08 100644
--- a/anthunder/client/aio_client.py
+++ b/anthunder/client/aio_client.py
@@ -227,7 +227,9 @@ class AioClient(_BaseClient):
                     raise ConnectionResetError("connection lost")
                 self.sent_mapping[request.request_id] = readtask
                 writer.write(stream)
-                await writer.drain()
+                if writer.is_closing():
+                    raise ConnectionResetError("connection lost")
+                # do not wait until it is sent, that would hold up a response or failure which comes earlier
             except Exception as e:
                 logger.error("Request sent to {} failed: {}, may try again.".format(address, e))
                 self._drop_connection(address, readtask)
-- 
2.43.0


From de2605d69791745a8e90605ef39899014585495e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:34 +0000
Subject: [PATCH 33/44] fix: a blocking pool lost the place of a connection
 which could not be replaced

---
 mysockpool/connection_pool.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/mysockpool/connection_pool.py b/mysockpool/connection_pool.py
index 1c133f7..85129de 100644
--- a/mysockpool/connection_pool.py
+++ b/mysockpool/connection_pool.py
@@ -137,7 +137,22 @@ class ConnectionPool(object):
             with self._lock:
                 self.num_connections -= 1
 
-        return conn or self._new_conn()
+        if conn:
+            return conn
+        try:
+            return self._new_conn()
+        except Exception:
+            if self.block:
+                # keep its place, those who wait only get what is put back
+                self._put_place()
+            raise
+
+    def _put_place(self):
+        """Put back the place of a connection which is yet to be created."""
+        try:
+            self.pool.put(None, block=False)
+        except (AttributeError, queue.Full):
+            pass  # closed, or nobody waits
 
     def put_conn(self, conn):
         """
-- 
2.43.0


From 695928a4d67357112dce2da92959650146b1e8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:04 +0000
Subject: [PATCH 34/44] fix: setting a pool again under its key closed it while
 still in use

---
 mysockpool/recently_used_container.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mysockpool/recently_used_container.py b/mysockpool/recently_used_container.py
index 5d3f69f..6fdd23b 100644
--- a/mysockpool/recently_used_container.py
+++ b/mysockpool/recently_used_container.py
@@ -60,6 +60,8 @@ class RecentlyUsedContainer(MutableMapping):
         with self.lock:
             # Possibly evict the existing value of 'key'
             evicted_value = self._container.get(key, _Null)
+            if evicted_value is value:
+                evicted_value = _Null  # set again, so it stays in use
             self._container[key] = value
 
             # If we didn't evict an existing value, we might have to evict the
-- 
2.43.0


From 95831eb14e95135a6f6650f03a94285b06b48a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:40 +0000
Subject: [PATCH 35/44] fix: shutting down the asyncio listener raced with its
 loop and could raise

---
 anthunder/listener/aio_listener.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/anthunder/listener/aio_listener.py b/anthunder/listener/aio_listener.py
index 4fb77cf..aeddf70 100644
--- a/anthunder/listener/aio_listener.py
+++ b/anthunder/listener/aio_listener.py
@@ -118,9 +118,16 @@ class AioListener(BaseListener):
         """quit the server loop"""
         logger.info("Aio Listener shutting down")
         if self._loop and self._server:
-            self._server.close()
+            if self._loop.is_running() and asyncio._get_running_loop() is not self._loop:
+                # asyncio servers are not thread safe, let the loop thread close it
+                asyncio.run_coroutine_threadsafe(self._close(), self._loop).result()
+            else:
+                self._server.close()
             asyncio.run_coroutine_threadsafe(self._server.wait_closed(), self._loop)
 
+    async def _close(self):
+        self._server.close()
+
     async def _dispatch(self, call_type, request_id, sofa_header, body, *, timeout_ms, writer):
         """send request to handler"""
         service = sofa_header.get('sofa_head_target_service') or sofa_header.get('service')
-- 
2.43.0


From 759b34bdd9a521346f8b784bd1965135f3fd6ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:42 +0000
Subject: [PATCH 36/44] fix: frames with an unknown command code were run as
 requests

---
 anthunder/listener/aio_listener.py  | 2 +-
 anthunder/listener/sock_listener.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/anthunder/listener/aio_listener.py b/anthunder/listener/aio_listener.py
index aeddf70..b09de3e 100644
--- a/anthunder/listener/aio_listener.py
+++ b/anthunder/listener/aio_listener.py
@@ -230,7 +230,7 @@ class AioListener(BaseListener):
                         self._write_msg(writer, HeartbeatResponse.response_to(header['request_id']).to_stream()))
                     continue
 
-                if cmdcode == CMDCODE.RESPONSE:
+                if cmdcode != CMDCODE.REQUEST:
                     raise ClientError("wrong cmdcode:[{}]".format(cmdcode))
 
                 if class_name != "com.alipay.sofa.rpc.core.request.SofaRequest".encode():
diff --git a/anthunder/listener/sock_listener.py b/anthunder/listener/sock_listener.py
index 6dd74ba..3156024 100644
--- a/anthunder/listener/sock_listener.py
+++ b/anthunder/listener/sock_listener.py
@@ -110,7 +110,7 @@ class SockBoltHandler(StreamRequestHandler):
                 self.wfile.flush()
                 return
 
-            if cmdcode == CMDCODE.RESPONSE:
+            if cmdcode != CMDCODE.REQUEST:
                 raise ClientError("wrong cmdcode:[{}]".format(cmdcode))
 
             if class_name != "com.alipay.sofa.rpc.core.request.SofaRequest".encode():
-- 
2.43.0


From 237d2ef9fbbd7dc7a24cb10515ab9ba22537827c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:56 +0000
Subject: [PATCH 37/44] fix: every request id drawn was remembered forever

---
 anthunder/helpers/request_id.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anthunder/helpers/request_id.py b/anthunder/helpers/request_id.py
index ae66650..40a7834 100644
--- a/anthunder/helpers/request_id.py
+++ b/anthunder/helpers/request_id.py
@@ -19,10 +19,10 @@
 """
 import logging
 from random import randint
-from itertools import cycle, chain
+from itertools import count
 
 logger = logging.getLogger(__name__)
 
 _max = 0x7fffffff  # 4 bytes signed int
 _start = randint(0, _max)
-RequestId = cycle(chain(range(_start, _max + 1), range(0, _start)))
+RequestId = map(_max.__and__, count(_start))  # wraps around, a cycle() would remember every id
-- 
2.43.0


From 02423277493dc3993e4db4266281e0d08454bf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:01 +0000
Subject: [PATCH 38/44] fix: aio listener never answered requests whose service
 raised StopIteration or a BaseException

---
 anthunder/listener/aio_listener.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/anthunder/listener/aio_listener.py b/anthunder/listener/aio_listener.py
index b09de3e..0ddfd69 100644
--- a/anthunder/listener/aio_listener.py
+++ b/anthunder/listener/aio_listener.py
@@ -72,7 +72,16 @@ class AioThreadpoolRequestHandler(BaseHandler):
             logger.error("No such method[{}]".format(method))
             raise NoProcessorError("No such method[{}]".format(method)) from e
 
-        future = self.executor.submit(func, body)
+        def call(content):
+            try:
+                return func(content)
+            except BaseException as e:
+                if isinstance(e, Exception) and not isinstance(e, StopIteration):
+                    raise
+                # these would get lost between the event loop and the task which waits for the result
+                raise RuntimeError("service raised {!r}".format(e)) from e
+
+        future = self.executor.submit(call, body)
         logger.info("biz request submitted to function({})".format(func))
         return future
 
-- 
2.43.0


From 1d82c1cb10a4253b322d3362db6ec899d1ae90cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:01 +0000
Subject: [PATCH 39/44] fix: a service class whose constructor tries to exit
 stopped the aio listener's event loop

---
 anthunder/listener/aio_listener.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/anthunder/listener/aio_listener.py b/anthunder/listener/aio_listener.py
index 0ddfd69..1aad302 100644
--- a/anthunder/listener/aio_listener.py
+++ b/anthunder/listener/aio_listener.py
@@ -159,7 +159,8 @@ class AioListener(BaseListener):
             await self._write_msg(writer,
                                        FailResponse.response_to(request_id, RESPSTATUS.NO_PROCESSOR).to_stream())
             return
-        except Exception:
+        except BaseException:
+            # a service class which tries to exit must not stop the event loop
             await self._write_msg(writer,
                                        FailResponse.response_to(request_id, RESPSTATUS.SERVER_EXCEPTION).to_stream())
             return
-- 
2.43.0


From 79b4e999c26d5921c08c56a8340bc0ceefbd29a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:01 +0000
Subject: [PATCH 40/44] fix: a callback which tries to exit stopped the aio
 client's event loop

---
 anthunder/client/aio_client.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/anthunder/client/aio_client.py b/anthunder/client/aio_client.py
index bbe3b08..096c2c5 100644
--- a/anthunder/client/aio_client.py
+++ b/anthunder/client/aio_client.py
@@ -116,7 +116,11 @@ class AioClient(_BaseClient):
             except (CancelledError, TimeoutError):
                 logger.error("Failed to get result")
                 return
-            return callback(ret.content)
+            try:
+                return callback(ret.content)
+            except BaseException:
+                # a callback which tries to exit must not stop the event loop
+                logger.error(traceback.format_exc())
 
         return _inner
 
-- 
2.43.0


From dfdd78f4ff9777c96c7fabecd6292a0a7d0bf366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:01 +0000
Subject: [PATCH 41/44] fix: no trace id could be made on hosts whose own name
 does not resolve

---
 mytracer/_trace_id.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mytracer/_trace_id.py b/mytracer/_trace_id.py
index 2d02f38..7a88696 100644
--- a/mytracer/_trace_id.py
+++ b/mytracer/_trace_id.py
@@ -35,7 +35,11 @@ class TraceId(object):
 
     def __init__(self, trace=None):
         if not isinstance(trace, str):
-            _ip = int(ipaddress.ip_address(six.u(socket.gethostbyname(socket.gethostname()))))
+            try:
+                _host = socket.gethostbyname(socket.gethostname())
+            except OSError:
+                _host = "127.0.0.1"  # the host name does not resolve, a trace id is needed nevertheless
+            _ip = int(ipaddress.ip_address(six.u(_host)))
             _ts = int(time.time() * 1000)
             _sq = next(self._sequence)
             _pid = os.getpid()
-- 
2.43.0


From 633a7e52fef55ef1b8da59def885a98567182a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:24 +0000
Subject: [PATCH 42/44] fix: calls whose baggage has an item named prefix or
 expand lost their trace context or failed

---
 anthunder/protocol/_rpc_trace_context.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/anthunder/protocol/_rpc_trace_context.py b/anthunder/protocol/_rpc_trace_context.py
index 046514f..d25aa23 100644
--- a/anthunder/protocol/_rpc_trace_context.py
+++ b/anthunder/protocol/_rpc_trace_context.py
@@ -29,9 +29,10 @@ class RpcTraceContext(object):
     """
     prefix = "rpc_trace_context."
 
-    def __init__(self, **kwargs):
-        for k, v in kwargs.items():
-            setattr(self, k, v)
+    def __init__(*args, **kwargs):
+        # no attributes, items may have any name, also "self", "prefix" or "expand"
+        self, = args
+        self._items = kwargs
 
     def expand(self):
-        return {self.prefix + k: str(v) for k, v in self.__dict__.items()}
+        return {self.prefix + k: str(v) for k, v in self._items.items()}
-- 
2.43.0


From 51a4a234de421bad5420a18fdd5f8c4095419677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:25 +0000
Subject: [PATCH 43/44] fix: requests whose trace context has an item named
 self or reference failed

---
 mytracer/span_context.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mytracer/span_context.py b/mytracer/span_context.py
index b17dfe1..ccdcecd 100644
--- a/mytracer/span_context.py
+++ b/mytracer/span_context.py
@@ -41,11 +41,13 @@ class SpanContext(object):
 
     """
 
-    def __init__(self, reference=None, **kwargs):
+    def __init__(*args, **kwargs):
         """
         :param reference: contains a type and a context
         :param kwargs:
         """
+        # baggage items may have any name, also "self" or (where the reference is passed by position) "reference"
+        self, reference = args if len(args) > 1 else (args[0], kwargs.pop('reference', None))
         if reference:
             origin_span_baggage = reference.referenced_context.baggage.copy()
             kwargs['sofaRpcId'] = origin_span_baggage.pop('sofaRpcId').new_by_reference_type(reference.type)
-- 
2.43.0


From dcbf6cd8ab57b8c20fe5381fdbd9fa5b38128d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:46 +0000
Subject: [PATCH 44/44] fix: a bad frame no longer holds up the requests behind
 it while replies are back-pressured

---
 anthunder/listener/aio_listener.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/anthunder/listener/aio_listener.py b/anthunder/listener/aio_listener.py
index 1aad302..86cd153 100644
--- a/anthunder/listener/aio_listener.py
+++ b/anthunder/listener/aio_listener.py
@@ -251,14 +251,17 @@ class AioListener(BaseListener):
                                                      timeout_ms=header['timeout'], writer=writer))
             except ClientError as e:
                 logger.error(str(e) + " returning CLIENT_SEND_ERROR")
-                await self._write_msg(writer, FailResponse.response_to(header['request_id'],
-                                                                            RESPSTATUS.CLIENT_SEND_ERROR).to_stream())
+                # do not wait until it is sent, that would hold up the requests behind it
+                asyncio.ensure_future(
+                    self._write_msg(writer, FailResponse.response_to(header['request_id'],
+                                                                     RESPSTATUS.CLIENT_SEND_ERROR).to_stream()))
                 continue
 
             except ProtocolError as e:
                 logger.error(str(e) + " returning CODEC_EXCEPTION")
-                await self._write_msg(writer, FailResponse.response_to(header['request_id'],
-                                                                            RESPSTATUS.CODEC_EXCEPTION).to_stream())
+                asyncio.ensure_future(
+                    self._write_msg(writer, FailResponse.response_to(header['request_id'],
+                                                                     RESPSTATUS.CODEC_EXCEPTION).to_stream()))
                 continue
 
             except EOFError as e:
-- 
2.43.0

