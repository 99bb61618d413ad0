From 1244fd9e3450e66ed212909dd52e9bfd0f808f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:21 +0000
Subject: [PATCH 01/45] fix: report a header that is not valid utf-8 as
 DecodeError

SofaHeader.from_bytes leaked UnicodeDecodeError, so the listener treated such a
request as an unknown failure and dropped the whole connection instead of
answering CODEC_EXCEPTION.
---
 anthunder/protocol/_sofa_header.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/anthunder/protocol/_sofa_header.py b/anthunder/protocol/_sofa_header.py
index f253a76..62efe60 100644
--- a/anthunder/protocol/_sofa_header.py
+++ b/anthunder/protocol/_sofa_header.py
@@ -80,7 +80,10 @@ def _bytes_to_str(b, coding='utf-8'):
         if n > len(b):  # pragma: no cover
             # incomplete bytes
             raise DecodeError('decoding bytes to str failed, not enough length')
-        ret.append(b[4: n].decode(coding))
+        try:
+            ret.append(b[4: n].decode(coding))
+        except UnicodeDecodeError as e:
+            raise DecodeError(e)
         b = b[n:]
 
     return ret
-- 
2.43.0


From 692f42fd0d046b87d17a5ff287ddd00d08b55471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:21 +0000
Subject: [PATCH 02/45] fix: consume the whole frame before decoding the sofa
 header

After a DecodeError the listener went on with the next frame while the content
of the broken one was still unread, so the content bytes were parsed as bolt
headers and every following request on the connection was lost.
---
 anthunder/listener/aio_listener.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/anthunder/listener/aio_listener.py b/anthunder/listener/aio_listener.py
index 106a43e..4033b52 100644
--- a/anthunder/listener/aio_listener.py
+++ b/anthunder/listener/aio_listener.py
@@ -207,10 +207,12 @@ class AioListener(BaseListener):
                 bs = await reader.readexactly(header['header_len'])
                 logger.debug("received sofa header({})".format(bs))
 
-                sofa_header = SofaHeader.from_bytes(bs)
                 body = await reader.readexactly(header['content_len'])
                 logger.debug("received sofa body({})".format(body))
 
+                # decode only after the whole frame has been consumed, a codec error must not desync the stream
+                sofa_header = SofaHeader.from_bytes(bs)
+
                 if cmdcode == CMDCODE.HEARTBEAT:
                     logger.info("received heartbeat, request_id={}".format(header['request_id']))
                     asyncio.ensure_future(
-- 
2.43.0


From 969d384d65bfd9786cc13d30763c938326bf0a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:21 +0000
Subject: [PATCH 03/45] fix: answer requests whose service returns empty bytes

An empty protobuf message serializes to b'', which is a valid result, but the
listener sent no response at all and the caller ran into its timeout.
---
 anthunder/listener/aio_listener.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anthunder/listener/aio_listener.py b/anthunder/listener/aio_listener.py
index 4033b52..ee72153 100644
--- a/anthunder/listener/aio_listener.py
+++ b/anthunder/listener/aio_listener.py
@@ -163,7 +163,7 @@ class AioListener(BaseListener):
             await self._write_msg(writer, FailResponse.response_to(request_id, RESPSTATUS.UNKNOWN).to_stream())
             return
 
-        if result:
+        if result is not None:
             header = dict()
             tracer.inject(spanctx, opentracing.Format.TEXT_MAP, header)
             pkg = BoltResponse.response_to(result, request_id=request_id)
-- 
2.43.0


From 3bb789af1f93d026b6057f84de8ae44c5bc1d0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:21 +0000
Subject: [PATCH 04/45] fix: answer requests whose result cannot be serialized

A service returning None or anything that is not bytes left the caller without
any response.
---
 anthunder/listener/aio_listener.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/anthunder/listener/aio_listener.py b/anthunder/listener/aio_listener.py
index ee72153..afa6bec 100644
--- a/anthunder/listener/aio_listener.py
+++ b/anthunder/listener/aio_listener.py
@@ -163,14 +163,15 @@ class AioListener(BaseListener):
             await self._write_msg(writer, FailResponse.response_to(request_id, RESPSTATUS.UNKNOWN).to_stream())
             return
 
-        if result is not None:
-            header = dict()
-            tracer.inject(spanctx, opentracing.Format.TEXT_MAP, header)
-            pkg = BoltResponse.response_to(result, request_id=request_id)
-            try:
-                await self._write_msg(writer, pkg.to_stream())
-            except Exception:
-                logger.error(traceback.format_exc())
+        try:
+            msg = BoltResponse.response_to(result, request_id=request_id).to_stream()
+        except Exception:
+            logger.error(traceback.format_exc())
+            msg = FailResponse.response_to(request_id, RESPSTATUS.SERVER_SERIAL_EXCEPTION).to_stream()
+        try:
+            await self._write_msg(writer, msg)
+        except Exception:
+            logger.error(traceback.format_exc())
 
     async def _write_msg(self, writer, msg):
         await writer.drain()  # clean the buffer, avoid backpressure
-- 
2.43.0


From 42ed4677341365d87a1aa46e1b190257def24516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:22 +0000
Subject: [PATCH 05/45] fix: answer requests that carry an illegal trace
 context

InvalidCarrierException escaped from the dispatch task, so such a request was
never answered.
---
 anthunder/listener/aio_listener.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/anthunder/listener/aio_listener.py b/anthunder/listener/aio_listener.py
index afa6bec..4e4278d 100644
--- a/anthunder/listener/aio_listener.py
+++ b/anthunder/listener/aio_listener.py
@@ -135,9 +135,8 @@ class AioListener(BaseListener):
             logger.error("Missing method name in sofa header [{}]".format(sofa_header))
             return
 
-        spanctx = tracer.extract(opentracing.Format.TEXT_MAP, sofa_header)
-
         try:
+            spanctx = tracer.extract(opentracing.Format.TEXT_MAP, sofa_header)
             future = self.handler.handle_request(spanctx, service, method, body)
         except NoProcessorError:
             await self._write_msg(writer,
-- 
2.43.0


From a2910781b5d8fdd7a0a8f3ca3bbd3ee86ffd9904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:22 +0000
Subject: [PATCH 06/45] fix: do not answer the previous request again when the
 peer closes

On EOF between two frames the listener sent CONNECTION_CLOSED with the request
id of the last received request, a second response to a request that may have
been answered already.
---
 anthunder/listener/aio_listener.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/anthunder/listener/aio_listener.py b/anthunder/listener/aio_listener.py
index 4e4278d..f3cd720 100644
--- a/anthunder/listener/aio_listener.py
+++ b/anthunder/listener/aio_listener.py
@@ -185,6 +185,7 @@ class AioListener(BaseListener):
         logger.info("connection created.")
         first_req = True
         while True:
+            header = None  # no request is being received yet
             try:
                 try:
                     fixed_header_bs = await reader.readexactly(BoltRequest.bolt_header_size())
-- 
2.43.0


From 90ae9be2f465241511abd9ba2c5cfff67f55a532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:22 +0000
Subject: [PATCH 07/45] fix: leave the sock handler when the peer closes mid
 frame

rfile.read returns b'' forever at EOF, so the handler thread span endlessly.
---
 anthunder/listener/sock_listener.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/anthunder/listener/sock_listener.py b/anthunder/listener/sock_listener.py
index 5942867..b803ebf 100644
--- a/anthunder/listener/sock_listener.py
+++ b/anthunder/listener/sock_listener.py
@@ -85,7 +85,10 @@ class SockBoltHandler(StreamRequestHandler):
     def _readexactly(self, bs_cnt):
         bs = b''
         while len(bs) < bs_cnt:
-            bs += self.rfile.read(bs_cnt - len(bs))
+            chunk = self.rfile.read(bs_cnt - len(bs))
+            if not chunk:
+                raise EOFError("Connection closed by remote")
+            bs += chunk
         return bs
 
     def handle(self):
-- 
2.43.0


From cb9059dbfcc2f331ed8268c4f18b0eaaf09d86b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:22 +0000
Subject: [PATCH 08/45] fix: sock listener does not respond to oneway requests

---
 anthunder/listener/sock_listener.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/anthunder/listener/sock_listener.py b/anthunder/listener/sock_listener.py
index b803ebf..35af7af 100644
--- a/anthunder/listener/sock_listener.py
+++ b/anthunder/listener/sock_listener.py
@@ -30,7 +30,7 @@ from anthunder.command.fail_response import FailResponse
 from anthunder.command.heartbeat import HeartbeatResponse
 from anthunder.exceptions import ClientError
 from anthunder.protocol import BoltRequest, SofaHeader
-from anthunder.protocol.constants import CMDCODE, RESPSTATUS
+from anthunder.protocol.constants import PTYPE, CMDCODE, RESPSTATUS
 from anthunder.protocol import BoltResponse
 
 from .base_listener import BaseListener, BaseHandler, NoProcessorError
@@ -132,6 +132,9 @@ class SockBoltHandler(StreamRequestHandler):
             spanctx = tracer.extract(opentracing.Format.TEXT_MAP, sofa_header)
             # call servicehandler
             ret = self.service_handler.handle_request(spanctx, service, method, body)
+            if call_type == PTYPE.ONEWAY:
+                # nobody waits for a response
+                return
             self.wfile.write(BoltResponse.response_to(ret, request_id=request_id).to_stream())
             self.wfile.flush()
 
-- 
2.43.0


From 2762040e7e301df101ce0d014e52a9b1931bfabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:51 +0000
Subject: [PATCH 09/45] fix: SocketConnection.sendall sends everything on a
 non-blocking socket

socket.sendall on a non-blocking socket raises BlockingIOError as soon as the
send buffer is full, with an unknown part of the data sent.
---
 mysockpool/connection.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/mysockpool/connection.py b/mysockpool/connection.py
index a7bc2a9..ff6ae53 100644
--- a/mysockpool/connection.py
+++ b/mysockpool/connection.py
@@ -58,9 +58,16 @@ class SocketConnection(object):
         wait_for_write(self.sock)
         return self.sock.send(*args, **kw)
 
-    def sendall(self, *args, **kw):
-        wait_for_write(self.sock)
-        return self.sock.sendall(*args, **kw)
+    def sendall(self, data, flags=0, timeout=None):
+        """
+        :param timeout: (optional) seconds to wait for the peer each time the send buffer is full
+        """
+        # the socket may be non-blocking, socket.sendall would fail once the send buffer is full
+        data = memoryview(data)
+        while len(data):
+            if not wait_for_write(self.sock, timeout):
+                raise socket.timeout("timed out")
+            data = data[self.sock.send(data, flags):]
 
     def recv(self, *args, **kw):
         return self.sock.recv(*args, **kw)
-- 
2.43.0


From 08803bbb5ea024577428e272776d964fe64f8a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:51 +0000
Subject: [PATCH 10/45] fix: recvexactly raises when the peer closes

It looped forever on the empty reads of a closed connection.
---
 mysockpool/connection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mysockpool/connection.py b/mysockpool/connection.py
index ff6ae53..d20f710 100644
--- a/mysockpool/connection.py
+++ b/mysockpool/connection.py
@@ -78,6 +78,8 @@ class SocketConnection(object):
         while read < size:
             wait_for_read(self.sock)
             bs = self.sock.recv(size - read)
+            if not bs:
+                raise EOFError("Connection closed by remote")
             buf.write(bs)
             read += len(bs)
         return buf.getvalue()
-- 
2.43.0


From b22df69d9f1e764144c1b3d3cd7f1bbaf526ccec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:51 +0000
Subject: [PATCH 11/45] fix: replace a dropped connection instead of handing it
 out closed

get_conn closed the dropped connection, took it out of the count, and returned
it anyway: the caller got a closed socket and num_connections no longer matched
the connections in use.
---
 mysockpool/connection_pool.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mysockpool/connection_pool.py b/mysockpool/connection_pool.py
index 44ce63f..2a99406 100644
--- a/mysockpool/connection_pool.py
+++ b/mysockpool/connection_pool.py
@@ -124,6 +124,7 @@ class ConnectionPool(object):
         if conn and is_connection_dropped(conn):
             log.debug("Resetting dropped connection: %r", self.pool_key)
             conn.close()
+            conn = None
             with self._lock:
                 self.num_connections -= 1
 
-- 
2.43.0


From d15f61e04a16f51dd472fe63d1f032d7b9a82fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:51 +0000
Subject: [PATCH 12/45] fix: keep num_connections right under concurrency and
 failed creation

The limit was checked under the lock but the counter was incremented outside of
it, so concurrent callers could exceed max_connections; and a connection that
could not be created kept its slot forever.
---
 mysockpool/connection_pool.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mysockpool/connection_pool.py b/mysockpool/connection_pool.py
index 2a99406..5e14a31 100644
--- a/mysockpool/connection_pool.py
+++ b/mysockpool/connection_pool.py
@@ -84,12 +84,16 @@ class ConnectionPool(object):
                                      "Pool reached maximum size and no more "
                                      "connections are allowed.")
 
-        self.num_connections += 1
+            self.num_connections += 1
         log.debug("Starting new connection (%d): %r",
                   self.num_connections, self.pool_key)
 
-        conn = self.ConnectionCls(self.pool_key)
-        return conn
+        try:
+            return self.ConnectionCls(self.pool_key)
+        except Exception:
+            with self._lock:
+                self.num_connections -= 1
+            raise
 
     def get_conn(self, timeout=None):
         """
-- 
2.43.0


From ff6c0deb42ef19c3cbadcb016e2a3538b8448b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:51 +0000
Subject: [PATCH 13/45] fix: storing an existing key makes it the most recently
 used

It kept its old place in the eviction line, so a key that was just written could
be evicted before keys unused for longer.
---
 mysockpool/recently_used_container.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mysockpool/recently_used_container.py b/mysockpool/recently_used_container.py
index 5d3f69f..46abca1 100644
--- a/mysockpool/recently_used_container.py
+++ b/mysockpool/recently_used_container.py
@@ -58,8 +58,8 @@ class RecentlyUsedContainer(MutableMapping):
     def __setitem__(self, key, value):
         evicted_value = _Null
         with self.lock:
-            # Possibly evict the existing value of 'key'
-            evicted_value = self._container.get(key, _Null)
+            # Possibly evict the existing value of 'key', and re-insert it at the end of the eviction line.
+            evicted_value = self._container.pop(key, _Null)
             self._container[key] = value
 
             # If we didn't evict an existing value, we might have to evict the
-- 
2.43.0


From 39478411944d601e77fbb7eb89001a4988459ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:51 +0000
Subject: [PATCH 14/45] fix: sync call fails when the server closes before the
 whole response

A closed connection is always readable, so the receive loop span forever and
not even the timeout ended it.
---
 anthunder/client/client.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/anthunder/client/client.py b/anthunder/client/client.py
index 46ab811..808bc11 100644
--- a/anthunder/client/client.py
+++ b/anthunder/client/client.py
@@ -126,7 +126,11 @@ class Client(_BaseClient):
                     c.close()
                     raise TimeoutError('Sync call timeout')
                 for key, event in ready:
-                    resp_bytes += key.fileobj.recv(total_size - len(resp_bytes))
+                    bs = key.fileobj.recv(total_size - len(resp_bytes))
+                    if not bs:
+                        c.close()
+                        raise ServerError.from_statuscode(RESPSTATUS.CONNECTION_CLOSED)
+                    resp_bytes += bs
                 if not header and len(resp_bytes) >= total_size:
                     header = pkg.bolt_header_from_stream(resp_bytes)
                     body_size = header['class_len'] + header['header_len'] + header['content_len']
-- 
2.43.0


From 0deb30b4388d65e70c9e7e38eb1069c1788c4901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:51 +0000
Subject: [PATCH 15/45] fix: sync client sends the whole request

A single send() on the non-blocking socket truncates requests larger than the
free send buffer. A request that cannot be encoded now raises EncodeError instead
of being logged and waited for until the timeout.
---
 anthunder/client/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/anthunder/client/client.py b/anthunder/client/client.py
index 808bc11..d790cd5 100644
--- a/anthunder/client/client.py
+++ b/anthunder/client/client.py
@@ -69,11 +69,12 @@ class Client(_BaseClient):
         header = SofaHeader.build_header(spanctx, interface, method_name, target_app=target_app, uid=uid,
                                          **sofa_headers_extra)
         p = BoltRequest.new_request(header, content, timeout_ms=timeout_ms or -1, ptype=bolt_ptype)
+        data = p.to_stream()
         for i in range(3):
             # try three times, to avoid connection failure
             try:
                 conn = self._get_pool(interface).get_conn()
-                conn.send(p.to_stream())
+                conn.sendall(data, timeout=timeout_ms / 1000 if timeout_ms else None)
             except SocketValueError as e:
                 logger.info("Call to interface {} failed, requiest_id: {}, "
                             "retried: {}, reason: {}".format(interface, p.request_id, i, e))
-- 
2.43.0


From e648c09ca5fa57a9688a3ac881319e149b3d3cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:51 +0000
Subject: [PATCH 16/45] fix: accept float timeouts

The clients accept timeout_ms as int or float, but a float could not be encoded
into the request.
---
 anthunder/protocol/_request_pkg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/anthunder/protocol/_request_pkg.py b/anthunder/protocol/_request_pkg.py
index 91796b5..f991d06 100644
--- a/anthunder/protocol/_request_pkg.py
+++ b/anthunder/protocol/_request_pkg.py
@@ -21,6 +21,7 @@
    Change Activity:
         version0 : 2018/4/28 11:39 by jiaqi.hjq  init
 """
+import math
 import struct
 from anthunder.helpers.request_id import RequestId
 from .constants import PTYPE, CMDCODE
@@ -48,4 +49,4 @@ class BoltRequest(BoltPackage):
     @classmethod
     def new_request(cls, header, content, ptype=PTYPE.REQUEST, timeout_ms=None):
         return cls(header, content, ptype=ptype, cmdcode=CMDCODE.REQUEST,
-                   request_id=next(RequestId), timeout=timeout_ms or -1)
+                   request_id=next(RequestId), timeout=math.ceil(timeout_ms or -1))
-- 
2.43.0


From e9eb6a5d43b26c269b3d541de0140f46ba6c1389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:51 +0000
Subject: [PATCH 17/45] fix: start_span sets the given tags

Iterating the dict itself unpacked each key, so tags raised ValueError, or were
set wrong for keys of two characters.
---
 mytracer/tracer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mytracer/tracer.py b/mytracer/tracer.py
index 025a8c8..371f61a 100644
--- a/mytracer/tracer.py
+++ b/mytracer/tracer.py
@@ -96,7 +96,7 @@ class MyTracer(opentracing.Tracer):
         span.set_operation_name(operation_name)
 
         _tags = tags or dict()
-        for k, v in _tags:
+        for k, v in _tags.items():
             span.set_tag(k, v)
         if start_time:
             span.set_start_time(start_time)
-- 
2.43.0


From 9455eab9c7c78074013fcedb14bb13d522ae620d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:21 +0000
Subject: [PATCH 18/45] fix: follow up spans get an rpc id of their own

The id was the followed id plus one, which an earlier child of the same parent
(or an earlier follower of the same span) may already have.
---
 mytracer/_rpc_id.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mytracer/_rpc_id.py b/mytracer/_rpc_id.py
index 07a7877..f8427ed 100644
--- a/mytracer/_rpc_id.py
+++ b/mytracer/_rpc_id.py
@@ -46,6 +46,8 @@ class RpcId(object):
 
         self._child_count = 0
         self._parent = None
+        # last segment handed out among the followers of an id without known parent, shared by those followers
+        self._last_sibling = [self.rpcids[-1]]
 
     def __str__(self):
         return ".".join(map(str, self.rpcids))
@@ -66,11 +68,12 @@ class RpcId(object):
         return obj
 
     def _new_follows_from(self):
-        obj = self.extend_id(self.rpcids[:-1], self.rpcids[-1] + 1)
         if self._parent:
             # a follows up span is a sibling span, means it is a child span of parent
-            self._parent._child_count += 1
-            obj._parent = self._parent
+            return self._parent._new_child_of()
+        self._last_sibling[0] += 1
+        obj = self.extend_id(self.rpcids[:-1], self._last_sibling[0])
+        obj._last_sibling = self._last_sibling
         return obj
 
     def new_by_reference_type(self, ref_type):
-- 
2.43.0


From c71fe4132f74c4664a45ac886e01c35eb2311fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:21 +0000
Subject: [PATCH 19/45] fix: AioClient.invoke_oneway sends a oneway request

It was sent as an ordinary request, which the server answers.
---
 anthunder/client/aio_client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anthunder/client/aio_client.py b/anthunder/client/aio_client.py
index 3fef513..0519c56 100644
--- a/anthunder/client/aio_client.py
+++ b/anthunder/client/aio_client.py
@@ -73,7 +73,7 @@ class AioClient(_BaseClient):
 
     def invoke_oneway(self, interface, method, content, *, spanctx, **headers):
         header = SofaHeader.build_header(spanctx, interface, method, **headers)
-        pkg = BoltRequest.new_request(header, content, timeout_ms=-1)
+        pkg = BoltRequest.new_request(header, content, ptype=PTYPE.ONEWAY, timeout_ms=-1)
         asyncio.run_coroutine_threadsafe(self.invoke(pkg), loop=self._loop)
 
     def invoke_sync(self, interface, method, content, *, spanctx, timeout_ms, **headers):
-- 
2.43.0


From dc49472287e8421fdcf66121979b3ca4f86423b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:21 +0000
Subject: [PATCH 20/45] fix: AioClient reports the response status, and
 receives heartbeat responses

For a failed call the response was thrown away and the caller got
KeyError(request_id) instead of ServerError. The same happened to every
heartbeat, so invoke_heartbeat always raised.
---
 anthunder/client/aio_client.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/anthunder/client/aio_client.py b/anthunder/client/aio_client.py
index 0519c56..12084c6 100644
--- a/anthunder/client/aio_client.py
+++ b/anthunder/client/aio_client.py
@@ -172,7 +172,12 @@ class AioClient(_BaseClient):
             logger.debug("no related event, should be a async/oneway call, return now")
             return
         await event.wait()
-        return self.response_mapping.pop(request.request_id)
+        resp = self.response_mapping.pop(request.request_id, None)
+        if resp is None:
+            raise ServerError("no valid response received")
+        if resp.respstatus != RESPSTATUS.SUCCESS and request.cmdcode != CMDCODE.HEARTBEAT:
+            raise ServerError.from_statuscode(resp.respstatus)
+        return resp
 
     async def _send_request(self, request: BoltRequest, *, address):
         """
@@ -232,13 +237,9 @@ class AioClient(_BaseClient):
                 pkg = BoltResponse.bolt_content_from_stream(bs, header)
                 if pkg.class_name != BoltResponse.class_name:
                     raise ServerError("wrong class_name:[{}]".format(pkg.class_name))
-                if pkg.cmdcode == CMDCODE.HEARTBEAT:
-                    continue
-                elif pkg.cmdcode == CMDCODE.REQUEST:
+                if pkg.cmdcode == CMDCODE.REQUEST:
                     # raise error, the connection will be dropped
                     raise ServerError("wrong cmdcode:[{}]".format(pkg.cmdcode))
-                if pkg.respstatus != RESPSTATUS.SUCCESS:
-                    raise ServerError.from_statuscode(pkg.respstatus)
                 if pkg.request_id not in self.request_mapping:
                     continue
                 self.response_mapping[pkg.request_id] = pkg
-- 
2.43.0


From c088796828f4e35f5d4cfd1b27088ff44a699cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:21 +0000
Subject: [PATCH 21/45] fix: a failed heartbeat does not end the heartbeat
 timer

Any exception ended the timer task, and no heartbeat was ever sent again.
---
 anthunder/client/aio_client.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/anthunder/client/aio_client.py b/anthunder/client/aio_client.py
index 12084c6..256e2f7 100644
--- a/anthunder/client/aio_client.py
+++ b/anthunder/client/aio_client.py
@@ -122,7 +122,10 @@ class AioClient(_BaseClient):
         """Invoke heartbeat periodly"""
         while True:
             await asyncio.sleep(interval)
-            await self.invoke_heartbeat(address)
+            try:
+                await self.invoke_heartbeat(address)
+            except Exception as e:
+                logger.error("heartbeat to {} failed: {}".format(address, e))
 
     async def invoke_heartbeat(self, address):
         """
-- 
2.43.0


From 83f2fb53bec0bffb557ff015374f9913e5c9e264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:21 +0000
Subject: [PATCH 22/45] fix: AioClient reports why a request could not be sent

The error was swallowed, and the caller got AttributeError: 'NoneType' object
has no attribute 'content'.
---
 anthunder/client/aio_client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anthunder/client/aio_client.py b/anthunder/client/aio_client.py
index 256e2f7..04d35cf 100644
--- a/anthunder/client/aio_client.py
+++ b/anthunder/client/aio_client.py
@@ -213,11 +213,11 @@ class AioClient(_BaseClient):
         except PyboltError:
             logger.error("failed to send request {}".format(request.request_id))
             self.request_mapping.pop(request.request_id)
-            return
+            raise
         except Exception:
             logger.error(traceback.format_exc())
             self.request_mapping.pop(request.request_id)
-            return
+            raise
 
         if request.ptype == PTYPE.ONEWAY:
             self.request_mapping.pop(request.request_id)
-- 
2.43.0


From 66b8dcd6c5a59f6e28281e5649fc5258e1e2fb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:21 +0000
Subject: [PATCH 23/45] fix: a request that cannot be encoded does not break
 the connection

The encoding error was taken for a broken connection: the connection, shared with
all other calls to this address, was dropped and their responses were lost.
---
 anthunder/client/aio_client.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/anthunder/client/aio_client.py b/anthunder/client/aio_client.py
index 04d35cf..162313b 100644
--- a/anthunder/client/aio_client.py
+++ b/anthunder/client/aio_client.py
@@ -190,6 +190,8 @@ class AioClient(_BaseClient):
         :return:
         """
         assert isinstance(request, BoltRequest)
+        # a request that cannot be encoded is not a failure of the connection
+        msg = request.to_stream()
 
         async def _send(retry=3):
             if retry <= 0:
@@ -197,7 +199,7 @@ class AioClient(_BaseClient):
             readtask, writer = await self._get_connection(address)
             try:
                 await writer.drain()  # avoid back pressure
-                writer.write(request.to_stream())
+                writer.write(msg)
                 await writer.drain()
             except Exception as e:
                 logger.error("Request sent to {} failed: {}, may try again.".format(address, e))
-- 
2.43.0


From a3b1b5bf783acc36923697695535cada8c6713c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:21 +0000
Subject: [PATCH 24/45] fix: concurrent requests on a broken connection all
 reconnect

The first one removed the connection, the others failed with KeyError or removed
the new connection of the first one.
---
 anthunder/client/aio_client.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/anthunder/client/aio_client.py b/anthunder/client/aio_client.py
index 162313b..d3f7413 100644
--- a/anthunder/client/aio_client.py
+++ b/anthunder/client/aio_client.py
@@ -196,7 +196,8 @@ class AioClient(_BaseClient):
         async def _send(retry=3):
             if retry <= 0:
                 raise PyboltError("send request failed.")
-            readtask, writer = await self._get_connection(address)
+            connection = await self._get_connection(address)
+            readtask, writer = connection
             try:
                 await writer.drain()  # avoid back pressure
                 writer.write(msg)
@@ -204,8 +205,9 @@ class AioClient(_BaseClient):
             except Exception as e:
                 logger.error("Request sent to {} failed: {}, may try again.".format(address, e))
                 readtask.cancel()
-                self.connection_mapping.pop(address)
-                self._pending_dial.pop(address)
+                # another request may have failed on the same connection and replaced it already
+                if self.connection_mapping.get(address) is connection:
+                    self.connection_mapping.pop(address)
                 await _send(retry - 1)
 
         # generate event object first, ensure every successfully sent request has a event
-- 
2.43.0


From 9a7cb21c845228da092843413b5084e7bae34a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:04 +0000
Subject: [PATCH 25/45] fix: a response may arrive before the request is
 completely flushed

The event was looked up again after the write buffer had drained. A server that
answers early had it removed by then, and the caller got KeyError.
---
 anthunder/client/aio_client.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/anthunder/client/aio_client.py b/anthunder/client/aio_client.py
index d3f7413..0d9e423 100644
--- a/anthunder/client/aio_client.py
+++ b/anthunder/client/aio_client.py
@@ -211,23 +211,24 @@ class AioClient(_BaseClient):
                 await _send(retry - 1)
 
         # generate event object first, ensure every successfully sent request has a event
-        self.request_mapping[request.request_id] = asyncio.Event()
+        event = self.request_mapping[request.request_id] = asyncio.Event()
         try:
             await _send()
         except PyboltError:
             logger.error("failed to send request {}".format(request.request_id))
-            self.request_mapping.pop(request.request_id)
+            self.request_mapping.pop(request.request_id, None)
             raise
         except Exception:
             logger.error(traceback.format_exc())
-            self.request_mapping.pop(request.request_id)
+            self.request_mapping.pop(request.request_id, None)
             raise
 
         if request.ptype == PTYPE.ONEWAY:
-            self.request_mapping.pop(request.request_id)
+            self.request_mapping.pop(request.request_id, None)
             return
 
-        return self.request_mapping[request.request_id]
+        # the response may have arrived already, and taken the event out of the mapping
+        return event
 
     async def _recv_response(self, reader, writer):
         """
-- 
2.43.0


From 18069b5696120c05584c228df97f5d552bd54c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:04 +0000
Subject: [PATCH 26/45] fix: a response that cannot be decoded ends the call it
 belongs to

The request id is known from the bolt header, but the caller was not woken up.
---
 anthunder/client/aio_client.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/anthunder/client/aio_client.py b/anthunder/client/aio_client.py
index 0d9e423..858673a 100644
--- a/anthunder/client/aio_client.py
+++ b/anthunder/client/aio_client.py
@@ -237,10 +237,11 @@ class AioClient(_BaseClient):
         :return:
         """
         while True:
-            pkg = None
+            request_id = None
             try:
                 fixed_header_bs = await reader.readexactly(BoltResponse.bolt_header_size())
                 header = BoltResponse.bolt_header_from_stream(fixed_header_bs)
+                request_id = header['request_id']
                 bs = await reader.readexactly(header['class_len'] + header['header_len'] + header['content_len'])
                 pkg = BoltResponse.bolt_content_from_stream(bs, header)
                 if pkg.class_name != BoltResponse.class_name:
@@ -263,7 +264,7 @@ class AioClient(_BaseClient):
                 writer.close()
                 break
             finally:
-                with suppress(AttributeError, KeyError):
+                with suppress(KeyError):
                     # wake up the coro
-                    event = self.request_mapping.pop(pkg.request_id)
+                    event = self.request_mapping.pop(request_id)
                     event.set()
-- 
2.43.0


From 21af77d39b5d23471817210719c4ecefe47bc754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:04 +0000
Subject: [PATCH 27/45] fix: calls in flight fail when their connection is lost

Nobody woke them up, so invoke_async futures never completed and invoke_sync
waited for its whole timeout.
---
 anthunder/client/aio_client.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/anthunder/client/aio_client.py b/anthunder/client/aio_client.py
index 858673a..f952103 100644
--- a/anthunder/client/aio_client.py
+++ b/anthunder/client/aio_client.py
@@ -170,11 +170,22 @@ class AioClient(_BaseClient):
         address = address or self._get_address(request.header['service'])
         logger.debug("invoke to address: {}".format(address))
 
-        event = await self._send_request(request, address=address)
-        if event is None:
+        sent = await self._send_request(request, address=address)
+        if sent is None:
             logger.debug("no related event, should be a async/oneway call, return now")
             return
-        await event.wait()
+        event, readtask = sent
+
+        def _connection_lost(_):
+            event.set()
+
+        # no response will come any more when the connection is gone
+        readtask.add_done_callback(_connection_lost)
+        try:
+            await event.wait()
+        finally:
+            readtask.remove_done_callback(_connection_lost)
+            self.request_mapping.pop(request.request_id, None)
         resp = self.response_mapping.pop(request.request_id, None)
         if resp is None:
             raise ServerError("no valid response received")
@@ -208,12 +219,13 @@ class AioClient(_BaseClient):
                 # another request may have failed on the same connection and replaced it already
                 if self.connection_mapping.get(address) is connection:
                     self.connection_mapping.pop(address)
-                await _send(retry - 1)
+                return await _send(retry - 1)
+            return readtask
 
         # generate event object first, ensure every successfully sent request has a event
         event = self.request_mapping[request.request_id] = asyncio.Event()
         try:
-            await _send()
+            readtask = await _send()
         except PyboltError:
             logger.error("failed to send request {}".format(request.request_id))
             self.request_mapping.pop(request.request_id, None)
@@ -228,7 +240,7 @@ class AioClient(_BaseClient):
             return
 
         # the response may have arrived already, and taken the event out of the mapping
-        return event
+        return event, readtask
 
     async def _recv_response(self, reader, writer):
         """
-- 
2.43.0


From 2dbdf02d1cc9ab44b11dde3c09b7798d18eb28e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:44 +0000
Subject: [PATCH 28/45] fix: set_baggage_item sets the baggage item

---
 mytracer/span.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mytracer/span.py b/mytracer/span.py
index cbc036c..986d433 100644
--- a/mytracer/span.py
+++ b/mytracer/span.py
@@ -46,7 +46,8 @@ class MySpan(object):
         self._operation_name = operation_name
 
     def set_baggage_item(self, key, value):
-        self._context._baggage[key] = value
+        # the baggage refuses item assignment by users of the context
+        dict.__setitem__(self._context._baggage, key, value)
 
     def get_baggage_iterm(self, key):
         return self._context.baggage[key]
-- 
2.43.0


From 43a50c9c3c425728b04464993d458771cccc1faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:13 +0000
Subject: [PATCH 29/45] fix: failing to add a free connection does not lose the
 idle one

---
 mysockpool/connection_pool.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mysockpool/connection_pool.py b/mysockpool/connection_pool.py
index 5e14a31..ebf29ee 100644
--- a/mysockpool/connection_pool.py
+++ b/mysockpool/connection_pool.py
@@ -112,7 +112,11 @@ class ConnectionPool(object):
             conn = self.pool.get(block=self.block, timeout=timeout)
 
             if self.pool.qsize() < self.min_free_connections:
-                self.put_conn(self._new_conn())
+                try:
+                    self.put_conn(self._new_conn())
+                except OSError as e:
+                    # there is a connection to return, do not lose it
+                    log.warning("Failed to add a free connection: %s", e)
 
         except AttributeError:  # self.pool is None
             raise ClosedPoolError(self, "Pool is closed.")
-- 
2.43.0


From 9ed9074f5b5a6567e4b6958ee206fb4fef8152af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:22 +0000
Subject: [PATCH 30/45] fix: baggage items may have any name

---
 anthunder/protocol/_sofa_header.py | 3 ++-
 mytracer/tracer.py                 | 6 +++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/anthunder/protocol/_sofa_header.py b/anthunder/protocol/_sofa_header.py
index 62efe60..285ab44 100644
--- a/anthunder/protocol/_sofa_header.py
+++ b/anthunder/protocol/_sofa_header.py
@@ -128,7 +128,8 @@ class SofaHeader(dict):
         :param sofa_headers_extra:
         :return:
         """
-        rpc_trace_context_expand = RpcTraceContext(**spanctx.baggage).expand()
+        # not through an RpcTraceContext object, baggage items may have any name, even that of one of its members
+        rpc_trace_context_expand = {RpcTraceContext.prefix + k: str(v) for k, v in spanctx.baggage.items()}
 
         kwargs = dict()
         kwargs.update(**sofa_headers_extra)
diff --git a/mytracer/tracer.py b/mytracer/tracer.py
index 371f61a..9354192 100644
--- a/mytracer/tracer.py
+++ b/mytracer/tracer.py
@@ -115,7 +115,11 @@ class MyTracer(opentracing.Tracer):
             raise opentracing.UnsupportedFormatException()
         try:
             d = {k.split('.', 1)[1]: carrier[k] for k in carrier if k.startswith(self._prefix)}
-            return self.spanContextCls(None, **d)
+            ids = {k: d.pop(k) for k in ('sofaTraceId', 'sofaRpcId') if k in d}
+            spanctx = self.spanContextCls(None, **ids)
+            # baggage items may have any name, even that of a parameter
+            spanctx.baggage.update(d)
+            return spanctx
         except:
             raise opentracing.InvalidCarrierException()
 
-- 
2.43.0


From db96e7ca649076999c7f22d4209549e5d6853e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:27 +0000
Subject: [PATCH 31/45] fix: a service that exits does not end the event loop
 of the listener

---
 anthunder/listener/aio_listener.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anthunder/listener/aio_listener.py b/anthunder/listener/aio_listener.py
index f3cd720..ce9a6d2 100644
--- a/anthunder/listener/aio_listener.py
+++ b/anthunder/listener/aio_listener.py
@@ -142,7 +142,7 @@ class AioListener(BaseListener):
             await self._write_msg(writer,
                                        FailResponse.response_to(request_id, RESPSTATUS.NO_PROCESSOR).to_stream())
             return
-        except Exception:
+        except (Exception, SystemExit):  # a service that exits must not end the event loop
             await self._write_msg(writer,
                                        FailResponse.response_to(request_id, RESPSTATUS.SERVER_EXCEPTION).to_stream())
             return
@@ -157,7 +157,7 @@ class AioListener(BaseListener):
             logger.error("Task run cancelled/timeout in {}ms, service:[{}]: error:[{}]".format(timeout_ms, service, e))
             await self._write_msg(writer, FailResponse.response_to(request_id, RESPSTATUS.TIMEOUT).to_stream())
             return
-        except Exception:
+        except (Exception, SystemExit):
             logger.error(traceback.format_exc())
             await self._write_msg(writer, FailResponse.response_to(request_id, RESPSTATUS.UNKNOWN).to_stream())
             return
-- 
2.43.0


From aa0f66f4211eea0dc023e50f31e07778923fc185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:54 +0000
Subject: [PATCH 32/45] fix: failing oneway requests are not answered

---
 anthunder/listener/aio_listener.py  | 23 +++++++++++------------
 anthunder/listener/sock_listener.py | 10 ++++++----
 2 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/anthunder/listener/aio_listener.py b/anthunder/listener/aio_listener.py
index ce9a6d2..2f962d2 100644
--- a/anthunder/listener/aio_listener.py
+++ b/anthunder/listener/aio_listener.py
@@ -124,14 +124,12 @@ class AioListener(BaseListener):
         """send request to handler"""
         service = sofa_header.get('sofa_head_target_service') or sofa_header.get('service')
         if not service:
-            await self._write_msg(writer,
-                                       FailResponse.response_to(request_id, RESPSTATUS.CLIENT_SEND_ERROR).to_stream())
+            await self._write_failure(writer, call_type, request_id, RESPSTATUS.CLIENT_SEND_ERROR)
             logger.error("Missing service name in sofa header [{}]".format(sofa_header))
             return
         method = sofa_header.get('sofa_head_method_name')
         if not method:
-            await self._write_msg(writer,
-                                       FailResponse.response_to(request_id, RESPSTATUS.CLIENT_SEND_ERROR).to_stream())
+            await self._write_failure(writer, call_type, request_id, RESPSTATUS.CLIENT_SEND_ERROR)
             logger.error("Missing method name in sofa header [{}]".format(sofa_header))
             return
 
@@ -139,12 +137,10 @@ class AioListener(BaseListener):
             spanctx = tracer.extract(opentracing.Format.TEXT_MAP, sofa_header)
             future = self.handler.handle_request(spanctx, service, method, body)
         except NoProcessorError:
-            await self._write_msg(writer,
-                                       FailResponse.response_to(request_id, RESPSTATUS.NO_PROCESSOR).to_stream())
+            await self._write_failure(writer, call_type, request_id, RESPSTATUS.NO_PROCESSOR)
             return
         except (Exception, SystemExit):  # a service that exits must not end the event loop
-            await self._write_msg(writer,
-                                       FailResponse.response_to(request_id, RESPSTATUS.SERVER_EXCEPTION).to_stream())
+            await self._write_failure(writer, call_type, request_id, RESPSTATUS.SERVER_EXCEPTION)
             return
         if PTYPE.ONEWAY == call_type:
             # Just return future
@@ -172,6 +168,11 @@ class AioListener(BaseListener):
         except Exception:
             logger.error(traceback.format_exc())
 
+    async def _write_failure(self, writer, call_type, request_id, status):
+        """nobody waits for the response to a oneway request"""
+        if PTYPE.ONEWAY != call_type:
+            await self._write_msg(writer, FailResponse.response_to(request_id, status).to_stream())
+
     async def _write_msg(self, writer, msg):
         await writer.drain()  # clean the buffer, avoid backpressure
         writer.write(msg)
@@ -231,14 +232,12 @@ class AioListener(BaseListener):
                                                      timeout_ms=header['timeout'], writer=writer))
             except ClientError as e:
                 logger.error(str(e) + " returning CLIENT_SEND_ERROR")
-                await self._write_msg(writer, FailResponse.response_to(header['request_id'],
-                                                                            RESPSTATUS.CLIENT_SEND_ERROR).to_stream())
+                await self._write_failure(writer, header['ptype'], header['request_id'], RESPSTATUS.CLIENT_SEND_ERROR)
                 continue
 
             except ProtocolError as e:
                 logger.error(str(e) + " returning CODEC_EXCEPTION")
-                await self._write_msg(writer, FailResponse.response_to(header['request_id'],
-                                                                            RESPSTATUS.CODEC_EXCEPTION).to_stream())
+                await self._write_failure(writer, header['ptype'], header['request_id'], RESPSTATUS.CODEC_EXCEPTION)
                 continue
 
             except EOFError as e:
diff --git a/anthunder/listener/sock_listener.py b/anthunder/listener/sock_listener.py
index 35af7af..0fc9596 100644
--- a/anthunder/listener/sock_listener.py
+++ b/anthunder/listener/sock_listener.py
@@ -118,14 +118,16 @@ class SockBoltHandler(StreamRequestHandler):
 
             service = sofa_header.get('sofa_head_target_service') or sofa_header.get('service')
             if not service:
-                self.wfile.write(FailResponse.response_to(request_id, RESPSTATUS.CLIENT_SEND_ERROR).to_stream())
-                self.wfile.flush()
+                if call_type != PTYPE.ONEWAY:
+                    self.wfile.write(FailResponse.response_to(request_id, RESPSTATUS.CLIENT_SEND_ERROR).to_stream())
+                    self.wfile.flush()
                 logger.error("Missing service name in sofa header [{}]".format(sofa_header))
                 return
             method = sofa_header.get('sofa_head_method_name')
             if not method:
-                self.wfile.write(FailResponse.response_to(request_id, RESPSTATUS.CLIENT_SEND_ERROR).to_stream())
-                self.wfile.flush()
+                if call_type != PTYPE.ONEWAY:
+                    self.wfile.write(FailResponse.response_to(request_id, RESPSTATUS.CLIENT_SEND_ERROR).to_stream())
+                    self.wfile.flush()
                 logger.error("Missing method name in sofa header [{}]".format(sofa_header))
                 return
 
-- 
2.43.0


From 3aa8ea05870aa3c496431ad39fd171a91b2fa089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:12 +0000
Subject: [PATCH 33/45] fix: answer requests whose service raises StopIteration

---
 anthunder/listener/aio_listener.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/anthunder/listener/aio_listener.py b/anthunder/listener/aio_listener.py
index 2f962d2..e81905c 100644
--- a/anthunder/listener/aio_listener.py
+++ b/anthunder/listener/aio_listener.py
@@ -71,7 +71,14 @@ class AioThreadpoolRequestHandler(BaseHandler):
             logger.error("No such method[{}]".format(method))
             raise NoProcessorError("No such method[{}]".format(method)) from e
 
-        future = self.executor.submit(func, body)
+        def call(body):
+            try:
+                return func(body)
+            except StopIteration as e:
+                # an asyncio future cannot hold a StopIteration, the request would never be answered
+                raise RuntimeError("service raised StopIteration") from e
+
+        future = self.executor.submit(call, body)
         logger.info("biz request submitted to function({})".format(func))
         return future
 
-- 
2.43.0


From 503a4ef85a9aa6b6c47146b4e4bd2209a827bbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:36 +0000
Subject: [PATCH 34/45] fix: the time limit of a sync call covers sending a
 large request

---
 mysockpool/connection.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mysockpool/connection.py b/mysockpool/connection.py
index d20f710..171883d 100644
--- a/mysockpool/connection.py
+++ b/mysockpool/connection.py
@@ -21,6 +21,7 @@
    File Name : connection.py
 """
 import socket
+import time
 from collections import namedtuple
 from io import BytesIO
 
@@ -60,12 +61,13 @@ class SocketConnection(object):
 
     def sendall(self, data, flags=0, timeout=None):
         """
-        :param timeout: (optional) seconds to wait for the peer each time the send buffer is full
+        :param timeout: (optional) seconds after which sending is given up
         """
+        deadline = None if timeout is None else time.time() + timeout
         # the socket may be non-blocking, socket.sendall would fail once the send buffer is full
         data = memoryview(data)
         while len(data):
-            if not wait_for_write(self.sock, timeout):
+            if not wait_for_write(self.sock, deadline and max(0, deadline - time.time())):
                 raise socket.timeout("timed out")
             data = data[self.sock.send(data, flags):]
 
-- 
2.43.0


From 61c76dd7b9f625aaf5db47f97c321a765075827b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:18 +0000
Subject: [PATCH 35/45] fix: an unanswered heartbeat does not end the series of
 heartbeats

---
 anthunder/client/aio_client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anthunder/client/aio_client.py b/anthunder/client/aio_client.py
index f952103..587096f 100644
--- a/anthunder/client/aio_client.py
+++ b/anthunder/client/aio_client.py
@@ -123,9 +123,9 @@ class AioClient(_BaseClient):
         while True:
             await asyncio.sleep(interval)
             try:
-                await self.invoke_heartbeat(address)
+                await asyncio.wait_for(self.invoke_heartbeat(address), interval)
             except Exception as e:
-                logger.error("heartbeat to {} failed: {}".format(address, e))
+                logger.error("heartbeat to {} failed: {!r}".format(address, e))
 
     async def invoke_heartbeat(self, address):
         """
-- 
2.43.0


From 0149895ec08139cc1479a7d2920f536c51753763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:08 +0000
Subject: [PATCH 36/45] fix: the threaded listener accepts more than a handful
 of simultaneous connections

---
 anthunder/listener/sock_listener.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/anthunder/listener/sock_listener.py b/anthunder/listener/sock_listener.py
index 0fc9596..39abe04 100644
--- a/anthunder/listener/sock_listener.py
+++ b/anthunder/listener/sock_listener.py
@@ -148,6 +148,10 @@ class SockBoltHandler(StreamRequestHandler):
             logger.error(traceback.format_exc())
 
 
+class SockServer(ThreadingTCPServer):
+    request_queue_size = 128  # connections of concurrent callers beyond this may be reset
+
+
 class SockListener(BaseListener):
     handlerCls = SockServiceHandler
 
@@ -155,7 +159,7 @@ class SockListener(BaseListener):
         super(SockListener, self).__init__(*args, **kwargs)
         # inject service_handler
         SockBoltHandler.service_handler = self.handler
-        self.server = ThreadingTCPServer(self.address, SockBoltHandler)
+        self.server = SockServer(self.address, SockBoltHandler)
 
     def run_forever(self):
         self.server.serve_forever()
-- 
2.43.0


From 2474753e04da66ca64b4aa1438c23aee5016f99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:17 +0000
Subject: [PATCH 37/45] fix: a sync call that times out is not waited for any
 more

---
 anthunder/client/aio_client.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/anthunder/client/aio_client.py b/anthunder/client/aio_client.py
index 587096f..1ff1904 100644
--- a/anthunder/client/aio_client.py
+++ b/anthunder/client/aio_client.py
@@ -86,6 +86,7 @@ class AioClient(_BaseClient):
             ret = fut.result(timeout=timeout_ms / 1000)
         except (TimeoutError, CancelledError) as e:
             logger.error("call to [{}:{}] timeout/cancelled. {}".format(interface, method, e))
+            fut.cancel()  # nobody waits for the response any more
             raise
         return ret.content
 
@@ -170,23 +171,26 @@ class AioClient(_BaseClient):
         address = address or self._get_address(request.header['service'])
         logger.debug("invoke to address: {}".format(address))
 
-        sent = await self._send_request(request, address=address)
-        if sent is None:
-            logger.debug("no related event, should be a async/oneway call, return now")
-            return
-        event, readtask = sent
+        try:
+            sent = await self._send_request(request, address=address)
+            if sent is None:
+                logger.debug("no related event, should be a async/oneway call, return now")
+                return
+            event, readtask = sent
 
-        def _connection_lost(_):
-            event.set()
+            def _connection_lost(_):
+                event.set()
 
-        # no response will come any more when the connection is gone
-        readtask.add_done_callback(_connection_lost)
-        try:
-            await event.wait()
+            # no response will come any more when the connection is gone
+            readtask.add_done_callback(_connection_lost)
+            try:
+                await event.wait()
+            finally:
+                readtask.remove_done_callback(_connection_lost)
         finally:
-            readtask.remove_done_callback(_connection_lost)
+            # the call may also have been cancelled, at any point
             self.request_mapping.pop(request.request_id, None)
-        resp = self.response_mapping.pop(request.request_id, None)
+            resp = self.response_mapping.pop(request.request_id, None)
         if resp is None:
             raise ServerError("no valid response received")
         if resp.respstatus != RESPSTATUS.SUCCESS and request.cmdcode != CMDCODE.HEARTBEAT:
-- 
2.43.0


From 2fca22ae791512740f26895e7f9d6beeb41f55ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:07 +0000
Subject: [PATCH 38/45] fix: the threaded listener refuses connections after
 its shutdown

---
 anthunder/listener/sock_listener.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/anthunder/listener/sock_listener.py b/anthunder/listener/sock_listener.py
index 39abe04..bf220b1 100644
--- a/anthunder/listener/sock_listener.py
+++ b/anthunder/listener/sock_listener.py
@@ -166,3 +166,5 @@ class SockListener(BaseListener):
 
     def shutdown(self):
         self.server.shutdown()
+        # otherwise callers could still connect, and would wait for an answer in vain
+        self.server.socket.close()
-- 
2.43.0


From de9621ef924eb13eeb70bbaf86a1b50aee21a7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:58 +0000
Subject: [PATCH 39/45] fix: a threaded listener can be restarted on its
 address at once

---
 anthunder/listener/sock_listener.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/anthunder/listener/sock_listener.py b/anthunder/listener/sock_listener.py
index bf220b1..41a71d3 100644
--- a/anthunder/listener/sock_listener.py
+++ b/anthunder/listener/sock_listener.py
@@ -149,6 +149,7 @@ class SockBoltHandler(StreamRequestHandler):
 
 
 class SockServer(ThreadingTCPServer):
+    allow_reuse_address = True  # a listener can be restarted while earlier connections linger in TIME_WAIT
     request_queue_size = 128  # connections of concurrent callers beyond this may be reset
 
 
-- 
2.43.0


From ee61f013aaf3eea0f160ef71d1250db054873849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:45 +0000
Subject: [PATCH 40/45] fix: the asyncio listener is shut down in its own loop
 thread

---
 anthunder/listener/aio_listener.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/anthunder/listener/aio_listener.py b/anthunder/listener/aio_listener.py
index e81905c..027c647 100644
--- a/anthunder/listener/aio_listener.py
+++ b/anthunder/listener/aio_listener.py
@@ -108,12 +108,14 @@ class AioListener(BaseListener):
         super(AioListener, self).__init__(*args, **kwargs)
         self._loop = asyncio.new_event_loop()
         self._server = None
+        self._thread = None
 
     def initialize(self):
         pass
 
     def run_forever(self):
         """loop thread"""
+        self._thread = threading.current_thread()
         asyncio.set_event_loop(self._loop)
         coro = asyncio.start_server(self._handler_connection, *self.address, **self.server_kwargs)
         self._server = self._loop.run_until_complete(coro)
@@ -124,9 +126,16 @@ class AioListener(BaseListener):
         """quit the server loop"""
         logger.info("Aio Listener shutting down")
         if self._loop and self._server:
-            self._server.close()
+            if self._loop.is_running() and threading.current_thread() is not self._thread:
+                # a running loop must not be touched by other threads
+                asyncio.run_coroutine_threadsafe(self._close_server(), self._loop).result()
+            else:
+                self._server.close()
             asyncio.run_coroutine_threadsafe(self._server.wait_closed(), self._loop)
 
+    async def _close_server(self):
+        self._server.close()
+
     async def _dispatch(self, call_type, request_id, sofa_header, body, *, timeout_ms, writer):
         """send request to handler"""
         service = sofa_header.get('sofa_head_target_service') or sofa_header.get('service')
-- 
2.43.0


From f977d2cb31a56a77c4c4b2d3772310a1c60b532e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:10 +0000
Subject: [PATCH 41/45] fix: span ids stay unique when several threads start
 spans

---
 mytracer/_rpc_id.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/mytracer/_rpc_id.py b/mytracer/_rpc_id.py
index f8427ed..37ef1f0 100644
--- a/mytracer/_rpc_id.py
+++ b/mytracer/_rpc_id.py
@@ -21,6 +21,7 @@
    Change Activity:
         version0 : 2018/5/28 14:59 by jiaqi.hjq  init
 """
+import itertools
 
 
 class RpcId(object):
@@ -44,10 +45,11 @@ class RpcId(object):
             if not isinstance(self.rpcids[-1], int):
                 raise TypeError("Illigal span id, last segment must be int, not '{}'.".format(self.rpcids[-1]))
 
-        self._child_count = 0
+        # numbers of the children; next() is atomic, spans may be started by several threads
+        self._child_numbers = itertools.count(1)
         self._parent = None
-        # last segment handed out among the followers of an id without known parent, shared by those followers
-        self._last_sibling = [self.rpcids[-1]]
+        # last segments of the followers of an id without known parent, shared by those followers
+        self._sibling_numbers = itertools.count(self.rpcids[-1] + 1)
 
     def __str__(self):
         return ".".join(map(str, self.rpcids))
@@ -62,8 +64,7 @@ class RpcId(object):
         return cls(*new_ids)
 
     def _new_child_of(self):
-        self._child_count += 1
-        obj = self.extend_id(self.rpcids, self._child_count)
+        obj = self.extend_id(self.rpcids, next(self._child_numbers))
         obj._parent = self  # attach a link to parent rpcId
         return obj
 
@@ -71,9 +72,8 @@ class RpcId(object):
         if self._parent:
             # a follows up span is a sibling span, means it is a child span of parent
             return self._parent._new_child_of()
-        self._last_sibling[0] += 1
-        obj = self.extend_id(self.rpcids[:-1], self._last_sibling[0])
-        obj._last_sibling = self._last_sibling
+        obj = self.extend_id(self.rpcids[:-1], next(self._sibling_numbers))
+        obj._sibling_numbers = self._sibling_numbers
         return obj
 
     def new_by_reference_type(self, ref_type):
-- 
2.43.0


From 5e6cfe006b19d338ee0b69bf1bd90fb6ca28b846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:35 +0000
Subject: [PATCH 42/45] fix: a connection returned while its pool is closed is
 closed too

---
 mysockpool/connection_pool.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mysockpool/connection_pool.py b/mysockpool/connection_pool.py
index ebf29ee..7c6d416 100644
--- a/mysockpool/connection_pool.py
+++ b/mysockpool/connection_pool.py
@@ -153,7 +153,8 @@ class ConnectionPool(object):
         If the pool is closed, then the connection will be closed and discarded.
         """
         try:
-            self.pool.put(conn, block=False)
+            with self._lock:  # not while the pool is closed, nobody would close the connection
+                self.pool.put(conn, block=False)
             return  # Everything is dandy, done.
         except AttributeError:
             # self.pool is None.
@@ -175,7 +176,8 @@ class ConnectionPool(object):
         Close all pooled connections and disable the pool.
         """
         # Disable access to the pool
-        old_pool, self.pool = self.pool, None
+        with self._lock:
+            old_pool, self.pool = self.pool, None
 
         try:
             while True:
-- 
2.43.0


From eb5600c8768f5a60c9d38228a66f7122eb1d8641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:35 +0000
Subject: [PATCH 43/45] fix: a connection taken out while its pool is closed is
 closed too

---
 mysockpool/connection_pool.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mysockpool/connection_pool.py b/mysockpool/connection_pool.py
index 7c6d416..521897f 100644
--- a/mysockpool/connection_pool.py
+++ b/mysockpool/connection_pool.py
@@ -119,6 +119,8 @@ class ConnectionPool(object):
                     log.warning("Failed to add a free connection: %s", e)
 
         except AttributeError:  # self.pool is None
+            if conn:  # the pool was closed after it was taken out
+                conn.close()
             raise ClosedPoolError(self, "Pool is closed.")
 
         except queue.Empty:
-- 
2.43.0


From 16dd6eb60565666ae096ce24ea89766c9216a9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:27 +0000
Subject: [PATCH 44/45] fix: a span may start at time zero

---
 mytracer/tracer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mytracer/tracer.py b/mytracer/tracer.py
index 9354192..7260615 100644
--- a/mytracer/tracer.py
+++ b/mytracer/tracer.py
@@ -98,7 +98,7 @@ class MyTracer(opentracing.Tracer):
         _tags = tags or dict()
         for k, v in _tags.items():
             span.set_tag(k, v)
-        if start_time:
+        if start_time is not None:
             span.set_start_time(start_time)
 
         return span
-- 
2.43.0


From 0ba0e18d980887639f08b4db306e85ffc18218e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:39 +0000
Subject: [PATCH 45/45] fix: entering a span keeps the start time it was given

---
 mytracer/span.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mytracer/span.py b/mytracer/span.py
index 986d433..c8b419a 100644
--- a/mytracer/span.py
+++ b/mytracer/span.py
@@ -31,6 +31,7 @@ class MySpan(object):
         self._tags = dict()
         self._logs = dict()
         self._start_time = time.time()
+        self._start_time_given = False
         self._finish_time = None
         self._operation_name = ""
 
@@ -57,12 +58,14 @@ class MySpan(object):
 
     def set_start_time(self, starttime):
         self._start_time = starttime
+        self._start_time_given = True
 
     def finish(self):
         self._finish_time = time.time()
 
     def __enter__(self):
-        self._start_time = time.time()
+        if not self._start_time_given:
+            self._start_time = time.time()
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-- 
2.43.0

