From b014da0035c058f24bb90cfa50237a46c711fea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:11 +0000
Subject: [PATCH 01/58] fix: accept dictionary keys of any serializable type
 with msgpack

msgpack only unpacks str and bytes map keys by default, so a value that
contained a dict with int, None or tuple keys was sent without complaint
and then failed to load (as a result: inside the caller's wait).
---
 teleprox/serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teleprox/serializer.py b/teleprox/serializer.py
index 109d2c2..fa57f49 100644
--- a/teleprox/serializer.py
+++ b/teleprox/serializer.py
@@ -256,7 +256,7 @@ class MsgpackSerializer(Serializer):
         #return msgpack.loads(msg, encoding='utf8', use_list=False, object_hook=self.decode)
 
         #Return lists/tuples as lists because json can't be configured otherwise
-        return msgpack.loads(msg, object_hook=self.decode)
+        return msgpack.loads(msg, object_hook=self.decode, strict_map_key=False)
 
 if HAVE_MSGPACK:
     all_serializers[MsgpackSerializer.type] = MsgpackSerializer
-- 
2.43.0


From 748cf912542cacd001fe0f397e14d2e42ddede9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:11 +0000
Subject: [PATCH 02/58] fix: RPCClient.call_obj works with its default args and
 kwargs

The defaults (None) are sent to the server, which tried to unpack them.
---
 teleprox/server.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/teleprox/server.py b/teleprox/server.py
index 1fce84d..caafd9c 100644
--- a/teleprox/server.py
+++ b/teleprox/server.py
@@ -347,8 +347,8 @@ class RPCServer(object):
         """
         if action == 'call_obj':
             obj = opts['obj']
-            fnargs = opts.get('args', ())
-            fnkwds = opts.get('kwargs', {})
+            fnargs = opts.get('args') or ()
+            fnkwds = opts.get('kwargs') or {}
             
             if len(fnkwds) == 0:  ## need to do this because some functions do not allow keyword arguments.
                 try:
-- 
2.43.0


From 1b471344364dc352256ff48af45faf23f7a35dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:12 +0000
Subject: [PATCH 03/58] fix: attribute proxies and copies do not delete their
 parent's reference

With auto_delete, every temporary attribute proxy (eg. for a method call)
deleted the reference it shares with its parent when it was collected.
---
 teleprox/proxy.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/teleprox/proxy.py b/teleprox/proxy.py
index f448af1..b8ac495 100644
--- a/teleprox/proxy.py
+++ b/teleprox/proxy.py
@@ -142,6 +142,8 @@ class ObjectProxy(object):
         # ObjectProxy should only be used in one thread.
         prox = ObjectProxy(self._rpc_addr, self._obj_id, self._ref_id, self._type_str, 
                            self._attributes, **self._proxy_options)
+        # the reference belongs to the original proxy
+        prox._set_proxy_options(auto_delete=False)
         if self._parent_proxy is not None:
             prox._parent_proxy = self._parent_proxy.copy()
         return prox
@@ -291,6 +293,9 @@ class ObjectProxy(object):
         is deferred.
         """
         opts = self._proxy_options.copy()
+        # the reference belongs to the parent proxy; it must not be deleted when
+        # this proxy is collected.
+        opts['auto_delete'] = False
         opts.update(kwds)
         proxy = ObjectProxy(self._rpc_addr, self._obj_id, self._ref_id, 
                             self._type_str, self._attributes + (attr,), **opts)
-- 
2.43.0


From 66737658cd5ca00f22213f791a791d079df82d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:12 +0000
Subject: [PATCH 04/58] fix: copying an attribute proxy does not contact the
 remote object

ObjectProxy._copy called .copy() on the remote parent object and assigned
the result with the overridden __setattr__, that is, remotely.
---
 teleprox/proxy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teleprox/proxy.py b/teleprox/proxy.py
index b8ac495..8fee515 100644
--- a/teleprox/proxy.py
+++ b/teleprox/proxy.py
@@ -145,7 +145,7 @@ class ObjectProxy(object):
         # the reference belongs to the original proxy
         prox._set_proxy_options(auto_delete=False)
         if self._parent_proxy is not None:
-            prox._parent_proxy = self._parent_proxy.copy()
+            prox.__dict__['_parent_proxy'] = self._parent_proxy._copy()
         return prox
 
     def _client(self):
-- 
2.43.0


From 469636ecb275b701fb9603e398c0e8f139892329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:48 +0000
Subject: [PATCH 05/58] fix: proxies to different attributes of one object are
 not presumed equal

---
 teleprox/proxy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/teleprox/proxy.py b/teleprox/proxy.py
index 8fee515..d9bb756 100644
--- a/teleprox/proxy.py
+++ b/teleprox/proxy.py
@@ -438,7 +438,8 @@ class ObjectProxy(object):
         # we can immediately return True.
         if (isinstance(args[0], ObjectProxy) and 
             args[0]._rpc_addr == self._rpc_addr and
-            args[0]._obj_id == self._obj_id):
+            args[0]._obj_id == self._obj_id and
+            args[0]._attributes == self._attributes):
             return True
         return self._deferred_attr('__eq__')(*args)
     
-- 
2.43.0


From 5c88270847236f1bb0f9d9bb1effa7e3e6e7b60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:48 +0000
Subject: [PATCH 06/58] fix: reflected xor on proxies is forwarded as __rxor__

---
 teleprox/proxy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teleprox/proxy.py b/teleprox/proxy.py
index d9bb756..95dfc3a 100644
--- a/teleprox/proxy.py
+++ b/teleprox/proxy.py
@@ -513,7 +513,7 @@ class ObjectProxy(object):
         return self._deferred_attr('__ror__')(*args)
         
     def __rxor__(self, *args):
-        return self._deferred_attr('__ror__')(*args)
+        return self._deferred_attr('__rxor__')(*args)
         
     def __rmod__(self, *args):
         return self._deferred_attr('__rmod__')(*args)
-- 
2.43.0


From 72cd09c32fb1876d5a9c0bde6bfdf903053b0315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:48 +0000
Subject: [PATCH 07/58] fix: proxies that have been deleted can no longer be
 used

---
 teleprox/server.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/teleprox/server.py b/teleprox/server.py
index caafd9c..666ffbb 100644
--- a/teleprox/server.py
+++ b/teleprox/server.py
@@ -218,10 +218,12 @@ class RPCServer(object):
         """
         try:
             oid = proxy._obj_id
-            obj = self._proxy_refs[oid][0]
+            obj, refs = self._proxy_refs[oid]
+            if proxy._ref_id not in refs:
+                raise KeyError(proxy._ref_id)
         except KeyError:
             raise KeyError("Invalid proxy object ID %r. The object may have "
-                           "been released already." % proxy.obj_id)
+                           "been released already." % proxy._obj_id)
         for attr in proxy._attributes:
             obj = getattr(obj, attr)
         #logger.debug("server %s unwrap proxy %d: %s", self.address, oid, obj)
-- 
2.43.0


From 06885aee703a9150f440b6920577c7dd0af8078d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:38 +0000
Subject: [PATCH 08/58] fix: operators on proxies behave like the operation on
 the object itself

---
 teleprox/server.py | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/teleprox/server.py b/teleprox/server.py
index 666ffbb..4b665c7 100644
--- a/teleprox/server.py
+++ b/teleprox/server.py
@@ -3,6 +3,8 @@
 # Distributed under the (new) BSD License. See LICENSE for more info.
 
 import sys
+import functools
+import operator
 import traceback
 import threading
 import builtins
@@ -19,6 +21,26 @@ from . import log
 logger = logging.getLogger(__name__)
 
 
+def _swap(op):
+    return lambda obj, other: op(other, obj)
+
+
+# Operators that ObjectProxy forwards by special method name. These must be 
+# carried out by python's own operation on the object--calling the special method 
+# directly could return NotImplemented or, for a class, find the method of its
+# instances.
+_operators = {'__%s__' % name: getattr(operator, name) for name in (
+    'getitem', 'setitem', 'iadd', 'isub', 'itruediv', 'ifloordiv', 'imul', 'ipow',
+    'irshift', 'ilshift', 'iand', 'ior', 'ixor', 'eq', 'ne', 'lt', 'gt', 'le', 'ge')}
+for _name in ('add', 'sub', 'truediv', 'floordiv', 'mul', 'rshift', 'lshift', 
+              'and', 'or', 'xor', 'mod'):
+    _op = getattr(operator, '__%s__' % _name)
+    _operators['__%s__' % _name] = _op
+    _operators['__r%s__' % _name] = _swap(_op)
+_operators.update({'__pow__': pow, '__rpow__': _swap(pow), '__len__': len, 
+                   '__str__': str, '__repr__': repr, '__setattr__': setattr})
+
+
 class RPCServer(object):
     """Remote procedure call server for invoking requests on proxied objects.
     
@@ -225,7 +247,10 @@ class RPCServer(object):
             raise KeyError("Invalid proxy object ID %r. The object may have "
                            "been released already." % proxy._obj_id)
         for attr in proxy._attributes:
-            obj = getattr(obj, attr)
+            if attr in _operators:
+                obj = functools.partial(_operators[attr], obj)
+            else:
+                obj = getattr(obj, attr)
         #logger.debug("server %s unwrap proxy %d: %s", self.address, oid, obj)
         return obj
 
-- 
2.43.0


From 1ba0a46edcc47b6c53a4eb6dd0e458ff522fe7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:51 +0000
Subject: [PATCH 09/58] fix: replies are not discarded when many requests are
 outstanding

---
 teleprox/client.py         | 2 ++
 teleprox/qt_poll_thread.py | 2 ++
 teleprox/server.py         | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/teleprox/client.py b/teleprox/client.py
index 87d1f16..39bdf81 100644
--- a/teleprox/client.py
+++ b/teleprox/client.py
@@ -138,6 +138,8 @@ class RPCClient(object):
             # it has closed. (default is -1, which can cause processes to hang
             # on exit)
             self._socket.linger = 1000
+            # never discard requests or replies, however many are outstanding
+            self._socket.set_hwm(0)
             
             # If this thread is running a server, then we need to allow the 
             # server to process requests when the client is blocking.
diff --git a/teleprox/qt_poll_thread.py b/teleprox/qt_poll_thread.py
index 80095a1..1792c81 100644
--- a/teleprox/qt_poll_thread.py
+++ b/teleprox/qt_poll_thread.py
@@ -29,10 +29,12 @@ class QtPollThread(qt.QThread):
         context = zmq.Context.instance()
         self.return_socket = context.socket(zmq.PAIR)
         self.return_socket.linger = 1000  # don't let socket deadlock when exiting
+        self.return_socket.set_hwm(0)
         self.return_socket.bind(return_addr)
         
         server._socket = context.socket(zmq.PAIR)
         server._socket.linger = 1000  # don't let socket deadlock when exiting
+        server._socket.set_hwm(0)
         server._socket.connect(return_addr)
 
         self.new_request.connect(server._process_one)
diff --git a/teleprox/server.py b/teleprox/server.py
index 4b665c7..53c53fa 100644
--- a/teleprox/server.py
+++ b/teleprox/server.py
@@ -164,6 +164,8 @@ class RPCServer(object):
         # it has closed. (default is -1, which can cause processes to hang
         # on exit)
         self._socket.linger = 5000
+        # never discard replies, however many are outstanding
+        self._socket.set_hwm(0)
         
         self._socket.bind(address)
         #: The zmq address where this server is listening (e.g. 'tcp:///127.0.0.1:5678')
-- 
2.43.0


From f5558f4905050e57c0cfc06125eadfcac4905460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:51 +0000
Subject: [PATCH 10/58] fix: every client has a unique socket identity

---
 teleprox/client.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/teleprox/client.py b/teleprox/client.py
index 39bdf81..af281ba 100644
--- a/teleprox/client.py
+++ b/teleprox/client.py
@@ -6,6 +6,7 @@ import re
 import socket
 import sys
 import time
+import uuid
 import weakref
 import concurrent.futures
 import threading
@@ -132,7 +133,11 @@ class RPCClient(object):
             # DEALER is fully asynchronous--we can send or receive at any time, and
             # unlike ROUTER, it only connects to a single endpoint.
             self._socket = zmq.Context.instance().socket(zmq.DEALER)
-            self._sock_name = self.name
+            # The socket name must be unique even if another thread or process has the
+            # same name, or if this client replaces one that was just closed.
+            # (and may have at most 255 bytes)
+            name = self.name[:222].decode(errors='ignore').encode()
+            self._sock_name = name + b'.' + uuid.uuid4().hex.encode()
             self._socket.setsockopt(zmq.IDENTITY, self._sock_name)
             # socket will continue attempting to deliver messages up to 1 sec after
             # it has closed. (default is -1, which can cause processes to hang
-- 
2.43.0


From 858cd3e11c57895d28c168fcaca08041a5d99a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:32 +0000
Subject: [PATCH 11/58] fix: Future.done() notices replies that have arrived

---
 teleprox/client.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/teleprox/client.py b/teleprox/client.py
index af281ba..10ab9e5 100644
--- a/teleprox/client.py
+++ b/teleprox/client.py
@@ -106,6 +106,7 @@ class RPCClient(object):
                                       log.get_thread_name(), address.decode())).encode()
         
         self.serialize_types = serialize_types
+        self._thread = threading.current_thread()
 
         if sys.platform == 'win32' and '0.0.0.0' in str(address):
             logger.warning(f"RPC server address {address} is likely to cause trouble on windows")
@@ -535,6 +536,12 @@ class RPCClient(object):
         
         self.process_msg(msg)
 
+    def _check_replies(self):
+        # Process messages that have already arrived, without waiting. 
+        # The socket may only be used from the client's own thread.
+        if threading.current_thread() is self._thread and not self._socket.closed:
+            self._read_and_process_all()
+
     def _read_and_process_all(self):
         # process all messages until none are immediately available.
         try:
@@ -674,6 +681,14 @@ class Future(concurrent.futures.Future):
     def cancel(self):
         return False
 
+    def done(self):
+        """Return True if the result (or an error) has arrived.
+        """
+        if not concurrent.futures.Future.done(self):
+            # look for replies that have arrived but were not read yet
+            self.client._check_replies()
+        return concurrent.futures.Future.done(self)
+
     def result(self, timeout=None):
         """Return the result of this Future.
         
-- 
2.43.0


From 733c964ee0a151ca781d863feb0645f9a81bf708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:30 +0000
Subject: [PATCH 12/58] fix: asking a server to close returns True if another
 client closes it first

---
 teleprox/client.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/teleprox/client.py b/teleprox/client.py
index 10ab9e5..32bbd01 100644
--- a/teleprox/client.py
+++ b/teleprox/client.py
@@ -313,7 +313,7 @@ class RPCClient(object):
         if sync == 'off':
             return
         
-        fut = Future(self, req_id)
+        fut = Future(self, req_id, action)
         if action == 'close':
             # for server closure we require a little special handling
             fut.add_done_callback(self._close_request_returned)
@@ -595,9 +595,14 @@ class RPCClient(object):
         self._disconnected = True
         logger.debug("Received server disconnect from %s", self.address)
         exc = RuntimeError("Cannot receive result; server has already disconnected.")
-        for fut in self.futures.values():
-            fut.set_exception(exc)
+        futures = list(self.futures.values())
         self.futures.clear()
+        for fut in futures:
+            if fut.action == 'close':
+                # another client's request to close the server came first
+                fut.set_result(True)
+            else:
+                fut.set_exception(exc)
     
     def ping(self, sync='sync', **kwds):
         """Ping the server.
@@ -673,10 +678,11 @@ class Future(concurrent.futures.Future):
     
     See `concurrent.futures.Future` in the Python documentation for more information.
     """
-    def __init__(self, client, call_id):
+    def __init__(self, client, call_id, action=None):
         concurrent.futures.Future.__init__(self)
         self.client = client
         self.call_id = call_id
+        self.action = action
     
     def cancel(self):
         return False
-- 
2.43.0


From e9e26f7afb1a410ae9490ca3f250cd16af66b5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:30 +0000
Subject: [PATCH 13/58] fix: a request with an unsupported serializer does not
 stop the server

---
 teleprox/server.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/teleprox/server.py b/teleprox/server.py
index 53c53fa..b1c32a3 100644
--- a/teleprox/server.py
+++ b/teleprox/server.py
@@ -300,15 +300,18 @@ class RPCServer(object):
         req_id = msg['req_id']
         return_type = msg.get('return_type', 'auto')
         
+        if ser_type not in self._serializers:
+            # there is no way to read this request nor to send a reply
+            logger.error("Ignored request '%s' from %r: unsupported serializer %r", 
+                         action, caller, ser_type)
+            return
+        
         # remember this caller so we can deliver a disconnect message later
         self._clients[caller] = ser_type
         
         # Attempt to read message and invoke requested action
         try:
-            try:
-                serializer = self._serializers[ser_type]
-            except KeyError:
-                raise ValueError("Unsupported serializer '%s'" % ser_type)
+            serializer = self._serializers[ser_type]
             opts = msg.pop('opts', None)
             
             logger.debug("RPC recv '%s' from %s [req_id=%s]", action, caller.decode(), req_id)
-- 
2.43.0


From 680ff761572a4f810d588eff6a37b90ce8d598d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:30 +0000
Subject: [PATCH 14/58] fix: errors whose text cannot be encoded do not stop
 the server

---
 teleprox/server.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/teleprox/server.py b/teleprox/server.py
index b1c32a3..b089f49 100644
--- a/teleprox/server.py
+++ b/teleprox/server.py
@@ -359,6 +359,8 @@ class RPCServer(object):
         exc_str += traceback.format_stack()
         exc_str += [" < exception caught here >\n"]
         exc_str += traceback.format_exception(*exc)
+        # error messages may contain characters that cannot be encoded
+        exc_str = [line.encode('utf-8', 'backslashreplace').decode('utf-8') for line in exc_str]
         self._send_result(caller, req_id, error=(exc[0].__name__, exc_str))
     
     def _send_result(self, caller, req_id, rval=None, error=None):
-- 
2.43.0


From 5e34a561d4aa4fee6de6d22d283fe1972644667b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:30 +0000
Subject: [PATCH 15/58] fix: a result that cannot be proxied does not stop the
 server

---
 teleprox/server.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/teleprox/server.py b/teleprox/server.py
index b089f49..8bfb848 100644
--- a/teleprox/server.py
+++ b/teleprox/server.py
@@ -331,12 +331,12 @@ class RPCServer(object):
         if req_id >= 0:
             if exc is None:
                 #print "returnValue:", returnValue, result
-                if return_type == 'auto':
-                    result = self.auto_proxy(result, self.serialize_types)
-                elif return_type == 'proxy':
-                    result = self.get_proxy(result)
-                
                 try:
+                    if return_type == 'auto':
+                        result = self.auto_proxy(result, self.serialize_types)
+                    elif return_type == 'proxy':
+                        result = self.get_proxy(result)
+                    
                     self._send_result(caller, req_id, rval=result)
                 except:
                     logger.warning("    => Failed to send result for %d", req_id) 
-- 
2.43.0


From f33f920ec05897eca200051ac5625515b7f7f1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:44 +0000
Subject: [PATCH 16/58] fix: a closed server neither executes nor answers
 requests

---
 teleprox/server.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/teleprox/server.py b/teleprox/server.py
index 8bfb848..2ab7a86 100644
--- a/teleprox/server.py
+++ b/teleprox/server.py
@@ -300,6 +300,10 @@ class RPCServer(object):
         req_id = msg['req_id']
         return_type = msg.get('return_type', 'auto')
         
+        if self._closed is True:
+            # all clients were told that no more requests are processed
+            return
+        
         if ser_type not in self._serializers:
             # there is no way to read this request nor to send a reply
             logger.error("Ignored request '%s' from %r: unsupported serializer %r", 
@@ -328,7 +332,10 @@ class RPCServer(object):
             exc = sys.exc_info()
 
         # Send result or error back to client
-        if req_id >= 0:
+        if req_id >= 0 and action != 'close' and self._closed is True:
+            # server was closed while it processed this request
+            logger.warning("    => server closed before returning result for %d", req_id) 
+        elif req_id >= 0:
             if exc is None:
                 #print "returnValue:", returnValue, result
                 try:
-- 
2.43.0


From c8bff2480d169cfbf91821b529c350cb6ff95898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:44 +0000
Subject: [PATCH 17/58] fix: processing requests on a closed server raises
 RuntimeError

---
 teleprox/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teleprox/server.py b/teleprox/server.py
index 2ab7a86..8816ffe 100644
--- a/teleprox/server.py
+++ b/teleprox/server.py
@@ -282,7 +282,7 @@ class RPCServer(object):
         """Read one message from the rpc socket and invoke the requested
         action.
         """
-        if not self.running:
+        if self._closed is True:
             raise RuntimeError("RPC server socket is already closed.")
             
         name, msg = self._read_one(self._socket)
-- 
2.43.0


From b85e8a99b71bb710f6311b3f7d3bbe043cae2306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:23 +0000
Subject: [PATCH 18/58] fix: clients allow the server currently running in
 their thread to process requests

---
 teleprox/client.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/teleprox/client.py b/teleprox/client.py
index 32bbd01..cde181c 100644
--- a/teleprox/client.py
+++ b/teleprox/client.py
@@ -152,6 +152,7 @@ class RPCClient(object):
             assert reentrant in (True, False)
             self._reentrant = reentrant
             self._poller = None
+            self._poller_server = None
             
             logger.info("RPC connect to %s", address.decode())
             self._socket.connect(address)
@@ -206,10 +207,13 @@ class RPCClient(object):
         if not self._reentrant:
             return None
         
-        if self._poller is None:
-            server = RPCServer.get_server()
-            if server is None:
-                return None
+        server = RPCServer.get_server()
+        if server is None:
+            return None
+        
+        # the server of this thread may have been replaced since the last time
+        if self._poller is None or self._poller_server is not server:
+            self._poller_server = server
             if isinstance(server, QtRPCServer):
                 self._poller = 'qt'
             else:
-- 
2.43.0


From 9f5b29a0b1688fa3dc00556ce82cbdc0036e3948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:39 +0000
Subject: [PATCH 19/58] fix: a server left by a finished thread does not affect
 a new thread with the same ID

---
 teleprox/server.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/teleprox/server.py b/teleprox/server.py
index 8816ffe..16e89ad 100644
--- a/teleprox/server.py
+++ b/teleprox/server.py
@@ -118,7 +118,11 @@ class RPCServer(object):
         """Return the server running in this thread, or None if there is no server.
         """
         with RPCServer.servers_by_thread_lock:
-            return RPCServer.servers_by_thread.get(threading.current_thread().ident, None)
+            srv = RPCServer.servers_by_thread.get(threading.current_thread().ident, None)
+            # thread IDs may be reused after a thread has exited
+            if srv is not None and srv._owner is not threading.current_thread():
+                return None
+            return srv
     
     @staticmethod
     def register_server(srv):
@@ -128,13 +132,16 @@ class RPCServer(object):
         this thread.
         """
         key = threading.current_thread().ident
-        if srv._thread == key:
+        if srv._owner is threading.current_thread():
             return
         assert srv._thread is None, "Server has already been registered."
         with RPCServer.servers_by_thread_lock:
-            if key in RPCServer.servers_by_thread:
+            other = RPCServer.servers_by_thread.get(key, None)
+            # (ignore any server left by a thread that had the same ID)
+            if other is not None and other._owner is threading.current_thread():
                 raise KeyError("An RPCServer is already running in this thread.")
             RPCServer.servers_by_thread[key] = srv
+            srv._owner = threading.current_thread()
         srv._thread = key
 
     @staticmethod
@@ -143,8 +150,8 @@ class RPCServer(object):
         """
         key = srv._thread
         with RPCServer.servers_by_thread_lock:
-            assert RPCServer.servers_by_thread[key] is srv
-            RPCServer.servers_by_thread.pop(key)
+            if RPCServer.servers_by_thread.get(key, None) is srv:
+                RPCServer.servers_by_thread.pop(key)
 
     @staticmethod
     def local_client():
@@ -184,6 +191,7 @@ class RPCServer(object):
         
         # Id of thread that this server is registered to
         self._thread = None
+        self._owner = None
         self._run_thread = None
         
         # Objects that may be retrieved by name using client['obj_name']
-- 
2.43.0


From 0c03613803c549286fe86cd2d0f0d4e094dfa55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:39 +0000
Subject: [PATCH 20/58] fix: a client left by a finished thread is not used by
 a new thread with the same ID

---
 teleprox/client.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/teleprox/client.py b/teleprox/client.py
index cde181c..ef53bb0 100644
--- a/teleprox/client.py
+++ b/teleprox/client.py
@@ -84,8 +84,10 @@ class RPCClient(object):
         
         # Return an existing client if there is one
         with RPCClient.clients_by_thread_lock:
-            if key in RPCClient.clients_by_thread:
-                return RPCClient.clients_by_thread[key]
+            client = RPCClient.clients_by_thread.get(key, None)
+            # thread IDs may be reused after a thread has exited
+            if client is not None and client._thread is threading.current_thread():
+                return client
         
         return RPCClient(address)
     
@@ -120,7 +122,8 @@ class RPCClient(object):
 
         key = (threading.current_thread().ident, address)
         with RPCClient.clients_by_thread_lock:
-            if key in RPCClient.clients_by_thread:
+            other = RPCClient.clients_by_thread.get(key, None)
+            if other is not None and other._thread is self._thread:
                 raise KeyError("An RPCClient instance already exists for this address."
                     " Use RPCClient.get_client(address) instead.")
             RPCClient.clients_by_thread[key] = self
-- 
2.43.0


From 6bea31232c46f23b7b58eaf780b41e0b90106a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:55 +0000
Subject: [PATCH 21/58] fix: a client that could not connect leaves no socket
 and no local server behind

---
 teleprox/client.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/teleprox/client.py b/teleprox/client.py
index ef53bb0..58a9e52 100644
--- a/teleprox/client.py
+++ b/teleprox/client.py
@@ -114,11 +114,8 @@ class RPCClient(object):
             logger.warning(f"RPC server address {address} is likely to cause trouble on windows")
         self.address = address
 
-        if start_local_server and RPCServer.get_server() is None:
-            self._local_server = RPCServer(serialize_types=serialize_types)
-            self._local_server.run_lazy()
-        else:
-            self._local_server = None
+        self._local_server = None
+        self._socket = None
 
         key = (threading.current_thread().ident, address)
         with RPCClient.clients_by_thread_lock:
@@ -178,8 +175,15 @@ class RPCClient(object):
                 raise ValueError("Unsupported serializer type '%s'" % serializer)
             
             self.ensure_connection()
+
+            if start_local_server and RPCServer.get_server() is None:
+                self._local_server = RPCServer(serialize_types=serialize_types)
+                self._local_server.run_lazy()
         except:
+            # leave nothing behind
             RPCClient.clients_by_thread.pop(key, None)
+            if self._socket is not None:
+                self._socket.close()
             raise
 
     @staticmethod
-- 
2.43.0


From 0cbd2b2f0497be1a67ad7ebdda9feedf1abc59ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:13 +0000
Subject: [PATCH 22/58] fix: all dates, and times with a timezone, survive
 serialization

---
 teleprox/serializer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/teleprox/serializer.py b/teleprox/serializer.py
index fa57f49..2e93ecd 100644
--- a/teleprox/serializer.py
+++ b/teleprox/serializer.py
@@ -119,10 +119,10 @@ class Serializer:
             return ser
         elif isinstance(obj, datetime.datetime):
             return {encode_key: 'datetime',
-                    'data': obj.strftime('%Y-%m-%dT%H:%M:%S.%f')}
+                    'data': obj.isoformat()}
         elif isinstance(obj, datetime.date):
             return {encode_key: 'date',
-                    'data': obj.strftime('%Y-%m-%d')}
+                    'data': obj.isoformat()}
         elif isinstance(obj, tuple):
             return {encode_key: 'tuple', 'data': list(obj)}
         elif obj is None:
@@ -175,9 +175,9 @@ class Serializer:
             elif type_name == 'np_number':
                 return dct['dtype'].type(dct['value'])
             elif type_name == 'datetime':
-                return datetime.datetime.strptime(dct['data'], '%Y-%m-%dT%H:%M:%S.%f')
+                return datetime.datetime.fromisoformat(dct['data'])
             elif type_name == 'date':
-                return datetime.datetime.strptime(dct['data'], '%Y-%m-%d').date()
+                return datetime.date.fromisoformat(dct['data'])
             elif type_name == 'tuple':
                 return tuple(dct['data'])
             elif type_name == 'none':
-- 
2.43.0


From 443fc14c839537bd3394824056897d4150149d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:13 +0000
Subject: [PATCH 23/58] fix: arrays of every dtype are transmitted unchanged or
 refused

---
 teleprox/serializer.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/teleprox/serializer.py b/teleprox/serializer.py
index 2e93ecd..9cc8157 100644
--- a/teleprox/serializer.py
+++ b/teleprox/serializer.py
@@ -105,7 +105,9 @@ class Serializer:
                 raise TypeError("Cannot make proxy to %r without proxy server." % obj)
             obj = self.server.get_proxy(obj)
 
-        if HAVE_NUMPY and isinstance(obj, np.ndarray):
+        if HAVE_NUMPY and type(obj) is np.ndarray:
+            if obj.dtype.hasobject:
+                raise TypeError("Cannot serialize array with dtype %s" % obj.dtype)
             if not obj.flags['C_CONTIGUOUS']:
                 obj = np.ascontiguousarray(obj)
             assert(obj.flags['C_CONTIGUOUS'])
@@ -153,6 +155,14 @@ class Serializer:
                 'pickle_str': pickle.dumps(obj),
             }
 
+    def decode_dtype(self, dt):
+        if dt.startswith(('[', '{')):
+            #small hack to have a list (or dict)
+            d = {}
+            exec('dtype='+dt, None, d)
+            dt = d['dtype']
+        return dt
+
     def decode(self, dct):
         """Convert from serializable objects back to original types.
         """
@@ -163,12 +173,7 @@ class Serializer:
             if type_name == 'ndarray':
                 if not HAVE_NUMPY:
                     raise ImportError("numpy is required to deserialize ndarray.")
-                dt = dct['dtype']
-                if dt.startswith('['):
-                    #small hack to have a list
-                    d = {}
-                    exec('dtype='+dt, None, d)
-                    dt = d['dtype']
+                dt = self.decode_dtype(dct['dtype'])
                 return np.frombuffer(dct['data'], dtype=dt).reshape(dct['shape'])
             elif type_name == 'pickle':
                 return pickle.loads(dct['pickle_str'])
@@ -291,13 +296,15 @@ class JsonSerializer(Serializer):
         return json.loads(msg.decode(), object_hook=self.decode)
 
     def encode(self, obj):
-        if HAVE_NUMPY and isinstance(obj, np.ndarray):
+        if HAVE_NUMPY and type(obj) is np.ndarray:
+            if obj.dtype.hasobject:
+                raise TypeError("Cannot serialize array with dtype %s" % obj.dtype)
             # JSON doesn't support bytes, so we use base64 encoding instead:
             if not obj.flags['C_CONTIGUOUS']:
                 obj = np.ascontiguousarray(obj)
             assert(obj.flags['C_CONTIGUOUS'])
             return {encode_key: 'ndarray',
-                    'data': base64.b64encode(obj.data).decode(),
+                    'data': base64.b64encode(obj.tobytes()).decode(),
                     'dtype': str(obj.dtype),
                     'shape': obj.shape}
         elif isinstance(obj, bytes):
@@ -315,7 +322,7 @@ class JsonSerializer(Serializer):
                 if not HAVE_NUMPY:
                     raise ImportError("numpy is required to deserialize ndarray.")
                 data = base64.b64decode(dct['data'])
-                return np.frombuffer(data, dct['dtype']).reshape(dct['shape'])
+                return np.frombuffer(data, self.decode_dtype(dct['dtype'])).reshape(dct['shape'])
             elif type_name == 'bytes':
                 return base64.b64decode(dct['data'])
             
-- 
2.43.0


From 595026ab5d407bd763358f0c9a81a508571ee93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:13 +0000
Subject: [PATCH 24/58] fix: numpy scalars that are not exactly an int or float
 are transmitted unchanged

---
 teleprox/serializer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/teleprox/serializer.py b/teleprox/serializer.py
index 9cc8157..27c4c67 100644
--- a/teleprox/serializer.py
+++ b/teleprox/serializer.py
@@ -129,7 +129,8 @@ class Serializer:
             return {encode_key: 'tuple', 'data': list(obj)}
         elif obj is None:
             return {encode_key: 'none'}
-        elif HAVE_NUMPY and isinstance(obj, (np.number, np.bool_)):
+        elif (HAVE_NUMPY and isinstance(obj, (np.number, np.bool_)) and
+              not isinstance(obj, (np.timedelta64, np.longdouble, np.complexfloating))):
             if isinstance(obj, np.bool_):
                 val = bool(obj)
             elif isinstance(obj, np.integer):
-- 
2.43.0


From 4023879cf16de00bb19cbdc2a42e53c0805dd8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:57 +0000
Subject: [PATCH 25/58] fix: log records are neither lost, altered nor
 misrouted on their way to the log server

---
 teleprox/log/remote.py | 101 +++++++++++++++++++++++++++++------------
 1 file changed, 73 insertions(+), 28 deletions(-)

diff --git a/teleprox/log/remote.py b/teleprox/log/remote.py
index f486ab5..1e6a895 100644
--- a/teleprox/log/remote.py
+++ b/teleprox/log/remote.py
@@ -137,70 +137,115 @@ class LogSender(logging.Handler):
     
     """
     def __init__(self, address=None, logger=None):
-        self.socket = None
         logging.Handler.__init__(self)
-        
-        # attach to logger if requested
-        if isinstance(logger, str):
-            logger = logging.getLogger(logger)
-        if logger is not None:
-            logger.addHandler(self)
 
         # make thread-safe: handle() may be called from any thread
         # and log records are passed to the server in a background thread.
+        # The queue carries serialized records, and also the sockets to be used 
+        # for the records that follow; only the background thread uses them.
+        self.closed = False
+        self.context = zmq.Context()
         self.record_queue = queue.Queue()
         self.thread = threading.Thread(target=self.run, daemon=True)
         self.thread.start()
 
         if address is not None:
             self.connect(address)
+
+        # attach to logger if requested
+        if isinstance(logger, str):
+            logger = logging.getLogger(logger)
+        if logger is not None:
+            logger.addHandler(self)
             
         atexit.register(self.close)
 
     def handle(self, record):
-        self.record_queue.put(record)
+        # Records are serialized immediately because their contents may change, and 
+        # because one that cannot be serialized must not affect any others.
+        try:
+            self.record_queue.put(self._serialize(record))
+        except Exception:
+            self.handleError(record)
         return True
 
     def run(self):
+        socket = None
         while True:
-            record = self.record_queue.get()
-            if record is None:
+            item = self.record_queue.get()
+            if isinstance(item, bytes):
+                if socket is not None:
+                    socket.send(item)
+                continue
+            # got a new socket, or None to stop
+            if socket is not None:
+                socket.close()
+            socket = item
+            if socket is None:
                 break
-            self._handle(record)
 
-    def _handle(self, record):
+    def _serialize(self, record):
         global host_name, process_name, thread_names
-        if self.socket is None:
-            return
         rec = record.__dict__.copy()
         args = rec.pop('args')
-        if len(args) > 0:
-            rec['msg'] = rec['msg'] % args
+        try:
+            rec['msg'] = record.getMessage()
+        except Exception:
+            rec['msg'] = '%s (could not be formatted with args %s)' % (_safe_repr(record.msg), _safe_repr(args))
+        if rec['exc_info']:
+            if not rec['exc_text']:
+                rec['exc_text'] = logging.Formatter().formatException(rec['exc_info'])
+            rec['exc_info'] = None
         if process_name is not None:
             rec['process_name'] = process_name
         rec['thread_name'] = thread_names.get(rec['thread'], rec['threadName'])
         rec['host_name'] = host_name
-        self.socket.send(json.dumps(rec).encode('utf-8'))
+        try:
+            return json.dumps(rec, default=_safe_repr).encode('utf-8')
+        except Exception:
+            # not suitable for json even with the default
+            for key, value in rec.items():
+                try:
+                    json.dumps(value, default=_safe_repr)
+                except Exception:
+                    rec[key] = _safe_repr(value)
+            return json.dumps(rec, default=_safe_repr).encode('utf-8')
         
     def connect(self, addr):
         """Set the address of the LogServer to which log messages should be
         sent. This value should be acquired from `log_server.address` or
         `get_logger_address()`.
         """
-        if self.socket is not None:
-            self.socket.close()
-
-        self.socket = zmq.Context.instance().socket(zmq.PUSH)
-        self.socket.linger = 1000  # don't let socket deadlock when exiting
-        self.socket.connect(addr)
+        socket = self.context.socket(zmq.PUSH)
+        socket.linger = 1000  # don't let socket deadlock when exiting
+        socket.set_hwm(0)  # never block; records are kept until they can be sent
+        try:
+            socket.connect(addr)
+        except:
+            socket.close()
+            raise
+        self.record_queue.put(socket)
 
     def close(self):
-        # if this socket is left open when the process exits, it can lead to
-        # deadlock.
+        """Send all remaining records and close the connection.
+        """
+        with self.lock:
+            if self.closed:
+                return
+            self.closed = True
         self.record_queue.put(None)
-        socket, self.socket = self.socket, None
-        if socket is not None:
-            socket.close()
+        self.thread.join()
+        # Wait until the last records have been delivered (at most for the linger time).
+        # If this is left open when the process exits, it can lead to deadlock.
+        self.context.term()
+        logging.Handler.close(self)
+
+
+def _safe_repr(obj):
+    try:
+        return repr(obj)
+    except Exception:
+        return '<unprintable %s object>' % type(obj).__name__
         
 
 class LogServer(threading.Thread):
-- 
2.43.0


From 02806cec74b12d09950c07b56713c44c02ab6dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:57 +0000
Subject: [PATCH 26/58] fix: a stopped log server handles no more records

---
 teleprox/log/remote.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/teleprox/log/remote.py b/teleprox/log/remote.py
index 1e6a895..974ca10 100644
--- a/teleprox/log/remote.py
+++ b/teleprox/log/remote.py
@@ -282,6 +282,7 @@ class LogServer(threading.Thread):
     def __init__(self, logger, address='tcp://127.0.0.1:*', filter_by_level=True):
         threading.Thread.__init__(self, daemon=True)
         self.running = True
+        self.running_lock = threading.RLock()
         self.filter_by_level = filter_by_level
         if isinstance(logger, str):
             logger = logging.getLogger(logger)
@@ -293,7 +294,9 @@ class LogServer(threading.Thread):
         self.start()
 
     def stop(self):
-        self.running = False
+        # (wait for a record that is being handled now)
+        with self.running_lock:
+            self.running = False
         
     def run(self):
         poller = zmq.Poller()
@@ -307,5 +310,8 @@ class LogServer(threading.Thread):
             rec = logging.makeLogRecord(kwds)
             if self.filter_by_level and rec.levelno < self.logger.getEffectiveLevel():
                 continue
-            self.logger.handle(rec)
+            with self.running_lock:
+                if not self.running:
+                    break
+                self.logger.handle(rec)
         self.socket.close()
-- 
2.43.0


From e01a3d3c449a7578300ac3fa00fe6a57286e37a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:57 +0000
Subject: [PATCH 27/58] fix: log headers show the host that a record came from

---
 teleprox/log/handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teleprox/log/handler.py b/teleprox/log/handler.py
index a612dd7..b3d8fa9 100644
--- a/teleprox/log/handler.py
+++ b/teleprox/log/handler.py
@@ -103,7 +103,7 @@ class RPCLogHandler(logging.StreamHandler):
         return header + ' ' + message
 
     def get_thread_header(self, record):
-        hid = getattr(record, 'hostname', get_host_name())
+        hid = getattr(record, 'host_name', get_host_name())
         pid = getattr(record, 'process_name', get_process_name())
         tid = getattr(record, 'thread_name', get_thread_name(record.thread))
         key = (hid, pid, tid)
-- 
2.43.0


From 6eabef8c1ace93cbd927d011b37512b04e4e9dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:36 +0000
Subject: [PATCH 28/58] fix: undecodable or unterminated lines of child output
 are captured

---
 teleprox/log/stdio.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/teleprox/log/stdio.py b/teleprox/log/stdio.py
index 4d99c5d..ad675f2 100644
--- a/teleprox/log/stdio.py
+++ b/teleprox/log/stdio.py
@@ -18,10 +18,13 @@ class PipePoller(threading.Thread):
         prefix = self.prefix
         pipe = self.pipe
         while True:
-            line = pipe.readline().decode()
+            # (the child may write anything, and might not end its last line)
+            line = pipe.readline().decode(errors='backslashreplace')
             if line == '':
                 break
-            callback(prefix + line[:-1])
+            if line.endswith('\n'):
+                line = line[:-1]
+            callback(prefix + line)
 
 
 class StdioLogSender:
-- 
2.43.0


From c42c7ee77847c76542ec6195994a5843067cd08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:36 +0000
Subject: [PATCH 29/58] fix: captured output is complete when a child process
 is stopped, killed or waited for

---
 teleprox/log/stdio.py |  9 ++++++++-
 teleprox/process.py   | 13 +++++++++++--
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/teleprox/log/stdio.py b/teleprox/log/stdio.py
index ad675f2..73dbc09 100644
--- a/teleprox/log/stdio.py
+++ b/teleprox/log/stdio.py
@@ -1,4 +1,4 @@
-import logging, threading
+import logging, threading, time
 
 from teleprox.log.remote import LogSender, set_thread_name
 
@@ -50,3 +50,10 @@ class StdioLogSender:
         self.stdout_poller = PipePoller(proc.stdout, self.logger.info, f'[{name}.stdout] ', name='stdout')
         self.stderr_poller = PipePoller(proc.stderr, self.logger.warning, f'[{name}.stderr] ', name='stderr')
 
+    def join(self, timeout):
+        """Wait until all output of a process that has exited was logged.
+        """
+        stop = time.perf_counter() + timeout
+        for poller in (self.stdout_poller, self.stderr_poller):
+            # (a pipe can stay open if the process passed it on to others)
+            poller.join(max(0, stop - time.perf_counter()))
diff --git a/teleprox/process.py b/teleprox/process.py
index a904f1f..0f3c0a0 100644
--- a/teleprox/process.py
+++ b/teleprox/process.py
@@ -282,6 +282,15 @@ class ChildProcess:
         """
         start = time.time()
 
+        if self.stdio_logger is not None:
+            # the stdio logger is reading all output of the process
+            try:
+                rcode = self.proc.wait(timeout)
+            except subprocess.TimeoutExpired as exc:
+                raise TimeoutError(f'Timed out waiting for process "{self.name}" to exit') from exc
+            self.stdio_logger.join(timeout=2)
+            return rcode
+
         # Using proc.wait() can deadlock; use communicate() instead.
         # see: https://docs.python.org/2/library/subprocess.html#subprocess.Popen.wait
         try:
@@ -309,7 +318,7 @@ class ChildProcess:
         """Kill the spawned process immediately.
         """
         if self.proc.poll() is not None:
-            return
+            return self.wait()
         logger.info("Kill child process: %d", self.proc.pid)
         self.proc.kill()
 
@@ -320,7 +329,7 @@ class ChildProcess:
         """
         if self.proc.poll() is not None:
             # process has already exited
-            return
+            return self.wait(timeout)
         logger.info(f"Close process: {self.client.address}")
         closed = self.client.close_server(timeout=timeout)
         assert closed is True, f"Server refused to close. (reply: {closed})"
-- 
2.43.0


From d5dbedce9f508f3d2cfd1f3e4e0afe2fb0a102c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:36 +0000
Subject: [PATCH 30/58] fix: every child process has its own logger for its
 output

---
 teleprox/log/stdio.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/teleprox/log/stdio.py b/teleprox/log/stdio.py
index 73dbc09..a5c18ab 100644
--- a/teleprox/log/stdio.py
+++ b/teleprox/log/stdio.py
@@ -1,8 +1,11 @@
-import logging, threading, time
+import itertools, logging, threading, time
 
 from teleprox.log.remote import LogSender, set_thread_name
 
 
+logger_ids = itertools.count()
+
+
 class PipePoller(threading.Thread):    
     def __init__(self, pipe, callback, prefix, name):
         threading.Thread.__init__(self, daemon=True)
@@ -38,8 +41,8 @@ class StdioLogSender:
         self.log_addr = log_addr
 
         # create a logger for handling stdout/stderr and forwarding to log server
-        # TODO id(proc) is not id(self), so this behavior is changed from before. is that okay?
-        self.logger = logging.getLogger(__name__ + '.' + str(id(proc)))
+        # (must not be the logger of an earlier process, which may have a handler already)
+        self.logger = logging.getLogger(f'{__name__}.{next(logger_ids)}')
         if log_addr is not None:
             self.logger.propagate = False
             self.log_handler = LogSender(log_addr, self.logger)
-- 
2.43.0


From 20a2db96f98d6a54bb8aa20e63f4d0b7637a2b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:47 +0000
Subject: [PATCH 31/58] fix: timers can be started again at any time

---
 teleprox/timer.py | 58 +++++++++++++++++++++++++++++++----------------
 1 file changed, 38 insertions(+), 20 deletions(-)

diff --git a/teleprox/timer.py b/teleprox/timer.py
index 501396a..3cb2219 100644
--- a/teleprox/timer.py
+++ b/teleprox/timer.py
@@ -24,13 +24,15 @@ class Timer(object):
         Whether to immediately start the timer.
     """
     def __init__(self, callback, interval, limit=None, start=False):
-        self.thread = threading.Thread(target=self._run, daemon=True)
+        self.thread = None
         self.callback = callback
         self.interval = float(interval)
         self.limit = limit
+        self.running = False
         self._last_call_time = None
         self._call_count = 0
-        self._lock = threading.Lock()
+        self._start_count = 0  # identifies the most recent start
+        self._lock = threading.Condition()
         
         if start:
             self.start()
@@ -39,25 +41,32 @@ class Timer(object):
         """Start the timer.
         
         This method begins a new thread that will sleep between callback
-        invocations.
+        invocations. If the timer was already started, then it starts again.
         """
         with self._lock:
             self.running = True
             self._last_call_time = None
             self._call_count = 0
+            self._start_count += 1
+            if self.thread is None:
+                self._start_thread()
+            else:
+                self._lock.notify_all()
         
-        if self.thread.is_alive():
-            return
-        else:
-            self.thread.start()
+    def _start_thread(self):
+        self.thread = threading.Thread(target=self._run, daemon=True)
+        self.thread.start()
         
     def stop(self):
         """Stop the timer.
         """
         with self._lock:
             self.running = False
+            self._lock.notify_all()
         
     def _run(self):
+        with self._lock:
+            start_count = self._start_count
         try:
             callback = self.callback
             if isinstance(callback, ObjectProxy):
@@ -65,25 +74,34 @@ class Timer(object):
                 callback = callback._copy()
             
             while True:
-                if self._last_call_time is None:
-                    sleep_time = 0
-                else:
-                    sleep_time = self.interval - (time.perf_counter() - self._last_call_time)
-                
-                if sleep_time > 0:
-                    time.sleep(sleep_time)
-                    
                 with self._lock:
+                    if self.limit is not None and self._call_count >= self.limit:
+                        self.running = False
+                    while self.running and self._sleep_time() > 0:
+                        self._lock.wait(self._sleep_time())
                     if not self.running:
+                        self.thread = None
                         return
+                    start_count = self._start_count
                     self._last_call_time = time.perf_counter()
                     
                 callback()
                 
                 with self._lock:
-                    self._call_count += 1
-                    if self.limit is not None and self._call_count >= self.limit:
-                        return
-        finally:
+                    # (do not count calls that began before the timer was started again)
+                    if start_count == self._start_count:
+                        self._call_count += 1
+        except:
             with self._lock:
-                self.running = False
+                if self.running and start_count != self._start_count:
+                    # started again while the callback failed
+                    self._start_thread()
+                else:
+                    self.thread = None
+                    self.running = False
+            raise
+
+    def _sleep_time(self):
+        if self._last_call_time is None:
+            return 0
+        return self.interval - (time.perf_counter() - self._last_call_time)
-- 
2.43.0


From 2b19888e08daee93133d0d87cc3c8abb1b29a8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:24 +0000
Subject: [PATCH 32/58] fix: a closed Qt server stops polling and releases its
 address

---
 teleprox/qt_poll_thread.py |  5 ++++-
 teleprox/qt_server.py      | 13 +++++++------
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/teleprox/qt_poll_thread.py b/teleprox/qt_poll_thread.py
index 1792c81..0d3bfef 100644
--- a/teleprox/qt_poll_thread.py
+++ b/teleprox/qt_poll_thread.py
@@ -53,7 +53,7 @@ class QtPollThread(qt.QThread):
             if self.return_socket in socks:
                 name, data = self.return_socket.recv_multipart()
                 #logger.debug("poller return %s %s", name, data)
-                if name == 'STOP':
+                if name == b'STOP':
                     break
                 self.rpc_socket.send_multipart([name, data])
                 
@@ -62,6 +62,9 @@ class QtPollThread(qt.QThread):
                 #logger.debug("poller recv %s %s", name, msg)
                 self.new_request.emit(name, msg)
 
+        # (messages that were sent already are still delivered)
+        self.rpc_socket.close()
+        self.return_socket.close()
         #logger.error("poller exit.")
         
     def stop(self):
diff --git a/teleprox/qt_server.py b/teleprox/qt_server.py
index de234b5..d5c3b87 100644
--- a/teleprox/qt_server.py
+++ b/teleprox/qt_server.py
@@ -73,13 +73,14 @@ class QtRPCServer(RPCServer):
                 from teleprox import qt
                 qt.QApplication.instance().quit()
             # can't stop poller thread here--that would prevent the return 
-            # message being sent. In general it should be safe to leave this thread
-            # running anyway.
-            #self.poll_thread.stop()
+            # message being sent. (see _final_close)
         return RPCServer.process_action(self, action, opts, return_type, caller)
 
     def _final_close(self):
-        # Block for a moment to allow the poller thread to flush any pending
-        # messages. Ideally, we could let the poller thread keep the process
-        # alive until it is done, but then we can end up with zombie processes..
+        # The poller thread stops (and releases the address) after it has sent all 
+        # messages up to this point.
+        self.poll_thread.stop()
+        self.poll_thread.wait()
+        self._socket.close()
+        # Block for a moment to allow the messages to be flushed. 
         time.sleep(0.1)
-- 
2.43.0


From 4fd0a32b2855451bd275285c3f22be03dbe823e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:27 +0000
Subject: [PATCH 33/58] fix: Qt that becomes available later is noticed, and a
 failed import leaves no partial namespace

---
 teleprox/qt_util.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/teleprox/qt_util.py b/teleprox/qt_util.py
index 447157b..d837b6e 100644
--- a/teleprox/qt_util.py
+++ b/teleprox/qt_util.py
@@ -15,7 +15,7 @@ def check_qt_imported():
     HAVE_QT : bool | None
         True if a Qt library has been imported, False if none are importable, None if none have been imported yet."""
     global HAVE_QT, QT_LIB
-    if HAVE_QT is None:
+    if not HAVE_QT:
         for qt_lib in qt_lib_order:
             if qt_lib+'.QtCore' in sys.modules or qt_lib+'.QtGui' in sys.modules or qt_lib+'.QtWidgets' in sys.modules:
                 HAVE_QT = True
@@ -59,16 +59,16 @@ def import_qt(qt_lib=None):
     if not HAVE_QT:
         raise ImportError(f'No importable Qt library found (tried {", ".join(qt_libs)})')
 
-    qt_namespace = {}
+    namespace = {}
     qtcore = importlib.import_module(QT_LIB + '.QtCore')
-    qt_namespace.update(qtcore.__dict__)
+    namespace.update(qtcore.__dict__)
     qtgui = importlib.import_module(QT_LIB + '.QtGui')
-    qt_namespace.update(qtgui.__dict__)
+    namespace.update(qtgui.__dict__)
     qtwidgets = importlib.import_module(QT_LIB + '.QtWidgets')
-    qt_namespace.update(qtwidgets.__dict__)
+    namespace.update(qtwidgets.__dict__)
     
     if 'PySide' not in QT_LIB:
-        qt_namespace['Signal'] = qt_namespace['pyqtSignal']  # for compatibility with PySide
+        namespace['Signal'] = namespace['pyqtSignal']  # for compatibility with PySide
 
     def make_qapp():
         """Create a QApplication object if one does not already exist.
@@ -83,6 +83,7 @@ def import_qt(qt_lib=None):
             app = qt_namespace['QApplication']([])
         return app
     
-    qt_namespace['make_qapp'] = make_qapp
+    namespace['make_qapp'] = make_qapp
+    qt_namespace = namespace
 
     return qt_namespace
-- 
2.43.0


From 8b9cfadca25abe207542f1688e5e003663d9a2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:02 +0000
Subject: [PATCH 34/58] fix: shared arrays of any shape keep their contents,
 and only owned blocks are destroyed

---
 teleprox/shmem.py | 48 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/teleprox/shmem.py b/teleprox/shmem.py
index fde3480..62bcd7a 100644
--- a/teleprox/shmem.py
+++ b/teleprox/shmem.py
@@ -43,42 +43,56 @@ class SharedNDArray:
         self.shmem = shmem
         self.data = data
         self.close = close
-        all_shmem.append(shmem)
+        all_shmem.append(self)
 
     @classmethod
     def zeros(cls, shape, dtype, close=True):
         """Create a SharedNDArray filled with zeros."""
-        shmem = mp_shm.SharedMemory(create=True, size=np.prod(shape) * np.dtype(dtype).itemsize)
-        data = np.ndarray(shape, dtype=dtype, buffer=shmem.buf)
-        data.fill(0)
-        return cls(shmem, data, close)
+        return cls._create(np.broadcast_to(np.zeros((), dtype=dtype), shape), close)
     
     @classmethod
     def copy(cls, arr, close=True):
         """Create a SharedNDArray containing a copy of the given array."""
-        shmem = mp_shm.SharedMemory(create=True, size=arr.nbytes)
-        data = np.ndarray(arr.shape, dtype=arr.dtype, buffer=shmem.buf)
-        data[:] = arr[:]
-        return cls(shmem, data, close)
+        return cls._create(arr, close)
+
+    @classmethod
+    def _create(cls, arr, close):
+        if arr.dtype.hasobject:
+            raise TypeError(f"arrays of dtype {arr.dtype} can not be shared between processes")
+        # (there are no empty shared memory blocks)
+        shmem = mp_shm.SharedMemory(create=True, size=max(arr.size * arr.dtype.itemsize, 1))
+        try:
+            data = np.ndarray(arr.shape, dtype=arr.dtype, buffer=shmem.buf)
+            data[...] = arr
+            return cls(shmem, data, close)
+        except BaseException:
+            shmem.unlink()
+            raise
         
     def __reduce__(self):
-        return SharedNDArray.__reload__, (self.shmem, self.data.shape, self.data.dtype, self.data.strides)
+        start = np.ndarray((1,), dtype='u1', buffer=self.shmem.buf).ctypes.data
+        offset = self.data.ctypes.data - start if self.data.size > 0 else 0
+        return SharedNDArray.__reload__, (self.shmem, self.data.shape, self.data.dtype, self.data.strides, offset)
     
     @classmethod
-    def __reload__(cls, shmem, shape, dtype, strides):
-        arr = np.ndarray(shape, dtype=dtype, buffer=shmem.buf, strides=strides)
+    def __reload__(cls, shmem, shape, dtype, strides, offset=0):
+        arr = np.ndarray(shape, dtype=dtype, buffer=shmem.buf, strides=strides, offset=offset)
         return SharedNDArray(shmem, arr)
 
 
 def close_all():
     global all_shmem
-    for shmem in all_shmem:
-        if shmem.close:
-            shmem.close()
+    arrays, all_shmem = all_shmem, []
+    for arr in arrays:
+        if arr.close:
             try:
-                shmem.unlink()
+                arr.shmem.unlink()
             except FileNotFoundError:
                 pass
-    all_shmem = []
+            try:
+                arr.shmem.close()
+            except BufferError:
+                # there are still arrays using the memory
+                pass
 
 atexit.register(close_all)
-- 
2.43.0


From 36cbd4bab5a3dd6ad356608c20911f6b1ae30da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:16 +0000
Subject: [PATCH 35/58] fix: kill_procs kills the processes matching its search
 text

---
 teleprox/util.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/teleprox/util.py b/teleprox/util.py
index 257ef56..f48b1b1 100644
--- a/teleprox/util.py
+++ b/teleprox/util.py
@@ -45,9 +45,9 @@ def find_procs(search):
     """
     if sys.platform == 'linux':
         import subprocess
-        processes = subprocess.check_output(['ps', '-e', '-o', 'pid,command']).decode('utf-8').split('\n')
+        processes = subprocess.check_output(['ps', '-e', '-o', 'pid,command']).decode('utf-8', errors='replace').split('\n')
         found_procs = []
-        for line in processes:
+        for line in processes[1:]:  # skip the header
             pid, _, cmd = line.lstrip().partition(' ')
             if search in cmd:
                 found_procs.append((int(pid), line))
@@ -66,16 +66,22 @@ def kill_procs(search, wait=5):
 
     return (pid, command) for each killed process
     """
-    procs = find_procs(teleprox.process.PROCESS_NAME_PREFIX)    
+    procs = find_procs(search)
     if not procs:
         return []
     time.sleep(wait)  # wait a little longer for cleanup..
-    procs = find_procs(teleprox.process.PROCESS_NAME_PREFIX)
+    procs = find_procs(search)
     if not procs:
         return []
+    killed = []
     for pid, line in procs:
-        kill_pid(pid)
-    return procs
+        try:
+            kill_pid(pid)
+            killed.append((pid, line))
+        except ProcessLookupError:
+            # exited in the meantime
+            pass
+    return killed
 
 
 class ProcessCleaner:
@@ -189,7 +195,7 @@ def netstat():
             proto = parts[0]
             local_addr, local_port = parts[3].rsplit(':', 1)
             state = parts[5]
-            pid = int(parts[6].lsplit('/', 1)[0])
+            pid = int(parts[6].split('/', 1)[0])
             ports.append(Port(proto, local_addr, int(local_port), state, pid))
     else:
         raise NotImplementedError(f"netstat not implemented for platform {sys.platform}")
-- 
2.43.0


From a53e34e287889d92b22a064bf6d5952a32809576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:31 +0000
Subject: [PATCH 36/58] fix: start_process passes on all arguments, reports
 failures and leaves no process behind

---
 teleprox/bootstrap.py |  60 +++++++++++++-----------
 teleprox/process.py   | 104 ++++++++++++++++++++++++++----------------
 2 files changed, 98 insertions(+), 66 deletions(-)

diff --git a/teleprox/bootstrap.py b/teleprox/bootstrap.py
index 0ed3594..35b14d3 100644
--- a/teleprox/bootstrap.py
+++ b/teleprox/bootstrap.py
@@ -66,32 +66,33 @@ import teleprox
 # Set up process name prefix if requested
 teleprox.process.PROCESS_NAME_PREFIX = conf['child_name_prefix']
 
-# Start QApplication if requested
-if conf['qt']:
-    from teleprox import qt
-    app = qt.QApplication([])
-    app.setQuitOnLastWindowClosed(False)
-
-# Set up log record forwarding
+# Set names used in log records
 log.set_thread_name('main_thread')
 if conf['procname'] is not None:
     log.set_process_name(conf['procname'])
-if conf['logaddr'] is not None:
-    log.set_logger_address(conf['logaddr'].encode())
 
-# Also send unhandled exceptions to log server
-log.log_exceptions()
+try:
+    # Set up log record forwarding
+    if conf['logaddr'] is not None:
+        log.set_logger_address(conf['logaddr'].encode())
+
+    # Also send unhandled exceptions to log server
+    log.log_exceptions()
 
-logger.info('Bootstrapping new process "{procname}" {class_name}({listen_addr}) log_addr:{logaddr} log_level:{loglevel}'.format(**conf))
+    logger.info('Bootstrapping new process "{procname}" {class_name}({listen_addr}) log_addr:{logaddr} log_level:{loglevel}'.format(**conf))
 
-# Create RPC server
-try:
-    # Create server
+    # Start QApplication if requested
+    if conf['qt']:
+        from teleprox import qt
+        app = qt.QApplication([])
+        app.setQuitOnLastWindowClosed(False)
+
+    # Create RPC server
     server_class = getattr(teleprox, conf['class_name'])
     server = server_class(conf['listen_addr'])
     status = {'address': server.address.decode(), 'pid': os.getpid()}
 except:
-    logger.error("Error starting {class_name} with args: {args}:".format(**conf))
+    logger.error("Error starting {class_name} with address {listen_addr}".format(**conf))
     status = {'error': traceback.format_exception(*sys.exc_info()), 'pid': os.getpid()}
     
 # Report server status to spawner
@@ -102,24 +103,31 @@ if conf['bootstrap_addr'] is not None:
     bootstrap_sock.linger = 1000
 
     start = time.time()
-    while time.time() < start + 10.0:
+    acknowledged = False
+    while not acknowledged and time.time() < start + 10.0:
         # send status repeatedly until spawner gives a reply.
-        bootstrap_sock.send_json(status)
+        try:
+            bootstrap_sock.send_json(status, zmq.NOBLOCK)
+        except zmq.error.Again:
+            # nobody is receiving
+            pass
         try:
             bootstrap_sock.recv(zmq.NOBLOCK)
-            break
+            acknowledged = True
         except zmq.error.Again:
             time.sleep(0.01)
-            continue
 
     bootstrap_sock.close()
+else:
+    acknowledged = True
 
 # Run server until heat death of universe
-if 'address' in status:
+# (unless the spawner has given up waiting for it)
+if 'address' in status and acknowledged:
     server.run_forever()
     
-if conf['qt']:
-    try:
-        app.exec()
-    except AttributeError:
-        app.exec_()
+    if conf['qt']:
+        try:
+            app.exec()
+        except AttributeError:
+            app.exec_()
diff --git a/teleprox/process.py b/teleprox/process.py
index 0f3c0a0..ae2b3c1 100644
--- a/teleprox/process.py
+++ b/teleprox/process.py
@@ -4,6 +4,7 @@
 
 import sys
 import json
+import shlex
 import subprocess
 import atexit
 from teleprox.log.remote import get_process_name, set_thread_name
@@ -119,6 +120,9 @@ def start_process(name=None, address="tcp://127.0.0.1:*", qt=False, log_addr=Non
     if log_addr is None and not daemon:
         log_addr = get_logger_address()
     assert log_level is None or isinstance(log_level, (int, str)), f"log_level must be int, str, or None; got {repr(log_level)}"
+    # (addresses are often given as they are found in other objects)
+    address = address.decode() if isinstance(address, bytes) else address
+    log_addr = log_addr.decode() if isinstance(log_addr, bytes) else log_addr
     if log_level is None:
         log_level = logger.getEffectiveLevel()
     elif isinstance(log_level, str):
@@ -133,6 +137,10 @@ def start_process(name=None, address="tcp://127.0.0.1:*", qt=False, log_addr=Non
     if name is None:
         name = get_process_name() + '_child'
     name = PROCESS_NAME_PREFIX + name
+    if daemon is True:
+        # daemom processes have no stdio
+        assert log_stdio is not True, "Cannot use log_stdio with daemon." 
+        assert stdin is None and stdout is None and stderr is None, "Cannot use stdin/stdout/stderr with daemon."
     
     # temporary socket to allow the remote process to report its status.
     bootstrap_addr = 'tcp://127.0.0.1:*'
@@ -144,18 +152,14 @@ def start_process(name=None, address="tcp://127.0.0.1:*", qt=False, log_addr=Non
     
     # Spawn new process
     bootstrap_args = []
-    if name is not None:
-        bootstrap_args = [name] + bootstrap_args
     if qt is True:
         bootstrap_args.append('--qt')
     if daemon is True:
         bootstrap_args.append('--daemon')
     if log_addr is not None:
-        bootstrap_args.extend([
-            f'--logaddr={log_addr.decode()}',
-            f'--loglevel={log_level}',
-        ])
+        bootstrap_args.append(f'--logaddr={log_addr}')
     bootstrap_args.extend([
+        f'--loglevel={log_level}',
         f'--listen_addr={address}',
         f'--bootstrap_addr={bootstrap_addr.decode()}',
     ])
@@ -163,6 +167,11 @@ def start_process(name=None, address="tcp://127.0.0.1:*", qt=False, log_addr=Non
         bootstrap_args.append(
             f'--child_name_prefix={PROCESS_NAME_PREFIX}'
         )
+    if name.startswith('-'):
+        # (not to be taken for an option)
+        bootstrap_args.extend(['--', name])
+    else:
+        bootstrap_args.insert(0, name)
     
     if executable is None:
         if conda_env is None:
@@ -178,18 +187,20 @@ def start_process(name=None, address="tcp://127.0.0.1:*", qt=False, log_addr=Non
         cmd = ('conda', 'run', '--no-capture-output', '-n', conda_env) + cmd
     
     if shell is True:
-        cmd = ' '.join(cmd)
+        # the executable may be any shell command; all other arguments are literal
+        if sys.platform == 'win32':
+            bootstrap_args = [subprocess.list2cmdline([arg]) for arg in bootstrap_args]
+        else:
+            bootstrap_args = [shlex.quote(arg) for arg in bootstrap_args]
+        cmd = ' '.join(cmd[:-len(bootstrap_args)] + tuple(bootstrap_args))
 
     popen_kwargs = {
-        'stdin': stdin or subprocess.DEVNULL,
+        'stdin': subprocess.DEVNULL if stdin is None else stdin,
         'stdout': stdout,
         'stderr': stderr,
         'shell': shell,
     }
     if daemon is True:
-        # daemom processes have no stdio
-        assert log_stdio is not True, "Cannot use log_stdio with daemon." 
-        assert stdin is None and stdout is None and stderr is None, "Cannot use stdin/stdout/stderr with daemon."
         popen_kwargs['stdin'] = subprocess.DEVNULL
         popen_kwargs['stdout'] = subprocess.DEVNULL
         popen_kwargs['stderr'] = subprocess.DEVNULL
@@ -202,38 +213,51 @@ def start_process(name=None, address="tcp://127.0.0.1:*", qt=False, log_addr=Non
             popen_kwargs['stdout'] = subprocess.PIPE
             popen_kwargs['stderr'] = subprocess.PIPE
 
-    # Start the new process
-    proc = subprocess.Popen(cmd, **popen_kwargs)
+    proc = None
+    status = {}
+    try:
+        # Start the new process
+        proc = subprocess.Popen(cmd, **popen_kwargs)
 
-    # set up stdout/stderr logging if requested
-    if log_stdio is True:
-        stdio_logger = StdioLogSender(proc, name, log_addr, log_level)
-    else:
-        stdio_logger = None
+        # set up stdout/stderr logging if requested
+        if log_stdio is True:
+            stdio_logger = StdioLogSender(proc, name, log_addr, log_level)
+        else:
+            stdio_logger = None
+            
+        logger.info(f'Spawned process "{name}" with pid {proc.pid}')
+        if daemon is True and sys.platform != 'win32':
+            proc.wait()  # prevent zombie
+            proc = None  # prevent trying wait/kill/poll  (but maybe we can still do this on windows?)
+
+        # Receive status information (especially the final RPC address)
+        try:
+            status = bootstrap_sock.recv_json()
+        except zmq.error.Again:
+            raise TimeoutError("Timed out waiting for response from spawned process.") from None
+        logger.debug("recv status %s", status)
+        bootstrap_sock.send(b'OK')
         
-    logger.info(f'Spawned process "{name}" with pid {proc.pid}')
-    if daemon is True and sys.platform != 'win32':
-        proc.wait()  # prevent zombie
-        proc = None  # prevent trying wait/kill/poll  (but maybe we can still do this on windows?)
-
-    # Receive status information (especially the final RPC address)
-    try:
-        status = bootstrap_sock.recv_json()
-    except zmq.error.Again:
-        raise TimeoutError("Timed out waiting for response from spawned process.")
-    logger.debug("recv status %s", status)
-    bootstrap_sock.send(b'OK')
-    bootstrap_sock.close()
-    
-    if 'address' in status:
-        address = status['address']
-        #: An RPCClient instance that is connected to the RPCServer in the remote process
-        client = RPCClient(address.encode(), serializer=serializer, start_local_server=start_local_server)
-    else:
-        err = ''.join(status['error'])
-        if proc is not None and proc.poll() is not None:
+        if 'address' in status:
+            address = status['address']
+            #: An RPCClient instance that is connected to the RPCServer in the remote process
+            client = RPCClient(address.encode(), serializer=serializer, start_local_server=start_local_server)
+        else:
+            err = ''.join(status['error'])
+            raise RuntimeError(f"Error while spawning process:\n{err}")
+    except BaseException:
+        # leave no process behind
+        if 'address' in status:
+            try:
+                kill_pid(status['pid'])
+            except OSError:
+                pass
+        if proc is not None:
             proc.kill()
-        raise RuntimeError(f"Error while spawning process:\n{err}")
+            proc.wait()
+        raise
+    finally:
+        bootstrap_sock.close()
 
     if daemon is True:
         return DaemonProcess(client, name, qt, status['pid'])
-- 
2.43.0


From f0b78a64314f7fc1878f6a1833460fb8aa049d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:55 +0000
Subject: [PATCH 37/58] fix: clients left by a process that has ended do not
 prevent connecting to a new one at the same address

---
 teleprox/client.py  | 23 +++++++++++++++++++----
 teleprox/process.py |  2 ++
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/teleprox/client.py b/teleprox/client.py
index 58a9e52..1630bf9 100644
--- a/teleprox/client.py
+++ b/teleprox/client.py
@@ -97,8 +97,20 @@ class RPCClient(object):
         """
         key = (threading.current_thread().ident, client.address)
         with RPCClient.clients_by_thread_lock:
-            RPCClient.clients_by_thread.pop(key, None)
+            # (another client may have taken its place already)
+            if RPCClient.clients_by_thread.get(key, None) is client:
+                RPCClient.clients_by_thread.pop(key)
     
+    @staticmethod
+    def forget_address(address):
+        """Close the client of this thread for a given server address, if there is one.
+        """
+        key = (threading.current_thread().ident, address)
+        with RPCClient.clients_by_thread_lock:
+            client = RPCClient.clients_by_thread.pop(key, None)
+        if client is not None:
+            client._socket.close()
+
     def __init__(self, address, reentrant=True, start_local_server=False, serializer='msgpack', serialize_types=None):
         if isinstance(address, str):
             address = address.encode()
@@ -116,11 +128,13 @@ class RPCClient(object):
 
         self._local_server = None
         self._socket = None
+        self._disconnected = False
 
         key = (threading.current_thread().ident, address)
         with RPCClient.clients_by_thread_lock:
             other = RPCClient.clients_by_thread.get(key, None)
-            if other is not None and other._thread is self._thread:
+            # (a client whose server has closed can be replaced)
+            if other is not None and other._thread is self._thread and not other._disconnected:
                 raise KeyError("An RPCClient instance already exists for this address."
                     " Use RPCClient.get_client(address) instead.")
             RPCClient.clients_by_thread[key] = self
@@ -164,7 +178,6 @@ class RPCClient(object):
             
             self.connect_established = False
             self.establishing_connect = False
-            self._disconnected = False
 
             # For unserializing results returned from servers. This cannot be
             # used to send proxies of local objects unless there is also a server
@@ -181,7 +194,9 @@ class RPCClient(object):
                 self._local_server.run_lazy()
         except:
             # leave nothing behind
-            RPCClient.clients_by_thread.pop(key, None)
+            RPCClient.forget_client(self)
+            if other is not None and other._thread is self._thread:
+                RPCClient.clients_by_thread[key] = other
             if self._socket is not None:
                 self._socket.close()
             raise
diff --git a/teleprox/process.py b/teleprox/process.py
index ae2b3c1..8db14d0 100644
--- a/teleprox/process.py
+++ b/teleprox/process.py
@@ -240,6 +240,8 @@ def start_process(name=None, address="tcp://127.0.0.1:*", qt=False, log_addr=Non
         
         if 'address' in status:
             address = status['address']
+            # a client of an earlier process that used the same address is of no use
+            RPCClient.forget_address(address.encode())
             #: An RPCClient instance that is connected to the RPCServer in the remote process
             client = RPCClient(address.encode(), serializer=serializer, start_local_server=start_local_server)
         else:
-- 
2.43.0


From c377c525d7fb0bd9663b7ce012eac99baa595e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:09 +0000
Subject: [PATCH 38/58] fix: proxies of an earlier server at the same address
 never denote other objects

---
 teleprox/server.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/teleprox/server.py b/teleprox/server.py
index 16e89ad..041db84 100644
--- a/teleprox/server.py
+++ b/teleprox/server.py
@@ -8,6 +8,7 @@ import operator
 import traceback
 import threading
 import builtins
+import uuid
 import zmq
 import logging
 import atexit
@@ -208,7 +209,9 @@ class RPCServer(object):
         # different ref ID. These are used for remote reference counting to
         # ensure that local objects stay alive as long as a remote proxy might
         # still exist for the object.
-        self._next_ref_id = 0  # uniquely identifies a proxy reference
+        # (starts at random so that proxies of an earlier server that had the same 
+        # address can not be mistaken for our own)
+        self._next_ref_id = uuid.uuid4().int >> 80  # uniquely identifies a proxy reference
         self._proxy_refs = {}  # obj_id: [object, set(refs)]
         self._proxy_id_map = {}  # id(obj): obj_id
         
-- 
2.43.0


From 14e95a22593ad78fb2c1b862816fe8f659b900ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:17 +0000
Subject: [PATCH 39/58] fix: the console log handler writes every record once
 and in order, also when flushed

---
 teleprox/log/handler.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/teleprox/log/handler.py b/teleprox/log/handler.py
index b3d8fa9..4d0cdf2 100644
--- a/teleprox/log/handler.py
+++ b/teleprox/log/handler.py
@@ -80,17 +80,20 @@ class RPCLogHandler(logging.StreamHandler):
         while True:
             # collect all records more than 0.5 sec old
             limit = time.time() - self.delay
+            if not self._write_records(limit):
+                time.sleep(0.2)
+
+    def _write_records(self, limit=None):
+        # write all records (or those created before *limit*); return True if there were any
+        # (only one thread at a time may take and write records)
+        with self.lock:
             recs = []
             with self.record_lock:
-                while len(self.records) > 0 and self.records[0].created < limit:
+                while len(self.records) > 0 and (limit is None or self.records[0].created < limit):
                     recs.append(self.records.pop(0))
-                    
-            # emit records or sleep
-            if len(recs) > 0:
-                for rec in recs:
-                    logging.StreamHandler.emit(self, rec)
-            else:
-                time.sleep(0.2)
+            for rec in recs:
+                logging.StreamHandler.emit(self, rec)
+            return len(recs) > 0
 
     def format(self, record):
         header = self.get_thread_header(record)
@@ -98,6 +101,7 @@ class RPCLogHandler(logging.StreamHandler):
         message = logging.StreamHandler.format(self, record)
         if HAVE_COLORAMA:
             ind = record.levelno // 10 * 10  # decrease to multiple of 10
+            ind = max(0, min(ind, logging.CRITICAL))
             message = _level_color_map[ind] + message + colorama.Style.RESET_ALL
             
         return header + ' ' + message
@@ -117,11 +121,11 @@ class RPCLogHandler(logging.StreamHandler):
         return header
 
     def flush_records(self):
-        with self.record_lock:
-            recs = self.records[:]
-            self.records = []
-        for rec in recs:
-            logging.StreamHandler.emit(self, rec)
+        self._write_records()
+
+    def close(self):
+        self.flush_records()
+        logging.StreamHandler.close(self)
 
 
 _sys_excepthook = None
-- 
2.43.0


From 5b9ff9bf7f793d368da8ef271be88758fb1932de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:20 +0000
Subject: [PATCH 40/58] fix: a client that closes the server without wanting a
 reply is told that it closed

---
 teleprox/server.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/teleprox/server.py b/teleprox/server.py
index 041db84..1402d35 100644
--- a/teleprox/server.py
+++ b/teleprox/server.py
@@ -337,7 +337,8 @@ class RPCServer(object):
                 opts = serializer.loads(opts, server=self, proxy_opts={})
             logger.debug("    => opts: %s", opts)
             
-            result = self.process_action(action, opts, return_type, caller)
+            # (a caller that expects no reply must be sent a disconnect message instead)
+            result = self.process_action(action, opts, return_type, caller if req_id >= 0 else None)
             exc = None
         except:
             exc = sys.exc_info()
-- 
2.43.0


From 72518dee540735e9c2883f0ec4668de21bb1d86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:28 +0000
Subject: [PATCH 41/58] fix: slices can be used as indices of remote objects

---
 teleprox/serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teleprox/serializer.py b/teleprox/serializer.py
index 27c4c67..83dd298 100644
--- a/teleprox/serializer.py
+++ b/teleprox/serializer.py
@@ -37,7 +37,7 @@ encode_key = '___type_name___'
 # types will be sent by proxy if a server is available; otherwise an 
 # exceotion will be raised.
 default_serialize_types = (
-    ObjectProxy, type(None), str, bytes, int, float, tuple, list, dict, bool,
+    ObjectProxy, type(None), str, bytes, int, float, tuple, list, dict, bool, slice,
     datetime.datetime, datetime.date,
     multiprocessing.shared_memory.SharedMemory, SharedNDArray, 
 )
-- 
2.43.0


From 268de2c6ee18ca0ea382e48d86bb254052bf369e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:28 +0000
Subject: [PATCH 42/58] fix: remote functions can be called with a keyword
 argument named self

---
 teleprox/proxy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teleprox/proxy.py b/teleprox/proxy.py
index 95dfc3a..5bf61b4 100644
--- a/teleprox/proxy.py
+++ b/teleprox/proxy.py
@@ -304,7 +304,7 @@ class ObjectProxy(object):
         proxy.__dict__['_parent_proxy'] = self
         return proxy
     
-    def __call__(self, *args, **kwargs):
+    def __call__(self, /, *args, **kwargs):
         """Call the proxied object from the remote process.
         
         All positional and keyword arguments (except those listed below) are
-- 
2.43.0


From 5a3775ce8085bdd68d8cc84441edae710782b933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:07 +0000
Subject: [PATCH 43/58] fix: arrays are sent by proxy with JSON if they are not
 among the serializable types

---
 teleprox/serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teleprox/serializer.py b/teleprox/serializer.py
index 83dd298..16b5a4e 100644
--- a/teleprox/serializer.py
+++ b/teleprox/serializer.py
@@ -297,7 +297,7 @@ class JsonSerializer(Serializer):
         return json.loads(msg.decode(), object_hook=self.decode)
 
     def encode(self, obj):
-        if HAVE_NUMPY and type(obj) is np.ndarray:
+        if HAVE_NUMPY and type(obj) is np.ndarray and isinstance(obj, self._serialize_types):
             if obj.dtype.hasobject:
                 raise TypeError("Cannot serialize array with dtype %s" % obj.dtype)
             # JSON doesn't support bytes, so we use base64 encoding instead:
-- 
2.43.0


From a4f3b4ab031cb0553cc93e9b408eb57087b5399b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:19 +0000
Subject: [PATCH 44/58] fix: a client can connect to a server whose replies
 take more than 0.1 s

---
 teleprox/client.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/teleprox/client.py b/teleprox/client.py
index 1630bf9..dc707c4 100644
--- a/teleprox/client.py
+++ b/teleprox/client.py
@@ -467,14 +467,17 @@ class RPCClient(object):
         self.establishing_connect = True
         try:
             start = time.time()
+            futs = []
             while time.time() < start + timeout:
-                fut = self.ping(sync='async')
+                futs.append(self.ping(sync='async'))
                 try:
-                    result = fut.result(timeout=0.1)
-                    self.connect_established = True
-                    return
+                    futs[-1].result(timeout=0.1)
                 except TimeoutError:
-                    continue
+                    # (the reply to an earlier ping may have taken longer)
+                    if not any(fut.done() for fut in futs):
+                        continue
+                self.connect_established = True
+                return
             raise TimeoutError(f"Could not establish connection with RPC server at {self.address.decode()}")
         finally:
             self.establishing_connect = False
-- 
2.43.0


From 3a8259d7ec3747dc341eebea8cf8137a68106d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:39 +0000
Subject: [PATCH 45/58] fix: log records relayed by another process keep the
 names of their origin

---
 teleprox/log/remote.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/teleprox/log/remote.py b/teleprox/log/remote.py
index 974ca10..c15c284 100644
--- a/teleprox/log/remote.py
+++ b/teleprox/log/remote.py
@@ -196,10 +196,11 @@ class LogSender(logging.Handler):
             if not rec['exc_text']:
                 rec['exc_text'] = logging.Formatter().formatException(rec['exc_info'])
             rec['exc_info'] = None
+        # (records received from another process keep the names they came with)
         if process_name is not None:
-            rec['process_name'] = process_name
-        rec['thread_name'] = thread_names.get(rec['thread'], rec['threadName'])
-        rec['host_name'] = host_name
+            rec.setdefault('process_name', process_name)
+        rec.setdefault('thread_name', thread_names.get(rec['thread'], rec['threadName']))
+        rec.setdefault('host_name', host_name)
         try:
             return json.dumps(rec, default=_safe_repr).encode('utf-8')
         except Exception:
-- 
2.43.0


From 7af5cc0520532d91b7286c7dec7ed5e6bf5c48c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:43 +0000
Subject: [PATCH 46/58] fix: configuring the log address or server from several
 threads leaves one consistent result

---
 teleprox/log/remote.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/teleprox/log/remote.py b/teleprox/log/remote.py
index c15c284..1bf4c45 100644
--- a/teleprox/log/remote.py
+++ b/teleprox/log/remote.py
@@ -71,6 +71,7 @@ def get_thread_name(tid=None):
 server = None
 sender = None
 server_addr = None
+_global_lock = threading.Lock()  # held while these are changed
 
 
 def start_log_server():
@@ -82,9 +83,10 @@ def start_log_server():
     forwarded to the server and handled by the logging system there.
     """
     global server, logger
-    if server is not None:
-        raise Exception("A global LogServer has already been created.")
-    server = LogServer(logger)
+    with _global_lock:
+        if server is not None:
+            raise Exception("A global LogServer has already been created.")
+        server = LogServer(logger)
 
 
 def get_logger_address():
@@ -107,11 +109,12 @@ def set_logger_address(addr):
     This function creates a global LogSender and attaches it to the root logger.
     """
     global sender, server_addr
-    if sender is not None:
-        sender.connect(addr)
-    else:
-        sender = LogSender(addr, '')
-    server_addr = addr
+    with _global_lock:
+        if sender is not None:
+            sender.connect(addr)
+        else:
+            sender = LogSender(addr, '')
+        server_addr = addr
 
 
 class LogSender(logging.Handler):
-- 
2.43.0


From 79e5939295974c8a5e178034a20b1fdd823791a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:49 +0000
Subject: [PATCH 47/58] fix: the log handler prints messages and origins as
 they were when the record was logged

---
 teleprox/log/handler.py | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/teleprox/log/handler.py b/teleprox/log/handler.py
index 4d0cdf2..eefd068 100644
--- a/teleprox/log/handler.py
+++ b/teleprox/log/handler.py
@@ -2,6 +2,7 @@
 # Copyright (c) 2016, French National Center for Scientific Research (CNRS)
 # Distributed under the (new) BSD License. See LICENSE for more info.
 
+import copy
 import logging
 import sys
 import threading
@@ -71,6 +72,18 @@ class RPCLogHandler(logging.StreamHandler):
         return isatty and isatty()
 
     def emit(self, record):
+        # The message and names are determined now because they may change 
+        # before the record is written.
+        record = copy.copy(record)
+        try:
+            record.msg = record.getMessage()
+            record.args = None
+        except Exception:
+            self.handleError(record)
+            return
+        for attr, value in self._get_origin(record).items():
+            setattr(record, attr, value)
+
         # send record to sorting thread
         with self.record_lock:
             self.records.append(record)
@@ -107,19 +120,23 @@ class RPCLogHandler(logging.StreamHandler):
         return header + ' ' + message
 
     def get_thread_header(self, record):
-        hid = getattr(record, 'host_name', get_host_name())
-        pid = getattr(record, 'process_name', get_process_name())
-        tid = getattr(record, 'thread_name', get_thread_name(record.thread))
-        key = (hid, pid, tid)
+        key = tuple(self._get_origin(record).values())
         header = self.thread_headers.get(key, None)
         if header is None:
-            header = '[%s:%s:%s]' % (hid, pid, tid)
+            header = '[%s:%s:%s]' % key
             if HAVE_COLORAMA:
                 color = _thread_color_list[len(self.thread_headers) % len(_thread_color_list)]
                 header = color + header + colorama.Style.RESET_ALL
             self.thread_headers[key] = header
         return header
 
+    def _get_origin(self, record):
+        return {
+            'host_name': getattr(record, 'host_name', get_host_name()),
+            'process_name': getattr(record, 'process_name', get_process_name()),
+            'thread_name': getattr(record, 'thread_name', get_thread_name(record.thread)),
+        }
+
     def flush_records(self):
         self._write_records()
 
-- 
2.43.0


From 78e249be84867af41c4e5b1e274bf6c6bca39f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:42 +0000
Subject: [PATCH 48/58] fix: starting a daemon does not wait forever for a
 process that hangs before it detaches

---
 teleprox/process.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/teleprox/process.py b/teleprox/process.py
index 8db14d0..25ae5e2 100644
--- a/teleprox/process.py
+++ b/teleprox/process.py
@@ -227,7 +227,11 @@ def start_process(name=None, address="tcp://127.0.0.1:*", qt=False, log_addr=Non
             
         logger.info(f'Spawned process "{name}" with pid {proc.pid}')
         if daemon is True and sys.platform != 'win32':
-            proc.wait()  # prevent zombie
+            # prevent zombie
+            try:
+                proc.wait(timeout=10)
+            except subprocess.TimeoutExpired:
+                raise TimeoutError("Timed out waiting for spawned process to detach.") from None
             proc = None  # prevent trying wait/kill/poll  (but maybe we can still do this on windows?)
 
         # Receive status information (especially the final RPC address)
-- 
2.43.0


From ca0e957035d94191cb401e1f770e7539d4cdb621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:49 +0000
Subject: [PATCH 49/58] fix: starting a process does not wait forever for one
 that dies during the start-up

---
 teleprox/process.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/teleprox/process.py b/teleprox/process.py
index 25ae5e2..da18bd7 100644
--- a/teleprox/process.py
+++ b/teleprox/process.py
@@ -146,6 +146,7 @@ def start_process(name=None, address="tcp://127.0.0.1:*", qt=False, log_addr=Non
     bootstrap_addr = 'tcp://127.0.0.1:*'
     bootstrap_sock = zmq.Context.instance().socket(zmq.PAIR)
     bootstrap_sock.setsockopt(zmq.RCVTIMEO, 10000)
+    bootstrap_sock.setsockopt(zmq.SNDTIMEO, 10000)  # the process might be gone
     bootstrap_sock.bind(bootstrap_addr)
     bootstrap_sock.linger = 1000 # don't let socket deadlock when exiting
     bootstrap_addr = bootstrap_sock.last_endpoint
@@ -237,10 +238,10 @@ def start_process(name=None, address="tcp://127.0.0.1:*", qt=False, log_addr=Non
         # Receive status information (especially the final RPC address)
         try:
             status = bootstrap_sock.recv_json()
+            logger.debug("recv status %s", status)
+            bootstrap_sock.send(b'OK')
         except zmq.error.Again:
             raise TimeoutError("Timed out waiting for response from spawned process.") from None
-        logger.debug("recv status %s", status)
-        bootstrap_sock.send(b'OK')
         
         if 'address' in status:
             address = status['address']
-- 
2.43.0


From 62f9a28388ce7a70d09110aa7ce03d9fd2033add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:56 +0000
Subject: [PATCH 50/58] fix: a process can be stopped after the client created
 for it was closed

---
 teleprox/process.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/teleprox/process.py b/teleprox/process.py
index da18bd7..e459f72 100644
--- a/teleprox/process.py
+++ b/teleprox/process.py
@@ -272,6 +272,16 @@ def start_process(name=None, address="tcp://127.0.0.1:*", qt=False, log_addr=Non
         return ChildProcess(proc, client, name, qt, stdio_logger)
 
 
+def _close_server(client, **kwds):
+    """Ask the server of a process to close, using the client that was created for it.
+    """
+    if client._socket.closed:
+        # closing a client leaves its server running
+        client = RPCClient.get_client(client.address)
+    closed = client.close_server(**kwds)
+    assert closed is True, f"Server refused to close. (reply: {closed})"
+
+
 class DaemonProcess:
     def __init__(self, client, name, qt, pid):
         self.client = client
@@ -283,8 +293,7 @@ class DaemonProcess:
         """Stop the spawned process by asking its RPC server to close.
         """
         logger.info(f"Close daemon process: {self.client.address}")
-        closed = self.client.close_server()
-        assert closed is True, f"Server refused to close. (reply: {closed})"
+        _close_server(self.client)
 
     def kill(self):
         """Kill the spawned process immediately."""
@@ -362,8 +371,7 @@ class ChildProcess:
             # process has already exited
             return self.wait(timeout)
         logger.info(f"Close process: {self.client.address}")
-        closed = self.client.close_server(timeout=timeout)
-        assert closed is True, f"Server refused to close. (reply: {closed})"
+        _close_server(self.client, timeout=timeout)
 
         return self.wait(timeout)
 
-- 
2.43.0


From f1091a5debedc999d335768ca1832697c250fce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:26 +0000
Subject: [PATCH 51/58] fix: stopping a process that dies in the meantime
 returns its exit code

---
 teleprox/process.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/teleprox/process.py b/teleprox/process.py
index e459f72..c386b5a 100644
--- a/teleprox/process.py
+++ b/teleprox/process.py
@@ -371,7 +371,12 @@ class ChildProcess:
             # process has already exited
             return self.wait(timeout)
         logger.info(f"Close process: {self.client.address}")
-        _close_server(self.client, timeout=timeout)
+        try:
+            _close_server(self.client, timeout=timeout)
+        except Exception:
+            # the process may have ended by other means in the meantime
+            if self.proc.poll() is None:
+                raise
 
         return self.wait(timeout)
 
-- 
2.43.0


From 615ee646c921ee577885f28456afedacd54d97b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:04 +0000
Subject: [PATCH 52/58] fix: a process can be stopped from two threads at once

---
 teleprox/process.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/teleprox/process.py b/teleprox/process.py
index c386b5a..fe4501d 100644
--- a/teleprox/process.py
+++ b/teleprox/process.py
@@ -313,6 +313,7 @@ class ChildProcess:
         self.qt = qt
         self.logger = logger
         self.stdio_logger = stdio_logger
+        self._stop_lock = threading.RLock()  # (the client can't be used by two threads at once)
 
         # Automatically shut down process when we exit. 
         atexit.register(self.stop)
@@ -367,18 +368,19 @@ class ChildProcess:
     def stop(self, timeout=10):
         """Stop the spawned process by asking its RPC server to close.
         """
-        if self.proc.poll() is not None:
-            # process has already exited
-            return self.wait(timeout)
-        logger.info(f"Close process: {self.client.address}")
-        try:
-            _close_server(self.client, timeout=timeout)
-        except Exception:
-            # the process may have ended by other means in the meantime
-            if self.proc.poll() is None:
-                raise
+        with self._stop_lock:
+            if self.proc.poll() is not None:
+                # process has already exited
+                return self.wait(timeout)
+            logger.info(f"Close process: {self.client.address}")
+            try:
+                _close_server(self.client, timeout=timeout)
+            except Exception:
+                # the process may have ended by other means in the meantime
+                if self.proc.poll() is None:
+                    raise
 
-        return self.wait(timeout)
+            return self.wait(timeout)
 
     def poll(self):
         """Return the spawned process's return code, or None if it has not
-- 
2.43.0


From 2aed6bb007efcb293aee4f1f7adca2d965033625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:18 +0000
Subject: [PATCH 53/58] fix: comparing or combining proxies of objects on
 different servers does not recurse

---
 teleprox/server.py | 47 +++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 42 insertions(+), 5 deletions(-)

diff --git a/teleprox/server.py b/teleprox/server.py
index 1402d35..846089f 100644
--- a/teleprox/server.py
+++ b/teleprox/server.py
@@ -22,8 +22,43 @@ from . import log
 logger = logging.getLogger(__name__)
 
 
-def _swap(op):
-    return lambda obj, other: op(other, obj)
+def _special_method(name, obj, other):
+    method = getattr(type(obj), name, None)
+    return NotImplemented if method is None else method(obj, other)
+
+
+def _swap(op, name):
+    def swapped(obj, other):
+        if not isinstance(other, ObjectProxy):
+            return op(other, obj)
+        # *other* has been asked already; it would only ask us again
+        result = _special_method(name, obj, other)
+        if result is NotImplemented:
+            raise TypeError("unsupported operand types for %s: %r and %r" % (name, obj, other))
+        return result
+    return swapped
+
+
+def _compare(name, reflected):
+    op = getattr(operator, name)
+    def compare(obj, other):
+        if not isinstance(other, ObjectProxy):
+            return op(obj, other)
+        # (python's own comparison would make both sides ask each other forever)
+        result = _special_method(name, obj, other)
+        if result is NotImplemented:
+            return other._deferred_attr('__reflected' + reflected)(obj)
+        return result
+    def reflected_compare(obj, other):
+        if not isinstance(other, ObjectProxy):
+            return op(obj, other)
+        result = _special_method(name, obj, other)
+        if result is NotImplemented:
+            if name not in ('__eq__', '__ne__'):
+                raise TypeError("%s not supported between %r and %r" % (name, obj, other))
+            return name == '__ne__'
+        return result
+    return {name: compare, '__reflected' + name: reflected_compare}
 
 
 # Operators that ObjectProxy forwards by special method name. These must be 
@@ -32,13 +67,15 @@ def _swap(op):
 # instances.
 _operators = {'__%s__' % name: getattr(operator, name) for name in (
     'getitem', 'setitem', 'iadd', 'isub', 'itruediv', 'ifloordiv', 'imul', 'ipow',
-    'irshift', 'ilshift', 'iand', 'ior', 'ixor', 'eq', 'ne', 'lt', 'gt', 'le', 'ge')}
+    'irshift', 'ilshift', 'iand', 'ior', 'ixor')}
 for _name in ('add', 'sub', 'truediv', 'floordiv', 'mul', 'rshift', 'lshift', 
               'and', 'or', 'xor', 'mod'):
     _op = getattr(operator, '__%s__' % _name)
     _operators['__%s__' % _name] = _op
-    _operators['__r%s__' % _name] = _swap(_op)
-_operators.update({'__pow__': pow, '__rpow__': _swap(pow), '__len__': len, 
+    _operators['__r%s__' % _name] = _swap(_op, '__r%s__' % _name)
+for _name, _reflected in (('eq', 'eq'), ('ne', 'ne'), ('lt', 'gt'), ('gt', 'lt'), ('le', 'ge'), ('ge', 'le')):
+    _operators.update(_compare('__%s__' % _name, '__%s__' % _reflected))
+_operators.update({'__pow__': pow, '__rpow__': _swap(pow, '__rpow__'), '__len__': len, 
                    '__str__': str, '__repr__': repr, '__setattr__': setattr})
 
 
-- 
2.43.0


From eb3da92434ef5d16a2be082ef922cfa7c4e61406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:44 +0000
Subject: [PATCH 54/58] fix: a reply that cannot be decoded fails the request
 that it answers, and no other

---
 teleprox/client.py     | 12 ++++++++++--
 teleprox/serializer.py | 12 ++++++++++++
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/teleprox/client.py b/teleprox/client.py
index dc707c4..7965b03 100644
--- a/teleprox/client.py
+++ b/teleprox/client.py
@@ -558,11 +558,19 @@ class RPCClient(object):
             # NOTE: docs say timeout can only be set before bind, but this
             # seems to work for now.
             self._socket.setsockopt(zmq.RCVTIMEO, timeout)
-            msg = self._socket.recv()
-            msg = self.serializer.loads(msg, server=None, proxy_opts=self.default_proxy_options)
+            data = self._socket.recv()
         except zmq.error.Again as exc:
             raise TimeoutError("Timeout waiting for Future result.") from None
         
+        try:
+            msg = self.serializer.loads(data, server=None, proxy_opts=self.default_proxy_options)
+        except Exception as exc:
+            # only the request that is answered by this message has failed
+            fut = self.futures.pop(self.serializer.loads_undecoded(data)['req_id'], None)
+            if fut is not None:
+                fut.set_exception(exc)
+            return
+
         self.process_msg(msg)
 
     def _check_replies(self):
diff --git a/teleprox/serializer.py b/teleprox/serializer.py
index 16b5a4e..59457e2 100644
--- a/teleprox/serializer.py
+++ b/teleprox/serializer.py
@@ -93,6 +93,12 @@ class Serializer:
         """
         raise NotImplementedError()
 
+    def loads_undecoded(self, msg):
+        """Convert from serialized string to basic types; all others are left as 
+        they were encoded.
+        """
+        raise NotImplementedError()
+
     def encode(self, obj):
         """Convert various types to serializable objects.
         
@@ -264,6 +270,9 @@ class MsgpackSerializer(Serializer):
         #Return lists/tuples as lists because json can't be configured otherwise
         return msgpack.loads(msg, object_hook=self.decode, strict_map_key=False)
 
+    def loads_undecoded(self, msg):
+        return msgpack.loads(msg, strict_map_key=False)
+
 if HAVE_MSGPACK:
     all_serializers[MsgpackSerializer.type] = MsgpackSerializer
 
@@ -296,6 +305,9 @@ class JsonSerializer(Serializer):
         self._proxy_opts = proxy_opts
         return json.loads(msg.decode(), object_hook=self.decode)
 
+    def loads_undecoded(self, msg):
+        return json.loads(msg.decode())
+
     def encode(self, obj):
         if HAVE_NUMPY and type(obj) is np.ndarray and isinstance(obj, self._serialize_types):
             if obj.dtype.hasobject:
-- 
2.43.0


From a7a34e34f1b2799f7465a62397cf09bb563f17d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:24 +0000
Subject: [PATCH 55/58] fix: a proxy with automatic deletion can be collected
 at any moment and in any thread

---
 teleprox/client.py | 59 +++++++++++++++++++++++++++++++++++++++-------
 teleprox/proxy.py  |  6 ++++-
 2 files changed, 56 insertions(+), 9 deletions(-)

diff --git a/teleprox/client.py b/teleprox/client.py
index 7965b03..238e919 100644
--- a/teleprox/client.py
+++ b/teleprox/client.py
@@ -2,6 +2,7 @@
 # Copyright (c) 2016, French National Center for Scientific Research (CNRS)
 # Distributed under the (new) BSD License. See LICENSE for more info.
 
+import collections
 import re
 import socket
 import sys
@@ -64,7 +65,7 @@ class RPCClient(object):
     """
     
     clients_by_thread = {}  # (thread_id, rpc_addr): client
-    clients_by_thread_lock = threading.Lock()
+    clients_by_thread_lock = threading.RLock()  # (a proxy may be collected while we have it)
     
     @staticmethod
     def get_client(address):
@@ -129,6 +130,8 @@ class RPCClient(object):
         self._local_server = None
         self._socket = None
         self._disconnected = False
+        self._collected = collections.deque()  # references to be deleted
+        self._sending = True  # (not yet ready)
 
         key = (threading.current_thread().ident, address)
         with RPCClient.clients_by_thread_lock:
@@ -188,6 +191,7 @@ class RPCClient(object):
                 raise ValueError("Unsupported serializer type '%s'" % serializer)
             
             self.ensure_connection()
+            self._sending = False
 
             if start_local_server and RPCServer.get_server() is None:
                 self._local_server = RPCServer(serialize_types=serialize_types)
@@ -318,6 +322,25 @@ class RPCClient(object):
         if self._disconnected:
             raise RuntimeError("Cannot send request; server has already disconnected.")
         
+        # (references of proxies that are collected in the meantime are deleted afterwards)
+        sending, self._sending = self._sending, True
+        try:
+            fut = self._send(action, opts, return_type, sync)
+        finally:
+            self._sending = sending
+        self._delete_collected()
+
+        if sync == 'off':
+            return
+        elif sync == 'async':
+            return fut
+        elif sync == 'sync':
+            return fut.result(timeout=timeout)
+        else:
+            raise ValueError('Invalid sync value: %s' % sync)
+
+    def _send(self, action, opts, return_type, sync):
+        # Send a request and return its Future.
         if sync == 'off':
             req_id = -1
         else:
@@ -344,13 +367,7 @@ class RPCClient(object):
             # for server closure we require a little special handling
             fut.add_done_callback(self._close_request_returned)
         self.futures[req_id] = fut
-        
-        if sync == 'async':
-            return fut
-        elif sync == 'sync':
-            return fut.result(timeout=timeout)
-        else:
-            raise ValueError('Invalid sync value: %s' % sync)
+        return fut
 
     def call_obj(self, obj, args=None, kwargs=None, **kwds):
         """Invoke a remote callable object.
@@ -439,6 +456,32 @@ class RPCClient(object):
         assert obj._rpc_addr == self.address
         return self.send('delete', opts={'obj_id': obj._obj_id, 'ref_id': obj._ref_id}, **kwds)
 
+    def proxy_collected(self, obj):
+        """Delete the reference of a proxy that is being collected by Python.
+
+        This may happen at any moment, even while this client is being used, and in
+        any thread. Thus, we do not wait for a reply, and the request might be sent 
+        only when the client is used again by its own thread.
+        """
+        self._collected.append({'obj_id': obj._obj_id, 'ref_id': obj._ref_id})
+        if threading.current_thread() is self._thread:
+            self._delete_collected()
+
+    def _delete_collected(self):
+        while len(self._collected) > 0 and not self._sending:
+            self._sending = True
+            try:
+                while len(self._collected) > 0:
+                    opts = self._collected.popleft()
+                    opts_str = self.serializer.dumps(opts, server=None, serialize_types=self.serialize_types)
+                    ser_type = self.serializer.type.encode()
+                    # (there is no future for this ID, so the reply is discarded)
+                    req_id = self.next_request_id
+                    self.next_request_id += 1
+                    self._socket.send_multipart([str(req_id).encode(), b'delete', b'auto', ser_type, opts_str])
+            finally:
+                self._sending = False
+
     def __getitem__(self, name):
         """Return a named item published by the remote server.
         
diff --git a/teleprox/proxy.py b/teleprox/proxy.py
index 5bf61b4..d84bb3f 100644
--- a/teleprox/proxy.py
+++ b/teleprox/proxy.py
@@ -268,7 +268,11 @@ class ObjectProxy(object):
         
     def __del__(self):
         if self._proxy_options['auto_delete'] is True:
-            self._delete()
+            client = self._client_
+            if client is None or not client._thread.is_alive():
+                from .client import RPCClient
+                client = RPCClient.get_client(self._rpc_addr)
+            client.proxy_collected(self)
         
     def __getattr__(self, attr):
         """
-- 
2.43.0


From 4b87b8347c73e81274e0923989789331ff913853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:00 +0000
Subject: [PATCH 56/58] fix: the log viewer showed records that the filters of
 its handler reject

---
 teleprox/log/logviewer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/teleprox/log/logviewer.py b/teleprox/log/logviewer.py
index dc11f30..5617d36 100644
--- a/teleprox/log/logviewer.py
+++ b/teleprox/log/logviewer.py
@@ -55,4 +55,10 @@ class QtLogHandler(logging.Handler, qt.QObject):
         qt.QObject.__init__(self)
         
     def handle(self, record):
-        self.new_record.emit(record)
\ No newline at end of file
+        rv = self.filter(record)
+        if not rv:
+            return rv
+        if isinstance(rv, logging.LogRecord):
+            record = rv
+        self.new_record.emit(record)
+        return rv
-- 
2.43.0


From 7e96114b3af307984479168cf46b07294ceefd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:11 +0000
Subject: [PATCH 57/58] fix: a log sender forwarded records that its filters
 reject

---
 teleprox/log/remote.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/teleprox/log/remote.py b/teleprox/log/remote.py
index 1bf4c45..657d41a 100644
--- a/teleprox/log/remote.py
+++ b/teleprox/log/remote.py
@@ -164,6 +164,11 @@ class LogSender(logging.Handler):
         atexit.register(self.close)
 
     def handle(self, record):
+        rv = self.filter(record)
+        if not rv:
+            return rv
+        if isinstance(rv, logging.LogRecord):
+            record = rv
         # Records are serialized immediately because their contents may change, and 
         # because one that cannot be serialized must not affect any others.
         try:
-- 
2.43.0


From 2a75dffa87147e7e68841466657754500e34b4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:11 +0000
Subject: [PATCH 58/58] fix: a log server ended when a handler or filter of its
 logger raised an exception

---
 teleprox/log/remote.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/teleprox/log/remote.py b/teleprox/log/remote.py
index 657d41a..7a02f6f 100644
--- a/teleprox/log/remote.py
+++ b/teleprox/log/remote.py
@@ -10,6 +10,7 @@ import zmq
 import logging
 import atexit
 import json
+import traceback
 
 logger = logging.getLogger(__name__)
 
@@ -322,5 +323,10 @@ class LogServer(threading.Thread):
             with self.running_lock:
                 if not self.running:
                     break
-                self.logger.handle(rec)
+                try:
+                    self.logger.handle(rec)
+                except Exception:
+                    # a filter or handler failed; this must not affect other records
+                    if logging.raiseExceptions:
+                        traceback.print_exc()
         self.socket.close()
-- 
2.43.0

