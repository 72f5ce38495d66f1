From 5c55d39597d100b96e3c98bc892bad3b583c68f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:34 +0000
Subject: [PATCH 01/43] fix: server crash on attempt to change client id

---
 paf/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paf/server.py b/paf/server.py
index 0f85993..95b4d55 100644
--- a/paf/server.py
+++ b/paf/server.py
@@ -320,7 +320,7 @@ class Connection:
         elif self.client_id != client_id:
             self.warning("Attempt to change client id denied.",
                          LogCategory.SECURITY)
-            yield ta.fail(fail_reason=proto.FAIL_PERMISSION_DENIED)
+            yield ta.fail(fail_reason=proto.FAIL_REASON_PERMISSION_DENIED)
             return
         elif self.handshaked:
             self.debug("Received hello from client with handshake "
-- 
2.43.0


From 169d723dba277fa78ca2fede182e77c61c84a56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:34 +0000
Subject: [PATCH 02/43] fix: server crash on unsolicited track reply or unknown
 track type

---
 paf/server.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/paf/server.py b/paf/server.py
index 95b4d55..f5070ea 100644
--- a/paf/server.py
+++ b/paf/server.py
@@ -421,16 +421,15 @@ class Connection:
         elif track_type == proto.TRACK_TYPE_REPLY:
             if self.track_query_ts is None:
                 raise ProtocolError("Received unsolicited track reply in "
-                                    "track transaction %d", track_type,
-                                    ta.ta_id)
+                                    "track transaction %d" % ta.ta_id)
             self.track_latency = time.time() - self.track_query_ts
             self.track_query_ts = None
             self.debug("Received to track query reply (after %.1f ms)." %
                        (1e3 * self.track_latency), LogCategory.CORE)
         else:
             raise ProtocolError("Received unknown track type \"%s\" in "
-                                "track transaction %d", track_type,
-                                ta.ta_id)
+                                "track transaction %d" %
+                                (track_type, ta.ta_id))
 
     def subscribe_request(self, ta, sub_id, filter=None):
         try:
-- 
2.43.0


From aa0377a162825f3e2ef985127a771494af21170b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:34 +0000
Subject: [PATCH 03/43] fix: server crash on message not fitting its live
 transaction

---
 paf/server.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/paf/server.py b/paf/server.py
index f5070ea..f80fabe 100644
--- a/paf/server.py
+++ b/paf/server.py
@@ -46,6 +46,11 @@ class Transaction:
             raise ProtocolError("Message received in transaction %d is not "
                                 "of a client-generated type" % self.ta_id)
 
+        if in_msg.cmd() != self.ta_type.cmd:
+            raise ProtocolError("Received \"%s\" message in \"%s\" "
+                                "transaction %d" %
+                                (in_msg.cmd(), self.ta_type.cmd, self.ta_id))
+
         if in_msg.is_request():
             self.request(in_msg)
         else:
@@ -66,6 +71,10 @@ class Transaction:
             raise ProtocolError("Inform message precedes request in "
                                 "transaction %d" % self.ta_id)
 
+        if not self.is_two_way():
+            raise ProtocolError("Received inform message in transaction %d "
+                                "which is not two-way" % self.ta_id)
+
         assert self.state == TransactionState.ACCEPTED
 
     def response(self, msg_type, fields, opt_fields, *args, **optargs):
-- 
2.43.0


From 0887fb6551084a6ff09ff364c7ba80f3a6a4df32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:09 +0000
Subject: [PATCH 04/43] fix: uncaught exceptions when decoding malformed
 messages

---
 paf/proto.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/paf/proto.py b/paf/proto.py
index eca5883..6af7238 100644
--- a/paf/proto.py
+++ b/paf/proto.py
@@ -56,7 +56,14 @@ class Field:
 
 
 class StringField(Field):
-    pass
+    def pull(self, in_msg, opt=False):
+        value = Field.pull(self, in_msg, opt=opt)
+        if value is None:
+            return None
+        if not isinstance(value, str):
+            raise ProtocolError("Message field %s is not a string" %
+                                self.name)
+        return value
 
 
 NON_NEGATIVE_INT_MAX = (1 << 63) - 1
@@ -367,6 +374,9 @@ class Message:
         try:
             in_msg = json.loads(in_wire_msg.decode('utf-8'))
 
+            if not isinstance(in_msg, dict):
+                raise ProtocolError("Incoming message is not a JSON object")
+
             cmd = FIELD_TA_CMD.pull(in_msg)
             ta_id = FIELD_TA_ID.pull(in_msg)
             msg_type = FIELD_MSG_TYPE.pull(in_msg)
@@ -396,7 +406,7 @@ class Message:
 
             return Message(ta_type, ta_id, msg_type, args, optargs)
 
-        except ValueError:
+        except (ValueError, RecursionError):
             raise ProtocolError("Error JSON decoding incoming message")
 
     def __init__(self, ta_type, ta_id, msg_type, args, optargs):
-- 
2.43.0


From b1f9ff5a10c9ff853243608e72ed5dc0194a49da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:09 +0000
Subject: [PATCH 05/43] fix: reject JSON booleans in place of integers and
 numbers

---
 paf/proto.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/paf/proto.py b/paf/proto.py
index 6af7238..87d2754 100644
--- a/paf/proto.py
+++ b/paf/proto.py
@@ -74,7 +74,7 @@ class NonNegativeIntField(Field):
         value = Field.pull(self, value, opt=opt)
         if value is None:
             return None
-        if not isinstance(value, int):
+        if not isinstance(value, int) or isinstance(value, bool):
             raise ProtocolError("Message field %s is not an integer" %
                                 self.name)
         if value < 0:
@@ -92,7 +92,7 @@ class NonNegativeNumberField(Field):
         value = Field.pull(self, value, opt=opt)
         if value is None:
             return None
-        if not isinstance(value, (int, float)):
+        if not isinstance(value, (int, float)) or isinstance(value, bool):
             raise ProtocolError("Message field %s is not a number" %
                                 self.name)
         if value < 0:
@@ -119,7 +119,8 @@ class PropsField(Field):
             if not isinstance(values, list):
                 raise ProtocolError("Service property value is not a list")
             for value in values:
-                if not isinstance(value, (str, int)):
+                if not isinstance(value, (str, int)) or \
+                   isinstance(value, bool):
                     raise ProtocolError("Service property value is neither "
                                         "string nor integer")
                 props[key].add(value)
-- 
2.43.0


From b3b13a1254444d6c416a155e501aaf0e83e2c296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:09 +0000
Subject: [PATCH 06/43] fix: OverflowError on number fields set to negative
 infinity

---
 paf/proto.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paf/proto.py b/paf/proto.py
index 87d2754..8775ef5 100644
--- a/paf/proto.py
+++ b/paf/proto.py
@@ -97,7 +97,7 @@ class NonNegativeNumberField(Field):
                                 self.name)
         if value < 0:
             raise ProtocolError("Message field %s has a negative "
-                                "value %d" % (self.name, value))
+                                "value %s" % (self.name, value))
         return value
 
 
-- 
2.43.0


From 32fd7afd7000855a4ea7904c5ed7458fe5bde970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:33 +0000
Subject: [PATCH 07/43] fix: substring filter failing on integers and newlines,
 and regex blow-up

---
 paf/filter.py | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/paf/filter.py b/paf/filter.py
index 22ae626..53971ec 100644
--- a/paf/filter.py
+++ b/paf/filter.py
@@ -1,8 +1,6 @@
 # SPDX-License-Identifier: BSD-3-Clause
 # Copyright(c) 2020 Ericsson AB
 
-import re
-
 BEGIN_EXPR = '('
 END_EXPR = ')'
 ANY = '*'
@@ -311,27 +309,36 @@ class Substring(Filter):
         self.intermediate = intermediate
         self.final = final
 
-        pattern = "^"
-        if initial is not None:
-            pattern += "%s.*" % re.escape(initial)
-        else:
-            pattern += ".*"
+    def compare(self, value):
+        if not isinstance(value, str):
+            return False
 
-        for im in intermediate:
-            pattern += "%s.*" % re.escape(im)
+        start = 0
+        end = len(value)
 
-        if final is not None:
-            pattern += re.escape(self.final)
+        if self.initial is not None:
+            if not value.startswith(self.initial):
+                return False
+            start = len(self.initial)
 
-        pattern += "$"
+        if self.final is not None:
+            if not value.endswith(self.final):
+                return False
+            end -= len(self.final)
 
-        self.substring_re = re.compile(pattern)
+        for im in self.intermediate:
+            idx = value.find(im, start, end)
+            if idx < 0:
+                return False
+            start = idx + len(im)
+
+        return start <= end
 
     def match(self, service):
         values = service.get(self.key)
         if values is not None:
             for value in values:
-                if self.substring_re.search(value) is not None:
+                if self.compare(value):
                     return True
         return False
 
-- 
2.43.0


From 258d0b1bedffd0f5080b71d11d78994f32b0ac68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:05 +0000
Subject: [PATCH 08/43] fix: escaped exclamation mark rejected in filters

---
 paf/filter.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/paf/filter.py b/paf/filter.py
index 53971ec..91d5e85 100644
--- a/paf/filter.py
+++ b/paf/filter.py
@@ -17,6 +17,10 @@ SPECIALS = {
     BEGIN_EXPR, END_EXPR, ANY, ESCAPE, AND, OR, EQUAL, GREATER_THAN, LESS_THAN
 }
 
+# The '!' is a special character too, but for backward compatibility
+# it's accepted also when not escaped.
+ESCAPABLE = SPECIALS | {NOT}
+
 
 class ParseError(Exception):
     def __init__(self, state, error_desc):
@@ -67,7 +71,7 @@ def _parse_str(state):
         in_c = state.current()
         special = in_c in SPECIALS
         if escaped:
-            if not special:
+            if in_c not in ESCAPABLE:
                 raise ParseError(state, "Escaped character '%s' is not "
                                  "a special character" % in_c)
             out_str += in_c
@@ -228,7 +232,7 @@ def parse(filter_s):
 def escape(in_str):
     out_str = ""
     for in_c in in_str:
-        if in_c in SPECIALS:
+        if in_c in ESCAPABLE:
             out_str += ESCAPE
         out_str += in_c
     return out_str
-- 
2.43.0


From 1acda58112fee555d51bfaa64444cc21ea30e493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:05 +0000
Subject: [PATCH 09/43] fix: RecursionError on deeply nested filters

---
 paf/filter.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/paf/filter.py b/paf/filter.py
index 91d5e85..05bb0d0 100644
--- a/paf/filter.py
+++ b/paf/filter.py
@@ -28,10 +28,15 @@ class ParseError(Exception):
                            (state.data, state.offset, error_desc))
 
 
+# Filters are parsed, printed and evaluated recursively
+MAX_DEPTH = 100
+
+
 class ParseState:
     def __init__(self, data):
         self.data = data
         self.offset = 0
+        self.depth = 0
 
     def consume(self, c):
         self.expect(c)
@@ -204,6 +209,9 @@ def _parse_composite(state, op_class):
 
 
 def _parse(state):
+    state.depth += 1
+    if state.depth > MAX_DEPTH:
+        raise ParseError(state, "Expression nested too deeply")
     if state.is_current(AND):
         filter = _parse_composite(state, And)
     elif state.is_current(OR):
@@ -212,6 +220,7 @@ def _parse(state):
         filter = _parse_not(state)
     else:
         filter = _parse_simple(state)
+    state.depth -= 1
     return filter
 
 
-- 
2.43.0


From c1f825af266cf4c9f633429f2f41e04bead27a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:35 +0000
Subject: [PATCH 10/43] fix: reclaimed orphan stays tied to its owner's old
 connection

---
 paf/sd.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/paf/sd.py b/paf/sd.py
index 160b393..ea1495c 100644
--- a/paf/sd.py
+++ b/paf/sd.py
@@ -595,11 +595,14 @@ class Client:
                         change.client_id = self.client_id
                 elif service.is_orphan():
                     # previous owner is back
+                    self.capture_service(service)
+
                     with service.modify() as change:
                         change.orphan_since = None
 
             elif generation > service.generation():
-                if self.client_id != service.client_id():
+                if self.client_id != service.client_id() or \
+                   service.is_orphan():
                     self.capture_service(service)
 
                 with service.modify() as change:
-- 
2.43.0


From 92960601f427bd7bfe124c4bb7328b1863c9d2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:35 +0000
Subject: [PATCH 11/43] fix: client id remains bound after its last orphan was
 taken over

---
 paf/sd.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/paf/sd.py b/paf/sd.py
index ea1495c..0025097 100644
--- a/paf/sd.py
+++ b/paf/sd.py
@@ -691,6 +691,12 @@ class Client:
         victim_connection.remove_service(service)
         self.active_connection.add_service(service)
 
+        if victim_connection.is_stale():
+            victim_client.remove_connection(victim_connection)
+
+        if victim_client.is_stale():
+            self.db.remove_client(victim_client)
+
     def remove_service(self, service):
         connection = self.get_service_connection(service)
         connection.remove_service(service)
-- 
2.43.0


From 9467401e4c6e2fc751f394b64ae4487c8cc76352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:35 +0000
Subject: [PATCH 12/43] fix: connection with rejected hello is never dropped

---
 paf/server.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/paf/server.py b/paf/server.py
index f80fabe..0f17f4d 100644
--- a/paf/server.py
+++ b/paf/server.py
@@ -778,11 +778,9 @@ class Server:
             now = time.time()
             failed = []
             for conn in self.clientless_connections:
-                if conn.client_id is None or \
-                   not self.sd.has_client(conn.client_id):
-                    handshake_time = now - conn.connect_time
-                    if handshake_time > MAX_HANDSHAKE_TIME:
-                        failed.append((conn, handshake_time))
+                handshake_time = now - conn.connect_time
+                if handshake_time > MAX_HANDSHAKE_TIME:
+                    failed.append((conn, handshake_time))
             for conn, handshake_time in failed:
                 self.clean_out_connection(conn, handshake_time)
 
-- 
2.43.0


From d30588714cfefa44b93c09b81977fb38d13d4dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:18 +0000
Subject: [PATCH 13/43] fix: event loop fails on removal of source whose fd is
 closed

Since Python 3.9, epoll.unregister() raises an OSError with EBADF if the
fd is closed, and EPERM or ENOENT in case it has been reused.
---
 paf/eventloop.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/paf/eventloop.py b/paf/eventloop.py
index 2bcd5d4..7426e7b 100644
--- a/paf/eventloop.py
+++ b/paf/eventloop.py
@@ -138,8 +138,9 @@ class EventLoop:
             del self.source_fd[source]
             try:
                 self.epoll.unregister(fd)
-            except FileNotFoundError:
-                pass  # fd is closed, and thus removed from epoll
+            except OSError:
+                pass  # fd is closed (and possibly reused by something
+                # else), and thus removed from epoll
             del self.fd_source[fd]
 
     def changed_timeout(self, source):
-- 
2.43.0


From 9d13bbfe89104ffce5429a931edec0af2d4e0ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:18 +0000
Subject: [PATCH 14/43] fix: event loop not stopping as long as a source is
 active

---
 paf/eventloop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paf/eventloop.py b/paf/eventloop.py
index 7426e7b..9cce20c 100644
--- a/paf/eventloop.py
+++ b/paf/eventloop.py
@@ -191,7 +191,7 @@ class EventLoop:
                 handler()
 
     def fire_actives(self):
-        while len(self.source_active) > 0:
+        while len(self.source_active) > 0 and not self._stop:
             source = next(iter(self.source_active))
             handler = self.source_handler[source]
             handler()
-- 
2.43.0


From 0d96e81dd796248333e61b87d9f676b95568d0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:07 +0000
Subject: [PATCH 15/43] fix: TypeError when clearing a resource limit

clear_limit() passed self twice, and None was not an accepted limit, so
'pafd -c 0' never got past option parsing.
---
 paf/conf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/paf/conf.py b/paf/conf.py
index dcbc308..21f4151 100644
--- a/paf/conf.py
+++ b/paf/conf.py
@@ -136,6 +136,9 @@ class ResourcesClassConf:
     def set_limit(self, name, value):
         if not isinstance(value, int) or value < 0:
             raise FormatError("resource limit", value)
+        self._set(name, value)
+
+    def _set(self, name, value):
         if name == "clients":
             self.resources[sd.ResourceType.CLIENT] = value
         elif name == "services":
@@ -146,7 +149,7 @@ class ResourcesClassConf:
             raise FormatError("resource type", name)
 
     def clear_limit(self, name):
-        self.set_limit(self, name, None)
+        self._set(name, None)
 
     def get_client_limit(self):
         return self.resources[sd.ResourceType.CLIENT]
-- 
2.43.0


From 329b49e81f10fa90d5bcc9ebe865c09bcb5178ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:07 +0000
Subject: [PATCH 16/43] fix: max_idle_time ignored when a minimum idle time is
 configured

---
 paf/conf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paf/conf.py b/paf/conf.py
index 21f4151..e8ef7f1 100644
--- a/paf/conf.py
+++ b/paf/conf.py
@@ -396,7 +396,7 @@ def domains_populate(conf, domains, path):
                 raise DuplicateFieldError(domain_path, "max_idle_time")
 
             idle_max = dict_lookup(idle, "max", int, idle_path,
-                                   default=DEFAULT_IDLE_MAX, required=False)
+                                   default=idle_max, required=False)
 
         idle_limit = sd.IdleLimit(idle_min, idle_max)
 
-- 
2.43.0


From 7fa1a5a8abb4b671379f601b0c0afbc8e485b400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:07 +0000
Subject: [PATCH 17/43] fix: uncaught ValueError on invalid idle limits

---
 paf/conf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/paf/conf.py b/paf/conf.py
index e8ef7f1..91d9417 100644
--- a/paf/conf.py
+++ b/paf/conf.py
@@ -398,7 +398,10 @@ def domains_populate(conf, domains, path):
             idle_max = dict_lookup(idle, "max", int, idle_path,
                                    default=idle_max, required=False)
 
-        idle_limit = sd.IdleLimit(idle_min, idle_max)
+        try:
+            idle_limit = sd.IdleLimit(idle_min, idle_max)
+        except ValueError as e:
+            raise Error("invalid idle limits in '%s': %s" % (domain_path, e))
 
         # 'addrs' is a legacy name for 'sockets'
         sockets = dict_lookup(domain, ["sockets", "addrs"], list, domain_path,
-- 
2.43.0


From eef4f549e3f5c8499b078a96774e8aff27951ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:07 +0000
Subject: [PATCH 18/43] fix: missing type checks of configuration values

Values of the wrong type for 'protocol_version', 'idle', 'addr' and
'tls', and booleans in place of integers, caused uncaught exceptions,
or were accepted.
---
 paf/conf.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/paf/conf.py b/paf/conf.py
index 91d9417..d1221c6 100644
--- a/paf/conf.py
+++ b/paf/conf.py
@@ -51,6 +51,8 @@ LOG_LEVELS = {
     'critical': logging.CRITICAL
 }
 
+TLS_ATTRS = ('cert', 'key', 'tc', 'crl')
+
 FACILITY_NAMES = logging.handlers.SysLogHandler.facility_names
 
 
@@ -134,7 +136,7 @@ class ResourcesClassConf:
         self.resources = sd.resources(clients=max_clients)
 
     def set_limit(self, name, value):
-        if not isinstance(value, int) or value < 0:
+        if not isinstance(value, int) or isinstance(value, bool) or value < 0:
             raise FormatError("resource limit", value)
         self._set(name, value)
 
@@ -297,7 +299,9 @@ class Conf:
 
 
 def assure_type(value, value_type, path):
-    if not isinstance(value, value_type):
+    # bool is a subclass of int
+    if not isinstance(value, value_type) or \
+       (value_type is int and isinstance(value, bool)):
         raise Error("parameter '%s' has invalid value type: '%s' (expected "
                     "'%s')" % (path, type(value), value_type))
 
@@ -354,6 +358,13 @@ def assure_tls_addr(field_name, addr):
         raise FormatError(field_name, proto, ["tls", "utls"])
 
 
+def assure_tls_attrs(tls_attrs, path):
+    for name, value in tls_attrs.items():
+        if name not in TLS_ATTRS:
+            raise FormatError("TLS parameter name", name, TLS_ATTRS)
+        assure_type(value, str, "%s.%s" % (path, name))
+
+
 def domains_populate(conf, domains, path):
     if domains is None:
         return
@@ -366,7 +377,7 @@ def domains_populate(conf, domains, path):
         version_min = proto.MIN_VERSION
         version_max = proto.MAX_VERSION
 
-        version = domain.get("protocol_version")
+        version = dict_lookup(domain, "protocol_version", dict, domain_path)
         if version is not None:
             version_path = "%s.protocol_version" % domain_path
 
@@ -385,7 +396,7 @@ def domains_populate(conf, domains, path):
                                domain_path, default=DEFAULT_IDLE_MAX,
                                required=False)
 
-        idle = domain.get("idle")
+        idle = dict_lookup(domain, "idle", dict, domain_path)
         if idle is not None:
             idle_path = "%s.idle" % domain_path
 
@@ -414,14 +425,14 @@ def domains_populate(conf, domains, path):
             if isinstance(socket, str):
                 domain_conf.add_socket(socket, {})
             elif isinstance(socket, dict):
-                if "addr" not in socket:
-                    raise MissingFieldError(socket_path, "addr")
+                addr = dict_lookup(socket, "addr", str, socket_path,
+                                   required=True)
 
-                addr = socket["addr"]
+                tls_attrs = dict_lookup(socket, "tls", dict, socket_path)
 
-                if "tls" in socket:
+                if tls_attrs is not None:
                     assure_tls_addr("%s.addr" % socket_path, addr)
-                    tls_attrs = socket["tls"]
+                    assure_tls_attrs(tls_attrs, "%s.tls" % socket_path)
                 else:
                     tls_attrs = {}
 
-- 
2.43.0


From 0255405d01bacdf46dedb177721b3929539117cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:07 +0000
Subject: [PATCH 19/43] fix: uncaught exceptions on malformed configuration
 files

---
 paf/conf.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/paf/conf.py b/paf/conf.py
index d1221c6..bcf7f00 100644
--- a/paf/conf.py
+++ b/paf/conf.py
@@ -474,6 +474,14 @@ def default():
 def load(conf_file):
     conf = Conf()
     import yaml
-    source = yaml.safe_load(open(conf_file).read())
+    try:
+        with open(conf_file) as f:
+            source = yaml.safe_load(f)
+    except OSError:
+        raise
+    except Exception as e:
+        # Besides YAMLError, malformed input may result in ValueError,
+        # RecursionError, and other non-YAML exceptions.
+        raise Error("malformed YAML: %s" % e)
     populate(conf, source)
     return conf
-- 
2.43.0


From 4a453bca698159089c52f30bf980d0f2fabb9a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:01 +0000
Subject: [PATCH 20/43] fix: uncaught exceptions on invalid log and limit
 options

---
 paf/daemon.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/paf/daemon.py b/paf/daemon.py
index b63376e..be26ef7 100644
--- a/paf/daemon.py
+++ b/paf/daemon.py
@@ -158,9 +158,15 @@ def main(argv):
         elif opt == '-u':
             conf.log.set_syslog_socket(optval)
         elif opt == '-l':
-            conf.log.set_filter(optval)
+            try:
+                conf.log.set_filter(optval)
+            except paf.conf.Error as e:
+                early_error("Error parsing command line: %s." % e)
         elif opt == '-y':
-            conf.log.set_facility(optval)
+            try:
+                conf.log.set_facility(optval)
+            except paf.conf.Error as e:
+                early_error("Error parsing command line: %s." % e)
         elif opt == '-c':
             try:
                 clients = int(optval)
@@ -170,6 +176,8 @@ def main(argv):
                     conf.resources.total.set_limit("clients", clients)
             except ValueError:
                 early_error("Client limit must be an integer.")
+            except paf.conf.Error as e:
+                early_error("Error parsing command line: %s." % e)
         elif opt == '-r':
             hook = optval
         elif opt == '-v':
-- 
2.43.0


From d64ede6578337bd4656f56a3f380791d364e83d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:10 +0000
Subject: [PATCH 21/43] fix: TypeError when a transaction fails without a
 reason

---
 paf/client.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/paf/client.py b/paf/client.py
index 5948011..3396a39 100644
--- a/paf/client.py
+++ b/paf/client.py
@@ -35,8 +35,7 @@ class TransactionError(Error):
         if reason is not None:
             message = "Protocol transaction failed: '%s'." % reason
         else:
-            message = "Protocol transaction failed for unknown reason." % \
-                reason
+            message = "Protocol transaction failed for unknown reason."
         Error.__init__(self, message)
 
 
-- 
2.43.0


From 91cb64e1a669ae06f7c901da0487a2f0600b7a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:10 +0000
Subject: [PATCH 22/43] fix: TypeError when a ping or hello fails with a reason

---
 paf/client.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/paf/client.py b/paf/client.py
index 3396a39..09a4557 100644
--- a/paf/client.py
+++ b/paf/client.py
@@ -154,10 +154,10 @@ class LatencyCall(Call):
         self.start = time.time()
         Call.__init__(self, conn)
 
-    def __call__(self, ta_id, event, *args):
+    def __call__(self, ta_id, event, *args, **optargs):
         if event == EventType.COMPLETE:
             self.latency = time.time() - self.start
-        Call.__call__(self, ta_id, event, *args)
+        Call.__call__(self, ta_id, event, *args, **optargs)
 
     def get(self):
         Call.get(self)
@@ -186,10 +186,10 @@ class CompleteCall(Call):
     def __init__(self, conn):
         Call.__init__(self, conn)
 
-    def __call__(self, ta_id, event, *args):
+    def __call__(self, ta_id, event, *args, **optargs):
         if event == EventType.COMPLETE:
             self.complete = args
-        Call.__call__(self, ta_id, event, *args)
+        Call.__call__(self, ta_id, event, *args, **optargs)
 
     def get(self):
         Call.get(self)
-- 
2.43.0


From 74acf743b34e7c1d242517b5e3afbe86701356fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:10 +0000
Subject: [PATCH 23/43] fix: protocol version outside of the requested range
 accepted

A client configured to use only, for example, version 3, would happily
proceed with version 2 if that was what the server selected.
---
 paf/client.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/paf/client.py b/paf/client.py
index 09a4557..cb25f77 100644
--- a/paf/client.py
+++ b/paf/client.py
@@ -300,11 +300,14 @@ class Client:
         elif event == EventType.COMPLETE:
             selected_version = args[0]
 
-            if selected_version not in proto.VERSIONS:
+            version_min, version_max = self.proto_version_range
+
+            if selected_version not in proto.VERSIONS or \
+               not version_min <= selected_version <= version_max:
                 raise ProtocolError("Server selected unsupported "
                                     "protocol version %d (required %d-%d)"
-                                    % (selected_version, proto.MIN_VERSION,
-                                       proto.MAX_VERSION))
+                                    % (selected_version, version_min,
+                                       version_max))
             self.proto_version = selected_version
 
             if self.tracker is not None and self.proto_version >= 3:
-- 
2.43.0


From 9e02e13cce67acdb4b2e1314446df4741027cafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:10 +0000
Subject: [PATCH 24/43] fix: unknown track type taken as a reply by the client

---
 paf/client.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/paf/client.py b/paf/client.py
index cb25f77..af7466c 100644
--- a/paf/client.py
+++ b/paf/client.py
@@ -216,6 +216,9 @@ class Tracker:
             if track_type == TRACK_TYPE_QUERY:
                 self.conn.track_reply(ta_id)
                 self.notification_queries += 1
+            elif track_type != TRACK_TYPE_REPLY:
+                raise ProtocolError("Received unknown track type \"%s\"" %
+                                    track_type)
             else:
                 self.notification_replies += 1
                 if self.notification_replies > self.inform_queries:
-- 
2.43.0


From 3ee63470afb2457f33c8978c075ca6129f5d0ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:49 +0000
Subject: [PATCH 25/43] fix: KeyError on blocking call made from a transaction
 callback

---
 paf/client.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paf/client.py b/paf/client.py
index af7466c..a18f4d4 100644
--- a/paf/client.py
+++ b/paf/client.py
@@ -478,7 +478,9 @@ class Client:
                                     "transaction %d" % in_msg.ta_id)
             transaction.consume_message(in_msg)
             if transaction.state == TransactionState.TERMINATED:
-                del self.transactions[in_msg.ta_id]
+                # might already be removed, in case the callback made a
+                # blocking call
+                self.transactions.pop(in_msg.ta_id, None)
             return True
         except xcm.error as e:
             if e.errno == errno.EAGAIN:
-- 
2.43.0


From f49adcc6526f93f5815d7a905ccd5d3e25670ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:13 +0000
Subject: [PATCH 26/43] fix: pafc session ends on unbalanced quotes

---
 app/pafc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/app/pafc b/app/pafc
index 5da2438..c7a8b59 100755
--- a/app/pafc
+++ b/app/pafc
@@ -512,7 +512,11 @@ class PafCli(cmd.Cmd):
 
         This command is only available on protocol version 3 connections.
 """
-        args = shlex.split(line)
+        try:
+            args = shlex.split(line)
+        except ValueError as e:
+            print("%s." % e)
+            return
         if len(args) == 0:
             self.worker.cmd_track()
         elif len(args) == 1:
@@ -530,7 +534,11 @@ class PafCli(cmd.Cmd):
     def do_services(self, line):
         """services [<filter-expression>]
         List all services (optionally matching the filter expression)."""
-        args = shlex.split(line)
+        try:
+            args = shlex.split(line)
+        except ValueError as e:
+            print("%s." % e)
+            return
         if len(args) == 1:
             filter = args[0]
         else:
-- 
2.43.0


From c33e32a503655d46fbc9a05ca7ea969ee5f0d215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:13 +0000
Subject: [PATCH 27/43] fix: pafc can't publish the property values "" and "|"

---
 app/pafc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/pafc b/app/pafc
index c7a8b59..89a70e4 100755
--- a/app/pafc
+++ b/app/pafc
@@ -445,7 +445,7 @@ def parse_props(args):
     service_props = collections.defaultdict(set)
     for i in range(0, len(args), 2):
         value = args[i+1]
-        if value[0] == '|' and value[-1] == '|':
+        if len(value) >= 2 and value[0] == '|' and value[-1] == '|':
             value = value[1:-1]
         elif value.strip() == value:
             try:
-- 
2.43.0


From d62d002ca5ea381c3d2d1a9533f9f5c745f56d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:13 +0000
Subject: [PATCH 28/43] fix: pafc ignores the filter in case of too many
 arguments

An unquoted filter expression with a space in it was silently dropped,
and all services were listed or subscribed to.
---
 app/pafc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/app/pafc b/app/pafc
index 89a70e4..27a065a 100755
--- a/app/pafc
+++ b/app/pafc
@@ -539,6 +539,9 @@ class PafCli(cmd.Cmd):
         except ValueError as e:
             print("%s." % e)
             return
+        if len(args) > 1:
+            print("Too many arguments.")
+            return
         if len(args) == 1:
             filter = args[0]
         else:
@@ -595,6 +598,8 @@ class PafCli(cmd.Cmd):
         Subscribe to changes in services (with optional filter expression)."""
         try:
             args = shlex.split(line)
+            if len(args) > 1:
+                raise ValueError("Too many arguments")
             if len(args) == 1:
                 filter = args[0]
             else:
-- 
2.43.0


From bebfe6a321f46cd0cde6461bba0ff38d2c613a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:13 +0000
Subject: [PATCH 29/43] fix: pafc session ends on out-of-range ids, generations
 and TTLs

The server drops clients sending such values.
---
 app/pafc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/app/pafc b/app/pafc
index 27a065a..fc2f157 100755
--- a/app/pafc
+++ b/app/pafc
@@ -19,6 +19,8 @@ import time
 import paf.client as client
 import paf.props as props
 
+INT64_MAX = (1 << 63) - 1
+
 
 def usage(name):
     print("%s [-i <client_id>] [-p <version>] <addr>" % name)
@@ -346,7 +348,9 @@ class Worker(Thread):
             if service_id is None:
                 service_id = self.conn.service_id()
                 print("Service Id %x." % service_id)
-            if self._check_service_id(service_id):
+            if self._check_service_id(service_id) and \
+               self._check_int("Generation", generation) and \
+               self._check_int("TTL", ttl):
                 self.conn.publish(service_id, generation, service_props, ttl)
                 self._ok()
         except client.Error as e:
@@ -410,12 +414,15 @@ class Worker(Thread):
     def cmd_subscriptions(self):
         self.dispatch_fun(self._cmd_subscriptions)
 
-    def _check_id(self, id_type, the_id):
-        if the_id < 0:
-            print("%s id must be a non-negative integer." % id_type)
+    def _check_int(self, name, value):
+        if value < 0 or value > INT64_MAX:
+            print("%s must be a non-negative 64-bit integer." % name)
             return False
         return True
 
+    def _check_id(self, id_type, the_id):
+        return self._check_int("%s id" % id_type, the_id)
+
     def _check_service_id(self, service_id):
         return self._check_id("Service", service_id)
 
-- 
2.43.0


From be061b8949894f2ed6ad80981ebcf58d11c2228b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:13 +0000
Subject: [PATCH 30/43] fix: pafc session ends on track command with protocol
 version 2

---
 app/pafc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/app/pafc b/app/pafc
index fc2f157..799ef4d 100755
--- a/app/pafc
+++ b/app/pafc
@@ -237,7 +237,11 @@ class Worker(Thread):
 
     def _cmd_track(self):
         if self.tracker is None:
-            self.tracker = Tracker(self.conn)
+            try:
+                self.tracker = Tracker(self.conn)
+            except client.Error as e:
+                self._fail(e)
+                return
 
             client.wait(self.conn,
                         lambda: self.tracker.accepted or self.tracker.failed)
-- 
2.43.0


From ebe44012fcd95adb966bd1d804210c6eedfc915f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:13 +0000
Subject: [PATCH 31/43] fix: pafc output lost when not written to a terminal

---
 app/pafc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/app/pafc b/app/pafc
index 799ef4d..33ce6c3 100755
--- a/app/pafc
+++ b/app/pafc
@@ -734,6 +734,9 @@ if __name__ == '__main__':
 
         cli.cmdloop()
 
+        # not done by _exit()
+        sys.stdout.flush()
+
         os._exit(0)
     except getopt.GetoptError as e:
         print("Error parsning command line: %s." % e)
-- 
2.43.0


From afc26c6ebb15605771beada60e8e354674c6e534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:13 +0000
Subject: [PATCH 32/43] fix: pafc fails with a stack trace on non-numeric
 option values

---
 app/pafc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/app/pafc b/app/pafc
index 33ce6c3..21124c7 100755
--- a/app/pafc
+++ b/app/pafc
@@ -675,6 +675,14 @@ def list_domains(args):
     sys.exit(0)
 
 
+def int_option(opt, optval, base=10):
+    try:
+        return int(optval, base)
+    except ValueError:
+        raise getopt.GetoptError("option %s has invalid value '%s'" %
+                                 (opt, optval))
+
+
 if __name__ == '__main__':
     try:
         client_id = None
@@ -686,15 +694,15 @@ if __name__ == '__main__':
 
         for opt, optval in optlist:
             if opt == '-i':
-                client_id = int(optval, 16)
+                client_id = int_option(opt, optval, base=16)
             elif opt == '-p':
-                proto_version = int(optval)
+                proto_version = int_option(opt, optval)
                 if proto_version not in client.PROTO_VERSIONS:
                     print("Protocol version %d is not supported." %
                           proto_version)
                     sys.exit(1)
             elif opt == '-n':
-                server_num = int(optval)
+                server_num = int_option(opt, optval)
             elif opt == '-a':
                 list_servers(args)
             elif opt == '-l':
@@ -719,7 +727,7 @@ if __name__ == '__main__':
         else:
             if server_num is None:
                 server = servers[0]
-            elif server_num < len(servers):
+            elif 0 <= server_num < len(servers):
                 server = servers[server_num]
             else:
                 print("No server address with index %d." % server_num)
-- 
2.43.0


From 8438e753608f83e9f506ea3794cfed5baa72c0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:33 +0000
Subject: [PATCH 33/43] fix: failure to change blocking mode ignored

---
 paf/xcm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paf/xcm.py b/paf/xcm.py
index 258fc3d..48aa802 100644
--- a/paf/xcm.py
+++ b/paf/xcm.py
@@ -173,7 +173,9 @@ class Socket:
 
     @_assure_open
     def set_blocking(self, val):
-        xcm_set_blocking_c(self.xcm_socket, val)
+        rc = xcm_set_blocking_c(self.xcm_socket, val)
+        if rc < 0:
+            _raise_io_err()
 
     @_assure_open
     def is_blocking(self):
-- 
2.43.0


From 404eb903f963ee306eac07eb59f19fbdda89d1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:33 +0000
Subject: [PATCH 34/43] fix: attribute map leaked, and UnboundLocalError on
 accept, in case of an invalid attribute type

---
 paf/xcm.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/paf/xcm.py b/paf/xcm.py
index 48aa802..60056a6 100644
--- a/paf/xcm.py
+++ b/paf/xcm.py
@@ -143,8 +143,12 @@ def _attr_map_add(attr_map, attr_name, attr_value):
 
 def _attr_map_create(attrs):
     attr_map = xcm_attr_map_create_c()
-    for attr_name, attr_value in attrs.items():
-        _attr_map_add(attr_map, attr_name, attr_value)
+    try:
+        for attr_name, attr_value in attrs.items():
+            _attr_map_add(attr_map, attr_name, attr_value)
+    except Exception:
+        xcm_attr_map_destroy_c(attr_map)
+        raise
     return attr_map
 
 
@@ -258,6 +262,7 @@ class ServerSocket(Socket):
         Socket.__init__(self, xcm_socket)
 
     def accept(self, attrs={}):
+        attr_map = None
         try:
             attr_map = _attr_map_create(attrs)
             xcm_socket = xcm_accept_a_c(self.xcm_socket, attr_map)
-- 
2.43.0


From b8716dc1cdcfa1881c826e7c93bb2e6784237107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:33 +0000
Subject: [PATCH 35/43] fix: NULL socket passed to the transport on use of a
 closed socket

---
 paf/xcm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/paf/xcm.py b/paf/xcm.py
index 60056a6..26add38 100644
--- a/paf/xcm.py
+++ b/paf/xcm.py
@@ -243,12 +243,14 @@ class ConnectionSocket(Socket):
     def __init__(self, xcm_socket):
         Socket.__init__(self, xcm_socket)
 
+    @_assure_open
     def send(self, msg):
         rc = xcm_send_c(self.xcm_socket, msg, len(msg))
         if rc < 0:
             _raise_io_err()
         return rc
 
+    @_assure_open
     def receive(self):
         buf = create_string_buffer(MAX_MSG)
         rc = xcm_receive_c(self.xcm_socket, byref(buf), MAX_MSG)
@@ -261,6 +263,7 @@ class ServerSocket(Socket):
     def __init__(self, xcm_socket):
         Socket.__init__(self, xcm_socket)
 
+    @_assure_open
     def accept(self, attrs={}):
         attr_map = None
         try:
-- 
2.43.0


From 0bde8e031f5bdf21036d7d872652c3fe67a33157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:33 +0000
Subject: [PATCH 36/43] fix: attribute values silently altered by the transport
 binding

---
 paf/xcm.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/paf/xcm.py b/paf/xcm.py
index 26add38..815be03 100644
--- a/paf/xcm.py
+++ b/paf/xcm.py
@@ -5,6 +5,7 @@
 # xcm.py - A Python API to Extensible Connection-oriented Messaging (XCM).
 #
 
+import errno
 import os
 import socket
 
@@ -127,7 +128,19 @@ def _attr_to_py(attr_type, attr_value, attr_len):
         raise ValueError("invalid argument type %d" % attr_type.value)
 
 
+def _check_attr_value(attr_value):
+    # values which would not reach the transport unaltered
+    if isinstance(attr_value, int):
+        if not -(1 << 63) <= attr_value < (1 << 63):
+            raise error(errno.EINVAL, "integer out of range")
+    elif isinstance(attr_value, str):
+        if '\0' in attr_value:
+            raise error(errno.EINVAL, "embedded null character")
+
+
 def _attr_map_add(attr_map, attr_name, attr_value):
+    _check_attr_value(attr_value)
+
     if isinstance(attr_value, bool):
         add_fun = xcm_attr_map_add_bool_c
     elif isinstance(attr_value, int):
@@ -201,6 +214,8 @@ class Socket:
 
     @_assure_open
     def set_attr(self, attr_name, attr_value):
+        _check_attr_value(attr_value)
+
         if isinstance(attr_value, bool):
             set_fun = xcm_attr_set_bool_c
         elif isinstance(attr_value, int):
-- 
2.43.0


From a2bce068c0478012e4771fdbe811805203d53625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:22 +0000
Subject: [PATCH 37/43] fix: handler of removed source called on timeout

---
 paf/eventloop.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/paf/eventloop.py b/paf/eventloop.py
index 9cce20c..595eea2 100644
--- a/paf/eventloop.py
+++ b/paf/eventloop.py
@@ -182,13 +182,17 @@ class EventLoop:
     def fire_timeouts(self):
         if len(self.source_timeout) > 0:
             now = time.time()
-            active_handlers = []
+            expired = []
             for source, timeout in self.source_timeout.items():
                 if now >= timeout:
+                    expired.append(source)
+            for source in expired:
+                # the source may have been removed, or its timeout
+                # changed, by one of the other handlers
+                timeout = self.source_timeout.get(source)
+                if timeout is not None and now >= timeout:
                     handler = self.source_handler[source]
-                    active_handlers.append(handler)
-            for handler in active_handlers:
-                handler()
+                    handler()
 
     def fire_actives(self):
         while len(self.source_active) > 0 and not self._stop:
-- 
2.43.0


From 1f662351e30f7049bed3ec486a676a3898d11e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:04 +0000
Subject: [PATCH 38/43] fix: don't accept a fail message in a terminated client
 transaction

A fail message received from within the callback of the transaction's
completion (i.e., when the callback makes a blocking call) resulted in a
second, conflicting, callback, instead of a protocol error.
---
 paf/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paf/client.py b/paf/client.py
index a18f4d4..1a51868 100644
--- a/paf/client.py
+++ b/paf/client.py
@@ -109,7 +109,8 @@ class Transaction:
                 proto.InteractionType.MULTI_RESPONSE))):
             event = EventType.COMPLETE
             self.state = TransactionState.TERMINATED
-        elif msg_type == proto.MSG_TYPE_FAIL:
+        elif (msg_type == proto.MSG_TYPE_FAIL and
+              self.state != TransactionState.TERMINATED):
             event = EventType.FAIL
             self.state = TransactionState.TERMINATED
         else:
-- 
2.43.0


From 5b9f488aea2e266f2dc5b95cabaeb776011c47a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:36 +0000
Subject: [PATCH 39/43] fix: services and filters too large to be announced

A publish or subscribe request of almost the maximum message size, or
one with characters which are escaped in the server's messages, was
accepted although the resulting notifications could not be sent, and
the connections of subscribers (or of clients listing services or
subscriptions) failed.
---
 paf/proto.py  |  3 +++
 paf/server.py | 18 ++++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/paf/proto.py b/paf/proto.py
index 8775ef5..1bcff98 100644
--- a/paf/proto.py
+++ b/paf/proto.py
@@ -10,6 +10,9 @@ MAX_VERSION = 3
 VERSIONS = range(MIN_VERSION, MAX_VERSION + 1)
 VERSION_RANGE = (MIN_VERSION, MAX_VERSION)
 
+# the maximum size of XCM messages
+MAX_MSG_SIZE = 65535
+
 MSG_TYPE_REQUEST = 'request'
 MSG_TYPE_ACCEPT = 'accept'
 MSG_TYPE_NOTIFY = 'notify'
diff --git a/paf/server.py b/paf/server.py
index 0f17f4d..6b8955b 100644
--- a/paf/server.py
+++ b/paf/server.py
@@ -24,6 +24,14 @@ PATCH_VERSION = 3
 VERSION = "%d.%d.%d" % (MAJOR_VERSION, MINOR_VERSION, PATCH_VERSION)
 
 
+def can_notify(ta_type, *args, **optargs):
+    # A notification too large for the transport to handle would have
+    # the connections of its receivers fail.
+    msg = Message(ta_type, proto.NON_NEGATIVE_INT_MAX, proto.MSG_TYPE_NOTIFY,
+                  args, optargs)
+    return len(msg.to_wire()) <= proto.MAX_MSG_SIZE
+
+
 class TransactionState(Enum):
     IDLE = auto()
     REQUESTED = auto()
@@ -444,6 +452,9 @@ class Connection:
         try:
             if filter is not None:
                 filter = paf.filter.parse(filter)
+                if not can_notify(proto.TA_SUBSCRIPTIONS, sub_id,
+                                  self.client_id, filter=str(filter)):
+                    raise sd.ResourceError("filter is too large")
             self.sd.create_subscription(self.client_id, sub_id, filter,
                                         self.subscription_triggered)
             self.sub_tas[sub_id] = ta
@@ -529,6 +540,13 @@ class Connection:
 
     def publish_request(self, ta, service_id, generation, service_props, ttl):
         try:
+            if not can_notify(proto.TA_SUBSCRIBE,
+                              proto.MATCH_TYPE_DISAPPEARED, service_id,
+                              generation=generation,
+                              service_props=service_props, ttl=ttl,
+                              client_id=proto.NON_NEGATIVE_INT_MAX,
+                              orphan_since=proto.NON_NEGATIVE_INT_MAX):
+                raise sd.ResourceError("service is too large")
             service = self.sd.publish(self.client_id, service_id, generation,
                                       service_props, ttl)
             if not service.has_prev_generation():
-- 
2.43.0


From 3a8994854b43d874521ca9f9e0ddca2c91dddc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:56 +0000
Subject: [PATCH 40/43] fix: pafc session ends on input which isn't UTF-8, and
 on text which can't be encoded

---
 app/pafc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/app/pafc b/app/pafc
index 21124c7..1d19f5b 100755
--- a/app/pafc
+++ b/app/pafc
@@ -481,6 +481,14 @@ class PafCli(cmd.Cmd):
         self.worker = worker
         cmd.Cmd.__init__(self)
 
+    def onecmd(self, line):
+        try:
+            line.encode('utf-8')
+        except UnicodeEncodeError:
+            print("Command line contains invalid characters.")
+            return False
+        return cmd.Cmd.onecmd(self, line)
+
     def do_id(self, line):
         """id
         Show local Pathfinder client id."""
@@ -684,6 +692,11 @@ def int_option(opt, optval, base=10):
 
 
 if __name__ == '__main__':
+    # Neither what is typed, nor what the server reports, is
+    # necessarily possible to decode and encode.
+    sys.stdin.reconfigure(errors='surrogateescape')
+    sys.stdout.reconfigure(errors='backslashreplace')
+
     try:
         client_id = None
         list_addrs = False
-- 
2.43.0


From a52f84d01b61e587d5a9eb1cb4b396473ddb8ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:56 +0000
Subject: [PATCH 41/43] fix: NaN and Infinity accepted in messages although not
 JSON

---
 paf/proto.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/paf/proto.py b/paf/proto.py
index 1bcff98..17c0e5e 100644
--- a/paf/proto.py
+++ b/paf/proto.py
@@ -369,6 +369,11 @@ TA_CLIENTSv3 = TransactionType(
 )
 
 
+def invalid_constant(name):
+    # accepted by Python, but not part of JSON
+    raise ValueError("%s is not valid JSON" % name)
+
+
 class Message:
     @staticmethod
     def parse(proto_version, in_wire_msg):
@@ -376,7 +381,8 @@ class Message:
             # provisonal version, to recognize hello
             proto_version = MIN_VERSION
         try:
-            in_msg = json.loads(in_wire_msg.decode('utf-8'))
+            in_msg = json.loads(in_wire_msg.decode('utf-8'),
+                                parse_constant=invalid_constant)
 
             if not isinstance(in_msg, dict):
                 raise ProtocolError("Incoming message is not a JSON object")
-- 
2.43.0


From ba071310f53644a6cc93eb5cbbbed5c0e4495e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:11 +0000
Subject: [PATCH 42/43] fix: null characters in addresses and attribute names
 silently cut these

The transport library got a shorter address, or another attribute, than
the one asked for.
---
 paf/xcm.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/paf/xcm.py b/paf/xcm.py
index 815be03..f67d910 100644
--- a/paf/xcm.py
+++ b/paf/xcm.py
@@ -128,14 +128,19 @@ def _attr_to_py(attr_type, attr_value, attr_len):
         raise ValueError("invalid argument type %d" % attr_type.value)
 
 
+def _encode(s):
+    if '\0' in s:
+        raise error(errno.EINVAL, "embedded null character")
+    return s.encode('utf-8')
+
+
 def _check_attr_value(attr_value):
     # values which would not reach the transport unaltered
     if isinstance(attr_value, int):
         if not -(1 << 63) <= attr_value < (1 << 63):
             raise error(errno.EINVAL, "integer out of range")
     elif isinstance(attr_value, str):
-        if '\0' in attr_value:
-            raise error(errno.EINVAL, "embedded null character")
+        _encode(attr_value)
 
 
 def _attr_map_add(attr_map, attr_name, attr_value):
@@ -147,11 +152,11 @@ def _attr_map_add(attr_map, attr_name, attr_value):
         add_fun = xcm_attr_map_add_int64_c
     elif isinstance(attr_value, str):
         add_fun = xcm_attr_map_add_str_c
-        attr_value = attr_value.encode('utf-8')
+        attr_value = _encode(attr_value)
     else:
         raise TypeError("invalid value type: '%s'" % type(attr_value))
 
-    add_fun(attr_map, attr_name.encode('utf-8'), attr_value)
+    add_fun(attr_map, _encode(attr_name), attr_value)
 
 
 def _attr_map_create(attrs):
@@ -222,10 +227,10 @@ class Socket:
             set_fun = xcm_attr_set_int64_c
         elif isinstance(attr_value, str):
             set_fun = xcm_attr_set_str_c
-            attr_value = attr_value.encode('utf-8')
+            attr_value = _encode(attr_value)
         else:
             raise TypeError("invalid value type: '%s'" % type(attr_value))
-        rc = set_fun(self.xcm_socket, attr_name.encode('utf-8'), attr_value)
+        rc = set_fun(self.xcm_socket, _encode(attr_name), attr_value)
         if rc < 0:
             _raise_io_err()
 
@@ -234,7 +239,7 @@ class Socket:
         attr_type = c_int()
         attr_capacity = 8192
         attr_value = create_string_buffer(attr_capacity)
-        rc = xcm_attr_get_c(self.xcm_socket, attr_name.encode('utf-8'),
+        rc = xcm_attr_get_c(self.xcm_socket, _encode(attr_name),
                             byref(attr_type), attr_value, attr_capacity)
         if rc < 0:
             _raise_io_err()
@@ -300,7 +305,7 @@ def connect(addr, flags=0, attrs={}):
             _attr_map_add(attr_map, "xcm.blocking", False)
         elif flags != 0:
             raise ValueError("invalid flags %d" % flags)
-        xcm_socket = xcm_connect_a_c(addr.encode('utf-8'), attr_map)
+        xcm_socket = xcm_connect_a_c(_encode(addr), attr_map)
         if xcm_socket is not None:
             return ConnectionSocket(xcm_socket)
         else:
@@ -313,7 +318,7 @@ def server(addr, attrs={}):
     attr_map = None
     try:
         attr_map = _attr_map_create(attrs)
-        xcm_socket = xcm_server_a_c(addr.encode('utf-8'), attr_map)
+        xcm_socket = xcm_server_a_c(_encode(addr), attr_map)
         if xcm_socket:
             return ServerSocket(xcm_socket)
         else:
-- 
2.43.0


From 134dc84555b4565a9c6e44978f90db373400dabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:11 +0000
Subject: [PATCH 43/43] fix: filters with integers or null characters the
 grammar doesn't allow were accepted

In greater-than and less-than expressions, a plus sign, leading zeros,
underscores and non-ASCII digits were silently accepted, and so were
null characters in strings.
---
 paf/filter.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/paf/filter.py b/paf/filter.py
index 05bb0d0..a13b8f7 100644
--- a/paf/filter.py
+++ b/paf/filter.py
@@ -1,6 +1,8 @@
 # SPDX-License-Identifier: BSD-3-Clause
 # Copyright(c) 2020 Ericsson AB
 
+import re
+
 BEGIN_EXPR = '('
 END_EXPR = ')'
 ANY = '*'
@@ -21,6 +23,8 @@ SPECIALS = {
 # it's accepted also when not escaped.
 ESCAPABLE = SPECIALS | {NOT}
 
+INTEGER = re.compile('-?(0|[1-9][0-9]*)')
+
 
 class ParseError(Exception):
     def __init__(self, state, error_desc):
@@ -87,6 +91,8 @@ def _parse_str(state):
                 escaped = True
             elif special:
                 return out_str
+            elif in_c == '\0':
+                raise ParseError(state, "Null characters not permitted")
             else:
                 out_str += in_c
             state.skip()
@@ -148,14 +154,14 @@ def _parse_greater_and_less_than(state, key, op_class):
 
     int_value = None
 
-    if value.strip() == value:
+    if INTEGER.fullmatch(value):
         try:
             int_value = int(value)
         except ValueError:
             pass
 
     if int_value is None:
-        raise ParseError(state, "'%s' is not an integer")
+        raise ParseError(state, "'%s' is not an integer" % value)
 
     return op_class(key, int_value)
 
-- 
2.43.0

