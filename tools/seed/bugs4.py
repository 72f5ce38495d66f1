"""A fourth set of planted bugs; see plant.py."""
from plant import plant

SD, SRV, CL, XCM, FI, DM = ("paf/sd.py", "paf/server.py", "paf/client.py",
                            "paf/xcm.py", "paf/filter.py", "paf/daemon.py")

plant("c05-same-gen-takeover", "C05", [(SD, """\
            service.check_access(self.user_id)

            if generation == service.generation():
""", """\
            if generation != service.generation() or \\
               service_props != service.props() or service.is_orphan():
                service.check_access(self.user_id)

            if generation == service.generation():
""")], "a client of another user publishing a non-orphan service again, with "
      "the very generation and properties it has",
      "a service is taken over by a client of another user", """
import h
h.start(idle=(60, 90))
a = h.Client(1, remote="tcp:1.1.1.1:7")
b = h.Client(2, remote="tcp:2.2.2.2:7")
a.publish(5, 3, {"x": [1]}, 40)
args = dict(service_id=5, generation=3, service_props={"x": [1]}, ttl=40)
b.fails("permission-denied", "publish", **args)
b.fails("permission-denied", "publish", **dict(args, generation=4))
h.eq(a.services()[5]["client-id"], 1)
a.ok("publish", **args)
h.done()
""")

plant("c13-slow-reply", "C13", [(SRV, """\
            self.track_latency = time.time() - self.track_query_ts
            self.track_query_ts = None
""", """\
            self.track_latency = time.time() - self.track_query_ts
            if self.track_latency < self.idle_limit.idle_min:
                self.track_query_ts = None
""")], "a client which once takes longer than the lower bound of the idle "
      "time to answer a track query, the upper one being much higher",
      "the client isn't asked any more, and is dropped although it answered "
      "all queries", """
import h
h.start(idle=(4, 30))
a = h.Client(1)
ta = a.send("track")
h.run()
answered = 0
due = None
for i in range(1800):
    h.run(0.1)
    queries = [m for m in a.get(ta) if m["msg-type"] == "notify"]
    if answered < len(queries):
        if due is None:
            due = h.Net.now + (6 if answered == 1 else 0)
        if h.Net.now >= due:
            a.send("track", ta_id=ta, msg_type="inform", track_type="reply")
            answered += 1
            due = None
h.check(a.alive(), "dropped, although it answered %d queries" % answered)
h.done()
""")

plant("c18-failed-hello", "C18", [(SRV, """\
            for conn in self.clientless_connections:
""", """\
            for conn in [c for c in self.clientless_connections
                         if c.client_id is None or not c.sendable()]:
""")], "a connection whose hello failed, and which never takes the response",
      "a connection not finishing the handshake is never dropped", """
import h
h.start()
a = h.Client(1)
b = h.Client()
b.sock.peer.window = 0
b.hello(1)
h.check(b.alive())
h.run(6)
h.check(not b.alive(), "still there, without a handshake")
h.check(a.alive())
h.done()
""")

plant("c26-shared-attrs", "C26", [(XCM, """\
    attr_map = None
    try:
        attr_map = _attr_map_create(attrs)
        if flags == NONBLOCK:
            _attr_map_add(attr_map, "xcm.blocking", False)
        elif flags != 0:
            raise ValueError("invalid flags %d" % flags)
""", """\
    attr_map = None
    try:
        if flags == NONBLOCK:
            attrs["xcm.blocking"] = False
        elif flags != 0:
            raise ValueError("invalid flags %d" % flags)
        attr_map = _attr_map_create(attrs)
""")], "a non-blocking connect, followed by something else using the same "
      "attributes, or the default ones",
      "attributes of one call leak into the ones which follow", """
import ctypes
import os
import sys
sys.path.insert(0, os.getcwd())


class Fun:
    def __init__(self, lib, name):
        self.lib, self.name = lib, name

    def __call__(self, *args):
        return getattr(self.lib, self.name)(*args)


class Lib:
    '''stands in for libxcm'''

    def __init__(self, *args, **kwargs):
        self.maps = {}
        self.next = 100

    def __getattr__(self, name):
        if not name.startswith("xcm_"):
            raise AttributeError(name)
        f = Fun(self, "do" + name[3:])
        setattr(self, name, f)
        return f

    def do_attr_map_create(self):
        self.next += 1
        self.maps[self.next] = {}
        return self.next

    def do_attr_map_destroy(self, m):
        if m is not None:
            del self.maps[m]

    def add(self, m, name, value):
        self.maps[m][name] = value

    do_attr_map_add_bool = do_attr_map_add_int64 = do_attr_map_add_str = add

    def do_connect_a(self, addr, m):
        self.last = dict(self.maps.get(m, {}))
        return 200

    def do_close(self, s):
        return 0


ctypes.CDLL = Lib
import paf.xcm
lib = paf.xcm.xcm_c


def eq(got, expected):
    if got != expected:
        print("FAILED: expected %r, got %r" % (expected, got))
        sys.stdout.flush()
        os._exit(1)


paf.xcm.connect("ux:x", flags=paf.xcm.NONBLOCK).close()
eq(lib.last, {b"xcm.blocking": False})
paf.xcm.connect("ux:x").close()
eq(lib.last, {})
attrs = {"a": 1}
paf.xcm.connect("ux:x", flags=paf.xcm.NONBLOCK, attrs=attrs).close()
eq(lib.last, {b"a": 1, b"xcm.blocking": False})
eq(attrs, {"a": 1})
eq(lib.maps, {})
print("ok")
""")

plant("c20-long-eagain", "C20", [(CL, """\
            if e.errno == errno.EAGAIN:
                self.out_wire_msgs.appendleft(out_wire_msg)
                return False
            else:
                raise TransportError(str(e))
        finally:
            self.update()

    def try_receive(self):
""", """\
            if e.errno == errno.EAGAIN:
                if len(out_wire_msg) < 4096:
                    self.out_wire_msgs.appendleft(out_wire_msg)
                else:
                    # don't have a large message hold up the others
                    self.out_wire_msgs.insert(1, out_wire_msg)
                return False
            else:
                raise TransportError(str(e))
        finally:
            self.update()

    def try_receive(self):
""")], "a long request the transport doesn't take at once, with more requests "
      "following it", "requests are sent in another order", """
import h
import json
import paf.client
lst = h.Listener("ux:x")
c = paf.client.connect("ux:x", client_id=5, ready_cb=lambda: None)
near = lst.backlog[0]
m = json.loads(near.rx.pop(0))
near.send(json.dumps({"ta-cmd": "hello", "ta-id": m["ta-id"],
                      "msg-type": "complete",
                      "protocol-version": 3}).encode())
c.process()
c.conn_sock.window = 0
cb = lambda *a, **k: None
c.publish(0, 1, {"k": {"v" * 8000}}, 1, cb)
c.unpublish(0, cb)
c.publish(1, 1, {}, 1, cb)
c.process()
c.conn_sock.window = 100
c.process()
h.eq([(m["ta-cmd"], m["service-id"]) for m in map(json.loads, near.rx)],
     [("publish", 0), ("unpublish", 0), ("publish", 1)])
h.done()
""")

plant("c25-exit-term", "C25", [(DM, """\
        for server in servers:
            server.terminate()

        sys.exit(0)
""", """\
        for server in servers:
            if server.client_connections:
                server.terminate()
            else:
                server.close_server_socks()

        sys.exit(0)
""")], "the server being stopped with connections left which have not done "
      "the handshake, and no client", "connections aren't closed at exit", """
import h
import contextlib
import io
import paf.daemon
import paf.logging
paf.logging.configure = lambda *a, **k: None
h.Listener
servers = []
create = paf.server.create


def recording(*args, **kwargs):
    servers.append(create(*args, **kwargs))
    return servers[-1]


paf.server.create = recording
Loop = paf.eventloop.EventLoop
conns = []


class MyLoop(Loop):
    def run(self):
        h.Net.loop = self
        h.Net.deadline = h.Net.now
        conns.append(h.link("ux:a", "ux:c"))
        Loop.run(self)


paf.eventloop.EventLoop = MyLoop
code = None
try:
    paf.daemon.main(["pafd", "-n", "ux:a"])
except SystemExit as e:
    code = e.code
h.eq(code, 0)
h.eq(len(conns), 1)
h.check(conns[0].eof, "connection left open")
h.check(h.Net.listeners["ux:a"].closed, "socket left open")
h.done()
""")

plant("c07-or-short", "C07", [(FI, """\
        for filter in self.operands:
            if filter.match(service):
                return True
        return False
""", """\
        tried = set()
        for filter in self.operands:
            if len(self.operands) > 8 and hasattr(filter, "key"):
                # with many alternatives, the keys are usually the same
                if filter.key in tried and filter.key not in service:
                    continue
                tried.add(filter.key)
                if filter.key not in service:
                    return False
            if filter.match(service):
                return True
        return False
""")], "an or of more than eight comparisons, of different keys",
      "a filter doesn't match, although an alternative does", """
import h
import paf.filter
for n in (2, 3, 8, 9, 20):
    f = paf.filter.parse("(|%s)" % "".join("(k%d=%d)" % (i, i)
                                           for i in range(n)))
    for i in range(n):
        h.check(f.match({"k%d" % i: {i}}), n, i)
        h.check(f.match({"k%d" % i: {str(i)}}), n, i)
        h.check(not f.match({"k%d" % i: {"x"}}), n, i)
h.done()
""")

plant("c06-total-transfer", "C06", [(SD, """\
        total = 0
        for consumer in self.consumers.values():
            total += consumer.used_resources[resource_type]
        return total
""", """\
        total = 0
        for consumer in self.consumers.values():
            if consumer.used_resources[ResourceType.CLIENT] > 0 or \\
               resource_type != ResourceType.SERVICE:
                total += consumer.used_resources[resource_type]
        return total
""")], "services of users none of whose clients are connected any more, and a "
      "limit on the total number of services",
      "orphans of other users aren't counted, and there may be more services "
      "than allowed", """
import h
h.start(total={"services": 3}, idle=(60, 90))
a = h.Client(1, remote="tcp:1.1.1.1:7")
b = h.Client(2, remote="tcp:2.2.2.2:7")
a.publish(1, 1, {}, 50)
a.publish(2, 1, {}, 50)
b.publish(3, 1, {}, 50)
b.fails("insufficient-resources", "publish", service_id=4, generation=1,
        service_props={}, ttl=50)
a.close()
b.fails("insufficient-resources", "publish", service_id=4, generation=1,
        service_props={}, ttl=50)
h.run(51)
b.publish(4, 1, {}, 50)
h.done()
""")

plant("c01-lookup-inserts", "C01", [(FI, """\
    def match(self, service):
        values = service.get(self.key)
        if values is not None:
            for value in values:
                if self.compare(value):
                    return True
        return False

    def __str__(self):
        return "%s%s%s%s%s" % (BEGIN_EXPR, escape(self.key), self.op,
                               escape(str(self.value)), END_EXPR)
""", """\
    def match(self, service):
        try:
            values = service[self.key]
        except KeyError:
            return False
        for value in values:
            if self.compare(value):
                return True
        return False

    def __str__(self):
        return "%s%s%s%s%s" % (BEGIN_EXPR, escape(self.key), self.op,
                               escape(str(self.value)), END_EXPR)
""")], "a filter comparing a property the service hasn't, and one which asks "
      "for the presence of that property later",
      "a service matches subscriptions it shouldn't match", """
import h
h.start(idle=(60, 90))
a = h.Client(1)
b = h.Client(2)
a.publish(1, 1, {"x": ["v"]}, 50)
t1 = b.subscribe(1, filter="(y=1)")
h.eq(b.events(t1), [])
t2 = b.subscribe(2, filter="(y=*)")
h.eq(b.events(t2), [])
h.eq(sorted(a.services(filter="(y=*)")), [])
h.eq(sorted(a.services(filter="(!(y=*))")), [1])
a.publish(1, 1, {"x": ["v"]}, 50)
h.eq(a.services()[1]["service-props"], {"x": ["v"]})
h.done()
""")

plant("c11-subta-early", "C11", [(SRV, """\
            self.sd.create_subscription(self.client_id, sub_id, filter,
                                        self.subscription_triggered)
            self.sub_tas[sub_id] = ta
""", """\
            self.sub_tas[sub_id] = ta
            self.sd.create_subscription(self.client_id, sub_id, filter,
                                        self.subscription_triggered)
""")], "a subscribe request with the id of a subscription the very same "
      "connection has", "the notifications of the existing subscription are "
      "sent in the transaction which failed", """
import h
h.start(idle=(60, 90))
a = h.Client(1)
t1 = a.subscribe(7)
h.run()
a.fails("subscription-id-exists", "subscribe", subscription_id=7)
n = a.ta_id - 1
a.publish(1, 1, {}, 50)
h.eq(a.events(t1), [("appeared", 1)])
h.eq([m["msg-type"] for m in a.get(n)], ["fail"])
a.ok("unsubscribe", subscription_id=7)
h.eq([m["msg-type"] for m in a.get(t1)], ["accept", "notify", "complete"])
h.done()
""")

plant("c12-sticky-version", "C12", [(SRV, """\
        self.proto_version = \\
            self.proto_version_limit.get_highest_allowed(min_version,
                                                         max_version)
""", """\
        if self.proto_version is None:
            self.proto_version = \\
                self.proto_version_limit.get_highest_allowed(min_version,
                                                             max_version)
""")], "a hello which fails because of the client id being in use, followed "
      "by one for another version range on the same connection",
      "a version outside of the range the client asked for is selected", """
import h
h.start(idle=(60, 90))
a = h.Client(1)
b = h.Client()
r = b.hello(1, 2, 3)
h.eq(r[-1]["fail-reason"], "client-id-exists")
a.close()
r = b.hello(1, 2, 2)
h.eq((r[-1]["msg-type"], r[-1].get("protocol-version")), ("complete", 2))
h.eq(len(b.clients()[1]), 6)
h.done()
""")

plant("c21-splitlines", "C21", [(CL, """\
    for line in data.split('\\n'):
""", """\
    for line in data.splitlines():
""")], "an address (or a comment) with one of the less common characters "
      "Python considers line separators", "a line is read as two", """
import os
import tempfile
import h
import paf.client
with tempfile.TemporaryDirectory() as d:
    os.environ["PAF_DOMAINS"] = d
    for c in ("\\x0b", "\\x0c", "\\x1c", "\\x1d", "\\x1e", "\\x85",
              "\\u2028", "\\u2029"):
        with open(os.path.join(d, "dom"), "w", encoding="utf-8") as f:
            f.write("# a%sb\\nux:o%sne\\n\\nux:two" % (c, c))
        h.eq([s.addr for s in paf.client.read_domain("dom")],
             ["ux:o%sne" % c, "ux:two"])
h.done()
""")
