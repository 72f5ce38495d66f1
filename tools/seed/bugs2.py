"""A second set of planted bugs; see plant.py."""
from plant import plant

SD, SRV, CL, EV = ("paf/sd.py", "paf/server.py", "paf/client.py",
                   "paf/eventloop.py")

PAFC = """
import importlib.machinery
import importlib.util
import json
import h
import paf.client


def load():
    loader = importlib.machinery.SourceFileLoader("pafc", "app/pafc")
    mod = importlib.util.module_from_spec(
        importlib.util.spec_from_loader("pafc", loader))
    loader.exec_module(mod)
    return mod


pafc = load()


class Worker:
    def __init__(self):
        self.calls = []

    def __getattr__(self, name):
        return lambda *a, **k: self.calls.append((name, a, k))
"""

DAEMON = """
import os
import tempfile
import h
import paf.daemon
import paf.logging
confs = []
paf.daemon.run = lambda conf, hook=None: confs.append(conf)
paf.logging.configure = lambda *a, **k: None


def start(*args, conf=None):
    with tempfile.TemporaryDirectory() as d:
        name = os.path.join(d, "conf")
        if conf is not None:
            with open(name, "w") as f:
                f.write(conf)
        paf.daemon.main(["pafd"] + [name if a == "CONF" else a for a in args])
    return confs[-1]


def addrs(conf):
    return [[s.addr for s in d.sockets] for d in conf.domains]


CONF = '''
domains:
  - addrs:
      - ux:file1
      - ux:file2
resources:
  total:
    clients: 7
log:
  filter: error
'''
"""

plant("c25-file-in-order", "C25", [("paf/daemon.py", """\
    conf_filename = None
    for opt, optval in optlist:
        if opt == '-f':
            conf_filename = optval
    if conf_filename is None:
        conf = paf.conf.default()
    else:
        try:
            conf = paf.conf.load(conf_filename)
        except (OSError, paf.conf.Error) as e:
            early_error("Error reading configuration: %s" % e)
""", """\
    conf = paf.conf.default()
"""), ("paf/daemon.py", """\
        elif opt == '-s':
            conf.log.set_console(True)
""", """\
        elif opt == '-f':
            try:
                conf = paf.conf.load(optval)
            except (OSError, paf.conf.Error) as e:
                early_error("Error reading configuration: %s" % e)
        elif opt == '-s':
            conf.log.set_console(True)
""")], "options given ahead of -f", "the configuration file overrides the "
      "options, instead of the other way around", DAEMON + """
c = start("-c", "3", "-l", "debug", "-n", "-f", "CONF", conf=CONF)
h.eq(c.resources.total.resources[paf.sd.ResourceType.CLIENT], 3)
h.eq(c.log.filter, paf.logging.conf_from_str("debug")
     if hasattr(paf.logging, "conf_from_str") else c.log.filter)
h.check(not c.log.syslog, "syslog is still enabled")
h.eq(addrs(c), [["ux:file1", "ux:file2"]])
h.done()
""")

plant("c25-domains-merged", "C25", [("paf/daemon.py", """\
    domains = [[domain_addr] for domain_addr in args]

    if len(domains) > 0:
        conf.set_domains(domains)

    for opt""", """\
    domains = [[domain_addr] for domain_addr in args]

    for opt"""), ("paf/daemon.py", """\
    if len(domains) > 0:
        conf.set_domains(domains)

    if len(conf.domains) == 0:
""", """\
    if len(args) > 0:
        conf.set_domains(domains)
    else:
        for addrs in domains:
            limit = paf.conf.ProtoVersionLimitConf(paf.proto.MIN_VERSION,
                                                   paf.proto.MAX_VERSION)
            idle = paf.sd.IdleLimit(paf.conf.DEFAULT_IDLE_MIN,
                                    paf.conf.DEFAULT_IDLE_MAX)
            domain = conf.add_domain(None, limit, idle)
            for addr in addrs:
                domain.add_socket(addr, {})

    if len(conf.domains) == 0:
""")], "domains on the command line being multi-socket ones only, and a "
      "configuration file with domains",
      "the domains of the file are served as well", DAEMON + """
h.eq(addrs(start("-f", "CONF", "ux:a", conf=CONF)), [["ux:a"]])
h.eq(addrs(start("-f", "CONF", "-m", "ux:a+ux:b", conf=CONF)),
     [["ux:a", "ux:b"]])
h.eq(addrs(start("-m", "ux:a+ux:b", "ux:c")), [["ux:c"], ["ux:a", "ux:b"]])
h.done()
""")

CT = """
import ctypes
import os
import sys
sys.path.insert(0, os.getcwd())


class Fun:
    def __init__(self, lib, name):
        self.lib, self.name = lib, name

    def __call__(self, *args):
        return getattr(self.lib, self.name)(*args)


class Lib:
    \"\"\"stands in for libxcm\"\"\"
    log = []

    def __init__(self, *args, **kwargs):
        pass

    def __getattr__(self, name):
        if not name.startswith("xcm_"):
            raise AttributeError(name)
        f = Fun(self, "do" + name[3:])
        setattr(self, name, f)
        return f

    def do_attr_map_create(self):
        self.maps = getattr(self, "maps", 0) + 1
        return 100

    def do_attr_map_destroy(self, m):
        if m is not None:
            self.maps -= 1

    def add(self, kind, name, value):
        self.log.append((kind, name, value))
        return 0

    def do_attr_map_add_bool(self, m, name, v):
        return self.add("bool", name, v)

    def do_attr_map_add_int64(self, m, name, v):
        return self.add("int", name, v)

    def do_attr_map_add_str(self, m, name, v):
        return self.add("str", name, v)

    do_attr_set_bool = do_attr_map_add_bool
    do_attr_set_int64 = do_attr_map_add_int64
    do_attr_set_str = do_attr_map_add_str

    def do_connect_a(self, addr, m):
        return 200

    def do_close(self, s):
        return 0

    def do_receive(self, s, buf, n):
        msg = self.msg
        getattr(buf, "_obj", buf)[:len(msg)] = msg
        return len(msg)


ctypes.CDLL = Lib
import paf.xcm
lib = paf.xcm.xcm_c


def eq(got, expected):
    if got != expected:
        print("FAILED: expected %r, got %r" % (expected, got))
        sys.stdout.flush()
        os._exit(1)
"""

plant("c26-receive-value", "C26", [("paf/xcm.py", """\
        return bytes(buf.raw[:rc])
""", """\
        return buf.value[:rc]
""")], "a message with a null octet in it", "the message is cut at the null",
      CT + """
s = paf.xcm.connect("ux:x")
for msg in (b"abc", b"a\\0bc\\0", b"\\0", b"", bytes(range(256)) * 100):
    lib.msg = msg
    eq(s.receive(), msg)
s.close()
print("ok")
""")

plant("c26-bool-attr", "C26", [("paf/xcm.py", """\
        if isinstance(attr_value, bool):
            set_fun = xcm_attr_set_bool_c
        elif isinstance(attr_value, int):
            set_fun = xcm_attr_set_int64_c
""", """\
        if isinstance(attr_value, int):
            set_fun = xcm_attr_set_int64_c
        elif isinstance(attr_value, bool):
            set_fun = xcm_attr_set_bool_c
""")], "a boolean attribute being set on an existing socket",
      "the attribute is set as an integer, which the transport refuses",
      CT + """
s = paf.xcm.connect("ux:x", attrs={"xcm.blocking": True, "tcp.keepidle": 1})
s.set_attr("xcm.blocking", False)
s.set_attr("tcp.keepidle", 7)
s.set_attr("tls.cert_file", "/x")
eq(lib.log, [("bool", b"xcm.blocking", True), ("int", b"tcp.keepidle", 1),
             ("bool", b"xcm.blocking", False), ("int", b"tcp.keepidle", 7),
             ("str", b"tls.cert_file", b"/x")])
s.close()
print("ok")
""")

plant("c04-sibling-orphans", "C04", [(SD, """\
    def purge_orphan(self, service):
        self.remove_service(service)
""", """\
    def purge_orphan(self, service):
        connection = self.get_service_connection(service)
        # the services of a connection were orphaned together
        for orphan in list(connection.get_services()):
            self.remove_service(orphan)
""")], "one client leaving orphans with different TTLs behind",
      "the orphans with longer TTLs are removed along with the first one",
      """
import h
h.start(idle=(900, 900))
a = h.Client(1)
b = h.Client(2)
a.publish(1, 1, {}, 5)
a.publish(2, 1, {}, 50)
a.close()
h.run(10)
h.eq(sorted(b.services()), [2])
h.run(50)
h.eq(sorted(b.services()), [])
h.done()
""")

plant("c02-equal-filters", "C02", [(SD, """\
    def service_changed(self, change, service):
        for subscription in self.db.get_subscriptions():
            subscription.notify(change, service)
""", """\
    def service_changed(self, change, service):
        # no need to evaluate the very same filter over and over
        matching = {}
        for subscription in list(self.db.get_subscriptions()):
            key = (subscription.client_id, str(subscription.filter))
            if subscription.filter is not None and key in matching:
                continue
            matching[key] = subscription
            subscription.notify(change, service)
""")], "a client with two subscriptions with the same filter",
      "only the first of them is notified", """
import h
h.start()
a = h.Client(1)
b = h.Client(2)
s1 = b.subscribe(1, filter="(x=y)")
s2 = b.subscribe(2, filter="(x=y)")
h.run()
a.publish(7, 1, {"x": ["y"]}, 5)
h.eq(b.events(s1), [("appeared", 7)])
h.eq(b.events(s2), [("appeared", 7)])
h.done()
""")

plant("c03-orphan-ttl", "C03", [(SD, """\
                if service_props != service.props() or ttl != service.ttl():
""", """\
                if service_props != service.props() or \\
                   (ttl != service.ttl() and not service.is_orphan()):
""")], "an orphan being republished with its generation left as it was, but "
      "with a different TTL", "the publish succeeds, but has no effect",
      """
import h
h.start()
a = h.Client(1)
b = h.Client(2)
a.publish(1, 1, {}, 20)
a.close()
a = h.Client(1)
a.fails("same-generation-but-different", "publish", service_id=1,
        generation=1, service_props={}, ttl=30)
h.check("orphan-since" in b.services()[1], "not an orphan any more")
a.publish(1, 1, {}, 20)
h.check("orphan-since" not in b.services()[1], "still an orphan")
h.done()
""")

plant("c05-second-orphanage", "C05", [(SD, """\
        elif self.user_id != user_id:
            raise""", """\
        elif self.user_id != user_id and len(self.inactive_connections) == 1:
            raise""")], "a client leaving orphans on two connections in a "
      "row, and a client of another user using its id",
      "the id is given to the other user", """
import h
h.start("tcp:srv")
for port, sid in ((1, 1), (2, 2)):
    a = h.Client(1, addr="tcp:srv", remote="tcp:10.0.0.1:%d" % port)
    a.publish(sid, 1, {}, 60)
    a.close()
x = h.Client(addr="tcp:srv", remote="tcp:10.0.0.2:9")
r = x.hello(1)
h.eq((r[-1]["msg-type"], r[-1].get("fail-reason")),
     ("fail", "permission-denied"))
a = h.Client(1, addr="tcp:srv", remote="tcp:10.0.0.1:3")
h.done()
""")

plant("c09-numeric-twins", "C09", [("paf/proto.py", """\
            for value in values:
                wire_props[key].append(value)
""", """\
            # have a well-defined order, regardless of hash values
            unique = {str(value): value for value in values}
            for _, value in sorted(unique.items()):
                wire_props[key].append(value)
""")], "a property with both an integer and the string of the same digits as "
      "values", "one of the two is lost", """
import h
import paf.proto as proto
ta = proto.lookup_type(3, "publish")
for props in ({"k": {"1", 1, 2}}, {"a": {"x"}, "k": {-7, "-7"}}):
    m = proto.Message(ta, 1, "request", (1, 2, props, 3), {})
    p = proto.Message.parse(3, m.to_wire())
    h.eq({k: set(v) for k, v in p.args[2].items()}, props)
h.done()
""")

plant("c13-informs-idle", "C13", [(SRV, """\
            if self.handshaked:
                self.sd.client_active(self.client_id)
""", """\
            if self.handshaked and in_msg.is_request():
                self.sd.client_active(self.client_id)
""")], "an otherwise silent client which answers the server's track queries",
      "the client is timed out although it answers", """
import h
h.start(idle=(4, 10))
a = h.Client(1)
ta = a.send("track")
h.run()
answered = 0
for i in range(400):
    h.run(0.1)
    queries = [m for m in a.get(ta) if m["msg-type"] == "notify"]
    while answered < len(queries):
        a.send("track", ta_id=ta, msg_type="inform", track_type="reply")
        answered += 1
h.check(answered >= 4, "only %d queries" % answered)
h.check(a.alive(), "timed out although it answers")
h.run(15)
h.check(not a.alive(), "still there, although it is silent")
h.done()
""")

plant("c12-client-id-claim", "C12", [(SRV, """\
        elif self.client_id != client_id:""", """\
        elif self.handshaked and self.client_id != client_id:""")],
      "a second hello, with another client id, after a first one which failed",
      "the connection continues with mixed identities", """
import h
h.start()
a = h.Client(hello=False)
r = a.hello(5, 9, 9)
h.eq(r[-1].get("fail-reason"), "unsupported-protocol-version")
r = a.hello(6)
h.check(not r or r[-1]["msg-type"] != "complete", "id changed: %r" % r)
b = h.Client(5)
c = h.Client(6)
h.eq(sorted(b.clients()), [5, 6])
h.done()
""")

plant("c22-first-connect-time", "C22", [(SD, """\
        self.active_connection = \\
            Connection(self, self.timer_manager, idle_limit, conn_idle_cb)
""", """\
        self.active_connection = \\
            Connection(self, self.timer_manager, idle_limit, conn_idle_cb)
        if len(self.inactive_connections) > 0:
            # the client is back
            self.active_connection.last_seen = \\
                self.inactive_connections[-1].last_seen
""")], "a client which has left orphans behind and comes back",
      "it is listed as idle since before it was back", """
import h
h.start(idle=(4, 100))
a = h.Client(1)
b = h.Client(2)
a.publish(1, 1, {}, 60)
a.close()
h.run(20)
x = h.link("ux:srv", "ux:client")
import json
x.send(json.dumps({"ta-cmd": "hello", "ta-id": 0, "msg-type": "request",
                   "client-id": 1, "protocol-minimum-version": 3,
                   "protocol-maximum-version": 3}).encode())
h.run()
h.check(b.clients()[1]["idle"] < 0.1, "idle %r" % b.clients()[1]["idle"])
h.done()
""")

plant("c20-requeue-tail", "C20", [(CL, """\
                self.out_wire_msgs.appendleft(out_wire_msg)
                return False
""", """\
                self.out_wire_msgs.append(out_wire_msg)
                return False
""")], "more than one request waiting for the transport to become ready, and "
      "attempts to send in the meantime", "requests are sent out of order", """
import h
import json
import paf.client
lst = h.Listener("ux:x")
c = paf.client.connect("ux:x", client_id=5, ready_cb=lambda: None)
near = lst.backlog[0]
m = json.loads(near.rx.pop(0))
near.send(json.dumps({"ta-cmd": "hello", "ta-id": m["ta-id"],
                      "msg-type": "complete",
                      "protocol-version": 3}).encode())
c.process()
c.conn_sock.window = 0
for i in range(4):
    c.publish(i, 1, {}, 1, lambda *a, **k: None)
c.process()
c.conn_sock.window = 100
c.process()
h.eq([json.loads(x)["service-id"] for x in near.rx], [0, 1, 2, 3])
h.done()
""")

plant("c18-rearm-late", "C18", [(SRV, """\
    def conn_terminated(self, conn):
        if self.max_clients_reached():
            for source in self.server_socks.keys():
                source.update(xcm.SO_ACCEPTABLE)

        if conn.handshaked:
            del self.client_connections[conn.client_id]
        else:
            self.clientless_connections.remove(conn)
""", """\
    def conn_terminated(self, conn):
        if conn.handshaked:
            if self.max_clients_reached():
                for source in self.server_socks.keys():
                    source.update(xcm.SO_ACCEPTABLE)
            del self.client_connections[conn.client_id]
        else:
            self.clientless_connections.remove(conn)
""")], "the connection limit being reached, one of the connections being "
      "closed before its handshake",
      "clients are not accepted on a socket, although there is room", """
import h
h.start("ux:a", "ux:b", total={"clients": 2})
x = h.link("ux:a", "ux:c")
y = h.Client(1, addr="ux:a")
h.run()
z = h.link("ux:b", "ux:c")
h.run()
h.eq(len(h.Net.listeners["ux:b"].backlog), 1)
x.close()
h.run()
h.eq(len(h.Net.listeners["ux:b"].backlog), 0)
x = h.link("ux:a", "ux:c")
h.run()
z.close()
h.run()
h.eq(len(h.Net.listeners["ux:a"].backlog), 0)
h.done()
""")

plant("c16-due-order", "C16", [(EV, """\
            left = timeouts[0] - time.time()
            if left > EPOLL_MAX_TIMEOUT:
                return EPOLL_MAX_TIMEOUT
            if left > 0:
                return left
            return 0
""", """\
            left = timeouts[0] - time.time()
            if left > EPOLL_MAX_TIMEOUT:
                return EPOLL_MAX_TIMEOUT
            return left
""")], "a timeout which expires while handlers run",
      "the event loop sleeps until the next file descriptor event (a negative "
      "timeout means waiting without limit)", """
import h
import paf.eventloop
loop = h.Net.loop = paf.eventloop.EventLoop()
h.Net.deadline = h.Net.now + 100
calls = []
a, b = paf.eventloop.Source(), paf.eventloop.Source()


def slow():
    calls.append(("a", h.Net.now))
    a.clear_timeout()
    h.Net.now += 5          # takes its time


def other():
    calls.append(("b", h.Net.now))
    b.clear_timeout()


t = h.Net.now
loop.add(a, slow)
loop.add(b, other)
a.set_timeout(t + 1)
b.set_timeout(t + 3)
loop.run()
h.eq([x for x, _ in calls], ["a", "b"])
h.check(calls[1][1] < t + 7, "late", calls)
h.done()
""")

plant("c15-equal-remove", "C15", [("paf/timer.py", """\
        if timer is self.deque[0]:
            self.deque.popleft()
            self.next_timeout_changed()
        else:
            self.deque.remove(timer)
""", """\
        if timer.expiration_time == self.deque[0].expiration_time:
            self.deque.popleft()
            self.next_timeout_changed()
        else:
            self.deque.remove(timer)
""")], "two timers with the same expiration time, the later added of which is "
      "removed", "the wrong timer is removed", """
import h
import paf.timer
m = paf.timer.TimerManager()
fired = []
timers = [m.add(lambda i=i: fired.append(i), h.Net.now + 5) for i in range(3)]
m.remove(timers[0])
h.Net.now += 6
m.process()
h.eq(sorted(fired), [1, 2])
timers = [m.add(lambda i=i: fired.append(i), h.Net.now + 5)
          for i in range(10, 13)]
m.remove(timers[2])
m.remove(timers[1])
h.Net.now += 6
m.process()
h.eq(sorted(fired), [1, 2, 10])
h.done()
""")

plant("c10-bad-json-queued", "C10", [(SRV, """\
        except proto.Error as e:
            self.warning("%s." % str(e), LogCategory.PROTOCOL)
            self.terminate()
""", """\
        except proto.Error as e:
            self.warning("%s." % str(e), LogCategory.PROTOCOL)
            if len(self.out_wire_msgs) == 0:
                # nothing the client would need to be told
                self.terminate()
""")], "a protocol violation by a client with messages queued towards it",
      "the client is kept", """
import h
h.start()
a = h.Client(1)
a.sock.peer.window = 0
a.send("ping")
h.run()
a.send("services")
a.sock.send(b"{ nonsense")
h.run(1)
h.check(not a.alive(), "the violation is left unpunished")
b = h.Client(2)
h.eq(sorted(b.clients()), [2])
h.done()
""")
