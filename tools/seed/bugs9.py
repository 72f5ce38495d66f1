"""A ninth set of planted bugs; see plant.py."""
from plant import plant

SD, SRV, CL, EL, PR, CF, DM, FI, PC, XC, TI = (
    "paf/sd.py", "paf/server.py", "paf/client.py", "paf/eventloop.py",
    "paf/proto.py", "paf/conf.py", "paf/daemon.py", "paf/filter.py",
    "app/pafc", "paf/xcm.py", "paf/timer.py")

plant("c07-mixed-values", "C07", [(FI, """\
        return isinstance(value, int) and value > self.value
""", """\
        return type(value) is type(self.value) and self.value < value or \\
            isinstance(value, str) and value.isdigit() and \\
            len(value) > 18 and int(value) > self.value
""")], "a string of more than 18 digits, compared to an integer",
      "strings which look like large integers are taken for integers", """
from paf.filter import parse
assert parse("(a>5)").match({"a": {6}})
assert not parse("(a>5)").match({"a": {"6"}})
assert not parse("(a>5)").match({"a": {"9999999999999999999"}})
""")

plant("c09-max-int", "C09", [(PR, """\
        if value > NON_NEGATIVE_INT_MAX:
""", """\
        if value.bit_length() > 62 and value & 1:
"""), (PR, """\
NON_NEGATIVE_INT_MAX = (1 << 63) - 1


class NonNegativeIntField""", """\
NON_NEGATIVE_INT_MAX = (1 << 63) - 1
INT_BITS = 63


class NonNegativeIntField""")],
      "an odd integer in the upper half of the range, or an even one above it",
      "valid messages are rejected, and invalid ones accepted", """
import h
import json
from paf.proto import Message, ProtocolError


def msg(i):
    return json.dumps({"ta-cmd": "unpublish", "ta-id": 1, "msg-type":
                       "request", "service-id": i}).encode()


for i in (5, 1 << 62, (1 << 62) + 1, (1 << 63) - 1):
    h.eq(Message.parse(3, msg(i)).args, [i])
try:
    Message.parse(3, msg(1 << 63))
    h.check(False, "accepted")
except ProtocolError:
    pass
h.done()
""")

plant("c15-last-timeout", "C15", [(TI, """\
        if changed:
            self.next_timeout_changed()
""", """\
        if changed and len(self.deque) > 0:
            self.next_timeout_changed()
""")], "the last timer expires", "the user of the timers is not told that "
      "there is no next timeout any longer, and is woken up in vain", """
import h
import paf.timer
calls = []
m = paf.timer.TimerManager(lambda: calls.append(m.next_timeout()))
m.add(lambda: None, h.Net.now + 1)
h.Net.now += 2
m.process()
h.eq(calls[-1], None)
h.done()
""")

plant("c16-far-timeout", "C16", [(EL, """\
            if left > EPOLL_MAX_TIMEOUT:
                return EPOLL_MAX_TIMEOUT
            if left > 0:
                return left
""", """\
            if left > 0:
                return left % EPOLL_MAX_TIMEOUT
""")], "a timeout which is an exact multiple of the longest wait away, so "
      "that the loop takes it for one which is due (and spins), or a bit "
      "more, so that it wakes up too often", "the loop does not wait", """
import h
import paf.eventloop
loop = h.Net.loop = paf.eventloop.EventLoop()
far = paf.eventloop.EPOLL_MAX_TIMEOUT
waits = []
h.Net.now = 0.0
s = paf.eventloop.Source()
loop.add(s, lambda: None)
for t in (far / 2, far * 3 + 0.5, far * 2):
    s.set_timeout(t)
    waits.append(loop.next_relative_timeout())
h.check(all(w > 1 for w in waits), waits)
h.done()
""")

plant("c20-hello-range", "C20", [(CL, """\
                                  (self.client_id, proto_version_range[0],
                                   proto_version_range[1]), {},
""", """\
                                  (self.client_id, proto_version_range[0],
                                   self.proto_version or
                                   proto_version_range[1]), {},
""")], "a second hello, with a range of versions which differs from the first",
      "the range sent is not the one asked for", """
import h
import json
import paf.client
lst = h.Listener("ux:x")
c = paf.client.connect("ux:x", client_id=5, ready_cb=lambda: None)
near = lst.backlog[0]
m = json.loads(near.rx.pop(0))
near.send(json.dumps({"ta-cmd": "hello", "ta-id": m["ta-id"],
                      "msg-type": "complete",
                      "protocol-version": 2}).encode())
c.process()
c.hello((2, 3), response_cb=lambda *a, **k: None)
m = json.loads(near.rx.pop(0))
h.eq((m["protocol-minimum-version"], m["protocol-maximum-version"]), (2, 3))
h.done()
""")

plant("c20-unsolicited", "C20", [(CL, """\
                self.notification_replies += 1
                if self.notification_replies > self.inform_queries:
                    raise ProtocolError("Received unsolicited track replies")
""", """\
                if self.notification_replies > self.inform_queries:
                    raise ProtocolError("Received unsolicited track replies")
                self.notification_replies += 1
""")], "one track reply more than there were queries", "it is not noticed", """
import h
import json
import paf.client
lst = h.Listener("ux:x")
c = paf.client.connect("ux:x", client_id=5, ready_cb=lambda: None, track=True)
near = lst.backlog[0]


def reply(**kw):
    near.send(json.dumps({k.replace("_", "-"): v
                          for k, v in kw.items()}).encode())
    c.process()


m = json.loads(near.rx.pop(0))
reply(ta_cmd="hello", ta_id=m["ta-id"], msg_type="complete",
      protocol_version=3)
m = json.loads(near.rx.pop(0))
h.eq(m["ta-cmd"], "track")
reply(ta_cmd="track", ta_id=m["ta-id"], msg_type="accept")
try:
    reply(ta_cmd="track", ta_id=m["ta-id"], msg_type="notify",
          track_type="reply")
    h.check(False, "ignored")
except paf.client.ProtocolError:
    pass
h.done()
""")

plant("c21-leading-tab", "C21", [(CL, r"""
        if c in ('\n', '\r', ' ', '\t'):
"""[1:], r"""
        if c in '\n ':
"""[1:])], "a JSON domain file which begins with a tab or a carriage return",
      "it is taken for a list of addresses", r"""
import h
import os
import tempfile
import paf.client
with tempfile.TemporaryDirectory() as d:
    os.environ["PAF_DOMAINS"] = d
    for s in ("\t", "\n \t", " "):
        with open(os.path.join(d, "x"), "w") as f:
            f.write(s + '{"servers": [{"address": "ux:a"}]}')
        h.eq([c.addr for c in paf.client.read_domain("x")], ["ux:a"])
h.done()
""")

plant("c24-repeated-prop", "C24", [(PC, """\
        service_props[args[i]].add(value)
""", """\
        service_props[args[i]] |= \\
            {value} if args[i] != args[i - 2] or i < 4 else set()
""")], "three values or more of the same property, in sequence",
      "all but the first two are lost", """
import h
import importlib.machinery
import importlib.util
l = importlib.machinery.SourceFileLoader("pafc", "app/pafc")
m = importlib.util.module_from_spec(importlib.util.spec_from_loader("pafc",
                                                                    l))
l.exec_module(m)
h.eq(dict(m.parse_props(["a", "1", "a", "2"])), {"a": {1, 2}})
h.eq(dict(m.parse_props(["a", "1", "a", "2", "a", "x", "b", "3"])),
     {"a": {1, 2, "x"}, "b": {3}})
h.done()
""")

plant("c25-m-with-args", "C25", [(DM, """\
            for addr in optval.split('+'):
                domain.append(addr)
            domains.append(domain)
""", """\
            for addr in optval.split('+'):
                if addr not in args:
                    domain.append(addr)
            if domain:
                domains.append(domain)
""")], "an address of a multi-socket domain which is also among the arguments",
      "the address is dropped from the domain, instead of being refused as a "
      "duplicate when bound", """
import h
import paf.daemon
import paf.logging
confs = []
paf.daemon.run = lambda conf, hook=None: confs.append(conf)
paf.logging.configure = lambda *a, **k: None
paf.daemon.main(["pafd", "-m", "ux:a+ux:b", "ux:b"])
h.eq(sorted([s.addr for s in d.sockets] for d in confs[0].domains),
     [["ux:a", "ux:b"], ["ux:b"]])
h.done()
""")

plant("c26-bin-nul", "C26", [(XC, """\
        return bytes(attr_value.raw)[:attr_len]
""", """\
        return bytes(attr_value.raw[:attr_len]).rstrip(b'\\0')
""")], "a binary attribute (like the subject key id) which ends with a zero",
      "the end of the value is lost", """
import ctypes
import os
import sys
sys.path.insert(0, os.getcwd())


class Fun:
    def __init__(self, f):
        self.f = f

    def __call__(self, *args):
        return self.f(*args)


class Lib:
    def __init__(self, *args, **kwargs):
        pass

    def __getattr__(self, name):
        if not name.startswith("xcm_"):
            raise AttributeError(name)
        f = Fun(getattr(self, "do" + name[3:], lambda *a: 0))
        setattr(self, name, f)
        return f

    def do_connect_a(self, addr, m):
        return 200

    def do_attr_get(self, s, name, t, buf, n):
        getattr(t, "_obj", t).value = 4
        v = self.value
        getattr(buf, "_obj", buf)[:len(v)] = v
        return len(v)


ctypes.CDLL = Lib
import paf.xcm
lib = paf.xcm.xcm_c
s = paf.xcm.connect("ux:x")
for v in (b"abc", b"a\\0b", b"ab\\0", b"\\0" * 20):
    lib.value = v
    got = s.get_attr("tls.peer_subject_key_id")
    if got != v:
        print("FAILED:", got, v)
        sys.stdout.flush()
        os._exit(1)
s.close()
""")

plant("c01-generation-zero", "C01", [(SD, """\
            with service.add() as change:
                change.generation = generation
                change.props = service_props
                change.ttl = ttl
""", """\
            with service.add() as change:
                change.generation = generation or 1
                change.props = service_props
                change.ttl = ttl
""")], "a service first published at generation 0", "it is listed at another "
      "generation than the one published, and may not be republished", """
import h
h.start()
a = h.Client(1)
a.publish(5, gen=0)
a.publish(6, gen=2)
h.eq({k: v["generation"] for k, v in a.services().items()}, {5: 0, 6: 2})
a.publish(5, gen=0)
h.done()
""")

plant("c18-rearm-first", "C18", [(SRV, """\
            for source in self.server_socks.keys():
                source.update(xcm.SO_ACCEPTABLE)

        if conn.handshaked:""", """\
            for source in list(self.server_socks.keys())[:2]:
                source.update(xcm.SO_ACCEPTABLE)

        if conn.handshaked:""")],
      "a domain with three sockets or more, whose client limit was reached and "
      "is so no longer", "the third socket stays deaf", """
import h
h.start("ux:s1", "ux:s2", "ux:s3",
        total={"clients": 1})
a = h.Client(1, addr="ux:s1")
waiting = [h.link("ux:s%d" % i, "ux:c") for i in (2, 3)]
h.run(0.5)
for far in waiting:
    far.close()
h.run(0.5)
a.close()
h.run(0.5)
h.run(0.5)
for i in (1, 2, 3):
    b = h.Client(10 + i, addr="ux:s%d" % i)
    b.close()
    h.run(0.1)
far = h.link("ux:s3", "ux:c")
c = h.Client(20, addr="ux:s1") if False else None
h.run(0.5)
h.check(not h.Net.listeners["ux:s3"].backlog, "nobody accepts")
h.done()
""")

plant("c02-late-subscriber", "C02", [(SD, """\
        for service in self.db.get_services():
            subscription.notify(ChangeType.ADDED, service)
""", """\
        for service in self.db.get_services():
            if service.is_orphan() and \\
               service.orphan_timeout() - time.time() < 1 and \\
               self.db.get_client(service.client_id()) is not self:
                # about to go away
                continue
            subscription.notify(ChangeType.ADDED, service)
""")], "a subscription made within the last second of the life of an orphan, "
      "which is then reclaimed", "the service is missing from the "
      "notifications, until it is reclaimed", """
import h
h.start()
a = h.Client(1)
a.publish(5, ttl=5)
b = h.Client(2)
a.close()
h.run(4.5)
t = b.subscribe(7)
h.eq(b.events(t), [("appeared", 5)])
h.done()
""")

plant("c03-orphan-same", "C03", [(SD, """\
                elif service.is_orphan():
                    # previous owner is back
                    self.capture_service(service)

                    with service.modify() as change:
                        change.orphan_since = None
""", """\
                elif service.is_orphan():
                    # previous owner is back
                    self.capture_service(service)

                    with service.modify() as change:
                        change.orphan_since = None
                        change.generation = generation + \\
                            (len(self.inactive_connections) > 1)
""")], "an owner back for the second time (with orphans of two earlier "
      "connections), which republishes at the same generation",
      "the generation changes, and the same publish then fails", """
import h
h.start()
a = h.Client(1)
for i in range(4):
    a.publish(i, ttl=50)
for keep in (3, 2, 1):
    a.close()
    a = h.Client(1)
    for i in range(keep):
        a.publish(i, ttl=50)
    h.eq({k: v["generation"] for k, v in a.services().items()},
         {k: 1 for k in range(4)})
h.done()
""")
