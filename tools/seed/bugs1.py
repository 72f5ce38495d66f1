from plant import plant

SD, SRV = "paf/sd.py", "paf/server.py"

plant("c01-unchanged-gen", "C01", [(SD, """\
                with service.modify() as change:
                    change.generation = generation
""", """\
                if service_props == service.props() and \\
                   ttl == service.ttl() and \\
                   self.client_id == service.client_id() and \\
                   not service.is_orphan():
                    # no actual change, so no need to bother subscribers
                    self.active()
                    return service

                with service.modify() as change:
                    change.generation = generation
""")], "a republish with a higher generation but the same owner, properties "
      "and TTL", "the directory (and subscribers) keep the old generation, "
      "and a later publish of an older generation is accepted", """
import h
h.start()
a = h.Client(1)
b = h.Client(2)
a.publish(7, 1, {"x": ["y", 5]}, 10)
a.publish(7, 5, {"x": ["y", 5]}, 10)
h.eq(b.services()[7]["generation"], 5, "generation")
a.fails("old-generation", "publish", service_id=7, generation=3,
        service_props={"x": ["y", 5]}, ttl=11)
h.done()
""")

plant("c02-matched-cache", "C02", [(SD, """\
        self.match_cb = match_cb

    def notify(self, change_type, service):
        if change_type == ChangeType.ADDED:
            if self.matches(service.props()):
                self.match_cb(self.sub_id, MatchType.APPEARED, service)
        elif change_type == ChangeType.MODIFIED:
            before = service.prev_props()
            after = service.props()
            if self.matches(before) and self.matches(after):
                self.match_cb(self.sub_id, MatchType.MODIFIED, service)
            elif not self.matches(before) and self.matches(after):
                self.match_cb(self.sub_id, MatchType.APPEARED, service)
            elif self.matches(before) and not self.matches(after):
                self.match_cb(self.sub_id, MatchType.DISAPPEARED, service)
        elif change_type == ChangeType.REMOVED:
            if self.matches(service.prev_props()):
                self.match_cb(self.sub_id, MatchType.DISAPPEARED, service)
""", """\
        self.match_cb = match_cb
        # ids of the services currently matching, to avoid having to
        # evaluate the filter for the previous generation again
        self.matching = set()

    def notify(self, change_type, service):
        before = service.service_id in self.matching
        if change_type == ChangeType.ADDED:
            if self.matches(service.props()):
                self.matching.add(service.service_id)
                self.match_cb(self.sub_id, MatchType.APPEARED, service)
        elif change_type == ChangeType.MODIFIED:
            after = self.matches(service.props())
            if before and after:
                self.match_cb(self.sub_id, MatchType.MODIFIED, service)
            elif after:
                self.matching.add(service.service_id)
                self.match_cb(self.sub_id, MatchType.APPEARED, service)
            elif before:
                self.matching.remove(service.service_id)
                self.match_cb(self.sub_id, MatchType.DISAPPEARED, service)
        elif change_type == ChangeType.REMOVED:
            if before:
                self.match_cb(self.sub_id, MatchType.DISAPPEARED, service)
""")], "a service which matched is unpublished and published anew, under the "
      "same id, with properties which do not match, and is then changed",
      "a subscriber sees 'modified' or 'disappeared' for a service that never "
      "appeared", """
import h
h.start()
a = h.Client(1)
b = h.Client(2)
sub = b.subscribe(9, filter="(k=v)")
h.eq(b.events(sub), [])
a.publish(7, 1, {"k": ["v"]})
a.ok("unpublish", service_id=7)
h.eq(b.events(sub), [("appeared", 7), ("disappeared", 7)])
a.publish(7, 1, {"k": ["other"]})
a.publish(7, 2, {"k": ["v"]})
h.eq(b.events(sub), [("appeared", 7), ("disappeared", 7), ("appeared", 7)])
h.done()
""")

plant("c03-subset-props", "C03", [(SD, """\
                if service_props != service.props() or ttl != service.ttl():
""", """\
                if ttl != service.ttl() or \\
                   any(values != service.props().get(key)
                       for key, values in service_props.items()):
""")], "a republish with the same generation which leaves out a property",
      "it succeeds, in spite of the properties being different, and the "
      "directory keeps the old ones", """
import h
h.start()
a = h.Client(1)
a.publish(7, 1, {"k": ["v"], "n": [1]})
a.publish(7, 1, {"k": ["v"], "n": [1]})
a.fails("same-generation-but-different", "publish", service_id=7,
        generation=1, service_props={"k": ["v"]}, ttl=10)
a.fails("same-generation-but-different", "publish", service_id=7,
        generation=1, service_props={}, ttl=10)
h.done()
""")

plant("c04-orphan-since-last-seen", "C04", [(SD, """\
                change.orphan_since = inactivated.disconnected_at
""", """\
                change.orphan_since = inactivated.last_seen
""")], "a client which has been silent for a while before its connection ends",
      "its services are said to be orphans since it was last heard of, and "
      "are removed too early", """
import h
h.start()
a = h.Client(1, version=2)
b = h.Client(2, version=2)
a.publish(7, 1, {}, 8)
h.run(1.2)
b.ok("ping")
t = h.Net.now
a.close()
s = b.services()[7]
h.check(abs(s["orphan-since"] - t) < 0.1, "orphan since", s, t)
h.run(7.5)
h.check(7 in b.services(), "removed early")
h.run(0.7)
h.check(7 not in b.services(), "not removed")
h.done()
""")

plant("c05-ipv6-user", "C05", [(SRV, """\
            ip = ip_port.rsplit(":", 1)[0]
""", """\
            ip = ip_port.split(":")[0]
""")], "clients connected from different IPv6 addresses",
      "all clients of the same first address group are taken to be the same "
      "user, and may change and remove each other's services", """
import h
h.start()
a = h.Client(1, remote="tcp:[2001:db8::1]:1000")
b = h.Client(2, remote="tcp:[2001:db8::2]:1000")
c = h.Client(3, remote="tcp:[2001:db8::1]:1001")
a.publish(7, 1, {}, 10)
b.fails("permission-denied", "unpublish", service_id=7)
b.fails("permission-denied", "publish", service_id=7, generation=2,
        service_props={}, ttl=10)
c.publish(7, 2, {}, 10)
h.done()
""")

plant("c06-total-after-user", "C06", [(SD, """\
        self.check_total(resource_type)
        if user_id not in self.consumers:
            self.consumers[user_id] = \\
                Consumer(user_id, self.max_user_resources)
        self.consumers[user_id].allocate(resource_type)
""", """\
        if user_id not in self.consumers:
            self.consumers[user_id] = \\
                Consumer(user_id, self.max_user_resources)
        consumer = self.consumers[user_id]
        total = self.total(resource_type)
        consumer.allocate(resource_type)
        self.check_total(resource_type, total)
"""), (SD, """\
    def check_total(self, resource_type):
        limit = self.max_total_resources[resource_type]
        if limit is not None and limit == self.total(resource_type):
""", """\
    def check_total(self, resource_type, total):
        limit = self.max_total_resources[resource_type]
        if limit is not None and limit == total:
""")], "both limits configured, and a request which is refused because of the "
      "total limit", "each refused request consumes quota of the user (and of "
      "the total) which is never returned", """
import h
h.start(user={"services": 3}, total={"services": 3})
a = h.Client(1, remote="tcp:1.1.1.1:5")
b = h.Client(2, remote="tcp:1.1.1.2:5")
for i in range(3):
    a.publish(i)
for i in range(3):
    b.fails("insufficient-resources", "publish", service_id=10 + i,
            generation=1, service_props={}, ttl=10)
for i in range(3):
    a.ok("unpublish", service_id=i)
for i in range(3):
    b.publish(10 + i)
h.done()
""")

plant("c07-int-equal", "C07", [("paf/filter.py", """\
            return self.value == str(value)
""", """\
            try:
                return int(self.value) == value
            except ValueError:
                return False
""")], "an integer property compared to something which is an integer but not "
      "in its decimal form, like '007' or '+7'", "services match which should "
      "not", """
import paf.filter as f
from paf.filter import parse
assert parse("(a=7)").match({"a": {7}})
assert parse("(a=-7)").match({"a": {"x", -7}})
assert parse("(a=007)").match({"a": {"007"}})
for s in ("007", "+7", "7 ", "0_7", "-07"):
    assert not parse("(a=%s)" % s).match({"a": {7, -7}}), s
""")

plant("c08-substring-print", "C08", [("paf/filter.py", """\
            s += "%s%s" % (escape(im), ANY)
""", """\
            s += "%s%s" % (im, ANY)
""")], "a substring filter with a special character in a middle part",
      "the printed form (in subscription listings) does not parse, or means "
      "something else", """
from paf.filter import parse
for s in ("(a=x*y*z)", "(a=*\\\\(*)", "(a=x*y\\\\*z*w)", "(a=*\\\\\\\\\\\\=*)",
          "(!(a=*\\\\&*b))"):
    f = parse(s)
    p = str(f)
    assert str(parse(p)) == p
    for v in ("xyz", "(", "xy*zw", "xy1zw", "xyzw", "\\\\=", "=", "&b"):
        assert f.match({"a": {v}}) == parse(p).match({"a": {v}}), (s, v)
""")

plant("c09-zero-optional", "C09", [("paf/proto.py", """\
                if opt_value is not None:
                    opt_field.put(opt_value, out_msg)
                del optargs[opt_name]
""", """\
                if opt_value:
                    opt_field.put(opt_value, out_msg)
                del optargs[opt_name]
""")], "an optional field with the value zero, or no properties",
      "it is left out of the message: notifications lack the generation, TTL "
      "or properties", """
import h
h.start()
a = h.Client(0)
b = h.Client(2)
sub = b.subscribe(9)
a.publish(7, 0, {}, 0)
h.run()
m = b.get(sub)[-1]
h.check(m.get("match-type") == "appeared", m)
h.eq((m.get("generation"), m.get("service-props"), m.get("ttl"),
      m.get("client-id")), (0, {}, 0, 0))
h.done()
""")

plant("c10-eager-send", "C10", [(SRV, """\
        self.out_wire_msgs.append(out_wire_msg)
        self.update_source()

    def configure""", """\
        self.out_wire_msgs.append(out_wire_msg)
        if len(self.out_wire_msgs) == 1:
            # nothing is in the way, so spare the event loop a round
            self.try_send()
        self.update_source()

    def configure""")], "a subscriber whose connection fails on send, before "
      "the server has noticed, at the time another client publishes",
      "the publisher is disconnected instead of the subscriber", """
import errno
import h
h.start()
a = h.Client(1)
b = h.Client(2)
sub = b.subscribe(9)
h.eq(b.events(sub), [])
b.sock.peer.send_error = errno.ECONNRESET
ta = a.send("publish", service_id=7, generation=1, service_props={}, ttl=10)
h.run()
r = a.get(ta)
h.check(r and r[-1]["msg-type"] == "complete", "publisher got", r)
h.check(a.alive(), "publisher disconnected")
h.check(not b.alive())
h.check(7 in a.services())
h.done()
""")

plant("c11-fail-terminate", "C11", [(SRV, """\
        self.state = TransactionState.FAILED

        self.terminate()

        return self.response(proto.MSG_TYPE_FAIL,
""", """\
        self.state = TransactionState.FAILED

        return self.response(proto.MSG_TYPE_FAIL,
""")], "a request which fails, followed by one using the same transaction id",
      "the transaction id can't be used again: the connection is dropped, or "
      "the server fails on an assertion", """
import h
h.start()
a = h.Client(1)
for i in range(3):
    ta = a.send("unpublish", ta_id=50, service_id=99)
    h.run()
    h.check(a.alive(), "dropped")
    h.eq([m["msg-type"] for m in a.get(50)], ["fail"] * (i + 1))
h.done()
""")

plant("c12-domain-min", "C12", [("paf/conf.py", """\
        max_version = min(client_version_max, self.version_max)
        min_version = max(client_version_min, self.version_min)

        if min_version <= max_version:
            return max_version
""", """\
        max_version = min(client_version_max, self.version_max)

        if client_version_min <= max_version and \\
           max_version >= proto.MIN_VERSION:
            return max_version
""")], "a domain configured for version 3 only, and a client supporting only "
      "version 2", "the client is let in with a version the domain does not "
      "permit", """
import h
h.start(versions=(3, 3))
a = h.Client(1, hello=False)
a.fails("unsupported-protocol-version", "hello", client_id=1,
        protocol_minimum_version=2, protocol_maximum_version=2)
a.ok("hello", client_id=1, protocol_minimum_version=2,
     protocol_maximum_version=3)
h.done()
""")

plant("c13-unpublish-idle", "C13", [(SD, """\
        self.remove_service(service)

        # give opportunity to recalcute idle timer based on changed TTL
        self.active()
""", """\
        self.remove_service(service)
""")], "a client which unpublishes its service with the lowest TTL, and is "
      "then silent", "the client is disconnected according to the TTL of the "
      "service it no longer owns", """
import h
h.start(idle=(4, 60))
a = h.Client(1)
a.publish(7, 1, {}, 5)
a.ok("unpublish", service_id=7)
h.run(50)
h.check(a.alive(), "timed out early")
h.run(20)
h.check(not a.alive(), "not timed out")
h.done()
""")

plant("c14-tentative-timer", "C14", [(SD, """\
        self.disconnected_at = time.time()
        self.uninstall_idle_timer()
""", """\
        self.disconnected_at = time.time()
        if self.idle_state == IdleState.ACTIVE:
            self.uninstall_idle_timer()
""")], "a client which disconnects after it was found idle (past half its "
      "maximum idle time), but before it timed out",
      "the idle timer of the old connection remains, and when it fires, "
      "either ends the client's new connection or crashes the server", """
import h
h.start(idle=(4, 10))
a = h.Client(1)
b = h.Client(2, version=2)
h.run(7)
a.close()
a = h.Client(1)
for i in range(6):
    h.run(1)
    a.ok("ping")
    h.check(a.alive(), "new connection dropped")
    b.ok("ping")
a.close()
h.run(30)
b.ok("ping")
h.done()
""")

plant("c15-batch-expiry", "C15", [("paf/timer.py", """\
        changed = False

        while len(self.deque) > 0:
            candidate = self.deque[0]

            if now < candidate.expiration_time:
                break

            self.deque.popleft()
            candidate.handler()

            changed = True

        if changed:
            self.next_timeout_changed()
""", """\
        expired = []

        while len(self.deque) > 0:
            candidate = self.deque[0]

            if now < candidate.expiration_time:
                break

            expired.append(self.deque.popleft())

        for timer in expired:
            timer.handler()

        if len(expired) > 0:
            self.next_timeout_changed()
"""), ("paf/timer.py", """\
        if timer is self.deque[0]:
            self.deque.popleft()
            self.next_timeout_changed()
        else:
            self.deque.remove(timer)
""", """\
        if len(self.deque) > 0 and timer is self.deque[0]:
            self.deque.popleft()
            self.next_timeout_changed()
        elif timer in self.deque:
            self.deque.remove(timer)
""")], "a timer handler which cancels another timer which has also expired",
      "the cancelled timer fires", """
import time
import paf.timer
now = [100.0]
time.time = lambda: now[0]
fired = []
m = paf.timer.TimerManager()
timers = {}


def a():
    fired.append("a")
    m.remove(timers["b"])


timers["a"] = m.add(a, 101)
timers["b"] = m.add(lambda: fired.append("b"), 102)
timers["c"] = m.add(lambda: fired.append("c"), 103)
now[0] = 110.0
m.process()
assert fired == ["a", "c"], fired
""")

plant("c16-preresolved", "C16", [("paf/eventloop.py", """\
                source = self.fd_source.get(fd)
                if source is None:
                    continue
                handler = self.source_handler[source]
                handler()
""", """\
                handler = ready.get(fd)
                if handler is not None:
                    handler()
"""), ("paf/eventloop.py", """\
        for fd, event in fds:
            if fd == self.s_rfd:
""", """\
        ready = {fd: self.source_handler[self.fd_source[fd]]
                 for fd, _ in fds if fd in self.fd_source}
        for fd, event in fds:
            if fd == self.s_rfd:
""")], "two descriptors ready at the same time, and the handler of the first "
      "removing the source of the second",
      "the handler of a removed source is invoked", """
import os
import select
import paf.eventloop as ev
loop = ev.EventLoop()
called = []
pairs = [os.pipe() for i in range(3)]
srcs = []
removed = []


def handler(i):
    def fun():
        called.append(i)
        assert srcs[i] not in removed, "removed source invoked"
        for s in srcs:
            loop.remove(s)
            removed.append(s)
        loop.stop()
    return fun


for i, (r, w) in enumerate(pairs):
    s = ev.Source()
    s.set_fd(r, select.EPOLLIN)
    srcs.append(s)
    loop.add(s, handler(i))
    os.write(w, b"x")
loop.run()
assert len(called) == 1, called
""")

plant("c17-requeue-last", "C17", [(SRV, """\
                self.out_wire_msgs.appendleft(out_wire_msg)
""", """\
                self.out_wire_msgs.append(out_wire_msg)
                break
""")], "a slow client with several messages queued, of which the transport "
      "accepts only some at a time", "messages are delivered out of order",
      """
import h
h.start()
a = h.Client(1)
for i in range(10):
    a.publish(i)
b = h.Client(2)
b.sock.peer.window = 0
ta = b.send("services")
h.run()
for i in range(6):
    b.sock.peer.window = 3
    h.run()
r = b.get(ta)
h.eq([m["msg-type"] for m in r],
     ["accept"] + ["notify"] * 10 + ["complete"])
h.eq([m["service-id"] for m in r[1:-1]], list(range(10)))
h.done()
""")

plant("c18-batch-hoist", "C18", [(SRV, """\
        for source, sock in self.server_socks.items():
            if self.max_clients_reached():
                sock.finish()
                source.update(0)
            else:
                batch_size = self.client_capacity_left()
                if batch_size is None or batch_size > MAX_ACCEPT_BATCH:
                    batch_size = MAX_ACCEPT_BATCH
                for i in range(batch_size):
""", """\
        batch_size = self.client_capacity_left()
        if batch_size is None or batch_size > MAX_ACCEPT_BATCH:
            batch_size = MAX_ACCEPT_BATCH
        for source, sock in self.server_socks.items():
            if self.max_clients_reached():
                sock.finish()
                source.update(0)
            else:
                for i in range(batch_size):
""")], "a domain with two sockets, both having waiting connections when there "
      "is room for only some of them", "more connections than the limit are "
      "accepted, and the limit is not enforced from then on", """
import h
h.start("ux:s1", "ux:s2", total={"clients": 3})
a = h.Client(1, addr="ux:s1")
far = [h.link("ux:s1", "ux:c"), h.link("ux:s2", "ux:c"),
       h.link("ux:s2", "ux:c"), h.link("ux:s2", "ux:c")]
h.run()
waiting = sum(len(s.backlog) for s in h.Net.listeners.values())
h.eq(waiting, 2, "waiting")
h.done()
""")

plant("c19-version-carryover", "C19", [("paf/conf.py", """\
    for domain_num, domain in enumerate(domains):
        domain_path""", """\
    version_min = proto.MIN_VERSION
    version_max = proto.MAX_VERSION

    for domain_num, domain in enumerate(domains):
        domain_path"""), ("paf/conf.py", """\
        version_min = proto.MIN_VERSION
        version_max = proto.MAX_VERSION

        version = dict""", """\
        version = dict""")], "two or more domains, of which a later one does "
      "not specify the protocol versions and an earlier one does",
      "the later domain gets the version limits of the earlier", """
import os
import sys
import tempfile
import logging.handlers
import paf.conf
with tempfile.NamedTemporaryFile("w", suffix=".yaml") as f:
    f.write(\"\"\"
domains:
- name: a
  sockets: [ux:a]
  protocol_version:
    max: 2
- name: b
  sockets: [ux:b]
\"\"\")
    f.flush()
    c = paf.conf.load(f.name)
r = [(d.proto_version_limit.version_min, d.proto_version_limit.version_max)
     for d in c.domains]
assert r == [(2, 2), (2, 3)], r
""")

plant("c20-direct-send", "C20", [("paf/client.py", """\
        out_wire_msg = request_msg.to_wire()
        self.out_wire_msgs.append(out_wire_msg)
        self.transactions[ta_id] = transaction
        self.try_send()
        return ta_id
""", """\
        out_wire_msg = request_msg.to_wire()
        self.transactions[ta_id] = transaction
        try:
            self.conn_sock.send(out_wire_msg)
        except xcm.error as e:
            if e.errno != errno.EAGAIN:
                raise TransportError(str(e))
            self.out_wire_msgs.append(out_wire_msg)
        self.update()
        return ta_id
""")], "requests issued while earlier ones are still queued, and the transport "
      "becoming ready in between", "requests are sent out of order", """
import h
import json
import paf.client
lst = h.Listener("ux:x")
ready = []
c = paf.client.connect("ux:x", client_id=5, ready_cb=lambda: ready.append(1))
near = lst.backlog[0]
m = json.loads(near.rx.pop(0))
near.send(json.dumps({"ta-cmd": "hello", "ta-id": m["ta-id"],
                      "msg-type": "complete",
                      "protocol-version": 3}).encode())
c.process()
assert ready
cb = lambda *a, **k: None
c.conn_sock.window = 0
c.publish(1, 1, {}, 1, cb)
c.publish(2, 1, {}, 1, cb)
c.conn_sock.window = 100
c.publish(3, 1, {}, 1, cb)
c.process()
h.eq([json.loads(x)["service-id"] for x in near.rx], [1, 2, 3])
h.done()
""")

plant("c21-inline-comment", "C21", [("paf/client.py", """\
        addr = line.strip()
        if len(addr) == 0 or addr[0] == '#':
            continue
""", """\
        addr = line.split('#')[0].strip()
        if len(addr) == 0:
            continue
""")], "an address with a '#' in it, in a plain-text domain file",
      "the address is cut short", """
import os
import tempfile
import h
import paf.client
with tempfile.TemporaryDirectory() as d:
    os.environ["PAF_DOMAINS"] = d
    with open(os.path.join(d, "dom"), "w") as f:
        f.write("# comment\\n\\n  ux:one \\nuxf:/run/paf#2\\n \\n#x\\ntcp:h:1\\n")
    h.eq([s.addr for s in paf.client.read_domain("dom")],
         ["ux:one", "uxf:/run/paf#2", "tcp:h:1"])
h.done()
""")

plant("c22-own-version", "C22", [(SRV, """\
                                int(conn.connect_time), idle_time,
                                conn.proto_version, **optargs)
""", """\
                                int(conn.connect_time), idle_time,
                                self.proto_version, **optargs)
""")], "clients of different protocol versions", "all clients are listed as "
      "using the version of the client asking", """
import h
h.start()
a = h.Client(1)
b = h.Client(2, version=2)
h.eq({c: m["protocol-version"] for c, m in a.clients().items()}, {1: 3, 2: 2})
h.done()
""")

plant("c23-shared-consumers", "C23", [(SD, """\
class ResourceManager:
    def __init__(self, max_user_resources, max_total_resources):
        self.max_user_resources = max_user_resources
        self.max_total_resources = max_total_resources
        self.consumers = {}
""", """\
class ResourceManager:
    consumers = {}

    def __init__(self, max_user_resources, max_total_resources):
        self.max_user_resources = max_user_resources
        self.max_total_resources = max_total_resources
""")], "two domains in one process, and resource limits",
      "the resource usage in one domain counts against the limits of another",
      """
import h
h.start("ux:d1", name="one", user={"services": 2})
h.start("ux:d2", name="two", user={"services": 2})
a = h.Client(1, addr="ux:d1")
b = h.Client(1, addr="ux:d2")
for c in (a, b):
    c.publish(1)
    c.publish(2)
    c.fails("insufficient-resources", "publish", service_id=3, generation=1,
            service_props={}, ttl=10)
h.done()
""")


plant("c27-repeat-notifies", "C27", [(SD, """\
                elif service.is_orphan():
                    # previous owner is back
                    self.capture_service(service)

                    with service.modify() as change:
                        change.orphan_since = None
""", """\
                else:
                    if service.is_orphan():
                        # previous owner is back
                        self.capture_service(service)

                    with service.modify() as change:
                        change.orphan_since = None
""")], "a client republishing a service unchanged, with a subscriber present",
      "subscribers are notified of a modification although nothing has "
      "changed", """
import h
h.start()
a = h.Client(1)
b = h.Client(2)
sub = b.subscribe(9)
a.publish(7, 1, {"a": [1]}, 10)
a.publish(7, 1, {"a": [1]}, 10)
a.publish(7, 1, {"a": [1]}, 10)
h.eq(b.events(sub), [("appeared", 7)])
h.done()
""")
