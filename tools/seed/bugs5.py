"""A fifth set of planted bugs; see plant.py."""
from plant import plant

SD, SRV, CL, EL, PR = ("paf/sd.py", "paf/server.py", "paf/client.py",
                           "paf/eventloop.py", "paf/props.py")

plant("c14-refused-hello", "C14", [(SD, """\
        self.resource_manager.allocate(self.user_id, ResourceType.CLIENT)

        self.db.add_client(self)

        self.active_connection""", """\
        self.db.add_client(self)

        self.resource_manager.allocate(self.user_id, ResourceType.CLIENT)

        self.active_connection""")],
      "a hello refused for lack of resources, and after it a client of "
      "another user with the same client id",
      "what was never connected is remembered: the client id stays bound to "
      "the user whose hello was refused", """
import h
h.start(user={"clients": 1})
a = h.Client(1, remote="tcp:1.1.1.1:7")
b = h.Client(remote="tcp:1.1.1.1:8")
h.eq(b.hello(2)[-1].get("fail-reason"), "insufficient-resources")
b.close()
c = h.Client(remote="tcp:2.2.2.2:8")
h.eq(c.hello(2)[-1]["msg-type"], "complete")
h.done()
""")

plant("c18-deaf-socket", "C18", [(SRV, """\
                        if e.errno != errno.EAGAIN:
                            self.debug("Error accepting client: %s" % e,
                                       LogCategory.PROTOCOL)
                        break
""", """\
                        if e.errno != errno.EAGAIN:
                            self.debug("Error accepting client: %s" % e,
                                       LogCategory.PROTOCOL)
                            return
                        break
""")], "a domain with several sockets, the accept of the first one failing "
      "for a while", "clients waiting at the other sockets aren't accepted",
      """
import h
h.start("ux:one", "ux:two")
l = h.Net.listeners["ux:one"]
h.link("ux:one", "ux:client")


def accept(attrs={}):
    raise h.err(24)


l.accept = accept
s = h.link("ux:two", "ux:client")
# every round of the loop ends with the clients being looked for again
n = [0]
poll = h.Net.loop.epoll.poll


def limited(timeout=None, maxevents=-1):
    n[0] += 1
    if n[0] > 20:
        h.Net.loop.stop()
        return []
    return poll(timeout, maxevents)


h.Net.loop.epoll.poll = limited
h.run()
h.eq(h.Net.listeners["ux:two"].backlog, [])
h.done()
""")

plant("c21-special-files", "C21", [(CL, """\
        if os.path.isfile(os.path.join(d, f)):
""", """\
        if not os.path.isdir(os.path.join(d, f)):
""")], "a domains directory with something in it which is neither a regular "
      "file nor a directory (a socket, a dangling link)",
      "it is listed as a domain", """
import h
import tempfile
import os
import shutil
import paf.client
d = tempfile.mkdtemp()
try:
    open(os.path.join(d, "one"), "w").close()
    os.mkdir(os.path.join(d, "two"))
    os.mkfifo(os.path.join(d, "three"))
    os.symlink(os.path.join(d, "nowhere"), os.path.join(d, "four"))
    os.environ["PAF_DOMAINS"] = d
    got = sorted(paf.client.list_domains())
finally:
    shutil.rmtree(d)
h.eq(got, ["one"])
h.done()
""")

plant("c16-mask-change", "C16", [(EL, """\
        if self.fd != fd or self.mask != mask:
            self.fd = fd
            self.mask = mask
            self.dispatch_changed_fd()
""", """\
        if self.fd != fd:
            self.fd = fd
            self.dispatch_changed_fd()
        self.mask = mask
"""), (EL, """\
            self.fd = None
            self.mask = None
            self.dispatch_changed_fd()
""", """\
            self.fd = None
            self.dispatch_changed_fd()
            self.mask = None
""")], "a source with an own descriptor, for which other events are asked for "
      "than before", "the source isn't dispatched for them", """
import os
import select
import sys
sys.path.insert(0, os.getcwd())
import paf.eventloop as el
loop = el.EventLoop()
r, w = os.pipe()
s = el.Source()
s.set_fd(w, 0)
n = []


def fired():
    n.append(1)
    loop.stop()


loop.add(s, fired)
t = el.Source()
t.set_timeout(__import__("time").time() + 0.5)
loop.add(t, loop.stop)
s.set_fd(w, select.EPOLLOUT)
loop.run()
ok = len(n) == 1
print("ok" if ok else "FAILED: not dispatched")
sys.stdout.flush()
os._exit(0 if ok else 1)
""")

plant("c20-read-gated", "C20", [(CL, """\
            if not self.try_send():
                break
        for i""", """\
            if not self.try_send():
                break
        if len(self.out_wire_msgs) > 0:
            # out of space
            return
        for i""")], "responses arriving while the transport doesn't take more "
      "requests (as when the server doesn't read from a client it has many "
      "messages for)", "they aren't delivered; with a throttled client, for "
      "ever", """
import h
import json
import paf.client
lst = h.Listener("ux:x")
c = paf.client.connect("ux:x", client_id=5, ready_cb=lambda: None)
near = lst.backlog[0]
m = json.loads(near.rx.pop(0))
near.send(json.dumps({"ta-cmd": "hello", "ta-id": m["ta-id"],
                      "msg-type": "complete",
                      "protocol-version": 3}).encode())
c.process()
got = []
c.ping(lambda ta_id, ev, *a, **k: got.append(ev.name))
m = json.loads(near.rx.pop(0))
c.conn_sock.window = 0
c.ping(lambda *a, **k: None)
near.send(json.dumps({"ta-cmd": "ping", "ta-id": m["ta-id"],
                      "msg-type": "complete"}).encode())
c.process()
h.eq(got, ["COMPLETE"])
h.done()
""")

plant("c22-zero-latency", "C22", [(SRV, """\
            if conn.is_tracked():
                optargs["latency"] = conn.track_latency
""", """\
            if conn.is_tracked() and conn.track_latency:
                optargs["latency"] = conn.track_latency
"""), (SRV, """\
            self.track_latency = time.time() - self.track_query_ts
""", """\
            self.track_latency = \\
                round(time.time() - self.track_query_ts, 2)
""")], "a client which answers a track query within five milliseconds",
      "its latency isn't listed (or not as it was)", """
import h
h.start(idle=(4, 4))
a = h.Client(1)
ta = a.send("track")
while len(a.get(ta)) < 2:
    h.run(0.001)
h.Net.now += 0.001
a.send("track", ta_id=ta, msg_type="inform", track_type="reply")
h.run()
l = a.clients()[1].get("latency")
h.check(l is not None and 0.0009 < l < 0.003, l)
h.done()
""")

plant("c23-shared-timers", "C23", [(SD, """\
class ServiceDiscovery:
    def __init__""", """\
class ServiceDiscovery:
    orphan_timers = {}

    def __init__"""), (SD, """\
        self.db = DB()
        self.orphan_timers = {}
""", """\
        self.db = DB()
""")], "services with the same id being orphans in two domains of a process "
      "at a time", "the expiry in one domain takes the timer of the other",
      """
import h
h.start("ux:a", name="a", idle=(30, 30))
h.start("ux:b", name="b", idle=(30, 30))
a, b = h.Client(1, addr="ux:a"), h.Client(1, addr="ux:b")
a.publish(5, ttl=5)
b.publish(5, ttl=5)
a.close()
h.run(2)
b.close()
a, b = h.Client(2, addr="ux:a"), h.Client(2, addr="ux:b")
try:
    h.run(1)
    h.eq((list(a.services()), list(b.services())), ([5], [5]))
    h.run(2.5)
    h.eq((list(a.services()), list(b.services())), ([], [5]))
    h.run(2)
    h.eq((list(a.services()), list(b.services())), ([], []))
except KeyError as e:
    h.check(False, "server failed", e)
h.done()
""")

plant("c24-digit-print", "C24", [(PR, """\
            if isinstance(value, str):
                kvs.append("'%s': '%s'" % (key, value))
            else:
                kvs.append("'%s': %d" % (key, value))
""", """\
            if str(value).isdigit():
                kvs.append("'%s': %s" % (key, value))
            else:
                kvs.append("'%s': '%s'" % (key, value))
""")], "a property with a string value that consists of digits, or a "
      "negative number", "it is printed as if it were of the other type", """
import h
import paf.props
h.eq(paf.props.to_str({"a": {"12"}}), "{'a': '12'}")
h.eq(paf.props.to_str({"a": {-3}}), "{'a': -3}")
h.done()
""")

plant("c03-failed-takeover", "C03", [(SD, """\
            if generation == service.generation():
                if service_props""", """\
            if generation == service.generation():
                prev_client_id = service.client_id()

                if prev_client_id != self.client_id:
                    self.capture_service(service)

                if service_props"""), (SD, """\
                prev_client_id = service.client_id()

                if prev_client_id != self.client_id:
                    self.capture_service(service)

                    with""", """\
                if prev_client_id != self.client_id:
                    with""")],
      "a client publishing, with another content but the same generation, a "
      "service of another client of its user, and disconnecting after that",
      "the failed publish has the service depend on another connection", """
import h
h.start(idle=(60, 60))
a, b, c = h.Client(1), h.Client(2), h.Client(3)
a.publish(5, 1, {"x": [1]}, 40)
b.fails("same-generation-but-different", "publish", service_id=5,
        generation=1, service_props={"x": [2]}, ttl=40)
try:
    b.close()
    h.eq(c.services()[5].get("orphan-since"), None)
    a.publish(5, 2, {"x": [1]}, 40)
    a.close()
    h.check("orphan-since" in c.services()[5])
except (AttributeError, KeyError, AssertionError) as e:
    h.check(False, "server failed", e)
h.done()
""")

plant("c28-drain-first", "C28", [(SRV, """\
        try:
            in_wire_msg = self.conn_sock.receive()
            if len(in_wire_msg) == 0:
                raise xcm.error(0, "Connection closed")
            self.debug("Received message: %s" % in_wire_msg,
                       LogCategory.PROTOCOL)
            self.process(in_wire_msg)
        except xcm.error as e:
            if e.errno != errno.EAGAIN:
                raise
""", """\
        in_wire_msgs = []
        try:
            while len(in_wire_msgs) < MAX_RECEIVE_BATCH:
                in_wire_msg = self.conn_sock.receive()
                if len(in_wire_msg) == 0:
                    raise xcm.error(0, "Connection closed")
                self.debug("Received message: %s" % in_wire_msg,
                           LogCategory.PROTOCOL)
                in_wire_msgs.append(in_wire_msg)
        except xcm.error as e:
            if e.errno != errno.EAGAIN:
                raise
        for in_wire_msg in in_wire_msgs:
            self.process(in_wire_msg)
"""), (SRV, """\
MAX_SEND_BATCH = 64
""", """\
MAX_SEND_BATCH = 64
MAX_RECEIVE_BATCH = 4
""")], "a client which ends right after having sent requests, so that they "
      "are read together with the end of the connection",
      "what it published last is lost, instead of being left as orphans", """
import h
h.start(idle=(60, 60))
a, b = h.Client(1), h.Client(2)
a.send("publish", service_id=5, generation=1, service_props={}, ttl=40)
a.close()
h.eq(sorted(b.services()), [5])
h.done()
""")

plant("c06-exists-leak", "C06", [(SD, """\
        if self.db.has_subscription(sub_id):
            raise AlreadyExistsError("subscription", sub_id)

        self.resource_manager.allocate(self.user_id,
                                       ResourceType.SUBSCRIPTION)

""", """\
        self.resource_manager.allocate(self.user_id,
                                       ResourceType.SUBSCRIPTION)

        if self.db.has_subscription(sub_id):
            raise AlreadyExistsError("subscription", sub_id)

""")], "a subscription which fails since its id is taken",
      "the quota of the failed subscription is never returned", """
import h
h.start(user={"subscriptions": 2}, idle=(60, 60))
a = h.Client(1)
a.subscribe(5)
a.fails("subscription-id-exists", "subscribe", subscription_id=5)
ta = a.subscribe(6)
h.run()
h.eq([m["msg-type"] for m in a.get(ta)], ["accept"])
h.done()
""")
