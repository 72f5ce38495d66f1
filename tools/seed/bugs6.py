"""A sixth set of planted bugs; see plant.py."""
from plant import plant

SD, SRV, CL, EL, PR, CF, DM, FI, PC = (
    "paf/sd.py", "paf/server.py", "paf/client.py", "paf/eventloop.py",
    "paf/proto.py", "paf/conf.py", "paf/daemon.py", "paf/filter.py",
    "app/pafc")

plant("c17-receive-batch", "C17", [(SRV, """\
        try:
            in_wire_msg = self.conn_sock.receive()
            if len(in_wire_msg) == 0:
                raise xcm.error(0, "Connection closed")
            self.debug("Received message: %s" % in_wire_msg,
                       LogCategory.PROTOCOL)
            self.process(in_wire_msg)
        except""", """\
        try:
            for i in range(MAX_RECEIVE_BATCH):
                in_wire_msg = self.conn_sock.receive()
                if len(in_wire_msg) == 0:
                    raise xcm.error(0, "Connection closed")
                self.debug("Received message: %s" % in_wire_msg,
                           LogCategory.PROTOCOL)
                self.process(in_wire_msg)
        except"""), (SRV, """\
MAX_SEND_BATCH = 64
""", """\
MAX_SEND_BATCH = 64
MAX_RECEIVE_BATCH = 4
""")], "a client with several requests under way, of which one has more than "
      "128 responses", "further requests are read with 128 messages queued",
      """
import h
h.start(idle=(60, 60))
a = h.Client(1)
for i in range(140):
    a.publish(i)
a.sock.peer.window = 0
a.send("services")
for i in range(3):
    a.send("ping")
h.run()
h.eq(len(a.sock.peer.rx), 3)
h.done()
""")

plant("c02-owner-only", "C02", [(SD, """\
        elif change_type == ChangeType.MODIFIED:
            before = service.prev_props()
            after = service.props()
            if""", """\
        elif change_type == ChangeType.MODIFIED:
            before = service.prev_props()
            after = service.props()
            if service.generation() == service.prev_generation() and \\
               service.is_orphan() == service.was_orphan():
                # nothing about the service itself has changed
                return
            if""")], "a service which isn't an orphan taken over by another "
      "client of its user, at the same generation",
      "subscribers aren't told the new owner", """
import h
h.start(idle=(60, 60))
a, b, c = h.Client(1), h.Client(2), h.Client(3)
a.publish(5)
ta = c.subscribe(9)
h.run()
b.publish(5)
h.eq(c.events(ta), [("appeared", 5), ("modified", 5)])
h.eq(c.get(ta)[-1]["client-id"], 2)
h.done()
""")

plant("c05-ski-digits", "C05", [(SRV, """\
                subject_key_id_s = \\
                    ":".join(["%02x" % b for b in subject_key_id])
""", """\
                subject_key_id_s = \\
                    "".join(["%x" % b for b in subject_key_id])
""")], "certificates with key identifiers that differ in where a zero digit "
      "is", "different users are taken for the same one", """
import h
h.start(idle=(60, 60))
a = h.Client(1, remote="tls:1.1.1.1:7", ski=b"\\x01\\x23\\x45")
b = h.Client(2, remote="tls:1.1.1.1:8", ski=b"\\x12\\x03\\x45")
a.publish(5)
b.fails("permission-denied", "unpublish", service_id=5)
h.done()
""")

plant("c19-first-document", "C19", [(CF, """\
            source = yaml.safe_load(f)
""", """\
            source = next(yaml.safe_load_all(f))
""")], "a file with more than one YAML document in it",
      "what follows the first one is left out without notice", """
import h
import os
import tempfile
import paf.conf
fd, name = tempfile.mkstemp()
os.write(fd, b"domains:\\n- sockets: [ 'ux:a' ]\\n---\\nlog:\\n  syslog: false\\n")
os.close(fd)
try:
    paf.conf.load(name)
    bad = True
except paf.conf.Error:
    bad = False
os.unlink(name)
h.check(not bad, "accepted")
h.done()
""")

plant("c25-partial-domains", "C25", [(DM, """\
            server = paf.server.create(domain.name, domain.sockets, user,
                                       total, domain.proto_version_limit,
                                       domain.idle_limit, event_loop)
            servers.append(server)
""", """\
            try:
                server = paf.server.create(domain.name, domain.sockets, user,
                                           total, domain.proto_version_limit,
                                           domain.idle_limit, event_loop)
                servers.append(server)
            except OSError:
                exception("Unable to instantiate domain.")
        if len(servers) == 0:
            raise Exception("No domain left.")
""")], "several domains, with some (but not all) of the addresses not usable",
      "the server runs without these", """
import h
import paf.daemon
import paf.conf
made = []


class Loop:
    def run(self):
        made.append("served")


def create(name, sockets, *args):
    if sockets[0].addr == "ux:b":
        raise OSError(98, "Address already in use")
    made.append(name)

    class S:
        def terminate(self):
            pass

        def close_server_socks(self):
            pass
    return S()


paf.server.create = create
paf.eventloop.EventLoop = Loop
c = paf.conf.Conf()
c.add_domain("a").add_socket("ux:a")
c.add_domain("b").add_socket("ux:b")
try:
    paf.daemon.run(c)
except SystemExit as e:
    h.check(e.code, "exit status", e.code)
h.eq(made, ["a"])
h.done()
""")

plant("c21-first-word", "C21", [(CL, """\
        addr = line.strip()
        if len(addr) == 0 or addr[0] == '#':
            continue
        servers.append(ServerConf(addr))
""", """\
        words = line.split()
        if len(words) == 0 or words[0][0] == '#':
            continue
        servers.append(ServerConf(words[0]))
""")], "an address with a space in it, in a plain-text domain file",
      "it is cut", """
import h
import paf.client
h.eq([s.addr for s in paf.client.parse_domain_custom("ux:/tmp/a b\\n")],
     ["ux:/tmp/a b"])
h.done()
""")

plant("c09-null-optional", "C09", [(PR, """\
            for field in opt_fields:
                arg = field.pull(in_msg, opt=True)
                if arg is not None:
""", """\
            for field in opt_fields:
                if in_msg.get(field.name, 0) is None:
                    # left out
                    del in_msg[field.name]
                arg = field.pull(in_msg, opt=True)
                if arg is not None:
""")], "a message with an optional field being null",
      "it is accepted, although mistyped", """
import h
import paf.proto as proto
try:
    proto.Message.parse(3, b'{"ta-cmd": "services", "ta-id": 1, '
                        b'"msg-type": "request", "filter": null}')
    h.check(False, "accepted")
except proto.ProtocolError:
    pass
h.done()
""")

plant("c08-presence-key", "C08", [(FI, """\
        return "%s%s%s%s%s" % (BEGIN_EXPR, escape(self.key), EQUAL,
                               ANY, END_EXPR)
""", """\
        return "%s%s%s%s%s" % (BEGIN_EXPR, self.key, EQUAL,
                               ANY, END_EXPR)
""")], "a presence filter for a key with special characters in it",
      "it is printed as another, or no, filter", """
import h
import paf.filter
f = "(a\\\\*b=*)"
h.eq(str(paf.filter.parse(f)), f)
h.done()
""")

plant("c20-late-ignored", "C20", [(CL, """\
            if transaction is None:
                raise ProtocolError(""", """\
            if transaction is None:
                if in_msg.ta_id < self.ta_id and in_msg.is_notify():
                    # of a transaction which ended already
                    return True
                raise ProtocolError(""")],
      "a notification in a transaction which has ended",
      "the violation goes unnoticed", """
import h
import json
import paf.client
lst = h.Listener("ux:x")
c = paf.client.connect("ux:x", client_id=5, ready_cb=lambda: None)
near = lst.backlog[0]
m = json.loads(near.rx.pop(0))
near.send(json.dumps({"ta-cmd": "hello", "ta-id": m["ta-id"],
                      "msg-type": "complete",
                      "protocol-version": 3}).encode())
c.process()
ta = c.subscriptions(lambda *a, **k: None)
for t in ("accept", "complete"):
    near.send(json.dumps({"ta-cmd": "subscriptions", "ta-id": ta,
                          "msg-type": t}).encode())
c.process()
near.send(json.dumps({"ta-cmd": "subscriptions", "ta-id": ta,
                      "msg-type": "notify", "subscription-id": 1,
                      "client-id": 1}).encode())
try:
    c.process()
    h.check(False, "ignored")
except paf.client.ProtocolError:
    pass
h.done()
""")

plant("c16-active-snapshot", "C16", [(EL, """\
        while len(self.source_active) > 0 and not self._stop:
            source = next(iter(self.source_active))
            handler = self.source_handler[source]
            handler()
""", """\
        while len(self.source_active) > 0 and not self._stop:
            for source in list(self.source_active):
                handler = self.source_handler.get(source)
                if handler is not None:
                    handler()
""")], "a source being made inactive, or the loop being stopped, by the "
      "handler of another active one",
      "handlers are called which aren't due", """
import os
import sys
sys.path.insert(0, os.getcwd())
import paf.eventloop as el
loop = el.EventLoop()
a, b = el.Source(), el.Source()
n = []


def fired():
    n.append(1)
    a.clear_active()
    b.clear_active()
    loop.stop()


loop.add(a, fired)
loop.add(b, fired)
a.set_active()
b.set_active()
loop.run()
ok = len(n) == 1
print("ok" if ok else "FAILED: called %d times" % len(n))
sys.stdout.flush()
os._exit(0 if ok else 1)
""")

plant("c18-one-per-scan", "C18", [(SRV, """\
            for conn, handshake_time in failed:
""", """\
            for conn, handshake_time in failed[:1]:
""")], "several connections without a hello at a time",
      "they are dropped one by one, a second apart", """
import h
h.start(idle=(60, 60))
c = [h.Client(hello=False) for i in range(4)]
h.run(3.5)
h.eq([x.alive() for x in c], [False] * 4)
h.done()
""")

plant("c25-attrs-leak", "C25", [(SRV, """\
    def add_socket(self, socket_conf):
        xcm_attrs = {"xcm.blocking": False}
""", """\
    def add_socket(self, socket_conf):
        xcm_attrs = SOCKET_ATTRS
"""), (SRV, """\
PAF_TO_XCM_SOCKET_ATTRS = {
""", """\
SOCKET_ATTRS = {"xcm.blocking": False}

PAF_TO_XCM_SOCKET_ATTRS = {
""")], "a socket without TLS parameters, or with fewer, following one which "
      "has them", "the former gets the parameters of the latter", """
import h
import paf.server
import paf.conf
got = []
old = h.xcm.server
h.xcm.server = lambda addr, attrs={}: (got.append(dict(attrs)), old(addr))[1]
h.Net.loop = paf.eventloop.EventLoop()
conf = paf.conf.Conf()
d = conf.add_domain("d")
d.add_socket("tls:1.1.1.1:1", {"cert": "x"})
d.add_socket("tls:1.1.1.1:2", {})
paf.server.create("d", d.sockets, paf.sd.resources(), paf.sd.resources(),
                  d.proto_version_limit, d.idle_limit, h.Net.loop)
h.eq([sorted(g) for g in got], [["tls.cert_file", "xcm.blocking"],
                                ["xcm.blocking"]])
h.done()
""")

plant("c24-bar-string", "C24", [(PC, """\
        if len(value) >= 2 and value[0] == '|' and value[-1] == '|':
            value = value[1:-1]
""", """\
        if len(value) >= 2 and value[0] == '|' and value[-1] == '|':
            value = value.strip('|')
""")], "a string value in bars which has further ones within",
      "these are lost", """
import h
import importlib.machinery
import importlib.util
l = importlib.machinery.SourceFileLoader("pafc", "app/pafc")
m = importlib.util.module_from_spec(importlib.util.spec_from_loader("pafc",
                                                                    l))
l.exec_module(m)
h.eq(dict(m.parse_props(["a", "|||"])), {"a": {"|"}})
h.done()
""")
