"""An eighth set of planted bugs; see plant.py."""
from plant import plant

SD, SRV, CL, EL, PR, CF, DM, FI, PC, XC = (
    "paf/sd.py", "paf/server.py", "paf/client.py", "paf/eventloop.py",
    "paf/proto.py", "paf/conf.py", "paf/daemon.py", "paf/filter.py",
    "app/pafc", "paf/xcm.py")

plant("c10-late-addr", "C10", [(SRV, """\
        self.conn_addr = conn_sock.get_attr("xcm.remote_addr")
        self.sd = sd
""", """\
        self.sd = sd
"""), (SRV, """\
        self.track_latency = None
        self.info("Accepted""", """\
        self.track_latency = None
        self.conn_addr = conn_sock.get_attr("xcm.remote_addr")
        self.info("Accepted""")],
      "a connection which has failed by the time it is accepted, so that its "
      "address cannot be retrieved any longer",
      "a half-made connection is left in the event loop, and ends the server "
      "with an exception", """
import errno
import h
h.start()
a = h.Client(1)
far = h.link("ux:srv", "tcp:10.0.0.9:77")
near = far.peer


def fail(*args):
    raise h.err(errno.ENOTCONN)


near.get_attr = near.receive = near.send = fail
near.eof = True
del near, far.peer
h.run(1)
a.publish(5)
h.eq(sorted(a.services()), [5])
h.done()
""")

plant("c14-half-hello", "C14", [(SRV, """\
                self.handshaked = True
                self.handshake_cb(self)

                yield ta.complete(self.proto_version)

                self.configure_tcp_keepalive()
""", """\
                self.configure_tcp_keepalive()

                self.handshaked = True
                self.handshake_cb(self)

                yield ta.complete(self.proto_version)
""")], "a connection found to have failed when its attributes are changed at "
      "the end of the handshake",
      "the client id stays in use, and its quota is never returned", """
import errno
import h
h.start()
a = h.Client(1)
far = h.link("ux:srv", "tcp:10.0.0.9:77")
near = far.peer
real = near.get_attr


def get_attr(name):
    if name == "xcm.transport":
        near.eof = True
        raise h.err(errno.ENOTCONN)
    return real(name)


near.get_attr = get_attr
far.send(b'{"ta-cmd":"hello","ta-id":0,"msg-type":"request","client-id":7,'
         b'"protocol-minimum-version":3,"protocol-maximum-version":3}')
h.run(1)
b = h.Client(None)
h.eq(b.hello(7)[-1]["msg-type"], "complete", "the client id")
h.eq(sorted(a.clients()), [1, 7])
h.done()
""")

plant("c08-trailing-space", "C08", [(FI, """\
    state.expect(op_class.op)

    value = _parse_str(state)
""", """\
    state.expect(op_class.op)

    value = _parse_str(state).rstrip()
""")], "white space after the integer of a comparison",
      "a filter which isn't one is accepted", """
import h
import paf.filter
for s in ("(a>5 )", "(a<5\\n)"):
    try:
        paf.filter.parse(s)
    except paf.filter.ParseError:
        continue
    h.check(False, "accepted", s)
h.eq(str(paf.filter.parse("(a>5)")), "(a>5)")
h.done()
""")

plant("c03-tombstone", "C03", [(SD, """\
        self.subscriptions = {}
        self.services = {}
        self.clients = {}

    def has_client""", """\
        self.subscriptions = {}
        self.services = {}
        self.clients = {}
        self.latest = {}

    def has_client"""), (SD, """\
    def remove_service(self, service):
        del self.services[service.service_id]

    def has_subscription(self, sub_id):
        return sub_id in self.subscriptions

    def get_subscription(self, sub_id):
        return self.subscriptions.get(sub_id)

    def get_subscriptions(self):
        return self.subscriptions.values()

    def add_subscription(""", """\
    def remove_service(self, service):
        if service.is_orphan():
            self.latest[service.service_id] = service.generation()
        del self.services[service.service_id]

    def has_subscription(self, sub_id):
        return sub_id in self.subscriptions

    def get_subscription(self, sub_id):
        return self.subscriptions.get(sub_id)

    def get_subscriptions(self):
        return self.subscriptions.values()

    def add_subscription("""), (SD, """\
        else:
            self.resource_manager.allocate(self.user_id,
                                           ResourceType.SERVICE)
            service = Service(service_id, service_change_cb)
""", """\
        else:
            latest = self.db.latest.get(service_id)
            if latest is not None and generation < latest:
                raise GenerationError("invalid generation %d: service was at "
                                      "generation %d" % (generation, latest))

            self.resource_manager.allocate(self.user_id,
                                           ResourceType.SERVICE)
            service = Service(service_id, service_change_cb)
""")], "a service whose orphan TTL ran out, published anew at a lower "
      "generation", "the publication fails", """
import h
h.start()
a = h.Client(1)
a.publish(5, gen=7, ttl=2)
a.close()
h.run(5)
a = h.Client(1)
a.publish(5, gen=1)
h.eq(a.services()[5]["generation"], 1)
h.done()
""")

plant("c06-foreign-hello", "C06", [(SD, """\
            raise AlreadyExistsError("client", self.client_id)
        elif self.user_id != user_id:
            raise UserIdChanged(self.client_id, user_id, self.user_id)

        self.resource_manager.allocate(self.user_id, ResourceType.CLIENT)
""", """\
            raise AlreadyExistsError("client", self.client_id)

        self.resource_manager.allocate(self.user_id, ResourceType.CLIENT)

        if self.user_id != user_id:
            raise UserIdChanged(self.client_id, user_id, self.user_id)
""")], "a hello with the id of somebody else's orphan",
      "each one takes one of the connections its owner may have, for good",
      """
import h
h.start(user={"clients": 1})
a = h.Client(1, remote="tcp:10.0.0.1:1")
a.publish(5, ttl=100)
a.close()
b = h.Client(None, remote="tcp:10.0.0.2:1")
h.eq(b.hello(1)[-1]["fail-reason"], "permission-denied")
b.close()
a = h.Client(None, remote="tcp:10.0.0.1:1")
h.eq(a.hello(1)[-1]["msg-type"], "complete")
h.done()
""")

plant("c13-takeover-idle", "C13", [(SD, """\
                    with service.modify() as change:
                        change.orphan_since = None

            elif generation""", """\
                    with service.modify() as change:
                        change.orphan_since = None

                return service

            elif generation""")],
      "a client which takes over a service with a TTL lower than those of its "
      "own, at the same generation, and is then silent",
      "it is timed out far too late", """
import h
h.start(idle=(2, 100))
a = h.Client(1)
a.publish(5, ttl=4)
b = h.Client(2)
b.publish(5, ttl=4)
a.close()
h.run(8)
h.check(not b.alive(), "still connected")
h.done()
""")

plant("c19-idle-clamp", "C19", [(CF, """\
            idle_max = dict_lookup(idle, "max", int, idle_path,
                                   default=idle_max, required=False)
""", """\
            idle_max = dict_lookup(idle, "max", int, idle_path,
                                   default=idle_max, required=False)

            if "min" not in idle:
                idle_min = min(idle_min, idle_max)
""")], "a maximum idle time below the default of the minimum, which is left "
      "out", "conflicting limits are taken, with one of them altered", """
import h
import os
import tempfile
import paf.conf
fd, name = tempfile.mkstemp()
os.write(fd, b"domains:\\n- sockets: ['ux:a']\\n  idle:\\n    max: 3\\n")
os.close(fd)
try:
    paf.conf.load(name)
except paf.conf.Error:
    pass
else:
    h.check(False, "accepted")
finally:
    os.unlink(name)
h.done()
""")

plant("c21-either-version", "C21", [(CL, """\
            server.proto_version_min = server_obj["minProtocolVersion"]
        if "max""", """\
            server.proto_version_min = server_obj["minProtocolVersion"]
        elif "max""")], "a server with both a lower and an upper limit of the "
      "protocol version", "the upper one is ignored", """
import h
import paf.client
s, = paf.client.parse_domain_json('{"servers": [{"address": "ux:a", '
                                  '"minProtocolVersion": 2, '
                                  '"maxProtocolVersion": 2}]}')
h.eq(s.proto_version_range(), (2, 2))
h.done()
""")
