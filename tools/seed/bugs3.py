"""A third set of planted bugs; see plant.py."""
from plant import plant

SD, SRV, CL, EV = ("paf/sd.py", "paf/server.py", "paf/client.py",
                   "paf/eventloop.py")

plant("c20-send-wakeup", "C20", [(CL, """\
            else:
                raise TransportError(str(e))
        finally:
            self.update()

    def try_receive(self):
""", """\
            else:
                raise TransportError(str(e))

    def try_receive(self):
"""), (CL, """\
        for i in range(0, MAX_MSGS_PER_ROUND):
            if not self.try_send():
                break
        for i in range(0, MAX_MSGS_PER_ROUND):
            if not self.try_receive():
                break
""", """\
        for i in range(0, MAX_MSGS_PER_ROUND):
            if not self.try_send():
                break
        for i in range(0, MAX_MSGS_PER_ROUND):
            if not self.try_receive():
                break
        if len(self.out_wire_msgs) == 0:
            self.update()
""")], "requests issued while the transport can't take them, with nothing to "
      "be received in the meantime", "the client's descriptor doesn't become "
      "ready when the transport takes messages again, and the requests are "
      "not sent", """
import h
import json
import paf.client
lst = h.Listener("ux:x")
ready = []
c = paf.client.connect("ux:x", client_id=5, ready_cb=lambda: ready.append(1))
near = lst.backlog[0]
m = json.loads(near.rx.pop(0))
near.send(json.dumps({"ta-cmd": "hello", "ta-id": m["ta-id"],
                      "msg-type": "complete",
                      "protocol-version": 3}).encode())
c.process()
assert ready
cb = lambda *a, **k: None
c.conn_sock.window = 0
c.publish(1, 1, {}, 1, cb)
c.publish(2, 1, {}, 1, cb)
h.check(not c.conn_sock.ready(), "ready, although nothing can be done")
c.conn_sock.window = 100
for i in range(10):
    if c.conn_sock.ready():
        c.process()
h.eq([json.loads(x)["service-id"] for x in near.rx], [1, 2])
h.done()
""")

plant("c28-coalesce", "C28", [(SRV, """\
        else:
            self.respond(ta.notify(proto_match_type, service.service_id,
                                   generation=service.generation(),
                                   service_props=service.props(),
                                   ttl=service.ttl(),
                                   client_id=service.client_id(),
                                   orphan_since=service.orphan_since()))
""", """\
        else:
            if match_type == sd.MatchType.MODIFIED and \\
               not self.receivable():
                # many messages are enroute to the client; leave out
                # intermediate states
                superseded = self.latest_modified.get((sub_id,
                                                       service.service_id))
                if superseded in self.out_wire_msgs:
                    self.out_wire_msgs.remove(superseded)
            out_wire_msg = ta.notify(proto_match_type, service.service_id,
                                     generation=service.generation(),
                                     service_props=service.props(),
                                     ttl=service.ttl(),
                                     client_id=service.client_id(),
                                     orphan_since=service.orphan_since())
            self.latest_modified[(sub_id, service.service_id)] = out_wire_msg
            self.respond(out_wire_msg)
"""), (SRV, """\
        self.sub_tas = {}
""", """\
        self.sub_tas = {}
        self.latest_modified = {}
""")], "a subscriber with 128 messages enroute, a service of which the "
      "appearance (or a later change) is among these being changed",
      "notifications, even the one of the service appearing, are dropped", """
import h
h.start()
a = h.Client(1)
b = h.Client(2)
ta = b.subscribe(1)
h.run()
b.sock.peer.window = 0
for i in range(140):
    a.publish(i)
a.publish(139, gen=2)
a.publish(139, gen=3)
b.sock.peer.window = None
ev = b.events(ta)
h.eq([e for e in ev if e[1] == 139],
     [("appeared", 139), ("modified", 139), ("modified", 139)])
h.done()
""")

plant("c14-stale-visit", "C14", [(SD, """\
        connection = self.get_service_connection(service)
        connection.remove_service(service)

        self.resource_manager.deallocate(self.user_id, ResourceType.SERVICE)

        if connection.is_stale():
            self.remove_connection(connection)

        if self.is_stale():
            self.db.remove_client(self)
""", """\
        connection = self.get_service_connection(service)
        connection.remove_service(service)

        self.resource_manager.deallocate(self.user_id, ResourceType.SERVICE)

        if self.is_stale():
            self.inactive_connections.clear()
            self.db.remove_client(self)
""")], "a client which is connected, or has other orphans, while an orphan of "
      "an earlier connection of its expires", "what is held for that "
      "connection is kept for as long as the client is", """
import gc
import h
import paf.sd
h.start(idle=(1000, 1000))


def visits(n):
    for i in range(n):
        c = h.Client(7)
        c.publish(1, n * 100 + i, ttl=1)
        c.close()
        c = h.Client(7)
        c.publish(2, n * 100 + i, ttl=1000)
        h.run(3)
        h.eq(sorted(c.services()), [2])
        c.close()
    gc.collect()
    return sum(isinstance(o, paf.sd.Connection) for o in gc.get_objects())


n = [visits(3), visits(10), visits(30)]
h.check(n[2] <= n[1], "connections kept", n)
h.done()
""")
