"""A tenth set of planted bugs; see plant.py."""
from plant import plant

SD, SRV, CL = "paf/sd.py", "paf/server.py", "paf/client.py"

plant("c23-shared-subtas", "C23", [(SRV, """\
        self.sub_tas = {}
""", ""), (SRV, """\
class Connection:
    def __init__(self, sd, conn_sock""", """\
class Connection:
    # by subscription id, of which there is only one of a kind
    sub_tas = {}

    def __init__(self, sd, conn_sock""")],
      "the same subscription id in use in two domains of one server",
      "notifications of one domain are sent in a transaction of the other's "
      "client", """
import h
h.start("ux:d1", name="one")
h.start("ux:d2", name="two")
a = h.Client(1, addr="ux:d1")
b = h.Client(2, addr="ux:d2")
b.ta_id = 50
ta = a.send("subscribe", subscription_id=7)
tb = b.send("subscribe", subscription_id=7)
h.run()
a.publish(1)
h.run()
h.eq([m["msg-type"] for m in a.get(ta)], ["accept", "notify"])
h.eq([m["msg-type"] for m in b.get(tb)], ["accept"])
h.done()
""")

plant("c05-tcp-inside", "C05", [(SRV, """\
        if self.conn_addr.startswith("tcp") or \\
""", """\
        if "tcp:" in self.conn_addr or \\
""")], "a UNIX domain address that has 'tcp:' in its name",
      "such clients don't run as the default user, and may not touch services "
      "of other local clients", """
import h
h.start()
a = h.Client(1)
b = h.Client(2, remote="ux:/tmp/proxy/tcp:4711:0")
a.publish(1)
b.ok("unpublish", service_id=1)
h.done()
""")

plant("c22-hoisted-optargs", "C22", [(SRV, """\
        extended = self.proto_version >= 3

        for conn in self.server.client_connections.values():
            idle_time = now - self.sd.client_last_seen(conn.client_id)

            optargs = {}
""", """\
        extended = self.proto_version >= 3
        optargs = {}

        for conn in self.server.client_connections.values():
            idle_time = now - self.sd.client_last_seen(conn.client_id)

""")], "an untracked client connected after one which is tracked and has "
      "replied", "the listing shows a latency for a client which has none", """
import h
h.start(idle=(4, 4))
a = h.Client(1)
t = a.send("track")
h.run(2.5)
h.eq(a.get(t)[-1]["msg-type"], "notify")
a.send("track", ta_id=t, msg_type="inform", track_type="reply")
h.run(0.1)
b = h.Client(2)
r = b.ok("clients")
h.eq({m["client-id"]: "latency" in m for m in r if m["msg-type"] == "notify"},
     {1: True, 2: False})
h.done()
""")

plant("c13-zero-ttl", "C13", [(SD, """\
        return min(self.idle_max, max(self.idle_min, value))
""", """\
        if not value:
            return self.idle_default()
        return max(self.idle_min, min(self.idle_max, value))
""")], "a client which publishes a service with a TTL of zero",
      "such a client is given the longest, rather than the shortest time", """
from paf.sd import IdleLimit
l = IdleLimit(4, 30)
assert [l.limit(v) for v in (0, 1, 5, 31)] == [4, 4, 5, 30]
""")

plant("c21-shared-attrs", "C21", [(CL, """\
        self.proto_version_max = proto_version_max
        self.attrs = {}
""", """\
        self.proto_version_max = proto_version_max
"""), (CL, """\
class ServerConf:
""", """\
class ServerConf:
    attrs = {}

""")],
      "a domain of several servers with different credentials",
      "the first server is connected to with the last one's credentials", """
import json
import os
import tempfile
import h
import paf.client as c
with tempfile.TemporaryDirectory() as d:
    os.environ["PAF_DOMAINS"] = d
    with open(os.path.join(d, "x"), "w") as f:
        json.dump({"servers": [{"address": "ux:a", "tlsKeyFile": "1"},
                               {"address": "ux:b", "tlsKeyFile": "2"}]}, f)
    h.eq([s.attrs for s in c.read_domain("x")],
         [{"tls.key_file": "1"}, {"tls.key_file": "2"}])
    h.eq(c.ServerConf("ux:c").attrs, {})
h.done()
""")
