"""A seventh set of planted bugs; see plant.py."""
from plant import plant

SD, SRV, CL, EL, PR, CF, DM, FI, PC, XC = (
    "paf/sd.py", "paf/server.py", "paf/client.py", "paf/eventloop.py",
    "paf/proto.py", "paf/conf.py", "paf/daemon.py", "paf/filter.py",
    "app/pafc", "paf/xcm.py")

LOAD = """
import h
import importlib.machinery
import importlib.util
l = importlib.machinery.SourceFileLoader("pafc", "app/pafc")
m = importlib.util.module_from_spec(importlib.util.spec_from_loader("pafc",
                                                                    l))
l.exec_module(m)
"""

plant("c06-zero-limit", "C06", [(SD, """\
        if max is not None and used == max:
""", """\
        if max and used >= max:
""")], "a limit of zero resources per user", "it is taken for no limit", """
import h
h.start(user={"services": 0})
a = h.Client(1)
a.fails("insufficient-resources", "publish", service_id=5, generation=1,
        service_props={}, ttl=5)
h.done()
""")

plant("c19-zero-limit", "C19", [(CF, """\
    for resource_name, resource_value in resource_class.items():
        set_limit(resource_name, resource_value)
""", """\
    for resource_name in ("clients", "services", "subscriptions"):
        if resource_class.get(resource_name):
            set_limit(resource_name, resource_class[resource_name])
    for resource_name in resource_class:
        if resource_name not in ("clients", "services", "subscriptions"):
            raise FormatError("resource type", resource_name)
""")], "a resource limit of zero (or of another value Python considers "
      "false)", "it is ignored", """
import h
import os
import tempfile
import paf.conf
import paf.sd
fd, name = tempfile.mkstemp()
os.write(fd, b"resources:\\n  user:\\n    services: 0\\n")
os.close(fd)
c = paf.conf.load(name)
os.unlink(name)
h.eq(c.resources.user.resources[paf.sd.ResourceType.SERVICE], 0)
h.done()
""")

plant("c03-typed-props", "C03", [(SD, """\
                if service_props != service.props() or ttl != service.ttl():
""", """\
                if str_props(service_props) != str_props(service.props()) or \\
                   ttl != service.ttl():
"""), (SD, """\
class Client:
    def __init__""", """\
def str_props(props):
    return {name: {str(value) for value in values}
            for name, values in props.items()}


class Client:
    def __init__""")], "a republication at the same generation with a value "
      "having become a string, instead of an integer",
      "it succeeds, without any effect", """
import h
h.start()
a = h.Client(1)
a.publish(5, 1, {"a": [17]}, 5)
a.fails("same-generation-but-different", "publish", service_id=5,
        generation=1, service_props={"a": ["17"]}, ttl=5)
h.done()
""")

plant("c20-falsy-optional", "C20", [(CL, """\
            notification = list(args)
            if len(optargs) > 0:
                notification.append(optargs)
""", """\
            notification = list(args)
            if any(optargs.values()):
                notification.append(optargs)
""")], "a notification with zero as its (only) optional field",
      "the field is lost", """
import h
import paf.client as c
call = c.NotifyCall(None)
call.ta_id = 1
call(1, c.EventType.NOTIFY, 7, latency=0.0)
h.eq(call.notifications, [[7, {"latency": 0.0}]])
h.done()
""")

plant("c21-hidden-files", "C21", [(CL, """\
        if os.path.isfile(os.path.join(d, f)):
            yield f
""", """\
        if f[0] not in ".#" and os.path.isfile(os.path.join(d, f)):
            yield f
""")], "a domain with a name that starts with a dot or hash",
      "it isn't listed", """
import h
import os
import shutil
import tempfile
import paf.client
d = tempfile.mkdtemp()
try:
    open(os.path.join(d, ".one"), "w").close()
    open(os.path.join(d, "#two"), "w").close()
    os.environ["PAF_DOMAINS"] = d
    got = sorted(paf.client.list_domains())
finally:
    shutil.rmtree(d)
h.eq(got, ["#two", ".one"])
h.done()
""")

plant("c13-probe-again", "C13", [(SD, """\
        if self.idle_state == IdleState.ACTIVE:
            self.issue_idle_warning()

    def install""", """\
        if self.idle_state != IdleState.TIMED_OUT:
            self.issue_idle_warning()

    def install""")], "repeated connection attempts with the id of a client "
      "that went silent", "each one lets it live on", """
import h
h.start(idle=(4, 4))
a = h.Client(1)
for i in range(8):
    h.run(1)
    h.Client(hello=False).hello(1)
h.check(not a.alive())
h.done()
""")

plant("c12-v2-probe", "C12", [(SRV, """\
                self.sd.client_connect(self.client_id, user_id,
                                       self.idle_limit, self.idle_cb)
""", """\
                self.sd.client_connect(self.client_id, user_id,
                                       idle_limit, self.idle_cb)
""")], "a hello with the id of a connected version 2 client",
      "the server fails", """
import h
h.start(idle=(4, 4))
a = h.Client(1, version=2)
b = h.Client(hello=False)
try:
    r = b.hello(1)
except AssertionError as e:
    h.check(False, "server failed", e)
h.eq(r[-1].get("fail-reason"), "client-id-exists")
h.done()
""")

plant("c24-extra-args", "C24", [(PC, """\
def parse_id(id_str):
    try:
        return int(id_str, 16)
    except ValueError:
        raise ValueError("'%s' is not a valid id" % id_str)
""", """\
def parse_id(id_str):
    try:
        # trailing white space is allowed
        return int(id_str.split(" ")[0], 16)
    except ValueError:
        raise ValueError("'%s' is not a valid id" % id_str)
""")], "an unpublish or unsubscribe command with superfluous arguments",
      "it is performed instead of being rejected", LOAD + """
try:
    m.parse_id("17 18")
    h.check(False, "accepted")
except ValueError:
    pass
h.done()
""")

plant("c24-falsy-printed", "C24", [(PC, """\
            if generation is not None:
                info.append(""", """\
            if generation:
                info.append("""), (PC, """\
            if ttl is not None:
                info.append(""", """\
            if ttl:
                info.append(""")], "a service of generation or TTL zero, "
      "appearing in a subscription", "these aren't printed", LOAD + """
import io
import contextlib
import paf.client as c
out = io.StringIO()
with contextlib.redirect_stdout(out):
    m.MatchPrinter(1)(1, c.EventType.NOTIFY, "appeared", 2, generation=0,
                      service_props={}, ttl=0, client_id=3)
h.check("Generation: 0" in out.getvalue() and "TTL: 0" in out.getvalue(),
        out.getvalue())
h.done()
""")

plant("c01-whole-seconds", "C01", [(SRV, """\
                    yield ta.notify(service.service_id, service.generation(),
                                    service.props(), service.ttl(),
                                    service.client_id(),
                                    orphan_since=service.orphan_since())
""", """\
                    orphan_since = service.orphan_since()
                    if orphan_since is not None:
                        orphan_since = round(orphan_since)
                    yield ta.notify(service.service_id, service.generation(),
                                    service.props(), service.ttl(),
                                    service.client_id(),
                                    orphan_since=orphan_since)
""")], "an orphan being listed", "its orphan time differs (by up to half a "
      "second) from the actual one, and the one given to subscribers", """
import h
h.start(idle=(60, 60))
a, b = h.Client(1), h.Client(2)
a.publish(5, ttl=50)
h.run(0.3)
ta = b.subscribe(9)
h.run()
a.close()
h.eq(b.services()[5]["orphan-since"], b.get(ta)[-1]["orphan-since"])
h.done()
""")

plant("c12-rehello-range", "C12", [(SRV, """\
        elif self.handshaked:
            self.debug("Received hello from""", """\
        elif self.handshaked and \\
                min_version <= self.proto_version <= max_version:
            self.debug("Received hello from""")],
      "a repeated hello with a version range without the version in use",
      "it fails", """
import h
h.start(idle=(60, 60))
a = h.Client(1, version=3)
r = a.hello(1, 2, 2)
h.eq((r[-1]["msg-type"], r[-1].get("protocol-version")), ("complete", 3))
h.done()
""")

plant("c26-small-attr", "C26", [(XC, """\
        attr_capacity = 8192
""", """\
        attr_capacity = 256
""")], "an attribute value of 256 octets or more",
      "it can't be retrieved", """
import os
import sys
s = open("paf/xcm.py").read()
import ctypes


class Fun:
    def __init__(self, name):
        self.name = name

    def __call__(self, *args):
        if self.name == "xcm_attr_get":
            v = b"x" * 1000 + b"\\0"
            if args[4] < len(v):
                return -1
            t = args[1 + 1]._obj
            t.value = 3
            ctypes.memmove(args[3], v, len(v))
            return len(v)
        return 0


class Lib:
    def __getattr__(self, name):
        f = Fun(name)
        setattr(self, name, f)
        return f


ctypes.CDLL = lambda *a, **k: Lib()
sys.path.insert(0, os.getcwd())
import paf.xcm as xcm
sock = xcm.Socket(17)
try:
    got = sock.get_attr("xcm.local_addr")
except OSError as e:
    got = e
print(repr(got)[:50])
sys.stdout.flush()
os._exit(0 if got == "x" * 1000 else 1)
""")
