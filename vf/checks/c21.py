"""Domain files against a reference reader, over changing directories."""
import json
import os
import shutil
import tempfile

from .. import env, simxcm
from ..runner import Outcome

RULE = ("sequences of creating, rewriting and removing domain files in both "
        "formats (with blank and comment lines, surrounding white space, all "
        "line endings, all JSON layouts, unknown keys), directories and "
        "links, switching the domains directory, resolving, listing and "
        "connecting; files which follow neither format are left out; "
        "non-trivial: at least two resolutions of existing files")
COUNTS = {"quick": 20000, "thorough": 300000}
ISOLATE = False
CPU_LIMIT = 30
paf = env.load()
client = paf.client

NAMES = ["domain0", "oam", "x", "a b", "ux:local", "tls:10.0.0.1:4711",
         "\u00e5\u4e16", ".hidden", "x.json", "#x", "-l", "a~", "UPPER",
         "domain0.bak", "{}"]
ADDRS = ["ux:local", "uxf:/tmp/x y", "tls:*:4711", "tls:192.168.1.59:4711",
         "utls:[::1]:3", "tcp:10.0.0.1:9", "sctp:1.2.3.4:5", "utls:a.b:1",
         "ux:\u00e5", "tls:x#y:1", "ux:a{b}", "ux:[\"x\"]", "tcp:h:1",
         "ux:a\u2028b", "ux:a\x0cb", "ux:a\x85b", "ux:a\x1cb", "ux:a\x0bb"]
TLS = {"tlsCertificateFile": "tls.cert_file", "tlsKeyFile": "tls.key_file",
       "tlsTrustedCaFile": "tls.tc_file"}
COMMENTS = ["#", "# ux:comment", "#tls:a:1", "##", "# {\"servers\": []}"]
PATHS = ["/etc/paf/cert.pem", "cert.pem", "/a b/\u00e5.pem", "", "x#y"]


def plain(r):
    out = ""
    for _ in range(r.choice([0, 1, 1, 2, 3, 6])):
        x = r.random()
        line = r.choice(ADDRS) if x < .6 else r.choice(COMMENTS) \
            if x < .8 else ""
        pad = ["", "", "", " ", "\t", "  \t "]
        out += r.choice(pad) + line + r.choice(pad) + \
            r.choice(["\n"] * 6 + ["\r\n", "\n\n", "\r"])
    if r.random() < .3:
        out = out.rstrip("\r\n")
    return out


def jsonfile(r):
    servers = []
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        s = {"address": r.choice(ADDRS)}
        for k in TLS:
            if r.random() < .4:
                s[k] = r.choice(PATHS)
        if r.random() < .3:
            s["minProtocolVersion"] = r.choice([2, 2, 3, 0, 1, 4])
        if r.random() < .3:
            s["maxProtocolVersion"] = r.choice([2, 3, 3, 4, 9, 1])
        if r.random() < .2:
            s[r.choice(["comment", "networkNamespace", "tlsX"])] = \
                r.choice(["x", 1, None, {"a": []}])
        items = list(s.items())
        r.shuffle(items)
        servers.append(dict(items))
    root = {"servers": servers}
    if r.random() < .2:
        root["version"] = 1
    t = json.dumps(root, indent=r.choice([None, None, 0, 2, 4]),
                   ensure_ascii=r.random() < .5,
                   separators=r.choice([None, (",", ":"), (" , ", " : ")]))
    return r.choice(["", "", "\n", " \t\r\n ", "  "]) + t + \
        r.choice(["", "\n", " \n\n"])


def gen(rng, tier, i):
    r = rng
    names = r.sample(NAMES, r.randint(1, 4))
    ops = []
    for _ in range(r.randint(2, 18)):
        x = r.random()
        n = r.choice(names)
        if x < .35:
            ops.append(["write", n, r.choice([plain, jsonfile])(r)])
        elif x < .4:
            ops.append([r.choice(["mkdir", "fifo", "dangling", "rm", "rm"]),
                        n])
        elif x < .45:
            ops.append(["env", r.randrange(2)])
        elif x < .75:
            ops.append(["query", n, r.random() < .3])
        elif x < .88:
            ops.append(["connect", n])
        else:
            ops.append(["list"])
    return {"ops": ops}


def reference(data):
    """servers as (address, attributes, (min, max)), None if undefined"""
    if data.lstrip(" \t\r\n").startswith("{"):
        try:
            servers = json.loads(data)["servers"]
        except (ValueError, KeyError, TypeError):
            return None
        return [(s["address"], {x: s[k] for k, x in TLS.items() if k in s},
                 (s.get("minProtocolVersion", 2),
                  s.get("maxProtocolVersion", 3))) for s in servers]
    out = []
    for line in data.replace("\r\n", "\n").replace("\r", "\n").split("\n"):
        line = line.strip(" \t")
        if line and not line.startswith("#"):
            out.append((line, {}, (2, 3)))
    return out


class Bad(Exception):
    pass


class Conn(simxcm.Sock):
    """Answers the hello."""

    def __init__(self, net, version):
        super().__init__(net)
        self.sent = []
        self.version = version
        self.reply = None

    def send(self, msg):
        m = json.loads(msg.decode())
        self.sent.append(m)
        lo, hi = m["protocol-minimum-version"], m["protocol-maximum-version"]
        self.reply = json.dumps({
            "ta-cmd": "hello", "ta-id": m["ta-id"], "msg-type": "complete",
            "protocol-version": max(lo, 2) if self.version else min(hi, 3)
        }).encode()
        return 0

    def receive(self):
        if self.reply is None:
            raise simxcm.oserr(11)
        m, self.reply = self.reply, None
        return m


class Run:
    def __init__(self, base):
        env.reset(0)
        self.dirs = [os.path.join(base, "0"), os.path.join(base, "1")]
        for d in self.dirs:
            os.mkdir(d)
        self.files = [{}, {}]       # name -> contents, or None
        self.cur = 0
        self.stats = {"resolved": 0, "address": 0, "connected": 0, "lists": 0}
        self.net = simxcm.Net(0)
        self.net.client_connect = self.on_connect
        self.net.client_poll = lambda p, t: [(fd, 1) for fd in p.fds]
        self.connects = []
        self.n = 0

    def on_connect(self, addr, flags, attrs):
        self.n += 1
        s = Conn(self.net, self.n % 2)
        self.connects.append((addr, attrs, s))
        return s

    def clear(self, name):
        p = os.path.join(self.dirs[self.cur], name)
        if os.path.islink(p) or os.path.exists(p):
            if os.path.isdir(p):
                os.rmdir(p)
            else:
                os.unlink(p)
        self.files[self.cur].pop(name, None)
        return p

    def do(self, op):
        k = op[0]
        if k == "write":
            with open(self.clear(op[1]), "w", newline="",
                      encoding="utf-8") as f:
                f.write(op[2])
            self.files[self.cur][op[1]] = op[2]
        elif k == "rm":
            self.clear(op[1])
        elif k == "mkdir":
            os.mkdir(self.clear(op[1]))
        elif k == "fifo":
            # a socket would do as well; a FIFO is not opened when listing
            p = self.clear(op[1])
            os.mkfifo(p)
            self.files[self.cur][op[1]] = None
        elif k == "dangling":
            os.symlink("/nonexistent/x", self.clear(op[1]))
        elif k == "env":
            self.cur = op[1]
            os.environ["PAF_DOMAINS"] = self.dirs[self.cur]
        elif k == "list":
            self.stats["lists"] += 1
            got = list(client.list_domains())
            want = [n for n, d in self.files[self.cur].items()
                    if d is not None]
            if sorted(got) != sorted(want):
                raise Bad("list", "domains %r, expected %r" %
                          (sorted(got), sorted(want)))
        elif k == "query":
            self.query(op[1], op[2])
        elif k == "connect":
            self.connect(op[1])

    def content(self, name):
        """False if the outcome is undefined"""
        if name not in self.files[self.cur]:
            return None
        data = self.files[self.cur][name]
        if data is None:
            return False
        out = reference(data)
        return False if out is None else out

    def query(self, name, spoil):
        want = self.content(name)
        if want is False:
            return
        res = client.read_domain(name)
        got = [(s.addr, dict(s.attrs), tuple(s.proto_version_range()))
               for s in res]
        if got != (want or []):
            raise Bad("servers", "%r resolves to %r, expected %r" %
                      (self.files[self.cur].get(name), got, want))
        self.stats["resolved" if want else "address"] += 1
        if spoil:
            # what the caller does with the result is its own business
            for s in res:
                s.attrs["tls.key_file"] = "spoiled"
                s.set_proto_version(3)
            del res[:]

    def connect(self, name):
        want = self.content(name)
        if want is False or want == []:
            return
        if want is None:
            want = [(name, {}, (2, 3))]
        addr, attrs, (lo, hi) = want[0]
        del self.connects[:]
        try:
            c = client.connect(name, client_id=7)
        except paf.proto.ProtocolError:
            if lo > 3 or hi < 2 or lo > hi:
                return
            raise Bad("connect", "connect to %r failed" % (want[0],))
        if lo > 3 or hi < 2 or lo > hi:
            c.close()
            return
        if len(self.connects) != 1:
            raise Bad("connect", "%d connections made" % len(self.connects))
        gaddr, gattrs, s = self.connects[0]
        gattrs = {k: v for k, v in gattrs.items() if k.startswith("tls.")}
        hello = s.sent[0]
        got = (gaddr, gattrs, (hello["protocol-minimum-version"],
                               hello["protocol-maximum-version"]))
        if got != want[0]:
            raise Bad("connect", "connected to %r, expected %r" %
                      (got, want[0]))
        self.stats["connected"] += 1
        c.close()


def run(case):
    base = tempfile.mkdtemp(prefix="vfdom")
    old = os.environ.get("PAF_DOMAINS")
    failure = None
    try:
        r = Run(base)
        os.environ["PAF_DOMAINS"] = r.dirs[0]
        for op in case["ops"]:
            r.do(op)
    except Bad as e:
        failure = e.args
    except Exception as e:
        if not env.from_paf(e):
            raise
        failure = ("exception", env.describe(e))
    finally:
        if old is None:
            os.environ.pop("PAF_DOMAINS", None)
        else:
            os.environ["PAF_DOMAINS"] = old
        shutil.rmtree(base)
    s = r.stats
    return Outcome(failure, s["resolved"] + s["connected"] >= 2, s)
