"""Runs histories against the real server over the simulated transport, with
the reference model watching."""
import errno
import gc
import json
import signal
import sys
import traceback

from . import env, model, refproto, simxcm
from .env import CLOCK, HarnessError
from .model import Divergence, Inconclusive
from .simxcm import Livelock, Net, Peer

BIG_IDLE = 10000000

USERS = [
    # (address scheme and host, certificate key id)
    ("ux:", None),
    ("tcp:10.0.0.1:", None),
    ("tcp:10.0.0.2:", None),
    ("tls:10.0.0.1:", b"\x0a\xff\x01"),
    ("tls:10.0.0.3:", b"\x0a\xff\x01"),
    ("tls:10.0.0.3:", b"\x0b\x00"),
    ("tls:10.0.0.2:", None),
    ("tls:[::1]:", None),
    ("tcp:[::1]:", None),
    ("utls:10.0.0.1:", None),
    ("sctp:10.0.0.1:", None),
    ("tcp:10.0.0.12:", None),
    ("tcp:[2001:db8::1]:", None),
    ("tcp:[2001:db8::2]:", None),
    ("tls:[2001:db8::1]:", None),
    ("tls:[2001:db8:0:1::1]:", None),
    ("tls:[2001:db8::2]:", b"\x0a\xff\x01"),
    ("tls:10.0.0.1:", b"\x0a\xff"),
    ("tls:10.0.0.1:", b"\x0a\xff\x01" * 6 + b"\x02\x00"),
    ("tls:10.0.0.1:", b"\x0a\xff\x01" * 6 + b"\x02\x01"),
    ("tls:10.0.0.1:", b"\x0a\x0f\xf0\x01"),
    ("tls:10.0.0.1:", b"\x01\x23"),
    ("tls:10.0.0.1:", b"\x12\x03"),
    ("tcp:[2001:db8:0:0:8:800:200c:417a]:", None),
    ("tcp:[2001:db8:0:0:8:800:200c:417b]:", None),
    ("tcp:[fe80::1%eth0]:", None),
    ("tcp:[fe80::1%eth1]:", None),
    ("tls:10.0.0.1:", b"\x00" * 20),
    ("tls:10.0.0.1:", b"\x00" * 19),
    ("ux:/tmp/tcp:10.0.0.1:", None),
    ("uxf:/run/tls:10.0.0.2:", b"\x0a\xff\x01"),
]
# users which are easily mistaken for each other
RELATED = [(1, 2, 11), (3, 5, 17), (18, 19, 3), (7, 8, 12, 13), (12, 13, 14),
           (14, 15, 16), (3, 4, 16, 17), (3, 20, 17), (0, 9, 10), (2, 6, 1),
           (21, 22), (23, 24, 12), (25, 26), (27, 28),
           (0, 1, 29), (0, 3, 30), (29, 30)]


def identity(user):
    """Address scheme and host, and key id. Beyond the list there are as many
    again as one likes, similar to those in the list but different users, if
    the kind of user permits."""
    addr, ski = USERS[user % len(USERS)]
    n = user // len(USERS)
    if n:
        addr = addr.replace("10.0.", "10.%d." % (n % 256)) \
            .replace("[::1]", "[::1:%x]" % (n % 65536)) \
            .replace("db8:", "db9:%x:" % (n % 65536)) \
            .replace("fe80:", "fe80:%x:" % (n % 65536))
        if ski is not None:
            ski = bytes([n % 256]) + ski
    return addr, ski


def default_domain(**kw):
    d = dict(name=None, socks=1, vmin=2, vmax=3, idle_min=BIG_IDLE,
             idle_max=BIG_IDLE)
    d.update(kw)
    return d


def crash_site(e):
    tb = traceback.extract_tb(e.__traceback__)
    return "%s in %s" % (type(e).__name__, tb[-1].name if tb else "?")


class World:
    def __init__(self, conf, seed):
        """conf: {"domains": [...], "user": {...}, "total": {...},
        "sched": "all"|"one"|"shuffle", "spurious": p}"""
        self.paf = env.load()
        env.reset(seed)
        self.stats = {}
        self.net = Net(seed)
        self.net.sched = conf.get("sched", "all")
        self.net.spurious = conf.get("spurious", 0)
        self.peers = {}
        self.domains = []
        self.port = 1000
        self.evpos = 0
        self.autoreply = set()
        self.conf = conf
        handlers = {}
        for s in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
            handlers[s] = signal.getsignal(s)
        try:
            self.loop = self.paf.eventloop.EventLoop()
        finally:
            for s, h in handlers.items():
                signal.signal(s, h)
        self.net.loop = self.loop
        sd = self.paf.sd
        self.user = conf.get("user", {})
        self.total = conf.get("total", {})
        self.servers = []
        for i, d in enumerate(conf.get("domains") or [default_domain()]):
            socks = ["sim:%d:%d" % (i, n) for n in range(d.get("socks", 1))]
            m = model.DomainModel(
                dict(vmin=d["vmin"], vmax=d["vmax"], idle_min=d["idle_min"],
                     idle_max=d["idle_max"], user=self.user,
                     total=self.total), self.stats)
            m.socks = socks
            m.faults = False
            self.domains.append(m)
            self.guard(lambda: self.servers.append(self.paf.server.create(
                d.get("name"),
                [self.paf.conf.SocketConf(a, {}) for a in socks],
                sd.resources(**self.user), sd.resources(**self.total),
                self.paf.conf.ProtoVersionLimitConf(d["vmin"], d["vmax"]),
                sd.IdleLimit(d["idle_min"], d["idle_max"]), self.loop)))
            group = [self.net.servers[a] for a in socks
                     if a in self.net.servers]
            for s in group:
                s.group = group
                s.limit = self.total.get("clients")

    def close(self):
        try:
            self.loop.close()
        except Exception:
            pass

    def guard(self, fn):
        try:
            return fn()
        except (Divergence, HarnessError, Inconclusive):
            raise
        except Livelock as e:
            raise Divergence("crash", str(e))
        except Exception as e:
            raise Divergence("crash", "%s: %s\n%s" % (
                crash_site(e), e, traceback.format_exc(limit=-6)))

    # --- running

    def run_to(self, t):
        if t < CLOCK.now:
            raise HarnessError("time goes backwards")
        while True:
            self.net.run_until = t
            self.net.polls = 0
            self.net.stop_requested = False
            self.guard(self.loop.run)
            if not self.net.stop_requested:
                raise Divergence("crash", "event loop stopped by itself")
            if CLOCK.now >= t:
                break
        self.net.run_until = None
        self.digest()

    def sync(self):
        self.run_to(CLOCK.now)

    def settle(self):
        """Moves on if it is undetermined what exists right now."""
        for _ in range(100):
            later = [x for x in (m.ambiguous(CLOCK.now)
                                 for m in self.domains) if x is not None]
            if not later:
                return
            self.run_to(max(later))
        raise Inconclusive()

    def advance(self, dt):
        self.run_to(CLOCK.now + dt)
        self.settle()

    def domain_of(self, peer):
        return self.domains[peer.dom]

    def later(self, peer):
        """what is sent to a peer, further on"""
        for kind, p, data, t in self.net.events[self.evpos:]:
            if kind == "send" and p is peer:
                try:
                    m = json.loads(data)
                except ValueError:
                    continue
                if isinstance(m, dict):
                    yield m

    def digest(self):
        evs = self.net.events
        while self.evpos < len(evs):
            kind, peer, data, t = evs[self.evpos]
            self.evpos += 1
            if peer.gone:
                self.stats["failed when accepted"] = 1
                continue
            m = self.domain_of(peer)
            m.peek = self.later
            if kind == "accept":
                m.accepted(peer, t)
            elif kind == "recv":
                m.received(peer, data, t)
            elif kind in ("eof", "err"):
                m.broken(peer, t)
            elif kind == "send":
                m.sent(peer, data, t)
            elif kind == "close":
                m.closed(peer, t)
            elif kind == "passed-over":
                raise Divergence("accept", "connection at %s not accepted "
                                 "while another socket fails" % data)
            elif kind == "toobig":
                raise Divergence("oversize", "message of %d bytes to be sent "
                                 "to a client" % data)
        if len(evs) > 5000:
            del evs[:]
            self.evpos = 0
        for m in self.domains:
            pending = sum(len(self.net.servers[a].pending) for a in m.socks)
            m.quiescent(CLOCK.now, pending)

    # --- peers

    def connect(self, slot, dom=0, sock=0, user=0):
        old = self.peers.get(slot)
        if old is not None and not old.dead:
            return old
        dom %= len(self.domains)
        m = self.domains[dom]
        addr, ski = identity(user)
        if addr != "ux:":
            self.port += 1
            addr += str(self.port)
        p = Peer(self.net, slot, addr, ski)
        p.dom = dom
        p.next_ta = 0
        p.cid = None
        p.auto = False
        p.track_ta = None
        self.peers[slot] = p
        self.net.connect(m.socks[sock % len(m.socks)], p)
        return p

    def connect_gone(self, dom=0, sock=0):
        m = self.domains[dom % len(self.domains)]
        self.port += 1
        p = Peer(self.net, "gone", "tcp:10.9.9.9:%d" % self.port)
        p.gone = True
        p.attr_err = "xcm.remote_addr"
        self.net.connect(m.socks[sock % len(m.socks)], p)

    def check_gone(self):
        if self.net.goners:
            gc.collect()
            for ref in self.net.goners:
                s = ref()
                if s is not None and not s.closed:
                    raise Divergence("leak", "the socket of a connection "
                                     "which failed when it was accepted is "
                                     "kept")

    def live(self, slot):
        p = self.peers.get(slot)
        if p is None or p.dead:
            return None
        return p

    def send(self, p, data):
        p.push(data)

    def request(self, p, cmd, ta=None, mtype="request", **fields):
        if ta is None:
            ta = p.next_ta
            p.next_ta += 1
        p.push(refproto.wire(cmd, ta, mtype, **fields))
        return ta

    def hangup(self, p, how="eof"):
        """how: eof (orderly, after pending input), reset or timeout (pending
        input lost), broken (only noticed when sending)"""
        if how == "eof":
            p.eof = True
        elif how == "reset":
            p.to_server.clear()
            p.err = errno.ECONNRESET
        elif how == "timeout":
            p.to_server.clear()
            p.err = errno.ETIMEDOUT
        elif how == "hostunreach":
            p.to_server.clear()
            p.err = errno.EHOSTUNREACH
        elif how == "broken":
            p.send_err = errno.EPIPE


def install_autoreply(world):
    """Peers with .auto set answer track queries at once."""
    import json
    net = world.net
    orig = net.event

    def event(kind, peer, data):
        orig(kind, peer, data)
        if kind == "send" and peer.auto and b'"track"' in data:
            m = json.loads(data)
            if m.get("ta-cmd") == "track" and m["msg-type"] == "notify" and \
               m.get("track-type") == "query":
                peer.push(refproto.wire("track", m["ta-id"], "inform",
                                        track_type="reply"))
    net.event = event


# --- histories -------------------------------------------------------------

PROPSETS = [
    {"name": ["a"]},
    {"name": ["b"]},
    {"name": ["a", "b"], "k": [1]},
    {"name": ["a"], "k": [5]},
    {},
    {"k": [42, "42"], "x": ["ab"]},
    {"name": ["aab"], "k": [-7]},
    {"name": ["100% %s %d", "%"], "k{}": ["%(x)s", "{0}"]},
    {"k": [2**64, -10**30], "name": ["a\n\x00", "\u00e5\U0001f600"]},
    {"k": [10**400], "": [""], "na=m(e)": ["\\*", "\ud800"]},
]
FILTERS = [
    None,
    "(name=a)",
    "(name=*)",
    "(k>1)",
    "(!(name=a))",
    "(&(name=a)(k<9))",
    "(|(name=b)(k=42))",
    "(name=a*b)",
    "(k=*)",
    "(name=100% %s %d)",
    "(|(name=*%*)(k{}=%\\(x\\)s))",
    "(k>9223372036854775808)",
    "(na\\=m\\(e\\)=\\\\\\*)",
]
BAD_FILTERS = ["", "(", "(name)", "(name=a", "name=a", "(&(a=b))", "(k>x)",
               "(a=b)c", "(=x)", "(\\a=b)", "(a=**)", "(k>1.5)"]

BIGIDS = [1, 2, 3, 4, 0, 2**63 - 1, 2**31, 7]


def opslice(ops):
    return ops


class Runner:
    """Interprets operations, which are lists starting with a name. Anything
    that does not apply is skipped, so that any list of operations is a valid
    history."""

    def __init__(self, case):
        self.case = case
        self.world = World(case.get("conf", {}), case.get("seed", 0))
        install_autoreply(self.world)
        self.auto_sync = case.get("sync", True)
        self.executed = 0

    def run(self):
        w = self.world
        try:
            for op in self.case["ops"]:
                if not isinstance(op, list) or not op:
                    continue
                fn = getattr(self, "op_" + str(op[0]), None)
                if fn is None:
                    continue
                try:
                    args = op[1:]
                    ok = fn(*args)
                except (TypeError, ValueError, KeyError, IndexError) as e:
                    if e.__traceback__.tb_next is not None and \
                       "vf/" not in traceback.extract_tb(
                           e.__traceback__)[-1].filename:
                        raise
                    if self.case.get("strict"):
                        raise
                    ok = False
                if ok is not False:
                    self.executed += 1
                if self.auto_sync:
                    w.sync()
                    w.settle()
            self.finish()
        finally:
            w.close()
        return w.stats

    def finish(self):
        w = self.world
        for p in w.peers.values():
            p.window = None
        w.sync()
        w.settle()
        if self.case.get("final", True):
            # a fresh client's view of every domain, at the end
            for d in range(len(w.domains)):
                if self.full(d):
                    continue
                p = w.connect("final%d" % d, d, 0, 0)
                w.request(p, "hello", client_id=9000000 + d,
                          protocol_minimum_version=2,
                          protocol_maximum_version=3)
                w.request(p, "services")
                w.request(p, "subscriptions")
                w.request(p, "clients")
                w.sync()
        w.check_gone()

    def full(self, d):
        cap = self.world.total.get("clients")
        return cap is not None and len(self.world.domains[d].conns) >= cap

    # operations; p is a peer slot

    def op_conn(self, p, dom=0, sock=0, user=0):
        if self.world.live(p):
            return False
        self.world.connect(p, dom, sock, user)

    def peer(self, p):
        x = self.world.live(p)
        if x is None:
            raise KeyError(p)
        return x

    def op_hello(self, p, cid, vmin=2, vmax=3):
        x = self.peer(p)
        if x.cid is None:
            x.cid = cid
        self.world.request(x, "hello", client_id=int(cid),
                           protocol_minimum_version=int(vmin),
                           protocol_maximum_version=int(vmax))

    def op_up(self, p, dom, user, cid, v=3):
        """connect and hello"""
        if self.world.live(p):
            return False
        x = self.world.connect(p, dom, 0, user)
        x.cid = cid
        self.world.request(x, "hello", client_id=int(cid),
                           protocol_minimum_version=2,
                           protocol_maximum_version=int(v))

    def op_pub(self, p, sid, gen, props, ttl):
        if isinstance(props, int):
            props = PROPSETS[props % len(PROPSETS)]
        self.world.request(self.peer(p), "publish", service_id=int(sid),
                           generation=int(gen), service_props=dict(props),
                           ttl=int(ttl))

    def op_unpub(self, p, sid):
        self.world.request(self.peer(p), "unpublish", service_id=int(sid))

    def op_sub(self, p, sub, flt=None):
        if isinstance(flt, int):
            flt = FILTERS[flt % len(FILTERS)]
        self.world.request(self.peer(p), "subscribe",
                           subscription_id=int(sub), filter=flt)

    def op_unsub(self, p, sub):
        self.world.request(self.peer(p), "unsubscribe",
                           subscription_id=int(sub))

    def op_list(self, p, what="services", flt=None):
        if isinstance(flt, int):
            flt = FILTERS[flt % len(FILTERS)]
        if what == "services":
            self.world.request(self.peer(p), "services", filter=flt)
        elif what in ("clients", "subscriptions"):
            self.world.request(self.peer(p), what)

    def op_ping(self, p):
        self.world.request(self.peer(p), "ping")

    def op_track(self, p):
        x = self.peer(p)
        ta = self.world.request(x, "track")
        if x.track_ta is None:
            x.track_ta = ta

    def op_tinf(self, p, what="query"):
        x = self.peer(p)
        if x.track_ta is None:
            return False
        self.world.request(x, "track", ta=x.track_ta, mtype="inform",
                           track_type=str(what))

    def op_auto(self, p, on=True):
        self.peer(p).auto = bool(on)

    def op_close(self, p, how="eof"):
        self.world.hangup(self.peer(p), how)

    def op_msg(self, p, m):
        """an arbitrary JSON value as message"""
        import json
        self.world.send(self.peer(p), json.dumps(m).encode("utf-8"))

    def op_raw(self, p, hexs):
        self.world.send(self.peer(p), bytes.fromhex(hexs))

    def op_huge(self, p, what, ident, gen, char, size, ttl=0):
        """A request about as large as may be. 'size' is that of the message
        which tells it to others, encoded as is usual, give or take."""
        x = self.peer(p)
        ta = x.next_ta
        x.next_ta += 1
        each = len(json.dumps(char)) - 2
        n = max(0, int(size) - 280) // each
        while True:
            if what == "pub":
                f = {"service-id": int(ident), "generation": int(gen),
                     "service-props": {"name": ["a", char * n]},
                     "ttl": int(ttl)}
                cmd = "publish"
            else:
                f = {"subscription-id": int(ident),
                     "filter": "(name=%s)" % (char * n)}
                cmd = "subscribe"
            data = json.dumps(dict(f, **{
                "ta-cmd": cmd, "ta-id": ta, "msg-type": "request"}),
                ensure_ascii=False, separators=(",", ":")).encode()
            if len(data) <= simxcm.MAX_MSG:
                break
            n -= (len(data) - simxcm.MAX_MSG) // each + 1
        self.world.send(x, data)

    def op_window(self, p, n):
        x = self.peer(p)
        x.limited = True
        x.window = None if n is None else max(0, int(n))

    def op_more(self, p, n):
        x = self.peer(p)
        if x.window is not None:
            x.window += max(0, int(n))

    def op_adv(self, dt):
        if not 0 <= dt <= 1e9:
            return False
        self.world.sync()
        self.world.settle()
        self.world.advance(dt)

    def op_sync(self):
        self.world.sync()
        self.world.settle()

    def op_gone(self, dom, sock, count=1):
        for _ in range(max(1, min(int(count), 50))):
            self.world.connect_gone(int(dom), int(sock))

    def op_attrerr(self, p, name):
        x = self.peer(p)
        if name in ("xcm.transport", "tcp.keepalive"):
            x.attr_err = name

    def op_accerr(self, dom, sock, err, count=1):
        m = self.world.domains[dom % len(self.world.domains)]
        s = self.world.net.servers[m.socks[sock % len(m.socks)]]
        s.accept_errs += [int(err)] * max(1, min(int(count), 400))


def run_history(case):
    """Returns (stats, divergence or None)."""
    r = None
    try:
        r = Runner(case)
        stats = r.run()
        stats["ops"] = r.executed
        return stats, None
    except Divergence as d:
        return (r.world.stats if r else {}), d
    except Inconclusive:
        return {"inconclusive": 1}, None
