"""The whole system: the daemon as a process of its own, with the real event
loop, transport binding and client library, on the stand-in for the transport
library."""
import contextlib
import json
import os
import re
import runpy
import shlex
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

import yaml

from .. import env, native, reffilter, sim
from ..refproto import canon_props, plain_props
from ..runner import Outcome
from ..sim import BAD_FILTERS, FILTERS

RULE = ("random configurations (domains, sockets, versions, limits) of a real "
        "daemon process, used by up to six clients (library) of several "
        "users, and by pafc, over real descriptors: sequential requests, "
        "pipelined bursts and concurrent storms, subscribers that stop "
        "reading, abrupt ends, hostile peers, daemon restarts, termination "
        "signals; non-trivial: services were seen by a subscriber, and a "
        "client or the daemon went away")
COUNTS = {"quick": 2400, "thorough": 60000}
ASSUMPTIONS = ["the stand-in library has the interface of the real one"]
CPU_LIMIT = 60
# as far as it may be put on a command line, or shown on a line
PROPSETS = sim.PROPSETS[:8]
PATIENCE = 15           # seconds, for anything
BIG = 10000000
OBSERVER = 90000
USERS = [("ux", None, None), ("tcp", "10.0.0.1", None),
         ("tcp", "10.0.0.2", None), ("tls", "10.0.0.1", "keyA"),
         ("tls", "10.0.0.2", "keyA"), ("tls", "10.0.0.1", "keyB"),
         ("tls", "10.0.0.3", "")]
SIGNALS = {"TERM": signal.SIGTERM, "INT": signal.SIGINT, "HUP": signal.SIGHUP}
SHRINK_S = 90

paf = None


def prepare(here):
    """Imports the code under test on the real system."""
    global paf, PAFD
    native.lib()
    sys.dont_write_bytecode = True
    sys.path.insert(0, env.REPO)
    import paf as pkg
    import paf.client
    import paf.daemon
    where = os.path.realpath(pkg.__file__)
    if not where.startswith(os.path.realpath(env.REPO) + os.sep):
        raise env.HarnessError("paf imported from %s" % where)
    paf = pkg


# --- generation

class Gen:
    def __init__(self, rng):
        self.r = rng
        r = rng
        self.ndom = r.choice([1, 1, 1, 2])
        self.nsock = r.choice([1, 1, 2, 3])
        self.users = r.choice([[0], [1, 1, 2], [3, 4, 5], [1, 3, 6],
                               list(range(7))])
        kinds = sorted({USERS[u][0] for u in self.users})
        self.kinds = (kinds * 3)[:max(self.nsock, len(kinds))]
        v = r.choice([[2, 3], [2, 3], [2, 3], [3, 3], [2, 2]])
        self.conf = {"versions": v, "ndom": self.ndom, "kinds": self.kinds,
                     "user": {}, "total": {},
                     "observer": r.random() < 0.5}
        if r.random() < 0.3:
            for k in ("clients", "subscriptions", "services"):
                if r.random() < 0.5:
                    self.conf["user"][k] = r.choice([1, 2, 3])
                if k != "clients" and r.random() < 0.4:
                    self.conf["total"][k] = r.choice([1, 2, 4])
        self.up = {}        # slot -> dom
        self.ops = []

    def slot(self):
        return self.r.choice(sorted(self.up)) if self.up else None

    def sid(self):
        return self.r.choice([0, 1, 2, 3, 2**63 - 1, 7, 8])

    def props(self):
        r = self.r
        if r.random() < 0.7:
            return r.choice(PROPSETS)
        return {r.choice(["name", "k", "\u00e5", "x y"]):
                [r.choice(["a", "b", "", "\U0001f600", 1, -7, 2**63 - 1, 42])]
                for _ in range(r.randint(0, 3))}

    def request(self):
        r = self.r
        x = r.random()
        if x < 0.5:
            return ["pub", self.sid(), r.choice([0, 0, 1, 1, 2, 3]),
                    self.props(), r.choice([0, 0, BIG, BIG, BIG, BIG + 1, 1])
                    if r.random() < 0.9 else r.choice([BIG, 2**63 - 1])]
        if x < 0.62:
            return ["unpub", self.sid()]
        if x < 0.72:
            return ["sub", r.choice([0, 1, 2, 3, 4, 2**63 - 1]), self.flt()]
        if x < 0.78:
            return ["unsub", r.choice([0, 1, 2, 3, 4])]
        if x < 0.86:
            return ["list", self.flt()]
        if x < 0.9:
            return ["clients"]
        if x < 0.94:
            return ["subs"]
        return ["ping"]

    def flt(self):
        r = self.r
        x = r.random()
        if x < 0.04:
            return r.choice(BAD_FILTERS)
        if x < 0.8:
            return r.choice(FILTERS)
        return reffilter.show(reffilter.gen(
            r, keys=["name", "k"], vals=["a", "b", "ab"], ints=(1, 5), d=2))

    def op_up(self, subscribe=False):
        r = self.r
        free = [s for s in range(6) if s not in self.up]
        if not free:
            return
        s = r.choice(free)
        dom = r.randrange(self.ndom)
        lo, hi = r.choice([(2, 3), (2, 3), (2, 3), (3, 3), (2, 2)])
        cid = r.choice([s + 1, s + 1, s + 1, r.randint(1, 6), 2**63 - 1])
        self.ops.append(["up", s, dom, r.choice(self.users), cid, [lo, hi],
                         r.choice(["sync", "sync", "ready", "file", "json"]),
                         r.random() < 0.3])
        self.up[s] = dom
        if subscribe:
            self.ops.append(["req", s, ["sub", 1000 + s + 10 * dom,
                                        self.flt()], "sync"])

    def build(self):
        r = self.r
        for _ in range(r.randint(1, 3)):
            self.op_up(r.random() < 0.8)
        for _ in range(r.randint(5, 25)):
            x = r.random()
            s = self.slot()
            if s is None or x < 0.1:
                self.op_up(r.random() < 0.4)
            elif x < 0.6:
                self.ops.append(["req", s, self.request(),
                                 r.choice(["sync", "sync", "async"])])
            elif x < 0.68:
                self.ops.append(["burst", s, [self.request() for _ in range(
                    r.choice([2, 5, 20]))]])
            elif x < 0.72:
                n = r.choice([5, 20, 60, 200])
                self.ops.append(["storm", sorted(r.sample(
                    sorted(self.up), r.randint(1, len(self.up)))), n,
                    r.randrange(10**6), r.choice([10, 10, 1000]),
                    r.random() < 0.3])
            elif x < 0.76:
                self.ops.append(["drop", s, r.choice([1, 3, 10, 100]),
                                 r.choice([10, 10, 3000])])
                del self.up[s]
            elif x < 0.84:
                self.ops.append(["close", s])
                del self.up[s]
            elif x < 0.9:
                self.ops.append(["junk", r.randrange(self.ndom),
                                 r.choice(self.users), r.choice([
                                     "", "x", "{}", "[]", "\x00\xff",
                                     '{"ta-cmd": "hello"}', None,
                                     '{"ta-cmd": "ping", "ta-id": 1, '
                                     '"msg-type": "request"}',
                                     "{" * 2000, "y" * 60000])])
            elif x < 0.93:
                self.ops.append(["pafc", r.randrange(self.ndom),
                                 r.choice(self.users), r.randint(1, 7),
                                 self.sid(), r.choice([0, 1, 2]),
                                 r.choice(PROPSETS), r.choice([0, BIG])])
            elif x < 0.935:
                self.ops.append(["bench", r.randrange(self.ndom),
                                 r.choice([0, 1, 5, 17, 40, 1100]),
                                 r.choice([0, 1, 3, 20, 200])])
            elif x < 0.95:
                self.ops.append(["restart", r.choice(sorted(SIGNALS))])
                self.up = {}
            else:
                self.ops.append(["settle"])
        return {"conf": self.conf, "ops": self.ops,
                "signal": r.choice(sorted(SIGNALS))}


def gen(rng, tier, i):
    return Gen(rng).build()


# --- the daemon

class Bad(Exception):
    pass


class Skip(Exception):
    """No verdict"""


def confine():
    if os.getuid() == 0:
        os.setgroups([])
        os.setgid(65534)
        os.setuid(65534)


class Daemon:
    def __init__(self, d, argv):
        self.d = d
        self.out = os.path.join(d, "daemon.out")
        self.status = None
        self.pid = os.fork()
        if self.pid == 0:
            code = 99
            try:
                signal.alarm(0)
                fd = os.open(self.out, os.O_CREAT | os.O_WRONLY | os.O_APPEND,
                             0o666)
                null = os.open("/dev/null", os.O_RDONLY)
                os.dup2(null, 0)
                os.dup2(fd, 1)
                os.dup2(fd, 2)
                os.closerange(3, 1000)
                sys.stdin = open(0, closefd=False)
                sys.stdout = open(1, "w", closefd=False)
                sys.stderr = open(2, "w", closefd=False)
                os.chdir(d)
                confine()
                sys.argv = ["pafd"] + argv
                try:
                    runpy.run_path(os.path.join(env.REPO, "app", "pafd"),
                                   run_name="__main__")
                    code = 0
                except SystemExit as e:
                    code = e.code if isinstance(e.code, int) else \
                        0 if e.code is None else 1
                except BaseException:
                    traceback.print_exc()
                    code = 98
                sys.stdout.flush()
                sys.stderr.flush()
            finally:
                os._exit(code)

    def alive(self):
        if self.status is None:
            pid, status = os.waitpid(self.pid, os.WNOHANG)
            if pid:
                self.status = status
        return self.status is None

    def text(self):
        with open(self.out, errors="replace") as f:
            return f.read()

    def check(self, what):
        if not self.alive():
            raise Bad("server-died", "the daemon ended (status %d) on %s; "
                      "its output ends with %r" %
                      (self.status, what, self.text()[-600:]))

    def stop(self, signame):
        self.check("nothing")
        os.kill(self.pid, SIGNALS[signame])
        end = time.monotonic() + PATIENCE
        n = 0
        while self.alive():
            if time.monotonic() > end:
                raise Bad("no-exit", "the daemon does not exit on SIG%s" %
                          signame)
            n += 1
            time.sleep(0.0005 if n < 40 else 0.01)
        if not os.WIFEXITED(self.status) or os.WEXITSTATUS(self.status):
            raise Bad("exit-status", "the daemon's exit status is %d after "
                      "SIG%s; its output ends with %r" %
                      (self.status, signame, self.text()[-600:]))
        if "Traceback" in self.text():
            raise Bad("traceback", "the daemon reports %r" %
                      self.text()[-600:])

    def resting(self, client):
        """Whether the daemon just waits, and so does the client: it is not
        the computer being busy which keeps anything from happening."""
        import select
        p = select.poll()
        try:
            p.register(client.fileno(), select.POLLIN)
            before = None
            for _ in range(20):
                time.sleep(0.1)
                with open("/proc/%d/stat" % self.pid) as f:
                    row = f.read().rpartition(")")[2].split()
                state, used = row[0], row[11:13]
                if state != "S" or before not in (None, used) or p.poll(0):
                    return False
                before = used
            return True
        except (AttributeError, OSError):
            return False

    def kill(self):
        if self.alive():
            os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)
            self.status = 0


# --- the expected state

class Svc:
    pass


class Sub:
    pass


class Dom:
    """What one domain should hold, given that requests are served one by
    one."""

    def __init__(self):
        self.services = {}
        self.subs = {}
        self.clients = {}


class Slot:
    def __init__(self):
        self.ended = False
        self.late = False


def user_of(u):
    kind, ip, ski = USERS[u]
    return ("ski", ski) if ski else ("ip", ip) if ip else "default"


class Session:
    def __init__(self, case, d):
        self.case, self.d = case, d
        self.conf = case["conf"]
        self.stats = {}
        self.slots = {}
        self.n = 0
        self.daemon = None
        os.environ["FAKEXCM_DIR"] = d
        os.environ["PAF_DOMAINS"] = os.path.join(d, "domains")
        os.mkdir(os.environ["PAF_DOMAINS"])
        self.observers = {}

    def st(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    # --- daemon

    def addr(self, dom, kind):
        n = self.conf["kinds"].index(kind) if kind in self.conf["kinds"] \
            else 0
        kind = self.conf["kinds"][n]
        return self.addrs(dom)[n]

    def addrs(self, dom):
        return [{"ux": "ux:d%ds%d", "tcp": "tcp:127.0.0.1:%d%d",
                 "tls": "tls:127.0.0.1:%d%d"}[k] % (dom, n)
                for n, k in enumerate(self.conf["kinds"] + ["tcp"])]

    def start(self):
        conf = {"domains": [], "log": {"syslog": False, "console": True,
                                       "filter": "error"}}
        lo, hi = self.conf["versions"]
        for n in range(self.conf["ndom"]):
            conf["domains"].append({
                "name": "d%d" % n, "sockets": [{"addr": a}
                                               for a in self.addrs(n)],
                "protocol_version": {"min": lo, "max": hi},
                "idle": {"min": 1000000, "max": 1000000}})
        res = {k: self.conf[k] for k in ("user", "total") if self.conf[k]}
        if res:
            conf["resources"] = res
        with open(os.path.join(self.d, "pafd.conf"), "w") as f:
            yaml.safe_dump(conf, f)
        self.doms = [Dom() for _ in range(self.conf["ndom"])]
        self.slots = {}
        for o in self.observers.values():
            o.close()
        self.observers = {}
        self.daemon = Daemon(self.d, ["-f", os.path.join(self.d,
                                                         "pafd.conf")])
        end = time.monotonic() + PATIENCE
        last = len(conf["domains"]) - 1
        n = 0
        while True:
            self.daemon.check("start")
            try:
                self.identity(0)
                s = paf.xcm.connect(self.addrs(last)[-1])
                s.close()
                return
            except paf.xcm.error:
                n += 1
                if time.monotonic() > end:
                    raise Bad("start", "the daemon does not serve")
                time.sleep(0.0005 if n < 100 else 0.02)

    def identity(self, u):
        kind, ip, ski = USERS[u % len(USERS)]
        os.environ["FAKEXCM_IP"] = ip or "127.0.0.1"
        os.environ["FAKEXCM_SKI"] = ski or ""
        return kind

    # --- expectation

    def over(self, dom, kind, user):
        d = self.doms[dom]
        if kind == "services":
            users = [s.user for s in d.services.values()]
        elif kind == "subscriptions":
            users = [s.user for s in d.subs.values()]
        else:
            users = [c.user for c in d.clients.values()]
        lim = self.conf["user"].get(kind)
        tot = self.conf["total"].get(kind)
        return lim is not None and users.count(user) >= lim or \
            tot is not None and len(users) >= tot

    def change(self, dom, svc, before, after):
        for sub in self.doms[dom].subs.values():
            b = before is not None and self.match(sub.filter, before)
            a = after is not None and self.match(sub.filter, after)
            if a or b:
                t = "modified" if a and b else "appeared" if a else \
                    "disappeared"
                sub.want.setdefault(svc.sid, []).append(self.event(t, svc))
                self.st("notification")

    def event(self, t, svc):
        if t == "disappeared":
            return (t, None)
        return (t, self.fields(svc))

    def fields(self, svc):
        return (svc.gen, svc.props, svc.ttl, svc.cid, svc.orphan)

    def match(self, ast, props):
        return ast is None or reffilter.match(ast, plain_props(props))

    def ast(self, text):
        """(valid, expression)"""
        if text is None:
            return True, None
        verdict, ast = reffilter.parse(text)
        if verdict == "gray":
            raise Skip()
        return verdict == "ok", ast

    def expect(self, slot, req):
        """The outcome of a request: ("ok", data) or ("fail", reasons)"""
        dom = slot.dom
        d = self.doms[dom]
        kind = req[0]
        if kind == "ping":
            return "ok", None
        if kind == "pub":
            _, sid, gen, props, ttl = req
            props = canon_props(props)
            svc = d.services.get(sid)
            if svc is None:
                if self.over(dom, "services", slot.user):
                    return "fail", ["insufficient-resources"]
                svc = d.services[sid] = Svc()
                svc.sid, svc.user = sid, slot.user
                before = None
            else:
                if svc.user != slot.user:
                    return "fail", ["permission-denied"]
                if gen < svc.gen:
                    return "fail", ["old-generation"]
                if gen == svc.gen and (ttl != svc.ttl or props != svc.props):
                    return "fail", ["same-generation-but-different"]
                before = svc.props
                if gen == svc.gen and svc.cid == slot.cid and \
                   svc.orphan is None:
                    return "ok", None
            svc.gen, svc.props, svc.ttl = gen, props, ttl
            svc.cid, svc.orphan, svc.slot = slot.cid, None, slot
            self.change(dom, svc, before, props)
            return "ok", None
        if kind == "unpub":
            svc = d.services.get(req[1])
            if svc is None:
                return "fail", ["non-existent-service-id"]
            if svc.user != slot.user:
                return "fail", ["permission-denied"]
            if svc.cid != slot.cid or svc.orphan is not None:
                svc.cid, svc.orphan = slot.cid, None
                self.change(dom, svc, svc.props, svc.props)
            del d.services[svc.sid]
            self.change(dom, svc, svc.props, None)
            return "ok", None
        if kind == "sub":
            ok, ast = self.ast(req[2])
            reasons = []
            if not ok:
                reasons.append("invalid-filter-syntax")
            if req[1] in d.subs:
                reasons.append("subscription-id-exists")
            if self.over(dom, "subscriptions", slot.user):
                reasons.append("insufficient-resources")
            if reasons:
                return "fail", reasons
            sub = d.subs[req[1]] = Sub()
            sub.sid, sub.filter, sub.text = req[1], ast, req[2]
            sub.cid, sub.user, sub.slot = slot.cid, slot.user, slot
            sub.want, sub.got, sub.ended = {}, {}, False
            for svc in d.services.values():
                if self.match(ast, svc.props):
                    sub.want.setdefault(svc.sid, []).append(
                        self.event("appeared", svc))
            slot.subs.append(sub)
            return "ok", sub
        if kind == "unsub":
            sub = d.subs.get(req[1])
            if sub is None:
                return "fail", ["non-existent-subscription-id"]
            if sub.cid != slot.cid:
                return "fail", ["permission-denied"]
            del d.subs[sub.sid]
            sub.ended = True
            return "ok", None
        if kind == "list":
            ok, ast = self.ast(req[1])
            if not ok:
                return "fail", ["invalid-filter-syntax"]
            return "ok", sorted(
                [s.sid, self.fields(s)] for s in d.services.values()
                if self.match(ast, s.props))
        if kind == "clients":
            return "ok", sorted(
                [c.cid, c.kind, c.version if slot.version >= 3 else None]
                for c in d.clients.values())
        return "ok", sorted(([s.sid, s.cid, s.filter]
                             for s in d.subs.values()),
                            key=lambda row: row[:2])

    # --- observation

    def seen(self, args, opt):
        """fields of a service, as in a notification or listing"""
        gen, props, ttl, cid = args
        return (gen, self.canon(props), ttl, cid, opt.get("orphan_since"))

    def canon(self, props):
        return canon_props({k: list(v) for k, v in props.items()})

    def same(self, got, want):
        if got[:4] != want[:4]:
            return False
        if want[4] is None or got[4] is None:
            return want[4] is got[4]
        lo, hi = want[4]
        return lo - 1 <= got[4] <= hi + 1

    def sub_event(self, sub, event, args, opt):
        name = event.name
        if name == "ACCEPT":
            if sub.state is not None:
                raise Bad("sub-accept", "subscription accepted twice")
            sub.state = "accepted"
        elif name == "NOTIFY":
            if sub.state != "accepted":
                raise Bad("sub-state", "notification %s" % sub.state)
            t, sid = args[0], args[1]
            if t == "disappeared":
                row = (t, None)
            else:
                row = (t, self.seen([opt.get(k) for k in (
                    "generation", "service_props", "ttl", "client_id")], opt))
            sub.got.setdefault(sid, []).append(row)
        elif name == "COMPLETE":
            sub.state = "complete"
        else:
            sub.state = "fail"
            sub.reason = opt.get("fail_reason")

    def issue(self, slot, req, box):
        """Sends a request; box gets what comes back."""
        c = slot.client
        kind = req[0]
        box["events"] = []

        def cb(ta_id, event, *args, **opt):
            box["events"].append((event.name, args, opt))
        if kind == "pub":
            props = {k: set(v) for k, v in req[3].items()}
            c.publish(req[1], req[2], props, req[4], cb)
        elif kind == "unpub":
            c.unpublish(req[1], cb)
        elif kind == "sub":
            sub = Sub()
            sub.state, sub.reason, sub.got = None, None, {}
            box["sub"] = sub
            c.subscribe(req[1], lambda ta, event, *args, **opt:
                        self.sub_event(sub, event, args, opt), filter=req[2])
        elif kind == "unsub":
            c.unsubscribe(req[1], cb)
        elif kind == "list":
            c.services(cb, filter=req[1])
        elif kind == "clients":
            c.clients(cb)
        elif kind == "subs":
            c.subscriptions(cb)
        else:
            c.ping(cb)

    def done(self, box):
        if "sub" in box:
            return box["sub"].state is not None
        return bool(box["events"]) and box["events"][-1][0] in ("COMPLETE",
                                                                "FAIL")

    def hang(self, client, what):
        if self.daemon.resting(client):
            raise Bad("deadlock", what + ", and everybody waits")
        raise Bad("hang", what)

    def pump(self, slot, until, what):
        import select
        p = select.poll()
        p.register(slot.client.fileno(), select.POLLIN)
        end = time.monotonic() + PATIENCE
        try:
            slot.client.process()
            while not until():
                idle = not p.poll(1000 * PATIENCE)
                slot.client.process()
                if not self.daemon.alive():
                    self.daemon.check(what)
                if (idle or time.monotonic() > end) and not until():
                    self.hang(slot.client, "no answer to %s" % what)
        except paf.client.Error as e:
            self.daemon.check(what)
            raise Bad("client-error", "%s: %s: %s" %
                      (what, type(e).__name__, e))

    def outcome(self, box):
        if "sub" in box:
            s = box["sub"]
            if s.state == "fail":
                return "fail", s.reason
            return "ok", None
        ev = box["events"]
        names = [e[0] for e in ev]
        if names[-1] == "FAIL":
            if len(names) > 1:
                raise Bad("events", "events %s" % names)
            return "fail", ev[-1][2].get("fail_reason")
        return "ok", ev

    def check(self, slot, req, want, box):
        got = self.outcome(box)
        what = "%s by client %d" % (json.dumps(req)[:300], slot.cid)
        if want[0] == "fail":
            self.st("fail:" + want[1][0])
            if got[0] != "fail" or got[1] not in want[1]:
                raise Bad("outcome", "%s should fail (%s), but got %s" %
                          (what, " or ".join(want[1]),
                           "failure (%s)" % got[1] if got[0] == "fail"
                           else "success"))
            return
        if got[0] == "fail":
            raise Bad("outcome", "%s failed (%s)" % (what, got[1]))
        self.st("ok:" + req[0])
        if req[0] == "sub":
            want[1].state = box["sub"]
            return
        names = [e[0] for e in got[1]]
        multi = req[0] in ("list", "clients", "subs")
        if multi and (names[0] != "ACCEPT" or set(names[1:-1]) - {"NOTIFY"}) \
           or not multi and len(names) != 1:
            raise Bad("events", "%s: events %s" % (what, names))
        rows = got[1][1:-1]
        if req[0] == "list":
            self.check_list(what, want[1], sorted(
                [a[0], self.seen(a[1:], o)] for _, a, o in rows))
        elif req[0] == "clients":
            r = sorted([a[0], a[1].partition(":")[0],
                        a[4] if len(a) > 3 else None] for _, a, o in rows
                       if a[0] not in range(OBSERVER, OBSERVER + 10000))
            if r != want[1]:
                raise Bad("clients", "%s: listed %s, expected %s" %
                          (what, r, want[1]))
        elif req[0] == "subs":
            r = sorted([a[0], a[1], o.get("filter")] for _, a, o in rows)
            if [x[:2] for x in r] != [x[:2] for x in want[1]]:
                raise Bad("subscriptions", "%s: listed %s, expected %s" %
                          (what, r, want[1]))
            for x, y in zip(r, want[1]):
                ast = None if x[2] is None else reffilter.parse(x[2])[1]
                if (ast is None) != (y[2] is None) or ast is not None and \
                   reffilter.norm(ast) != reffilter.norm(y[2]):
                    raise Bad("subscriptions", "%s: listed %s, expected %s" %
                              (what, x, y))

    def check_list(self, what, want, got):
        if [w[0] for w in want] != [g[0] for g in got]:
            raise Bad("services", "%s: listed services %s, expected %s" %
                      (what, [g[0] for g in got], [w[0] for w in want]))
        for w, g in zip(want, got):
            if not self.same(g[1], w[1]):
                raise Bad("services", "%s: listed %s, expected %s" %
                          (what, g, w))

    # --- operations

    def live(self, s):
        x = self.slots.get(s)
        if x is None:
            raise KeyError(s)
        return x

    def observer(self, dom):
        """A client by which to observe, of a user of its own."""
        o = self.observers.get(dom)
        if o is None:
            self.n += 1
            os.environ["FAKEXCM_IP"] = "10.9.%d.%d" % divmod(self.n, 250)
            os.environ["FAKEXCM_SKI"] = ""
            try:
                with self.patience():
                    o = paf.client.connect(self.addrs(dom)[-1],
                                           client_id=OBSERVER + self.n)
            except paf.client.Error as e:
                self.daemon.check("connect")
                raise Bad("hello", "connecting an observer failed: %s" % e)
            self.observers[dom] = o
        return o

    def observe(self, dom, what):
        """a listing"""
        o = self.observer(dom)
        try:
            with self.patience(o):
                return o.services() if what == "services" else o.clients()
        except paf.client.Error as e:
            self.daemon.check("listing")
            raise Bad("client-error", "listing: %s: %s" %
                      (type(e).__name__, e))
        finally:
            if not self.conf.get("observer"):
                o.close()
                del self.observers[dom]

    def fading(self):
        """Waits until orphans that are due soon are gone."""
        for n, d in enumerate(self.doms):
            due = [s for s in d.services.values()
                   if s.orphan is not None and s.ttl < 100]
            end = time.monotonic() + PATIENCE + max(
                [s.ttl for s in due], default=0)
            while due:
                sids = {r[0] for r in self.observe(n, "services")}
                now = time.time()
                # the order is that of the time they are due
                for s in sorted(due, key=lambda s: s.ttl):
                    if s.sid not in sids:
                        if now < s.orphan[0] + s.ttl - 0.001:
                            raise Bad("early", "service %d with TTL %d, "
                                      "orphan since %.3f, is gone at %.3f" %
                                      (s.sid, s.ttl, s.orphan[0], now))
                        due.remove(s)
                        del d.services[s.sid]
                        self.change(n, s, s.props, None)
                        self.st("expired")
                if due:
                    if time.monotonic() > end:
                        raise Bad("late", "service %d with TTL %d, orphan "
                                  "since %.3f, is still there at %.3f" %
                                  (due[0].sid, due[0].ttl, due[0].orphan[0],
                                   now))
                    time.sleep(0.0005 if any(s.ttl == 0 for s in due)
                               else 0.02)

    def op_up(self, s, dom, u, cid, versions, mode, track):
        if s in self.slots:
            return
        dom %= self.conf["ndom"]
        self.fading()
        kind = self.identity(u)
        x = Slot()
        addr = self.addr(dom, kind)
        x.kind = addr.partition(":")[0]
        x.user = user_of(u % len(USERS)) if x.kind == kind else None
        if x.user is None:
            # a socket of another kind is used
            _, ip, ski = USERS[u % len(USERS)]
            ip = ip or "127.0.0.1"
            x.user = "default" if x.kind == "ux" else \
                ("ski", ski) if ski and x.kind == "tls" else ("ip", ip)
        x.dom, x.cid, x.subs = dom, cid, []
        lo = max(versions[0], self.conf["versions"][0])
        hi = min(versions[1], self.conf["versions"][1])
        d = self.doms[dom]
        reasons = []
        if lo > hi:
            reasons.append("unsupported-protocol-version")
        else:
            cur = d.clients.get(cid)
            bound = {v.user for v in d.services.values() if v.cid == cid}
            if cur is not None:
                reasons.append("client-id-exists")
                bound.add(cur.user)
            if bound and x.user not in bound:
                reasons.append("permission-denied")
            if self.over(dom, "clients", x.user):
                reasons.append("insufficient-resources")
        what = "connecting client %d" % cid
        conf = paf.client.ServerConf(addr, *versions)
        if mode == "file" and list(versions) == [2, 3]:
            self.n += 1
            conf = "dom%d" % self.n
            with open(os.path.join(self.d, "domains", conf), "w") as f:
                f.write("# x\n\n%s\n" % addr)
        elif mode == "json":
            self.n += 1
            conf = "dom%d" % self.n
            with open(os.path.join(self.d, "domains", conf), "w") as f:
                json.dump({"servers": [{"address": addr, "minProtocolVersion":
                                        versions[0], "maxProtocolVersion":
                                        versions[1]}]}, f)
        ready = []
        try:
            if mode == "ready":
                x.client = paf.client.connect(
                    conf, client_id=cid, track=track,
                    ready_cb=lambda: ready.append(1))
                import select
                p = select.poll()
                p.register(x.client.fileno(), select.POLLIN)
                end = time.monotonic() + PATIENCE
                while not ready:
                    x.client.process()
                    if not ready and not p.poll(1000 * PATIENCE) or \
                       time.monotonic() > end:
                        self.hang(x.client, "no answer to hello")
            else:
                with self.patience():
                    x.client = paf.client.connect(conf, client_id=cid,
                                                  track=track)
        except paf.client.ProtocolError as e:
            self.daemon.check(what)
            m = re.search(r"([a-z]+(-[a-z]+)+)$", str(e))
            if not reasons or m is None or m.group(1) not in reasons:
                raise Bad("hello", "%s failed: %s (expected: %s)" %
                          (what, e, reasons or "success"))
            self.st("refused:" + m.group(1))
            if mode == "ready":
                x.client.close()
            return
        except paf.client.Error as e:
            self.daemon.check(what)
            raise Bad("hello", "%s failed: %s" % (what, e))
        if reasons:
            raise Bad("hello", "%s should fail: %s" % (what, reasons))
        x.version = hi
        if x.client.proto_version != hi:
            raise Bad("version", "%s: version %s, expected %d" %
                      (what, x.client.proto_version, hi))
        d.clients[cid] = x
        self.slots[s] = x
        self.st("connected")

    def op_req(self, s, req, mode):
        x = self.live(s)
        self.fading()
        if req[0] == "sub" or mode == "async":
            return self.run_reqs(x, [req])
        want = self.expect(x, req)
        self.sync(x, req, want)

    def sync(self, x, req, want):
        """by means of the blocking calls"""
        c = x.client
        box = {"events": []}
        kind = req[0]
        guard = self.patience(c)
        guard.__enter__()
        try:
            rows = None
            if kind == "pub":
                c.publish(req[1], req[2], {k: set(v) for k, v in
                                           req[3].items()}, req[4])
            elif kind == "unpub":
                c.unpublish(req[1])
            elif kind == "unsub":
                c.unsubscribe(req[1])
            elif kind == "list":
                rows = c.services(filter=req[1])
            elif kind == "clients":
                rows = c.clients()
            elif kind == "subs":
                rows = c.subscriptions()
            else:
                t = c.ping()
                if not 0 <= t <= PATIENCE:
                    raise Bad("latency", "latency %r" % t)
            if rows is not None:
                box["events"] = [("ACCEPT", (), {})]
                for r in rows:
                    opt = r[-1] if isinstance(r[-1], dict) and \
                        not (kind == "list" and len(r) == 5) else {}
                    args = r[:-1] if opt else r
                    box["events"].append(("NOTIFY", tuple(args), opt))
            box["events"].append(("COMPLETE", (), {}))
        except paf.client.TransactionError as e:
            m = re.search(r"'([a-z-]+)'", str(e))
            box["events"] = [("FAIL", (), {"fail_reason":
                                           m.group(1) if m else None})]
        except paf.client.Error as e:
            self.daemon.check(kind)
            raise Bad("client-error", "%s: %s: %s" % (kind, type(e).__name__,
                                                      e))
        finally:
            guard.__exit__(None, None, None)
        self.check(x, req, want, box)

    @contextlib.contextmanager
    def patience(self, client=None):
        def alarm(signo, frame):
            self.daemon.check("waiting")
            self.hang(client, "blocking call does not return")
        old = signal.signal(signal.SIGALRM, alarm)
        signal.alarm(PATIENCE)
        try:
            yield
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)

    def run_reqs(self, x, reqs):
        boxes = []
        for req in reqs:
            box = {}
            self.issue(x, req, box)
            boxes.append((req, box))
        self.pump(x, lambda: all(self.done(b) for _, b in boxes),
                  "%d requests" % len(reqs))
        # these have been served in order
        for req, box in boxes:
            self.check(x, req, self.expect(x, req), box)

    def op_burst(self, s, reqs):
        x = self.live(s)
        self.fading()
        self.st("burst")
        self.run_reqs(x, reqs)

    def op_storm(self, slots, n, seed, size, freeze=False):
        """several clients at once, each with services of its own; possibly
        with the daemon not running until all requests have been issued"""
        import random
        import select
        r = random.Random(seed)
        self.fading()
        xs = [(s, self.slots[s]) for s in slots if s in self.slots]
        if not xs:
            return
        if self.conf["user"].get("services") is not None or \
           self.conf["total"].get("services") is not None:
            return
        todo = []
        boxes = []
        for s, x in xs:
            sids = [10000 + 100 * s + k for k in range(3)]
            gens = {sid: 0 if sid not in self.doms[x.dom].services else
                    self.doms[x.dom].services[sid].gen + 1 for sid in sids}
            for _ in range(n):
                sid = r.choice(sids)
                if r.random() < 0.1:
                    todo.append((x, ["unpub", sid]))
                    continue
                todo.append((x, ["pub", sid, gens[sid], {"name": [
                    r.choice("ab")], "fill": ["z" * size]}, BIG]))
                gens[sid] += 1
        order = list(range(len(todo)))
        queues = {}
        for x, req in todo:
            queues.setdefault(x.cid + 10 * x.dom, []).append((x, req))
        keys = sorted(queues)
        if freeze:
            self.daemon.check("storm")
            os.kill(self.daemon.pid, signal.SIGSTOP)
        while any(queues.values()):
            k = r.choice([k for k in keys if queues[k]])
            x, req = queues[k].pop(0)
            box = {}
            self.issue(x, req, box)
            boxes.append((x, req, box))
        if freeze:
            self.st("frozen storm")
            self.st("requests not taken at once",
                    any(x.client.out_wire_msgs for _, x in xs))
            os.kill(self.daemon.pid, signal.SIGCONT)
        end = time.monotonic() + PATIENCE
        p = select.poll()
        for _, x in xs:
            p.register(x.client.fileno(), select.POLLIN)
        try:
            while not all(self.done(b) for _, _, b in boxes):
                for _, x in xs:
                    x.client.process()
                self.daemon.check("storm")
                if all(self.done(b) for _, _, b in boxes):
                    break
                if not p.poll(1000 * PATIENCE) or time.monotonic() > end:
                    stuck = [x.client for _, x in xs]
                    if all(map(self.daemon.resting, stuck)):
                        raise Bad("deadlock", "no answer to all requests of "
                                  "a storm, and everybody waits")
                    raise Bad("hang", "no answer to all requests of a storm")
        except paf.client.Error as e:
            self.daemon.check("storm")
            raise Bad("client-error", "storm: %s: %s" % (type(e).__name__, e))
        for x, req, box in boxes:
            self.check(x, req, self.expect(x, req), box)
        self.st("storm")

    def op_close(self, s):
        x = self.live(s)
        self.fading()
        del self.slots[s]
        self.close(x)

    def op_drop(self, s, n, size):
        """an end amid requests: those served are the first ones"""
        x = self.live(s)
        self.fading()
        if self.conf["user"].get("services") is not None or \
           self.conf["total"].get("services") is not None:
            return self.op_close(s)
        self.n += 1
        reqs = [["pub", 10**6 + 1000 * self.n + k, k, {
            "name": ["ab"[k % 2]], "fill": ["z" * size]}, BIG]
            for k in range(n)]
        for req in reqs:
            self.issue(x, req, {})
        del self.slots[s]
        lo = time.time()
        x.client.close()
        self.gone(x)
        have = {row[0] for row in self.observe(x.dom, "services")}
        there = [req[1] in have for req in reqs]
        if there != sorted(there, reverse=True):
            raise Bad("order", "of %d services published by a client at its "
                      "end, a later one is there, but not an earlier one: "
                      "%s" % (n, there))
        for req in reqs[:sum(there)]:
            self.expect(x, req)
        self.st("dropped")
        self.st("dropped partly", 0 < sum(there) < n)
        self.close(x, lo)

    def close(self, x, lo=None):
        if lo is None:
            lo = time.time()
            x.client.close()
        d = self.doms[x.dom]
        x.ended = True
        self.gone(x)
        hi = time.time()
        del d.clients[x.cid]
        for sub in list(d.subs.values()):
            if sub.slot is x:
                del d.subs[sub.sid]
        for svc in sorted(d.services.values(), key=lambda v: v.sid):
            if svc.slot is x and svc.orphan is None:
                svc.orphan = (lo, hi)
                self.change(x.dom, svc, svc.props, svc.props)
                self.st("orphan")
        self.st("closed")

    def gone(self, x):
        """Waits until the server has noticed the end of a client."""
        end = time.monotonic() + PATIENCE
        while x.cid in [r[0] for r in self.observe(x.dom, "clients")]:
            if time.monotonic() > end:
                raise Bad("late", "client %d is listed although it is gone" %
                          x.cid)

    def op_junk(self, dom, u, data):
        dom %= self.conf["ndom"]
        kind = self.identity(u)
        try:
            sock = paf.xcm.connect(self.addr(dom, kind),
                                   attrs={"xcm.blocking": False})
        except paf.xcm.error as e:
            raise Bad("connect", "%s" % e)
        try:
            if data:
                sock.send(data.encode())
            if data is not None and data != "":
                import select
                p = select.poll()
                p.register(sock.fileno(), select.POLLIN)
                sock.set_target(paf.xcm.SO_RECEIVABLE)
                end = time.monotonic() + PATIENCE
                while True:
                    self.daemon.check("junk")
                    try:
                        m = sock.receive()
                        break
                    except paf.xcm.error as e:
                        if e.errno != 11:
                            m = b""
                            break
                    if not p.poll(1000 * PATIENCE) or \
                       time.monotonic() > end:
                        raise Bad("junk", "neither an answer to %r, nor is "
                                  "the connection closed" % data[:100])
                if '"ping"' in data:
                    if b"no-hello" not in m:
                        raise Bad("junk", "answer %r to ping before hello" %
                                  m)
                elif m != b"":
                    raise Bad("junk", "answer %r to %r" % (m, data[:100]))
            self.st("junk")
        finally:
            sock.close()

    def op_pafc(self, dom, u, cid, sid, gen, props, ttl):
        dom %= self.conf["ndom"]
        self.fading()
        d = self.doms[dom]
        kind = self.identity(u)
        addr = self.addr(dom, kind)
        x = Slot()
        x.kind = addr.partition(":")[0]
        _, ip, ski = USERS[u % len(USERS)]
        x.user = "default" if x.kind == "ux" else ("ski", ski) \
            if ski and x.kind == "tls" else ("ip", ip or "127.0.0.1")
        x.dom, x.cid, x.subs = dom, cid, []
        bound = {v.user for v in d.services.values() if v.cid == cid}
        lines = "publish %x %d %d %s\nservices\n" % (sid, gen, ttl, " ".join(
            "%s %s" % (shlex.quote(k), v if isinstance(v, int) else
                       shlex.quote("|%s|" % v if re.match(r"\s*-?\d+\s*$", v)
                                   else v))
            for k, vs in props.items() for v in vs))
        lo = time.time()
        try:
            p = subprocess.run(
                [sys.executable, "-c", LAUNCH, env.REPO, native.LIB, "-i",
                 "%x" % cid, addr], input=lines, capture_output=True,
                text=True, timeout=PATIENCE + 20, cwd=self.d)
        except subprocess.TimeoutExpired:
            self.daemon.check("pafc")
            raise Bad("hang", "pafc does not end")
        self.daemon.check("pafc")
        self.st("pafc")
        text = p.stdout + p.stderr
        if "Traceback" in text:
            raise Bad("pafc", "pafc: %s" % text[-600:])
        if cid in d.clients or bound and x.user not in bound or \
           self.over(dom, "clients", x.user):
            if p.returncode == 0:
                raise Bad("pafc", "pafc as client %d should fail, but: %s" %
                          (cid, text[-300:]))
            return
        if p.returncode != 0:
            raise Bad("pafc", "pafc as client %d failed: %s" %
                      (cid, text[-300:]))
        x.version = self.conf["versions"][1]
        want = self.expect(x, ["pub", sid, gen, props, ttl])
        if want[0] == "fail":
            if want[1][0] not in text:
                raise Bad("pafc", "publish by pafc should fail (%s): %s" %
                          (want[1], text[-300:]))
        rows = [row.split()[0] for row in text.split("\n")
                if re.match(r"^\s*[0-9a-f]+ +\d+ +[0-9a-f]+ ", row)]
        listed = sorted(int(v, 16) for v in rows)
        if listed != sorted(d.services):
            raise Bad("pafc", "pafc lists %s of services %s: %s" %
                      (listed, sorted(d.services), text[-500:]))
        d.clients[cid] = x
        self.gone(x)
        hi = time.time()
        del d.clients[cid]
        for svc in sorted(d.services.values(), key=lambda v: v.sid):
            if svc.slot is x and svc.orphan is None:
                svc.orphan = (lo, hi)
                self.change(dom, svc, svc.props, svc.props)

    def op_bench(self, dom, services, subs):
        """the benchmark tool, as yet another client"""
        dom %= self.conf["ndom"]
        if self.conf["user"] or self.conf["total"]:
            return
        self.fading()
        self.check_subs()
        self.identity(0)
        addr = self.addrs(dom)[-1]
        try:
            p = subprocess.run(
                [sys.executable, "-c", LAUNCH.replace("pafc", "pafbench"),
                 env.REPO, native.LIB, str(services), str(subs), addr],
                capture_output=True, text=True, timeout=PATIENCE + 40,
                cwd=self.d)
        except subprocess.TimeoutExpired:
            self.daemon.check("pafbench")
            raise Bad("hang", "pafbench does not end")
        self.daemon.check("pafbench")
        if p.returncode != 0 or "Traceback" in p.stderr:
            raise Bad("pafbench", "pafbench %d %d: %s" %
                      (services, subs, (p.stdout + p.stderr)[-600:]))
        for what in ("Services: %d" % services, "Subscriptions: %d" % subs):
            if what not in p.stdout:
                raise Bad("pafbench", "no '%s' from pafbench: %s" %
                          (what, p.stdout[:600]))
        self.st("pafbench")
        left = {row[0] for row in self.observe(dom, "services")} - \
            set(self.doms[dom].services)
        if left:
            raise Bad("pafbench", "services %s are left behind" % sorted(left))
        # its services were seen by the subscribers of the domain, only
        rows = []
        for n in (services, 16):
            rows += [{"name": ["service-%d" % k], "color": ["green"],
                      "addr": ["tls:10.10.10.10:4711"]} for k in range(n)]
        for x in self.slots.values():
            box = {}
            self.issue(x, ["ping"], box)
            self.pump(x, lambda: self.done(box), "ping")
            for sub in x.subs:
                want = [] if x.dom != dom or sub.ended else \
                    [r for r in rows if self.match(sub.filter,
                                                   canon_props(r))]
                got = []
                for sid in set(sub.state.got) - set(sub.want):
                    seen = sub.state.got.pop(sid)
                    if [e[0] for e in seen] != ["appeared", "disappeared"] or \
                       seen[0][1][0] != 0 or seen[0][1][2] != 30 or \
                       seen[0][1][4] is not None:
                        raise Bad("notifications", "of a service of pafbench:"
                                  " %s" % short(seen))
                    got.append(seen[0][1][1])
                want = sorted(repr(sorted((k, sorted(v)) for k, v in
                                          canon_props(r).items()))
                              for r in want)
                if sorted(repr(sorted((k, sorted(v)) for k, v in r.items()))
                          for r in got) != want:
                    raise Bad("notifications", "services of pafbench seen by "
                              "subscription %d: %d, expected %d" %
                              (sub.sid, len(got), len(want)))
                if got:
                    self.st("benchmark seen")

    def op_restart(self, signame):
        self.check_subs()
        self.daemon.stop(signame)
        for x in self.slots.values():
            end = time.monotonic() + PATIENCE
            while True:
                try:
                    x.client.process()
                except paf.client.Error:
                    break
                if time.monotonic() > end:
                    raise Bad("no-eof", "a client does not notice that the "
                              "daemon is gone")
                time.sleep(0.0005)
            x.client.close()
        self.st("restart")
        self.start()

    def op_settle(self):
        self.check_subs()

    def check_subs(self):
        """Every subscriber has seen what it should have."""
        self.fading()
        for x in self.slots.values():
            box = {}
            self.issue(x, ["ping"], box)
            self.pump(x, lambda: self.done(box), "ping")
            for sub in x.subs:
                seen = sub.state
                what = "subscription %d of client %d" % (sub.sid, x.cid)
                if (seen.state == "complete") != sub.ended:
                    raise Bad("sub-state", "%s is %s" % (what, seen.state))
                for sid in sorted(set(seen.got) | set(sub.want)):
                    got = seen.got.get(sid, [])
                    want = sub.want.get(sid, [])
                    ok = len(got) == len(want) and all(
                        g[0] == w[0] and (w[1] is None or
                                          self.same(g[1], w[1]))
                        for g, w in zip(got, want))
                    if not ok:
                        raise Bad("notifications", "%s, service %d: got %s, "
                                  "expected %s" % (what, sid, short(got),
                                                   short(want)))
                    if got:
                        self.st("reconstructed")

    def run(self):
        self.start()
        for op in self.case["ops"]:
            try:
                f = getattr(self, "op_" + op[0])
                args = op[1:]
                f(*args)
            except KeyError as e:
                if e.args and e.args[0] in range(10):
                    continue
                raise
            self.daemon.check(json.dumps(op)[:200])
        self.check_subs()
        for n in range(self.conf["ndom"]):
            mine = [x for x in self.slots.values() if x.dom == n]
            for x in mine[:1]:
                self.sync(x, ["list", None], self.expect(x, ["list", None]))
        self.daemon.stop(self.case.get("signal", "TERM"))

    def close_all(self):
        if self.daemon is not None:
            self.daemon.kill()


LAUNCH = """
import ctypes, os, runpy, sys
sys.dont_write_bytecode = True
repo, lib = sys.argv[1:3]
ctypes.CDLL(lib, mode=ctypes.RTLD_GLOBAL)
sys.path.insert(0, repo)
sys.argv = ["pafc"] + sys.argv[3:]
runpy.run_path(os.path.join(repo, "app", "pafc"), run_name="__main__")
"""


def short(rows):
    t = repr(rows)
    return t if len(t) < 700 else t[:350] + " ... " + t[-350:]


def attempt(case):
    d = tempfile.mkdtemp(prefix="vf28")
    os.chmod(d, 0o777)
    s = None
    try:
        try:
            s = Session(case, d)
            s.run()
            failure = None
        except Bad as e:
            failure = e.args
        except Skip:
            failure = None
        return failure, s.stats if s is not None else {}
    finally:
        if s is not None:
            s.close_all()
        shutil.rmtree(d, ignore_errors=True)


def run(case):
    failure, stats = attempt(case)
    if failure is not None and failure[0] in ("hang", "no-exit", "late",
                                              "no-eof", "start", "junk"):
        # a matter of time: not to be mistaken for a busy computer
        failure, stats = attempt(case)
    return Outcome(failure, bool(stats.get("reconstructed") and (
        stats.get("closed") or stats.get("restart"))), stats)
