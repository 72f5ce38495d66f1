"""The client library against a scripted server and a reference model."""
import errno
import json
import random

from .. import env, heap, junk, refproto, simxcm
from ..env import CLOCK
from ..runner import Outcome

RULE = ("sequences of asynchronous and blocking operations (also issued from "
        "within callbacks), valid server messages in and out of order, "
        "unexpected, mutated and malformed ones, transport errors, closed "
        "connections, and connections not ready to send; every request seen "
        "by the transport and every callback, result and exception is "
        "compared with the model; non-trivial: at least three messages "
        "consumed, or an error reported")
COUNTS = {"quick": 60000, "thorough": 2400000}
ISOLATE = False
CPU_LIMIT = 30
paf = env.load()
client, proto = paf.client, paf.proto

OPS = ["publish", "unpublish", "subscribe", "unsubscribe", "subscriptions",
       "services", "ping", "clients", "hello"]
IDS = [0, 1, 42, 2**31, 2**63 - 1]
LONG = ["b" * 1500, "\u00e5" * 9000]
FILTERS = ["(a=b)", "(&(name=*)(x>3))", "x", "", "\u00e5",
           "(long=%s)" % LONG[0]]
REASONS = ["no-hello", "old-generation", "", "x y", "\u00e5%s",
           "permission-denied"]
STRS = ["", "x", "\u00e5\u4e16\U0001f600", "\"\\\n\u0000", "query", "a" * 99,
        "tcp:[::1]:4711", "appeared"]
ERRS = [errno.ECONNRESET, errno.EPIPE, errno.ETIMEDOUT, errno.ECONNREFUSED,
        errno.ENOENT, errno.EPROTO]


# -- generation -------------------------------------------------------------

def gprops(r):
    return {r.choice(STRS + ["name", "k"]): [
        r.choice(STRS + (LONG if r.random() < .1 else []) + [0, 1, -1, 2**63 - 1, -2**63, 42, "42"])
        for _ in range(r.choice([1, 1, 2]))]
        for _ in range(r.choice([0, 1, 1, 2]))}


def gvalue(r, t):
    if t == "string":
        return r.choice(STRS)
    if t == "int":
        return r.choice(IDS)
    if t == "number":
        return r.choice([0, 0.5, 1e9, 7, 1e300, 123.456])
    return gprops(r)


def gop(r, depth=0):
    name = r.choice(OPS)
    args = {"publish": lambda: [r.choice(IDS), r.choice(IDS), gprops(r),
                                r.choice(IDS)],
            "unpublish": lambda: [r.choice(IDS)],
            "subscribe": lambda: [r.choice(IDS)],
            "unsubscribe": lambda: [r.choice(IDS)]}.get(name, list)()
    filt = r.choice(FILTERS + [None] * 4) \
        if name in ("subscribe", "services") else None
    react = {}
    if depth < 2:
        for e in ("accept", "notify", "complete", "fail"):
            if r.random() < .12:
                react[e] = [gop(r, depth + 1) if r.random() < .93 else
                            gsync(r) for _ in range(r.choice([1, 1, 2]))]
    return ["op", name, args, filt, react]


def gsync(r):
    while True:
        op = gop(r, 2)
        if op[1] != "subscribe":
            break
    script = []
    kind = refproto.CMDS[op[1]]["kind"]
    good = r.random() < .8
    if kind == "multi":
        script += [gmsg(r, "accept", "self")]
        script += [gmsg(r, "notify", "self")
                   for _ in range(r.choice([0, 1, 2, 5]))]
    script.append(gmsg(r, r.choice(["complete"] * 3 + ["fail"]), "self"))
    if not good:
        k = r.randrange(len(script))
        if r.random() < .4:
            del script[k]
        else:
            script[k] = gsrv(r)
    else:
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            script.insert(r.randint(0, len(script)), gsrv(r, True))
    if r.random() < .3:
        script.insert(r.randint(0, len(script)),
                      ["adv", r.choice([.001, .5, 3])])
    if r.random() < .1:
        script.insert(r.randint(0, len(script)), ["window", r.randint(0, 2)])
        script.append(["window", None])
    # several messages may arrive at once
    batches, cur = [], []
    for x in script:
        cur.append(x)
        if r.random() < .5:
            batches.append(cur)
            cur = []
    batches.append(cur)
    return ["sync", op[1], op[2], op[3], batches]


def gmsg(r, mtype, target):
    """target: "self", "live" n, "old" n, "any" n"""
    return ["msg", mtype, target, r.randrange(2**32)]


def gsrv(r, good=False):
    x = r.random()
    if good or x < .8:
        # a type that is legal for the target is picked when it is rendered
        return gmsg(r, "legal", ["live", r.randrange(100)])
    if x < .85:
        return gmsg(r, r.choice(["accept", "notify", "complete", "fail",
                                 "inform", "request"]),
                    [r.choice(["live", "old", "any", "unknown"]),
                     r.randrange(100)])
    if x < .9:
        return ["mutant", ["live", r.randrange(100)], r.randrange(2**32)]
    if x < .93:
        return ["raw", junk.message(r).hex()]
    if x < .95:
        return ["eof"]
    if x < .97:
        return ["recverr", r.choice(ERRS)]
    return ["senderr", r.choice(ERRS)]


def gen(rng, tier, i):
    r = rng
    lo, hi = r.choice([(2, 3)] * 10 + [(2, 2), (3, 3)] * 2 + [(1, 4)])
    if r.random() < .005:
        lo, hi = r.choice([(4, 7), (0, 1)])
    hello = [gmsg(r, "hello", ["live", 0])]
    if r.random() < .1:
        hello = [gsrv(r)] + (hello if r.random() < .5 else [])
    if r.random() < .1:
        hello.insert(0, ["window", 0])
        hello.append(["window", None])
    steps = []
    good = r.random() < .6
    burst = r.random() < .03
    for _ in range(r.randint(0, 25)):
        x = r.random()
        if x < .25:
            steps.append(gop(r))
        elif x < .35:
            steps.append(gsync(r))
        elif x < .7:
            for _ in range(r.choice([1, 1, 2, 4])):
                steps.append(gsrv(r, good))
        elif x < .88:
            steps.append(["process"])
        elif x < .93:
            steps.append(["window", r.choice([0, 0, 1, 2, 5])])
        elif x < .96:
            steps.append(["window", None])
        elif x < .98:
            steps.append(["tquery"])
        else:
            steps.append(["adv", r.choice([0, 1, 30])])
    if burst:
        steps.append(["window", 0])
        steps += [["op", "ping", [], None, {}]] * r.choice([130, 260])
        steps += [["window", None], ["process"]]
        steps += [["msg", "legal", ["live", 0], 0]] * 140
    if r.random() < .5:
        steps += [["window", None], ["process"]]
    leak = r.random() < .04
    c = {"conf": [lo, hi], "cid": r.choice(IDS), "track": r.random() < .35,
         "async": r.random() < .4, "hello": hello, "steps": steps,
         "ready": [gop(r, 1)] if r.random() < .2 else []}
    if r.random() < .02:
        c["refuse"] = r.choice(ERRS)
    if leak:
        c["leak"] = [["op", n, {"publish": [1, 2, {"a": ["b"]}, 3],
                                "unpublish": [1], "unsubscribe": [1]}.get(
                                    n, []), None, {}]
                     for n in r.sample([n for n in OPS if n not in
                                        ("subscribe", "clients")],
                                       r.choice([1, 2, 3]))]
        c["seed"] = r.randrange(2**32)
    return c


# -- execution --------------------------------------------------------------

class Bad(Exception):
    """A deviation from the model."""
    last = None

    def __init__(self, *args):
        super().__init__(*args)
        Bad.last = Bad.last or args


class Stuck(BaseException):
    """A blocking call waits for what will never come."""


class End(Exception):
    """The client reported an error, as expected."""


class Ta:
    def __init__(self, n, cmd, fields, who):
        self.n, self.cmd, self.fields, self.who = n, cmd, fields, who
        self.kind = refproto.CMDS[cmd]["kind"]
        self.state = "requesting"
        self.ta_id = None
        self.given = None       # ta id returned by the operation
        self.react = {}
        self.results = []
        self.terminal = None
        self.start = self.done = None


class Conn(simxcm.Sock):
    def __init__(self, net, run):
        super().__init__(net)
        self.run = run

    def send(self, msg):
        self._open()
        return self.run.on_send(msg)

    def receive(self):
        self._open()
        return self.run.on_receive()

    def get_attr(self, name):
        raise simxcm.oserr(errno.ENOENT)

    def ready(self):
        r = self.run
        if self.target & 1 and (r.inbox or r.eof or r.recverr):
            return True
        return bool(self.target & 2 and
                    (r.window is None or r.window > 0 or r.senderr))


class Run:
    def __init__(self, case):
        env.reset(0)
        self.case = case
        self.net = simxcm.Net(0)
        self.net.client_connect = self.on_connect
        self.net.client_poll = self.on_poll
        self.inbox = []
        self.eof = False
        self.recverr = self.senderr = None
        self.window = None
        self.tas = []
        self.unsent = []        # (ta or None, expected message)
        self.sent_ids = {}
        self.version = None     # selected by the server
        self.expect_raise = None
        self.expect_cb = None   # (ta, event, args, optargs)
        self.scripts = []
        self.pending = []       # blocking calls in progress
        self.track_ta = None
        self.track_replies = self.track_queries = 0
        self.ready_expected = False
        self.ready_seen = False
        self.polls = 0
        self.stats = {"consumed": 0, "callbacks": 0, "errors": 0, "sync": 0}
        self.conn = None
        self.sock = None

    # transport

    def on_connect(self, addr, flags, attrs):
        if self.case.get("refuse"):
            self.raises((proto.TransportError,), None)
            raise simxcm.oserr(self.case["refuse"])
        if attrs.get("xcm.blocking") is not False and flags != 1:
            raise Bad("blocking", "connection in blocking mode")
        self.sock = Conn(self.net, self)
        return self.sock

    def on_send(self, msg):
        if self.senderr:
            self.raises((proto.TransportError, proto.ProtocolError), None)
            raise simxcm.oserr(self.senderr)
        if self.window is not None:
            if self.window <= 0:
                raise simxcm.oserr(errno.EAGAIN)
            self.window -= 1
        if not self.unsent:
            raise Bad("extra", "unexpected message sent: %r" % msg)
        ta, want = self.unsent.pop(0)
        try:
            m = json.loads(bytes(msg).decode("utf-8"))
        except Exception:
            raise Bad("malformed", "malformed message sent: %r" % msg)
        ident = m.pop("ta-id", None)
        if type(ident) is not int or not 0 <= ident < 2**63:
            raise Bad("ta-id", "invalid transaction id in %r" % msg)
        if "service-props" in want:
            m["service-props"] = refproto.canon_props(
                m.get("service-props", {}))
        if m != want:
            raise Bad("request", "sent %r, expected %r" % (m, want))
        if want["msg-type"] == "request":
            if ident in self.sent_ids:
                raise Bad("ta-id", "transaction id %d used twice" % ident)
            self.sent_ids[ident] = ta
            ta.ta_id = ident
            self.check_id(ta)
        elif ident != ta.ta_id:
            raise Bad("ta-id", "inform with wrong transaction id")
        return 0

    def check_id(self, ta):
        if ta.given is not None and ta.ta_id is not None and \
           ta.given != ta.ta_id:
            raise Bad("ta-id", "transaction id %r returned, but %r used" %
                      (ta.given, ta.ta_id))

    def on_receive(self):
        self.settled()
        while self.inbox:
            x = self.inbox.pop(0)
            data = self.render(x)
            if data is None:
                continue
            if self.consume(data):
                return data
        if self.recverr:
            self.raises((proto.TransportError, proto.ProtocolError), None)
            raise simxcm.oserr(self.recverr)
        if self.eof:
            self.raises((proto.TransportError, proto.ProtocolError), None)
            return b''
        raise simxcm.oserr(errno.EAGAIN)

    def on_poll(self, poll, timeout):
        self.polls += 1
        if self.polls > 3000:
            raise Bad("livelock", "blocking call keeps polling")
        if self.sock.closed or not any(
                fd == self.sock.fd and ev & 1 for fd, ev in poll.fds.items()):
            raise Bad("poll", "waiting for something else than the "
                      "connection")
        while not self.sock.ready():
            if not self.scripts or not self.scripts[-1]:
                raise Stuck()
            for x in self.scripts[-1].pop(0):
                self.environment(x)
        return [(self.sock.fd, 1)]

    def environment(self, x):
        k = x[0]
        if k in ("msg", "mutant", "raw"):
            self.inbox.append(x)
        elif k == "eof":
            self.eof = True
        elif k == "recverr":
            self.recverr = x[1]
        elif k == "senderr":
            self.senderr = x[1]
        elif k == "window":
            self.window = x[1]
        elif k == "adv":
            CLOCK.now += x[1]

    # the server's messages

    def pick(self, target):
        if target == "self":
            cands = [t for t in self.tas if t.who == "sync" and t.ta_id is not
                     None and t.state != "terminated"][-1:]
            n = 0
        else:
            how, n = target
            known = [t for t in self.tas if t.ta_id is not None]
            cands = {"live": [t for t in known if t.state != "terminated"],
                     "old": [t for t in known if t.state == "terminated"],
                     "any": known, "unknown": []}[how]
        return cands[n % len(cands)] if cands else None

    def render(self, x):
        if x[0] == "raw":
            data = bytes.fromhex(x[1])
            return data
        if x[0] == "mutant":
            r = random.Random(x[2])
            ta = self.pick(x[1])
            m = self.message(r, ta, "legal")
            if m is None:
                return None
            return json.dumps(junk.mutate(r, m)).encode()
        _, mtype, target, seed = x
        ta = self.pick(target)
        if ta is None and (target == "self" or target[0] == "live"):
            # nothing to respond to
            return None
        m = self.message(random.Random(seed), ta, mtype)
        return None if m is None else json.dumps(m).encode()

    def message(self, r, ta, mtype):
        cmd = ta.cmd if ta is not None else r.choice(OPS)
        if r.random() < .01:
            cmd = r.choice(OPS)
        if mtype == "hello":
            mtype = "complete" if r.random() < .9 else "fail"
        if mtype == "legal":
            if ta is None:
                return None
            if ta.kind == "single":
                mtype = r.choice(["complete"] * 3 + ["fail"])
            elif ta.state == "requesting":
                mtype = r.choice(["accept"] * 5 + ["fail"])
            elif ta.kind == "multi":
                mtype = r.choice(["notify"] * 4 + ["complete", "complete",
                                                   "fail"])
            else:
                mtype = r.choice(["notify"] * 8 + ["fail"])
        v = self.version or 2
        if v not in refproto.CMDS[cmd]["versions"]:
            return None
        mand, opt = refproto.fields(cmd, v, mtype)
        m = {"ta-cmd": cmd, "msg-type": mtype,
             "ta-id": ta.ta_id if ta is not None else r.choice([777, 2**40])}
        for f, t in mand.items():
            m[f] = gvalue(r, t)
        for f, t in opt.items():
            if r.random() < .6:
                m[f] = r.choice(REASONS) if f == "fail-reason" else \
                    gvalue(r, t)
        if cmd == "hello" and mtype == "complete":
            lo, hi = self.case["conf"]
            m["protocol-version"] = r.choice([lo, hi, hi]) \
                if r.random() < .95 else r.choice([0, 1, 2, 3, 4, 2**63 - 1])
        if cmd == "track" and mtype == "notify":
            if r.random() < .96:
                m["track-type"] = "reply" if \
                    self.track_replies < self.track_queries else "query"
            else:
                m["track-type"] = r.choice(["reply", "query", "x", ""])
        return m

    def raises(self, types, text):
        self.expect_raise = (types, text)

    def consume(self, data):
        """What the client has to make of a message; False if that is
        undefined."""
        self.stats["consumed"] += 1
        verdict, m = refproto.parse(self.version, data)
        if verdict == "gray":
            return False
        if verdict == "bad":
            self.raises((proto.ProtocolError,), None)
            return True
        ta = self.sent_ids.get(m["ta-id"])
        bad = (proto.ProtocolError,)
        if ta is None:
            # could be the id of a request that is yet to be sent
            if any(t.ta_id is None for t in self.tas):
                return False
            self.raises(bad, None)
            return True
        mt = m["msg-type"]
        ok = ta.state != "terminated" and m["ta-cmd"] == ta.cmd and (
            mt == "fail" or
            mt == "accept" and ta.state == "requesting" and
            ta.kind != "single" or
            mt == "notify" and ta.state == "accepted" or
            mt == "complete" and (
                ta.kind == "single" and ta.state == "requesting" or
                ta.kind == "multi" and ta.state == "accepted"))
        if not ok:
            self.raises(bad, None)
            return True
        mand, opt = refproto.fields(ta.cmd, self.version or 2, mt)
        args = [(t, m[f]) for f, t in mand.items()]
        optargs = {f.replace("-", "_"): (t, m[f]) for f, t in opt.items()
                   if f in m}
        if mt == "accept":
            ta.state = "accepted"
        if mt in ("complete", "fail"):
            ta.state = "terminated"
            ta.terminal = (mt, args, m.get("fail-reason"))
            ta.done = CLOCK.now
        if mt == "notify":
            ta.results.append((args, optargs))
        if ta.who == "hello":
            if mt == "fail":
                self.raises(bad, m.get("fail-reason"))
                return True
            lo, hi = self.case["conf"]
            v = m["protocol-version"]
            if not max(lo, 2) <= v <= min(hi, 3):
                self.raises(bad, None)
                return True
            self.version = v
            if self.case["track"] and v >= 3:
                self.track_ta = self.issue("track", {}, "track")
            self.ready_expected = self.case["async"]
        elif ta.who == "track":
            if mt == "notify":
                if m["track-type"] == "query":
                    self.unsent.append((ta, {
                        "ta-cmd": "track", "msg-type": "inform",
                        "track-type": "reply"}))
                else:
                    self.track_replies += 1
                    if m["track-type"] != "reply" or \
                       self.track_replies > self.track_queries:
                        self.raises(bad, None)
        elif ta.who == "cb":
            self.expect_cb = (ta, mt, args, optargs)
        return True

    def settled(self):
        """Everything is expected to have been dealt with."""
        if self.expect_raise:
            raise Bad("no-error", "no error reported")
        if self.expect_cb:
            raise Bad("no-callback", "no %s event of %s delivered" %
                      (self.expect_cb[1], self.expect_cb[0].cmd))
        if self.ready_expected:
            raise Bad("no-ready", "connection not reported ready")

    # operations

    def issue(self, cmd, fields, who):
        ta = Ta(len(self.tas), cmd, fields, who)
        ta.start = CLOCK.now
        self.tas.append(ta)
        m = {"ta-cmd": cmd, "msg-type": "request"}
        m.update(fields)
        self.unsent.append((ta, m))
        return ta

    def fields(self, name, args, filt):
        if name == "publish":
            return {"service-id": args[0], "generation": args[1],
                    "service-props": refproto.canon_props(args[2]),
                    "ttl": args[3]}
        if name == "unpublish":
            return {"service-id": args[0]}
        if name in ("subscribe", "unsubscribe"):
            f = {"subscription-id": args[0]}
        elif name == "hello":
            lo, hi = self.case["conf"]
            return {"client-id": self.case["cid"],
                    "protocol-minimum-version": lo,
                    "protocol-maximum-version": hi}
        else:
            f = {}
        if filt is not None:
            f["filter"] = filt
        return f

    def callback(self, ta):
        def cb(ta_id, event, *args, **optargs):
            self.stats["callbacks"] += 1
            x = self.expect_cb
            self.expect_cb = None
            if x is None or x[0] is not ta:
                raise Bad("callback", "unexpected callback of %s: %s" %
                          (ta.cmd, event))
            if event is not getattr(client.EventType, x[1].upper()):
                raise Bad("event", "%s event for %s message" % (event, x[1]))
            if ta_id != ta.ta_id:
                raise Bad("ta-id", "callback with wrong transaction id")
            self.compare(ta, args, optargs, x[2], x[3])
            for op in ta.react.get(x[1], []):
                self.do(op)
        return cb

    def compare(self, ta, args, optargs, want, wantopt):
        if len(args) != len(want) or set(optargs) != set(wantopt):
            raise Bad("contents", "%s event with %r %r, expected %r %r" %
                      (ta.cmd, args, optargs, want, wantopt))
        for (t, w), a in list(zip(want, args)) + [
                (wantopt[k], optargs[k]) for k in wantopt]:
            if t == "props":
                same = refproto.canon_props(a) == refproto.canon_props(w)
            else:
                same = a == w and (t == "number" or type(a) is type(w))
            if not same:
                raise Bad("contents", "%s event with %r, expected %r" %
                          (ta.cmd, a, w))

    def on_ready(self):
        if not self.ready_expected:
            raise Bad("ready", "connection reported ready prematurely or "
                      "repeatedly")
        self.ready_expected = False
        self.ready_seen = True
        for op in self.case["ready"]:
            self.do(op)

    def call(self, name, args, filt, **kw):
        args = list(args)
        if name == "publish":
            args[2] = {k: set(v) for k, v in args[2].items()}
        if filt is not None:
            kw["filter"] = filt
        return getattr(self.conn, name)(*args, **kw)

    def do(self, x):
        k = x[0]
        if k == "op":
            _, name, args, filt, react = x
            if name == "clients" and self.version is None:
                return
            ta = self.issue(name, self.fields(name, args, filt), "cb")
            ta.react = react
            ta.given = self.call(name, args, filt,
                                 response_cb=self.callback(ta))
            self.check_id(ta)
        elif k == "sync":
            self.sync(*x[1:])
        elif k == "process":
            self.process()
        elif k == "tquery":
            t = self.track_ta
            if t is not None and t.state == "accepted":
                self.track_queries += 1
                self.unsent.append((t, {"ta-cmd": "track", "msg-type":
                                        "inform", "track-type": "query"}))
                self.conn.tracker.query()
        else:
            self.environment(x)

    def sync(self, name, args, filt, script):
        if name == "clients" and self.version is None:
            return
        if len(self.scripts) > 2:
            return
        self.stats["sync"] += 1
        ta = self.issue(name, self.fields(name, args, filt), "sync")
        self.scripts.append([list(b) for b in script])
        self.pending.append(ta)
        try:
            res = self.call(name, args, filt)
        except client.TransactionError as e:
            if ta.terminal is None or ta.terminal[0] != "fail":
                raise Bad("sync", "%s reported to have failed" % name)
            if ta.terminal[2] is not None and ta.terminal[2] not in str(e):
                raise Bad("reason", "failure of %s reported as %r, reason is "
                          "%r" % (name, str(e), ta.terminal[2]))
            if "unknown" in str(e) and ta.terminal[2] is not None and \
               "unknown" not in ta.terminal[2]:
                raise Bad("reason", "failure reason reported as unknown")
            self.pending.pop()
            return
        finally:
            self.scripts.pop()
        self.pending.pop()
        self.settled()
        if ta.terminal is None or ta.terminal[0] != "complete":
            raise Bad("sync", "%s reported as completed" % name)
        if name == "ping":
            want = ta.done - ta.start
            if not isinstance(res, (int, float)) or abs(res - want) > 1e-6:
                raise Bad("latency", "latency %r, expected %r" % (res, want))
        elif name == "hello":
            self.compare(ta, res, {}, ta.terminal[1], {})
        elif refproto.CMDS[name]["kind"] == "multi":
            if len(res) != len(ta.results):
                raise Bad("results", "%d results of %s, expected %d" %
                          (len(res), name, len(ta.results)))
            for got, (want, wantopt) in zip(res, ta.results):
                got = list(got)
                opt = got.pop() if wantopt and got else {}
                self.compare(ta, got, opt, want, wantopt)

    def process(self):
        for _ in range(2000):
            if not self.sock.ready():
                break
            self.conn.process()
            self.settled()
        else:
            raise Bad("livelock", "connection does not come to rest")
        self.rested()

    def rested(self):
        if self.unsent and (self.window is None or self.window > 0):
            raise Bad("unsent", "%d messages not sent" % len(self.unsent))
        if self.inbox or self.eof or self.recverr:
            raise Bad("unread", "client does not wait for messages")

    def guarded(self, fun):
        """Judges exceptions; returns False at the end of the run."""
        try:
            fun()
            self.settled()
            return True
        except Stuck:
            if self.expect_raise or self.expect_cb:
                self.settled()
            self.rested()
            # the innermost call is the one that waits
            if self.pending and self.pending[-1].terminal is not None:
                raise Bad("stuck", "%s does not return" %
                          self.pending[-1].cmd)
            if not self.case["async"] and self.conn is None and \
               self.version is not None:
                raise Bad("stuck", "connect does not return")
            self.stats["stuck"] = 1
        except (Bad, client.TransactionError):
            raise
        except proto.Error as e:
            self.stats["errors"] += 1
            if self.expect_raise is None:
                raise Bad("error", "%s: %s" % (type(e).__name__, e))
            types, text = self.expect_raise
            if not isinstance(e, types):
                raise Bad("error-type", "%s: %s, expected %s" %
                          (type(e).__name__, e, types[0].__name__))
            if text is not None and text not in str(e):
                raise Bad("reason", "%r does not tell the reason %r" %
                          (str(e), text))
        return False

    def connect(self):
        lo, hi = self.case["conf"]
        if lo > 3 or hi < 2:
            self.raises((proto.ProtocolError,), None)
        conf = client.ServerConf("sim:1", lo, hi)
        self.issue("hello", self.fields("hello", [], None), "hello")
        if self.case["async"]:
            self.conn = client.connect(conf, client_id=self.case["cid"],
                                       ready_cb=self.on_ready,
                                       track=self.case["track"])
            for x in self.case["hello"]:
                self.environment(x)
        else:
            self.scripts.append([[x] for x in self.case["hello"]])
            self.conn = client.connect(conf, client_id=self.case["cid"],
                                       track=self.case["track"])
            self.scripts.pop()
            if self.version is None:
                raise Bad("early", "connect returned before the handshake "
                          "was over")

    def leak(self):
        """What is over and done with isn't held on to."""
        r = random.Random(self.case["seed"])
        self.window = None
        self.process()
        sizes = []
        for _ in range(5):
            first = len(self.tas)
            for op in self.case["leak"] * 2:
                self.do(op)
            self.process()
            tas = self.tas[first:]
            r.shuffle(tas)
            for ta in tas:
                how = ["complete" if r.random() < .6 else "fail"]
                if ta.kind == "multi":
                    how = ["accept", "notify"] + how
                for mtype in how:
                    while True:
                        m = self.message(r, ta, mtype)
                        if m["msg-type"] == mtype and m["ta-cmd"] == ta.cmd:
                            break
                    self.inbox.append(["raw",
                                       json.dumps(m).encode().hex()])
                if r.random() < .5:
                    self.process()
            self.process()
            sizes.append(heap.population([self.conn]))
        self.stats["rounds"] = 5
        if all(a < b for a, b in zip(sizes, sizes[1:])):
            raise Bad("leak", "the connection keeps growing: %r" % sizes)

    def run(self):
        if not self.guarded(self.connect):
            return
        if self.sock.closed:
            raise Bad("closed", "connection closed")
        for x in self.case["steps"]:
            if not self.guarded(lambda: self.do(x)):
                return
        if self.case.get("leak") and self.version is not None:
            if not self.guarded(self.leak):
                return
        self.conn.close()
        if not self.sock.closed:
            raise Bad("close", "connection not closed")


def run(case):
    r = Run(case)
    failure = Bad.last = None
    try:
        r.run()
        failure = Bad.last
    except Bad as e:
        failure = Bad.last
    except Exception as e:
        failure = Bad.last
        if failure:
            pass
        elif not env.from_paf(e):
            raise
        else:
            failure = ("exception", env.describe(e))
    s = r.stats
    return Outcome(failure, s["consumed"] >= 3 or s["errors"] > 0, s)
