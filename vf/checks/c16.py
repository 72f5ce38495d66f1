"""The event loop against rules on which handler calls are due, on a virtual
clock, with real descriptors and signals."""
import math
import os
import random
import select
import signal
import socket

from .. import env
from ..env import CLOCK, SELECT_IMPL
from ..runner import Outcome

RULE = ("up to 6 sources over 5 real descriptors, timeouts on a virtual clock "
        "and active marks; scripts, executed within handlers and as outside "
        "events, add, remove and change sources, make descriptors ready, "
        "close and reuse them, stop the loop and send real signals; "
        "non-trivial: at least five handler calls and a source removed, "
        "changed or stopped from within a handler")
COUNTS = {"quick": 12000, "thorough": 500000}
CPU_LIMIT = 20
paf = env.load()
IN, OUT = select.EPOLLIN, select.EPOLLOUT
MASKS = [IN, IN, IN, OUT, IN | OUT]
SIGNALS = [signal.SIGTERM, signal.SIGINT, signal.SIGHUP]
NS, NF = 6, 5
# about the longest time epoll_wait() takes, and beyond it
FAR = [2147483, 2147484, 2147490, 4294968, 1e9, 2e9]


def gen_op(r, nested):
    x = r.random()
    s, f = r.randrange(NS), r.randrange(NF)
    if x < 0.12:
        return ["add", s]
    if x < 0.24:
        return ["rm", s]
    if x < 0.34:
        return ["fd", s, f, r.choice(MASKS)]
    if x < 0.39:
        return ["clrfd", s]
    if x < 0.52:
        return ["tmo", s, r.choice([-1, 0, 0, 0.001, 0.5, 1, 1, 2, 5,
                                  r.choice(FAR)])]
    if x < 0.56:
        return ["clrtmo", s]
    if x < 0.62:
        return ["act", s]
    if x < 0.64:
        return ["clract", s]
    if x < 0.80:
        return ["write", f]
    if x < 0.84:
        return ["drain", f]
    if x < 0.88:
        return ["close", f]
    if x < 0.92:
        return ["open", f]
    if x < 0.93:
        return ["file", f]
    if x < 0.96:
        return ["adv", r.choice([0.001, 0.5, 2])]
    if x < 0.98:
        return ["stop"]
    return ["sig", r.randrange(3)]


def gen(rng, tier, i):
    r = rng
    srcs = []
    fds = list(range(NF))
    r.shuffle(fds)
    for s in range(NS):
        acts = []
        for _ in range(r.choice([0, 1, 2, 3])):
            acts.append([r.random() < 0.8,
                         [gen_op(r, True) for _ in range(r.randint(0, 3))]])
        if r.random() < 0.1:
            # never content
            acts += [[False, []]] * r.choice([5, 30, 100])
        srcs.append({
            "fd": fds.pop() if fds and r.random() < 0.7 else None,
            "mask": r.choice(MASKS),
            "timeout": r.choice([None, None, None, 0, 1, 1, 1, 2, 3.5,
                                 r.choice(FAR)]),
            "active": r.random() < 0.15,
            "added": r.random() < 0.75, "acts": acts})
    events = []
    t = 0
    for _ in range(r.randint(1, 10)):
        t += r.choice([0, 0.2, 0.5, 1, 1, 3])
        events.append([t, [gen_op(r, False)
                           for _ in range(r.choice([1, 1, 2, 4]))]])
    return {"sources": srcs, "events": events, "seed": r.randrange(1 << 30)}


class Bad(BaseException):
    pass


class Done(BaseException):
    pass


class Fd:
    def __init__(self):
        self.a, self.b = socket.socketpair()
        self.a.setblocking(False)
        self.b.setblocking(False)
        self.no = self.a.fileno()
        self.readable = False
        self.open = True


class S:
    """What the harness knows about a source."""

    def __init__(self, i, d, source):
        self.i = i
        self.acts = [tuple(a) for a in d["acts"]]
        self.source = source
        self.fd = None          # an Fd, possibly closed since
        self.mask = None
        self.timeout = None
        self.active = False
        self.added = False
        self.called = False     # since the last poll
        self.waited = 0


class Epoll:
    def __init__(self, *a, **kw):
        self.real = select.epoll(*a, **kw)
        RUN.epoll = self

    def __getattr__(self, name):
        return getattr(self.real, name)

    def poll(self, timeout=None, maxevents=-1):
        return RUN.poll(timeout)


RUN = None


class Run:
    MAX_CALLS = 3000

    def __init__(self, case):
        global RUN
        RUN = self
        env.reset(0)
        self.rng = random.Random(case["seed"])
        self.fds = [Fd() for _ in range(NF)]
        self.events = [(CLOCK.now + t, ops) for t, ops in case["events"]]
        self.bad = None
        self.calls = 0
        self.depth = 0
        self.stopping = False
        self.over = False
        self.signals = 0
        self.sigpolls = 0
        self.maybe = 0
        self.batch = set()
        self.stats = {"calls": 0, "nested changes": 0, "stops": 0,
                      "signals": 0, "sleeps": 0, "descriptors reused": 0}
        SELECT_IMPL["epoll"] = Epoll
        self.loop = paf.eventloop.EventLoop()
        self.driver = d = S(NS, {"acts": []}, paf.eventloop.Source())
        d.todo = []
        d.fd, d.mask, d.added = Fd(), IN, True
        d.source.set_fd(d.fd.no, IN)
        self.loop.add(d.source, lambda: self.call(self.driver))
        self.ss = []
        for i, d in enumerate(case["sources"]):
            s = S(i, d, paf.eventloop.Source())
            self.ss.append(s)
            if d["fd"] is not None:
                self.do(["fd", i, d["fd"], d["mask"]])
            if d["timeout"] is not None:
                self.do(["tmo", i, d["timeout"]])
            if d["active"]:
                self.do(["act", i])
            if d["added"]:
                self.do(["add", i])

    # --- what is due

    def fd_due(self, s):
        f = s.fd
        if not s.added or f is None or not f.open or s.stale:
            return False
        return bool(s.mask & OUT) or bool(s.mask & IN and f.readable)

    def due(self, s):
        return s.added and (s.active or self.fd_due(s) or
                            (s.timeout is not None and
                             s.timeout <= CLOCK.now))

    def all(self):
        return self.ss + [self.driver]

    def fail(self, kind, text):
        if self.bad is None:
            self.bad = (kind, text)
        raise Bad()

    # --- the poll mechanism

    def poll(self, timeout):
        if self.over:
            raise Done()
        if self.bad:
            raise Bad()
        if self.stopping:
            self.fail("stop", "loop carries on although stopped")
        if self.signals:
            self.sigpolls += 1
            if self.sigpolls > 12:
                self.fail("signal", "loop carries on after a signal")
        for s in self.all():
            if s.called or not self.due(s):
                s.waited = 0
            else:
                s.waited += 1
                if s.waited > 12:
                    self.fail("starved", "source %d is due, but not called" %
                              s.i)
            s.called = False
        end = float("inf") if timeout is None or timeout < 0 else \
            CLOCK.now + timeout
        if end < float("inf") and \
           math.ceil(round(timeout * 1000, 6)) > 0x7fffffff:
            self.fail("overflow", "epoll is given a timeout of %s s, which "
                      "it does not take" % timeout)
        while True:
            got = self.epoll.real.poll(0)
            if got:
                self.rng.shuffle(got)
                self.batch = {fd for fd, _ in got}
                return got
            self.batch = set()
            # about to sleep
            for s in self.all():
                if s.added and s.active:
                    self.fail("asleep", "loop sleeps although source %d is "
                              "active" % s.i)
                if self.fd_due(s):
                    self.fail("asleep", "loop sleeps although the descriptor "
                              "of source %d is ready" % s.i)
                if s.added and s.timeout is not None and \
                   end > max(s.timeout, CLOCK.now) + 1e-3:
                    self.fail("overslept", "loop sleeps until %s, beyond the "
                              "timeout of source %d at %.3f" %
                              (end, s.i, s.timeout))
            if self.signals:
                self.fail("signal", "loop sleeps although signalled")
            if end <= CLOCK.now:
                # nothing is due, time has to go on
                CLOCK.now += 1e-3
                return []
            self.stats["sleeps"] += 1
            if self.events and self.events[0][0] <= end:
                t, ops = self.events.pop(0)
                CLOCK.now = max(CLOCK.now, t)
                # what happens in the world happens now, what the program
                # does is done by the handler of a source
                for op in ops:
                    if op[0] in ("write", "sig"):
                        self.do(op)
                self.driver.todo += [op for op in ops
                                     if op[0] not in ("write", "sig")]
                if self.driver.todo:
                    self.driver.fd.readable = True
                    self.driver.fd.b.send(b"x")
                continue
            if end == float("inf"):
                self.over = True
                self.loop.stop()
                return []
            CLOCK.now = end
            return []

    # --- handlers

    def call(self, s):
        self.calls += 1
        self.stats["calls"] += 1
        if self.bad:
            raise Bad()
        if self.calls > self.MAX_CALLS:
            self.fail("busy", "more than %d handler calls" % self.MAX_CALLS)
        if self.stopping:
            self.since_stop += 1
            if self.since_stop > 50:
                self.fail("stop", "handlers are called without end after a "
                          "request to stop")
        if not self.due(s):
            # an event of its descriptor may be outdated by what other
            # handlers have done, but there has to be one
            reported = s.added and s.fd is not None and \
                s.fd.no in self.batch
            if not reported:
                self.fail("spurious", "handler of %s source %d called without "
                          "a reason" % ("" if s.added else "removed", s.i))
        s.called = True
        if s is self.driver:
            consume, ops, s.todo = True, s.todo, []
        else:
            consume, ops = s.acts.pop(0) if s.acts else (True, [])
        if consume:
            self.consume(s)
        self.depth += 1
        for op in ops:
            self.do(op)
        self.depth -= 1

    def consume(self, s):
        if s.active:
            self.s_clract(s)
        if s.timeout is not None and s.timeout <= CLOCK.now:
            self.s_clrtmo(s)
        f = s.fd
        if f is not None and f.open and not s.stale:
            if s.mask & IN and f.readable:
                self.drain(f)
            if s.mask & OUT:
                s.mask = IN
                s.source.set_fd(f.no, IN)

    def drain(self, f):
        f.readable = False
        try:
            while f.a.recv(100):
                pass
        except OSError:
            pass

    # --- operations

    def do(self, op):
        k = op[0]
        if k in ("add", "rm", "fd", "clrfd", "tmo", "clrtmo", "act",
                 "clract"):
            s = self.ss[op[1] % len(self.ss)] if self.ss else None
            if s is None or op[1] >= len(self.ss):
                return
            if self.depth and k in ("rm", "fd", "clrfd"):
                self.stats["nested changes"] += 1
            getattr(self, "s_" + k)(s, *op[2:])
        elif k in ("write", "drain", "close", "open", "file"):
            f = self.fds[op[1] % NF]
            if k == "write" and f.open:
                f.b.send(b"x")
                f.readable = True
            elif k == "drain" and f.open:
                self.drain(f)
            elif k == "close" and f.open:
                f.open = False
                f.a.close()
                f.b.close()
            elif k == "file" and not f.open:
                # something that cannot be polled takes the number
                os.memfd_create("x")
            elif k == "open" and not f.open:
                new = self.fds[op[1] % NF] = Fd()
                if any(s.fd is not None and s.fd.no == new.no
                       for s in self.ss):
                    self.stats["descriptors reused"] += 1
        elif k == "adv":
            CLOCK.now += abs(op[1])
        elif k == "stop":
            if self.running:
                self.stopping = True
                self.stats["stops"] += 1
                self.loop.stop()
        elif k == "sig":
            if self.running:
                self.signals += 1
                self.stats["signals"] += 1
                os.kill(os.getpid(), SIGNALS[op[1] % 3])

    running = False

    def taken(self, no, but):
        return any(s is not but and s.added and s.fd is not None and
                   s.fd.no == no for s in self.all())

    def s_add(self, s):
        if s.added or (s.fd is not None and (
                not s.fd.open or self.taken(s.fd.no, s))):
            return
        s.added = True
        s.stale = False
        self.loop.add(s.source, lambda: self.call(s))

    def s_rm(self, s):
        if s.added:
            self.loop.remove(s.source)
            s.added = False

    def s_fd(self, s, f, mask):
        f = self.fds[f % NF]
        if not f.open or (s.added and self.taken(f.no, s)):
            return
        if s.fd is not None and s.fd is not f and s.fd.no == f.no:
            # looks the same to the source; it takes a clear_fd() before
            return
        s.fd, s.mask = f, mask
        s.source.set_fd(f.no, mask)

    def s_clrfd(self, s):
        s.fd = s.mask = None
        s.stale = False
        s.source.clear_fd()

    def s_tmo(self, s, dt):
        s.timeout = CLOCK.now + dt
        s.source.set_timeout(s.timeout)

    def s_clrtmo(self, s):
        s.timeout = None
        s.source.clear_timeout()

    def s_act(self, s):
        s.active = True
        s.source.set_active()

    def s_clract(self, s):
        s.active = False
        s.source.clear_active()

    # --- all of it

    def run(self):
        self.running = True
        for _ in range(30):
            self.stopping = False
            self.since_stop = 0
            self.sigpolls = 0
            try:
                self.loop.run()
            except (Bad, Done):
                return
            if self.over or self.bad:
                return
            if not self.stopping:
                if not self.signals and not self.maybe:
                    self.fail("returned", "loop returned without a request")
                if not self.signals:
                    self.maybe -= 1
            # signals not reacted to may still be noticed in the next run
            self.maybe += self.signals
            self.signals = 0


S.stale = False


def run(case):
    r = None
    failure = None
    try:
        r = Run(case)
        try:
            r.run()
        except Bad:
            pass
        failure = r.bad
    except Exception as e:
        if not env.from_paf(e):
            raise
        failure = ("exception", env.describe(e))
    st = r.stats if r else {}
    return Outcome(failure, st.get("calls", 0) >= 5 and
                   (st["nested changes"] or st["stops"] or st["signals"]),
                   st)
