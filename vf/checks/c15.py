"""The timer list against a reference model, on a virtual clock."""
from .. import env
from ..env import CLOCK
from ..runner import Outcome

RULE = ("sequences of adding (absolute and relative times, many ties, past "
        "and far future, up to 120 timers), cancelling, clock steps, and "
        "processing, with handlers which themselves add, cancel and let time "
        "pass; expiry at exactly the current time may or may not fire; "
        "non-trivial: at least two timers fired and one cancelled, or a "
        "handler added or cancelled a timer")
COUNTS = {"quick": 40000, "thorough": 1500000}
ISOLATE = False
CPU_LIMIT = 20
timer = env.load().timer

GRIDS = [
    [0, 1, 1, 2, 3, 5, -1, -2],
    [0, 0.5, 0.25, 1, 1.5, 10, -0.5],
    [0.1 * i for i in range(40)],
    list(range(-3, 60)),
    [1, 1, 1, 2, 2],
    [1e-6, 2e-6, 1e6, 3e9, 0, 1],
]


class Gen:
    def __init__(self, rng):
        self.rng = rng
        self.grid = rng.choice(GRIDS)
        self.next = 0

    def add(self, depth):
        r = self.rng
        i = self.next
        self.next += 1
        script = []
        if depth < 3 and r.random() < 0.35:
            script = [self.op(depth + 1) for _ in range(r.randint(1, 3))]
        t = r.choice(self.grid)
        return ["add", i, t, r.random() < 0.5, script]

    def op(self, depth=0):
        r = self.rng
        x = r.random()
        if x < 0.5:
            return self.add(depth)
        if x < 0.75:
            # "first" and "last" are positions among what is pending then
            return ["rm", r.choice(["first", "last", "any", "any", "id"]),
                    r.randrange(max(1, self.next + 2))]
        if depth > 0:
            return ["adv", r.choice([0, 0.001, 0.5, 1])]
        if x < 0.85:
            return ["adv", abs(r.choice(self.grid))]
        return ["process"]


def gen(rng, tier, i):
    g = Gen(rng)
    ops = []
    if rng.random() < 0.15:
        ops = [g.add(2) for _ in range(rng.randint(20, 120))]
        rng.shuffle(ops)
    ops += [g.op() for _ in range(rng.randint(3, 40))]
    if rng.random() < 0.5:
        ops += [["adv", 100], ["process"]]
    return {"cb": rng.random() < 0.9, "ops": ops}


class Bad(Exception):
    first = None        # also if the code under test swallows it

    def __init__(self, *args):
        super().__init__(*args)
        Bad.first = Bad.first or args


class T:
    def __init__(self, ident, exp, seq):
        self.ident, self.exp, self.seq = ident, exp, seq
        self.handle = None


class Run:
    def __init__(self, case):
        env.reset(0)
        self.pending = []           # in no particular order
        self.seq = 0
        self.announced = None
        self.started = None         # time at which processing began
        self.stats = {"fired": 0, "cancelled": 0, "nested": 0}
        self.has_cb = case.get("cb", True)
        if self.has_cb:
            self.tm = timer.TimerManager(self.changed)
        else:
            self.tm = timer.TimerManager()

    def changed(self):
        self.announced = self.tm.next_timeout()

    def earliest(self):
        return min((t.exp for t in self.pending), default=None)

    def check(self, where):
        want = self.earliest()
        got = self.tm.next_timeout()
        if got != want:
            raise Bad("next-timeout", "next timeout %r, expected %r after %s"
                      % (got, want, where))
        if self.tm.empty() != (want is None):
            raise Bad("empty", "empty() wrong after %s" % where)

    def fire(self, t, script):
        if self.started is None:
            raise Bad("spontaneous", "timer %r fired outside of processing" %
                      t.ident)
        if t not in self.pending:
            raise Bad("twice", "timer %r fired although it has fired or been "
                      "cancelled" % t.ident)
        if t.exp > CLOCK.now:
            raise Bad("early", "timer %r fired at %r, due at %r" %
                      (t.ident, CLOCK.now, t.exp))
        first = self.earliest()
        if first < t.exp:
            raise Bad("order", "timer %r (%r) fired before one due at %r" %
                      (t.ident, t.exp, first))
        self.pending.remove(t)
        self.stats["fired"] += 1
        for op in script:
            self.stats["nested"] += 1
            self.do(op)

    def do(self, op):
        kind = op[0]
        if kind == "add":
            _, ident, when, rel, script = op
            exp = CLOCK.now + when
            t = T(ident, exp, self.seq)
            self.seq += 1
            self.pending.append(t)
            if rel:
                t.handle = self.tm.add(lambda: self.fire(t, script), when,
                                       relative=True)
            else:
                t.handle = self.tm.add(lambda: self.fire(t, script), exp)
        elif kind == "rm":
            _, how, n = op
            c = sorted(self.pending, key=lambda t: (t.exp, t.seq))
            if how == "id":
                c = [t for t in c if t.ident == n]
            if not c:
                return
            t = c[0] if how == "first" else c[-1] if how == "last" else \
                c[n % len(c)]
            self.pending.remove(t)
            self.stats["cancelled"] += 1
            self.tm.remove(t.handle)
        elif kind == "adv":
            CLOCK.now += abs(op[1])
        elif kind == "process" and self.started is None:
            self.started = CLOCK.now
            self.tm.process()
            late = [t for t in self.pending if t.exp < self.started]
            self.started = None
            if late:
                raise Bad("missed", "timers %r did not fire" %
                          [t.ident for t in late])

    def run(self, ops):
        for op in ops:
            self.do(op)
            self.check(op[0])
            if self.has_cb and self.announced != self.earliest():
                raise Bad("announce", "last announced timeout %r, actual %r "
                          "after %s" % (self.announced, self.earliest(),
                                        op[0]))


def run(case):
    r = Run(case)
    failure = Bad.first = None
    try:
        r.run(case["ops"])
        failure = Bad.first
    except Bad as e:
        failure = Bad.first
    except Exception as e:
        failure = ("exception", "%s: %s" % (type(e).__name__, e))
    s = r.stats
    return Outcome(failure, s["fired"] >= 2 and s["cancelled"] >= 1 or
                   s["nested"] > 0, s)
