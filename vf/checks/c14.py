from .. import classify, heap, histcheck, sim
from ..genhist import Gen
from ..model import Divergence, Inconclusive
from ..runner import Outcome

RULE = ("random histories with small limits, after which all clients leave, "
        "orphans expire, and new clients of other users use the same client, "
        "subscription and service ids; a third of them is played four times "
        "in a row to one server, which must not hold more state each time; "
        "non-trivial: at least two clients which held a subscription, service "
        "or transaction went away, and ids were used again")
COUNTS = {"quick": 15000, "thorough": 250000}


class LeaveGen(Gen):
    def build(self):
        r = self.rng
        Gen.build(self)
        if r.random() < 0.3:
            return self.case()
        # everybody leaves
        for s in self.live():
            if r.random() < 0.95:
                self.op_close(s)
        if r.random() < 0.8:
            self.adv(12)
        # others come, and use the same ids
        self.users = r.choice([(1,), (2,), (1, 2), (0,)])
        for _ in range(r.randint(1, 3)):
            self.op_up()
        for _ in range(r.randint(4, 12)):
            self.step(["sub", "pub", "list", "lists", "up", "sub", "unsub"])
        return self.case()


def gen(rng, tier, i):
    user, total = {}, {}
    if rng.random() < 0.5:
        for k in ("clients", "subscriptions", "services"):
            if rng.random() < 0.6:
                user[k] = rng.choice([1, 2, 3])
            if rng.random() < 0.4:
                total[k] = rng.choice([2, 3, 5])
        if "clients" in total:
            total["clients"] += 2
    g = LeaveGen(rng, weights=dict(
        close=6, reconnect=3, sub=6, pub=6, track=1, multi=1, junk=0.7,
        dupta=0.5, window=0.7, lists=1, up=5, takeover=3, expire=3,
        probe=0.5, attrerr=0.4), conf={"user": user, "total": total},
        ttls=(0, 1, 2, 5, 10), length=(10, 30), users=(0, 0, 1),
        closes=("eof", "eof", "reset", "timeout", "hostunreach"))
    case = g.build()
    case["leak"] = rng.random() < 0.35
    return case


ANCHOR = 424242
MOD = 2**63


def shifted_user(user, n):
    return user % len(sim.USERS) + n // 1000 * len(sim.USERS)


def shifted(ops, n):
    """The same operations with other client, service and subscription ids,
    by other users."""
    out = []
    for op in ops:
        op = list(op) if isinstance(op, list) else op
        try:
            if op[0] == "up":
                op[4] = (op[4] + n) % MOD
                op[3] = shifted_user(op[3], n)
            elif op[0] == "conn":
                op[4] = shifted_user(op[4], n)
            elif op[0] in ("hello", "pub", "unpub", "sub", "unsub"):
                op[2] = (op[2] + n) % MOD
            elif op[0] == "msg":
                op[2] = {k: (v + n) % MOD if k in (
                    "client-id", "service-id", "subscription-id") else v
                    for k, v in op[2].items()}
        except (TypeError, IndexError, AttributeError):
            pass
        out.append(op)
    return out


def teardown(r, n):
    """All clients leave, and orphans expire. Only one client, which was gone
    in the meantime, is back, and republishes its service; another one stays all
    the time, and has nothing left of what it had."""
    w = r.world
    for name, p in w.peers.items():
        if not p.dead and not str(name).startswith("stayer"):
            w.hangup(p, "eof")
    w.sync()
    for _ in range(1000):
        due = [s.due() for m in w.domains for s in m.orphans_due()
               if s.sid != ANCHOR]
        if not due:
            break
        if min(due) > sim.CLOCK.now + 1e6:
            raise Inconclusive()
        w.run_to(max(sim.CLOCK.now, min(due) + 1))
    # past all kinds of timers
    w.advance(60)
    for i, m in enumerate(w.domains):
        p = w.peers.get("stayer%d" % i)
        if p is None or p.dead:
            if m.conns:
                raise Inconclusive()
            p = w.connect("stayer%d" % i, i, 0, 3)
            w.request(p, "hello", client_id=ANCHOR + 2,
                      protocol_minimum_version=2, protocol_maximum_version=2)
        elif len(m.conns) != 1:
            raise Inconclusive()
        if any(s != ANCHOR for s in m.services):
            raise Inconclusive()
        # whatever a client which stays did, and ended
        for k in range(ANCHOR + 100 * n + 10, ANCHOR + 100 * n + 13):
            w.request(p, "subscribe", subscription_id=k, filter="(k=%d)" % k)
            w.request(p, "publish", service_id=k, generation=1,
                      service_props={"k": [k]}, ttl=1)
            w.sync()
            w.request(p, "services", filter="(k=%d)" % k)
            w.request(p, "unsubscribe", subscription_id=k)
            w.request(p, "unpublish", service_id=k)
            w.sync()
        # somebody who left something behind looks in, but does nothing
        p = w.connect("anchor%d" % i, i, 0, 0)
        w.request(p, "hello", client_id=ANCHOR,
                  protocol_minimum_version=2, protocol_maximum_version=2)
        w.request(p, "subscribe", subscription_id=ANCHOR + 1)
        w.sync()
        w.hangup(p, "eof")
        w.sync()
        for again in (False, True):
            p = w.connect("anchor%d" % i, i, 0, 0)
            w.request(p, "hello", client_id=ANCHOR,
                      protocol_minimum_version=2, protocol_maximum_version=2)
            if not again:
                # just a short visit, leaving an orphan which expires while
                # the client is back
                w.request(p, "publish", service_id=ANCHOR + 1, generation=1,
                          service_props={}, ttl=1)
                w.sync()
                w.hangup(p, "eof")
                w.sync()
        w.request(p, "publish", service_id=ANCHOR, generation=1,
                  service_props={}, ttl=10**7)
        w.request(p, "subscribe", subscription_id=ANCHOR)
        w.sync()
    # clients which end while it is uncertain whether they are there
    for i, m in enumerate(w.domains):
        p = w.connect("sleeper%d" % i, i, 0, 0)
        w.request(p, "hello", client_id=ANCHOR + 3,
                  protocol_minimum_version=2, protocol_maximum_version=3)
        w.advance(0.7 * m.conf["idle_max"])
        if not p.dead:
            w.hangup(p, "eof")
            w.sync()
    # until whatever was planned and called off would have been due, too (a
    # list of timers may well keep what was called off until then)
    w.advance(5 * 10**9)


def leak(case):
    r = sim.Runner(dict(case, final=False))
    sizes = []
    w = r.world
    close = w.close
    w.close = lambda: None
    r.finish = lambda: None
    try:
        # the first round may set up things which stay; called-off timers a
        # list of timers keeps until due may come and go
        while len(sizes) < 4 or \
                (len(sizes) < 12 and growing(sizes)):
            n = len(sizes)
            r.case = dict(case, ops=shifted(case["ops"], n * 1000))
            r.run()
            finish_all(w)
            teardown(r, n)
            sizes.append(heap.population(w.servers + [w.loop]))
    finally:
        close()
    return sizes


def growing(sizes):
    return all(a < b for a, b in zip(sizes[1:], sizes[2:]))


def finish_all(w):
    for p in w.peers.values():
        p.window = None
    w.sync()
    w.settle()


def run(case):
    out = histcheck.run("C14", case, lambda s: s.get("disconnect", 0) >= 2 and
                        (s.get("notify:appeared") or s.get("orphaned")))
    if out.failure is None and case.get("leak"):
        try:
            s = leak(case)
        except Inconclusive:
            return out
        except Divergence as d:
            if "C14" not in classify.tags(d):
                return out
            return Outcome(("leak", "once clients are gone, and others are "
                            "back: %s" % d), True, out.stats)
        out.stats["played repeatedly"] = 1
        if growing(s):
            return Outcome(("leak", "state held once clients are gone keeps "
                            "growing: %s" % s), True, out.stats)
    return out
