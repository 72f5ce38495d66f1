"""Several domains, and several sockets per domain. A divergence from the
model counts only if it vanishes once each domain is left alone, or all
clients use one socket."""
from .. import classify, env, sim
from ..genhist import Gen
from ..runner import Outcome, in_child
from ..sim import BIG_IDLE, default_domain

RULE = ("random histories over 1-3 domains in one process, with 1-3 sockets "
        "each, which use the same client, subscription and service ids and "
        "users in all domains, under common limits and with different "
        "version and idle limits; run as a whole, and on a divergence each "
        "domain for itself and with all clients on one socket; non-trivial: "
        "clients were accepted in two domains or on two sockets, and "
        "notifications or listings were delivered")
COUNTS = {"quick": 15000, "thorough": 250000}
env.load()
ISOLATE = False


class DomGen(Gen):
    def emit(self, *op):
        op = list(op)
        if op[0] in ("conn", "up"):
            op[2] = op[1] % len(self.domains)
        self.ops.append(op)

    def connected(self, slot, cid, user, dom):
        Gen.connected(self, slot, cid, user, slot % len(self.domains))

    def op_lockstep(self):
        """the same in every domain"""
        r = self.rng
        name = r.choice(["pub", "sub", "unpub", "unsub", "list", "ping"])
        args = {"pub": [self.sid(), r.choice(self.gens), self.props(),
                        r.choice(self.ttls)],
                "sub": [r.randrange(self.nsubs), self.flt()],
                "unpub": [self.sid()],
                "unsub": [r.randrange(self.nsubs)],
                "list": [r.choice(["services", "clients", "subscriptions"])],
                "ping": []}[name]
        for d in range(len(self.domains)):
            s = self.pick_slot(dom=d)
            if s is not None and r.random() < 0.8:
                if name == "pub":
                    self.publish(s, *args)
                else:
                    self.emit(name, s, *args)


def gen(rng, tier, i):
    domains = []
    for d in range(rng.choice([1, 2, 2, 2, 3])):
        lo, hi = rng.choice([(2, 3), (2, 3), (2, 3), (2, 2), (3, 3)])
        small = rng.random() < 0.3
        domains.append(default_domain(
            name=rng.choice([None, "a", "b"]), socks=rng.choice([1, 2, 3, 5]),
            vmin=lo, vmax=hi, idle_min=4 if small else BIG_IDLE,
            idle_max=rng.choice([10, 30]) if small else BIG_IDLE))
    user, total = {}, {}
    if rng.random() < 0.5:
        for k in ("clients", "subscriptions", "services"):
            if rng.random() < 0.5:
                user[k] = rng.choice([1, 2, 3])
            if rng.random() < 0.5:
                total[k] = rng.choice([2, 3, 4])
        if "clients" in total:
            total["clients"] += 1
    return DomGen(rng, weights=dict(
        up=6, lockstep=4, conn=0.7, nohello=0.5, junk=0.5, accerr=0.5,
        lists=2, close=3, track=0.7, window=0.7, takeover=1, probe=0.7),
        conf={"domains": domains, "user": user, "total": total},
        slots=4 * len(domains), cids=3, length=(14, 45),
        warm=rng.randint(2, 4)).build()


PEER = ("conn", "up", "hello", "pub", "unpub", "sub", "unsub", "list", "ping",
        "track", "tinf", "auto", "close", "msg", "raw", "window", "more",
        "attrerr", "huge")


def projections(case):
    domains = case["conf"]["domains"]
    n = len(domains)
    if n > 1:
        for d in range(n):
            ops = []
            for op in case["ops"]:
                op = list(op)
                if op[0] in PEER:
                    if op[1] % n != d:
                        continue
                    if op[0] in ("conn", "up"):
                        op[2] = 0
                elif op[0] in ("accerr", "gone"):
                    if op[1] % n != d:
                        continue
                    op[1] = 0
                ops.append(op)
            conf = dict(case["conf"], domains=[domains[d]])
            yield dict(case, conf=conf, ops=ops)
    if any(d["socks"] > 1 for d in domains):
        conf = dict(case["conf"], domains=[dict(d, socks=1) for d in domains])
        yield dict(case, conf=conf)


def history(case):
    stats, d = sim.run_history(case)
    return stats, d and (classify.signature(d), "%s: %s" % (d.kind, d.detail))


def run(case):
    try:
        n = len(case["conf"]["domains"])
        for op in case["ops"]:
            if op[0] in ("conn", "up"):
                op[2] = op[1] % n
    except (TypeError, KeyError, IndexError, ZeroDivisionError):
        return Outcome(None, False)
    # each in a process of its own: what one run leaves behind in the process
    # must not influence others
    stats, d = in_child(history, case)
    failure = None
    if d is not None:
        others = [in_child(history, p)[1] for p in projections(case)]
        multi_dom = n > 1
        multi_sock = any(x["socks"] > 1 for x in case["conf"]["domains"])
        alone = others[:n] if multi_dom else []
        one = others[-1:] if multi_sock else []
        if (multi_dom and not any(alone)) or (multi_sock and not any(one)):
            failure = (d[0], "%s (%s)" % (
                d[1], "but not with each domain for itself"
                if multi_dom and not any(alone) else
                "but not with a single socket per domain"))
        else:
            stats["divergences of other properties"] = 1
    nontrivial = stats.get("accepted", 0) >= 2 and (
        n > 1 or case["conf"]["domains"][0]["socks"] > 1) and (
        stats.get("notify:appeared") or stats.get("listed-service") or
        stats.get("listed-client"))
    return Outcome(failure, failure is not None or bool(nontrivial), stats)
