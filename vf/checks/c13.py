from ..genhist import Gen
from ..sim import USERS, default_domain
from .. import histcheck

RULE = ("random histories in domains with idle limits of 1-40 s, by version 2 "
        "and 3 clients that own services with different TTLs, answer track "
        "queries or not, fall silent for random and for critical times, and "
        "whose client ids are claimed by newcomers; non-trivial: a client "
        "was timed out or queried, or its id claimed")
COUNTS = {"quick": 15000, "thorough": 250000}


class IdleGen(Gen):
    def op_critical(self):
        """silence ending around a fraction of the possible idle times"""
        r = self.rng
        d = self.domains[0]
        base = r.choice([d["idle_min"], d["idle_max"]] +
                        [min(d["idle_max"], max(d["idle_min"], v["ttl"]))
                         for v in self.svcs.values()] or [d["idle_max"]])
        self.adv(base * r.choice([0.4, 0.5, 0.56, 0.6, 0.9, 0.94, 0.97, 1.0,
                                  1.06, 1.2, 0.25]) +
                 r.choice([0, 0, 0.01, 0.6]))

    def op_slow(self):
        """a client which takes its time to answer"""
        r = self.rng
        d = self.domains[0]
        s = self.pick_slot()
        if s is None:
            return
        if r.random() < 0.7:
            self.emit("track", s)
            self.emit("auto", s, False)
        own = [v["ttl"] for v in self.svcs.values() if v["slot"] == s]
        t = min(d["idle_max"], max([d["idle_min"]] + own[:1])) if own else \
            d["idle_max"]
        for _ in range(r.choice([1, 1, 2, 3])):
            self.adv(t * 0.56)
            self.adv(t * r.choice([0, 0.1, 0.3, 0.36]))
            self.emit(*r.choice([["tinf", s, "reply"]] * 3 + [["ping", s]]))


def gen(rng, tier, i):
    lo = rng.choice([1, 1, 2, 4, 10, 40])
    hi = rng.choice([h for h in (1, 2, 4, 10, 20, 40, 100) if h >= lo])
    g = IdleGen(rng, weights=dict(track=5, tinf=1.5, critical=9, slow=1.5, probe=3,
                                  ping=2.5, up=3, pub=4, unpub=2, close=1,
                                  reconnect=2, sub=1, lists=1, takeover=1,
                                  expire=1, window=0),
                conf={"domains": [default_domain(idle_min=lo, idle_max=hi)]},
                ttls=(0, 1, 2, 3, 5, 8, 15, 30, 100),
                cids=3, users=rng.choice([(0, 0, 1), (0, 1, 3, 7), (1, 8, 12),
                                          (rng.randrange(len(USERS)),)]),
                length=(8, 30), versions=(2, 3, 3, 3))
    return g.build()


def run(case):
    return histcheck.run("C13", case, lambda s: s.get("idle-timeout") or
                         s.get("idle-query") or s.get("probe-query"))
