from ..genhist import Gen
from .. import histcheck

RULE = ("random histories in which clients and subscriptions are listed again "
        "and again, with tracked and untracked clients of both versions, "
        "unfinished handshakes, and filters of all forms; non-trivial: at "
        "least two listings with contents")
COUNTS = {"quick": 15000, "thorough": 200000}


class ListGen(Gen):
    def op_lag(self):
        """answers the server's track query after a while"""
        r = self.rng
        s = self.pick_slot()
        if s is None:
            return
        self.emit("track", s)
        f = self.free_slot()
        d = self.slots[s]
        if f is None or d["cid"] is None:
            return
        self.emit("up", f, d["dom"], d["user"], d["cid"], 3)
        self.connected(f, d["cid"], d["user"], d["dom"])
        self.adv(r.choice([0, 0.001, 0.25, 2]))
        self.emit("tinf", s, "reply")
        self.op_lists()


def gen(rng, tier, i):
    return ListGen(rng, weights=dict(lists=9, sub=7, unsub=3, track=2, lag=2,
                                     conn=2, hello=2, close=3, probe=1,
                                     pub=1, repub=0.5, adv=3, expire=0.5,
                                     list=0.3), conf={},
                   length=(10, 34), subs=8,
                   users=(0, 0, 1, 3, 7)).build()


def run(case):
    return histcheck.run("C22", case, lambda s:
                         s.get("listed-client", 0) >= 3 and
                         s.get("listed-subscription"))
