from ..genhist import Gen
from ..sim import default_domain
from .. import histcheck

RULE = ("random histories of connection attempts on one to three sockets, "
        "with and without a total client limit, most of which never finish "
        "their handshake, or fail it, retry it or send something else, with "
        "failing accepts in between; non-trivial: a handshake timed out or "
        "a connection had to wait for a free slot")
COUNTS = {"quick": 17500, "thorough": 250000}


class ConnGen(Gen):
    def op_burst(self):
        r = self.rng
        for _ in range(r.choice([2, 4, 8, 17, 20])):
            self.op_conn()

    def op_wait(self):
        self.adv(self.rng.choice([0.5, 0.99, 1.0, 1.01, 1.5, 1.9, 1.99, 2.01,
                                  2.5, 3.1, 3.6, 4]))


def gen(rng, tier, i):
    total = {}
    if rng.random() < 0.8:
        total["clients"] = rng.choice([1, 1, 2, 2, 3, 4, 16, 17])
    g = ConnGen(rng, weights=dict(conn=9, burst=1.5, wait=8, hello=6, up=4,
                                  close=5, probe=3, nohello=2, junk=2,
                                  accerr=1.5, attrerr=0.3, pub=1, sub=0.5, repub=0.3,
                                  list=0.3, expire=1, adv=0.5, takeover=0,
                                  foreign=0, unsub=0, unpub=0.3,
                                  reconnect=1),
                conf={"total": total, "domains": [
                    default_domain(socks=rng.choice([1, 1, 2, 3]))]},
                slots=rng.choice([4, 8, 24]), cids=rng.choice([2, 4, 30]),
                length=(8, 34), ttls=(0, 1, 3))
    return g.build()


def run(case):
    return histcheck.run("C18", case, lambda s: s.get("handshake-timeout") or
                         s.get("waiting"))
