from ..genhist import history
from .. import histcheck

RULE = ("random histories with requests of all commands, several at once, "
        "with reused transaction ids, duplicate requests, informs with and "
        "without a track transaction; every message written is attributed to "
        "the transaction and request it has to answer; non-trivial: at least "
        "six requests answered, among them one with several responses")
COUNTS = {"quick": 17500, "thorough": 250000}


def gen(rng, tier, i):
    return history(rng, weights=dict(multi=4, dupta=4, reuse=3, track=3,
                                     tinf=4, nohello=1.5, hello=1.5, ping=2,
                                     list=3, lists=3, sub=4, unsub=4,
                                     badfilter=1, junk=0.5),
                   conf={}, sync=rng.random() < 0.5, length=(10, 40))


def run(case):
    def nontrivial(s):
        n = sum(v for k, v in s.items() if k.startswith("req:"))
        return n >= 6 and (s.get("req:subscribe") or s.get("req:services") or
                           s.get("req:clients") or s.get("req:track"))
    return histcheck.run("C11", case, nontrivial)
