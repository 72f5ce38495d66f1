from ..genhist import Gen
from .. import histcheck

RULE = ("random histories with subscribers and requesters that stop reading "
        "and later resume, for 1 up to some hundred messages at a time, "
        "including beyond the queue length at which the server has to stop "
        "reading from them; non-trivial: a limited client had messages "
        "waiting, and some were delivered later")
COUNTS = {"quick": 8750, "thorough": 120000}


def gen(rng, tier, i):
    g = Gen(rng, weights=dict(window=5, stall=4, flood=1.5, churn=1.5,
                              sub=5, close=1, reconnect=0.5, expire=0.5,
                              adv=0.5, up=2, junk=0.3),
            conf={}, length=(15, 60), slots=4,
            closes=("eof", "eof", "reset", "timeout", "broken"),
            ttls=(60, 100), warm=rng.randint(2, 3))
    return g.build()


def unlimited(case):
    """The same history, with a transport that is always ready."""
    return dict(case, ops=[op for op in case["ops"]
                           if op[0] not in ("window", "more")])


def run(case):
    return histcheck.run("C17", case, lambda s: s.get("waited"),
                         without=unlimited)
