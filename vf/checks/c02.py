from ..genhist import history
from .. import histcheck

RULE = ("random histories with up to 8 subscriptions with generated filters "
        "over services whose properties are republished between matching and "
        "not matching; sequential and batched; non-trivial: at least three "
        "notifications, one of them not an appearance")
COUNTS = {"quick": 17500, "thorough": 250000}


def gen(rng, tier, i):
    long = (40, 110) if rng.random() < 0.08 else (10, 34)
    return history(rng, weights=dict(sub=7, repub=8, unsub=2.5, multi=1,
                                     list=1), subs=8, length=long,
                   warm=rng.randint(2, 4))


def run(case):
    return histcheck.run("C02", case, lambda s: sum(
        s.get("notify:" + x, 0) for x in
        ("appeared", "modified", "disappeared")) >= 3 and (
        s.get("notify:modified") or s.get("notify:disappeared")))
