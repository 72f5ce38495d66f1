from ..genhist import history
from .. import histcheck

RULE = ("random histories dominated by disconnects of owners (orderly, by "
        "error, by timeout), waits ending just before or after the expiry of "
        "an orphan, and reclaims, often repeated for the same service; "
        "non-trivial: a service is orphaned, and one is reclaimed or expires")
COUNTS = {"quick": 15000, "thorough": 250000}


def gen(rng, tier, i):
    idle = {}
    if rng.random() < 0.2:
        from ..sim import default_domain
        idle = {"domains": [default_domain(idle_min=rng.choice([1, 3, 8]),
                                           idle_max=rng.choice([8, 20]))]}
    long = (40, 100) if rng.random() < 0.1 else (10, 34)
    return history(rng, weights=dict(close=5, reconnect=9, expire=7, sub=3,
                                     list=4, takeover=3, up=3, unpub=1.5),
                   sids=rng.choice([1, 2, 3, 6]), conf=idle, length=long,
                   ttls=(0, 1, 2, 3, 5, 10, 10, 60, 600),
                   warm=rng.randint(1, 3))


def run(case):
    return histcheck.run("C04", case, lambda s: s.get("orphaned") and (
        s.get("purged") or s.get("reclaimed")))
