from ..genhist import history
from .. import histcheck

RULE = ("random histories of 8-30 operations by up to 6 clients of 2 users in "
        "one domain, listing services in between and by a fresh client at the "
        "end; non-trivial: at least one listed service, and at least one "
        "service removed, orphaned or modified")
COUNTS = {"quick": 15000, "thorough": 250000}


def gen(rng, tier, i):
    long = (30, 90) if rng.random() < 0.1 else (8, 30)
    return history(rng, weights=dict(list=5, expire=3.5), length=long)


def run(case):
    return histcheck.run("C01", case, lambda s: s.get("listed-service") and (
        s.get("purged") or s.get("unpublished") or s.get("republished") or
        s.get("orphaned")))
