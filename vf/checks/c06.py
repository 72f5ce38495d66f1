from ..genhist import history
from .. import histcheck

RULE = ("random histories under small random limits per user and in total on "
        "clients, subscriptions and services, moving back and forth across "
        "the limits; non-trivial: a request was refused for lack of "
        "resources, and another succeeded after something was released")
COUNTS = {"quick": 17500, "thorough": 250000}


def limits(rng):
    user = {}
    total = {}
    for kind in ("clients", "subscriptions", "services"):
        x = rng.random()
        if x < 0.6:
            user[kind] = rng.choice([0, 1, 1, 2, 2, 3])
        if 0.4 < x:
            total[kind] = rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 4])
    if "clients" in total:
        # of no interest here; connection slots are the topic of C18
        total["clients"] += 2
    if user.get("clients") == 0:
        user["clients"] = 1
    return user, total


def gen(rng, tier, i):
    user, total = limits(rng)
    return history(rng, weights=dict(
        pub=8, sub=7, unsub=4, unpub=4, close=4, reconnect=4, expire=4,
        takeover=3, up=5, list=1, lists=0.3, repub=4, foreign=1, attrerr=0.2),
        conf={"user": user, "total": total}, sids=6, subs=6,
        ttls=(0, 1, 2, 5), length=(14, 44), users=(0, 0, 1, 2),
        warm=rng.randint(1, 3))


def run(case):
    return histcheck.run("C06", case, lambda s:
                         s.get("fail:insufficient-resources") and (
                             s.get("purged") or s.get("unpublished") or
                             s.get("disconnect") or s.get("req:unsubscribe")))
