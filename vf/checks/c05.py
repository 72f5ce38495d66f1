from ..genhist import history
from ..sim import RELATED, USERS
from .. import histcheck

RULE = ("random histories by clients of several users, identified by key id, "
        "IP address or the default user, with attempts to republish, "
        "unpublish, unsubscribe and to use client ids across users; "
        "non-trivial: a permission is denied and a takeover, publication or "
        "republication succeeds")
COUNTS = {"quick": 15000, "thorough": 250000}


def gen(rng, tier, i):
    if rng.random() < 0.5:
        users = list(rng.choice(RELATED))
    else:
        users = [rng.randrange(len(USERS)) for _ in range(rng.randint(2, 4))]
    return history(rng, weights=dict(foreign=7, takeover=6, unpub=4, unsub=4,
                                     reconnect=4, hello=2, sub=5, list=4,
                                     probe=0.5, linger=2),
                   users=tuple(users), sids=3, subs=3,
                   warm=rng.randint(2, 4), cids=rng.choice([2, 4, 6]))


def run(case):
    return histcheck.run("C05", case, lambda s:
                         s.get("fail:permission-denied") and (
                             s.get("takeover") or s.get("published")))
