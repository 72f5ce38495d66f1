from ..genhist import PROPSETS, history
from .. import histcheck

RULE = ("random histories dominated by republications with higher, equal and "
        "lower generations and with changed and unchanged properties and "
        "TTL, by owners, other clients of the same user and strangers, with "
        "a subscriber watching; non-trivial: one accepted and one rejected "
        "republication")
COUNTS = {"quick": 15000, "thorough": 250000}

# pairs that are equal as sets, or nearly so
NEAR = [{"k": [1]}, {"k": ["1"]}, {"k": [1, "1"]}, {"k": [1, 1]}, {"k": []},
        {}, {"k": [1], "l": []}, {"l": [1]}, {"k": [1, 2]}, {"k": [2, 1]},
        {"K": [1]}, {"k": [""]}, {"k": [0]}, {"k": ["0"]}]


def gen(rng, tier, i):
    props = NEAR if rng.random() < 0.4 else None
    return history(rng, weights=dict(repub=14, takeover=5, foreign=3, sub=3,
                                     list=3, reconnect=4),
                   sids=rng.choice([1, 2, 3]), propsets=props,
                   gens=(0, 1, 2, 3, 2**63 - 9), warm=rng.randint(2, 4))


def run(case):
    return histcheck.run("C03", case, lambda s: s.get("republished") and (
        s.get("fail:old-generation") or
        s.get("fail:same-generation-but-different") or
        s.get("fail:permission-denied")))
