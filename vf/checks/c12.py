from ..genhist import history
from ..sim import default_domain
from .. import histcheck

RULE = ("random histories dominated by hellos with all kinds of version "
        "ranges against domains with all version ranges, repeated, retried "
        "after failure, with changed and with used client ids, and by other "
        "requests before the handshake and in either version afterwards; "
        "non-trivial: at least two hellos, one of which failed or was "
        "repeated, or a request refused for want of a hello")
COUNTS = {"quick": 17500, "thorough": 250000}


def gen(rng, tier, i):
    vmin, vmax = rng.choice([(2, 3), (2, 3), (2, 2), (3, 3)])
    return history(rng, weights=dict(hello=8, conn=4, probe=3, nohello=5,
                                     track=2, tinf=1, lists=2, up=4, close=3,
                                     reconnect=2, ping=2, expire=1, attrerr=0.3),
                   conf={"domains": [default_domain(vmin=vmin, vmax=vmax)]},
                   cids=3, versions=(2, 3, 3, 4), length=(8, 26))


def run(case):
    return histcheck.run("C12", case, lambda s: s.get("req:hello", 0) >= 2 and
                         (s.get("fail:client-id-exists") or
                          s.get("fail:unsupported-protocol-version") or
                          s.get("fail:permission-denied") or
                          s.get("fail:no-hello")))
