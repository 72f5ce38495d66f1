from ..genhist import history
from .. import histcheck

RULE = ("random histories mixed with hostile messages: random bytes, mutated "
        "JSON, deep nesting, mistyped, missing and superfluous fields, "
        "server-side message types, before and after the handshake and inside "
        "of live transactions, and abrupt ends of connections; non-trivial: "
        "a protocol violation was sent, and another client was served")
COUNTS = {"quick": 22500, "thorough": 400000}


def gen(rng, tier, i):
    return history(rng, weights=dict(junk=10, dupta=3, tinf=2, track=1,
                                     nohello=2, reuse=1, close=3, multi=1, window=0.5, stall=0.4,
                                     huge=0.8, accerr=0.4, attrerr=0.5,
                                     up=5, sub=4, list=2, hello=1),
                   conf={}, closes=("eof", "reset", "timeout", "hostunreach", "broken"),
                   length=(8, 36), slots=8)


def run(case):
    return histcheck.run("C10", case, lambda s: s.get("violation") and
                         s.get("accepted", 0) >= 2)
