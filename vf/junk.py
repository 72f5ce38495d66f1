"""Hostile messages. What is neither clearly valid nor clearly invalid by the
protocol specification is left out by construction (see clear())."""
import json

from . import refproto

WEIRD = [None, True, False, 0, -1, 1.5, 1e300, 2**63 - 1, 2**63, 2**64, "",
         "x", "hello", [], {}, [1], {"a": 1}, "\u0000", "\ud800", -2**70, 3.0,
         "request", 10**30, [[]], {"k": [None]}, -0.0, -0.3, "\udfff",
         float("nan"), float("inf")]
HANDSHAKE_CIDS = [1, 2, 3, 4, 5, 77]


def valid(rng, g=None):
    """a valid message of any kind, a client's or not"""
    if g is not None and rng.random() < 0.5:
        return g.request(rng.choice([0, 1, 2, 3, 500, 2**63 - 1]))
    cmd = rng.choice(sorted(refproto.CMDS))
    mt = rng.choice(refproto.MSG_TYPES + ("request", "request"))
    v = rng.choice(refproto.CMDS[cmd]["versions"])
    mand, opt = refproto.fields(cmd, v, mt)
    m = {"ta-cmd": cmd, "ta-id": rng.choice([0, 1, 2, 3, 4, 500]),
         "msg-type": mt}
    for f, t in list(mand.items()) + [
            x for x in opt.items() if rng.random() < 0.5]:
        m[f] = value(rng, t)
    return m


def value(rng, t):
    if t == "string":
        return rng.choice(["query", "reply", "(a=b)", "(name=*)", "x", "",
                           "appeared", "\u00e5\u4e16", "((", "(k>1)"])
    if t == "int":
        return rng.choice([0, 1, 2, 3, 5, 42, 2**31, 2**63 - 1])
    if t == "number":
        return rng.choice([0, 1, 0.5, 1e9, 123456.789])
    return rng.choice([{}, {"name": ["a"]}, {"k": [1, 2, "x"]}, {"k": []},
                       {"k": ["\ud800"]},
                       {"": [""]}, {"\u00e5": ["\ud83d\ude00", -5]}])


def mutate(rng, m):
    """breaks (or perhaps not) a message"""
    m = dict(m)
    k = rng.randrange(8)
    keys = sorted(m)
    f = rng.choice(keys)
    if k == 0:
        del m[f]
    elif k in (1, 2, 3):
        m[f] = rng.choice(WEIRD)
    elif k == 4:
        m[rng.choice(["extra", "filter", "client-id", "fail-reason", "",
                      "ttl", "track-type"])] = rng.choice(WEIRD + [1, "x"])
    elif k == 5:
        m["ta-cmd"] = rng.choice(["foo", "TRACK", "track", "hello ", "",
                                  "services_request", "__init__", "clients"])
    elif k == 6:
        m["msg-type"] = rng.choice(["foo", "Request", "accept", "notify",
                                    "complete", "fail", "inform", ""])
    else:
        if "service-props" in m:
            m["service-props"] = rng.choice([
                {"k": 1}, {"k": [1.5]}, {"k": [None]}, {"k": [[]]}, [],
                {"k": [True]}, {"k": {"a": 1}}, "x", {"k": ["a", {}]}])
        else:
            m[f] = [m[f]]
    return m


def rawbytes(rng):
    k = rng.randrange(9)
    if k == 0:
        return bytes(rng.randrange(256) for _ in range(rng.randint(1, 40)))
    if k == 1:
        d = rng.choice([10, 500, 2000, 20000])
        return b"[" * d + b"]" * rng.choice([0, d])
    if k == 2:
        return b'{"ta-cmd":' * rng.choice([5, 3000]) + b"1"
    if k == 3:
        return rng.choice([b"null", b"1", b'"x"', b"[]", b"{}", b"true",
                           b" ", b"\x00", b"-1", b"NaN", b'""', b"[{}]",
                           b"1e999", b"-Infinity", b"0" * 100])
    if k == 4:
        return b'{"ta-cmd": "ping", "ta-id": ' + \
            b"9" * rng.choice([19, 20, 400, 5000]) + \
            b', "msg-type": "request"}'
    if k == 5:
        m = json.dumps(valid(rng)).encode()
        return m[:rng.randint(1, max(1, len(m) - 1))]
    if k == 6:
        m = bytearray(json.dumps(valid(rng)).encode())
        for _ in range(rng.randint(1, 3)):
            m[rng.randrange(len(m))] = rng.randrange(256)
        return bytes(m)
    if k == 7:
        return json.dumps(valid(rng)).encode("utf-16")
    return json.dumps(valid(rng)).encode() + rng.choice([b"x", b"{}", b"\x00",
                                                         b",", b"\xff"])


def clear(data):
    """whether the verdict on a message is beyond doubt in both protocol
    versions"""
    from . import reffilter
    for v in (2, 3):
        verdict, m = refproto.parse(v, data)
        if verdict == "gray":
            return False
        if verdict == "ok" and isinstance(m.get("filter"), str) and \
           reffilter.parse(m["filter"])[0] == "gray":
            return False
    return True


def message(rng, g=None):
    while True:
        x = rng.random()
        if x < 0.3:
            data = rawbytes(rng)
        elif x < 0.8:
            m = mutate(rng, valid(rng, g))
            if rng.random() < 0.2:
                m = mutate(rng, m) if m else m
            data = json.dumps(m).encode()
        else:
            data = json.dumps(valid(rng, g)).encode()
        if data and clear(data) and len(data) < 60000:
            return data
