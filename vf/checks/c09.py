"""Message encoding and decoding against the reference message format."""
import json

from .. import env, junk, refproto
from ..runner import Outcome

RULE = ("random messages of all commands, message types and versions, with "
        "all kinds of field values, encoded and decoded; and random bytes, "
        "JSON values and mutated messages, decoded under each version; "
        "inputs about which the protocol specification says nothing (such as "
        "duplicate JSON keys) must not fail otherwise than by a protocol "
        "error; non-trivial: all but the latter")
COUNTS = {"quick": 150000, "thorough": 6000000}
ISOLATE = False
CPU_LIMIT = 30
proto = env.load().proto

INTS = [0, 1, 2, 3, 42, 2**31, 2**32, 2**53 + 1, 2**63 - 1]
STRS = ["", "x", "(a=b)", "\u00e5\u4e16\U0001f600", "\"\\\n\t\u0000", "query",
        "tcp:[::1]:4711", "a" * 300, "\u2028", "null", "\ud800", "x\udfffy",
        "\x7f\x80\xff", "\ufeff", "\u0301"]
NUMS = [0, 1, 0.5, 1e-9, 1234567890.123456, 2**53, 1e300, 7]
STRS_BAD = [0, 1, -1, 1.5, None, True, False, [], ["x"], {}, {"x": 1}]
PROPS_BAD = [None, 0, "x", [], [["k", ["v"]]], True, {"k": "v"}, {"k": 1},
             {"k": None}, {"k": {}}, {"k": [None]}, {"k": [True]},
             {"k": [False, "x"]}, {"k": [0.5]}, {"k": [1.0]}, {"k": [[]]},
             {"k": ["a", {}]}, {"k": ["a"], "l": "a"}, {"k": [], "": None}]
NUMS_BAD = [-1, -0.5, -0.3, -1e-9, -0.999, -1e300, "1", "0.5", None, True,
            False, [], {}, float("nan"), float("inf"), -float("inf")]
INTS_BAD = [-1, 2**63, 2**64, 0.5, 1.0, -0.0, "1", "", None, True, False, [],
            -2**63]


def props(rng):
    out = {}
    for _ in range(rng.choice([0, 1, 1, 2, 5])):
        out[rng.choice(STRS + ["name", "k"])] = [
            rng.choice(STRS + [0, 1, -1, 2**63 - 1, -2**63, 42, "42"])
            for _ in range(rng.choice([1, 1, 2, 4]))]
    return out


def value(rng, t):
    if t == "string":
        return rng.choice(STRS)
    if t == "int":
        return rng.choice(INTS)
    if t == "number":
        return rng.choice(NUMS)
    return props(rng)


def message(rng):
    cmd = rng.choice(sorted(refproto.CMDS))
    v = rng.choice(refproto.CMDS[cmd]["versions"])
    mt = rng.choice(refproto.MSG_TYPES)
    mand, opt = refproto.fields(cmd, v, mt)
    return {"v": v, "cmd": cmd, "ta": rng.choice(INTS), "type": mt,
            "args": [value(rng, t) for t in mand.values()],
            "opt": {f: value(rng, t) for f, t in opt.items()
                    if rng.random() < 0.6}}


def gen(rng, tier, i):
    x = rng.random()
    if x < 0.45:
        return {"msg": message(rng)}
    v = rng.choice([2, 3, None])
    if x < 0.55:
        return {"v": v, "raw": junk.rawbytes(rng).hex()}
    if x < 0.65:
        # one field of an unsuitable type or value
        c = message(rng)
        mand, opt = refproto.fields(c["cmd"], c["v"], c["type"])
        types = dict(mand)
        types.update({f: t for f, t in opt.items() if f in c["opt"]})
        m = full(c)
        f = rng.choice(sorted(types) or ["ta-id"])
        m[f] = rng.choice({"string": STRS_BAD, "int": INTS_BAD,
                           "number": NUMS_BAD, "props": PROPS_BAD}
                          [types.get(f, "int")])
        return {"v": c["v"], "json": m}
    if x < 0.9:
        m = junk.valid(rng) if rng.random() < 0.4 else full(message(rng))
        if rng.random() < 0.9:
            m = junk.mutate(rng, m)
        if rng.random() < 0.2 and m:
            m = junk.mutate(rng, m)
        return {"v": v, "json": m}
    return {"v": v, "json": rng.choice(junk.WEIRD)}


def full(c):
    mand, opt = refproto.fields(c["cmd"], c["v"], c["type"])
    m = {"ta-cmd": c["cmd"], "ta-id": c["ta"], "msg-type": c["type"]}
    m.update(zip(mand, c["args"]))
    m.update(c["opt"])
    return m


def py(t, v):
    if t != "props":
        return v
    return {k: set(x) for k, x in v.items()}


def same(t, a, b):
    if t == "props":
        return refproto.canon_props(a) == refproto.canon_props(b)
    return a == b and (type(a) is type(b) or t == "number")


def run(case):
    if "msg" in case:
        return run_msg(case["msg"])
    return run_decode(case)


def run_msg(c):
    v, cmd, mt = c["v"], c["cmd"], c["type"]
    mand, opt = refproto.fields(cmd, v, mt)
    want = full(c)
    try:
        ta_type = proto.lookup_type(v, cmd)
        optargs = {f.replace("-", "_"): py(opt[f], x)
                   for f, x in c["opt"].items()}
        for f in opt:
            # absent optional fields may be given as None
            if f not in c["opt"] and c["ta"] % 2:
                optargs[f.replace("-", "_")] = None
        data = proto.Message(ta_type, c["ta"], mt,
                             [py(t, x) for t, x in
                              zip(mand.values(), c["args"])],
                             optargs).to_wire()
    except Exception as e:
        return Outcome(("encode", "encoding %r: %s: %s" %
                        (want, type(e).__name__, e)))
    types = dict(mand)
    types.update(opt)
    try:
        obj = json.loads(data.decode("utf-8"))
    except (ValueError, AttributeError):
        return Outcome(("wire", "%r is encoded as %r" % (want, data)))
    if not isinstance(obj, dict) or set(obj) != set(want) or not all(
            same(types.get(k, "int"), obj[k], want[k]) for k in want):
        return Outcome(("wire", "%r is encoded as %r" % (want, data)))
    return check_decoded(v, data, want)


def check_decoded(v, data, want):
    cmd, mt = want["ta-cmd"], want["msg-type"]
    mand, opt = refproto.fields(cmd, v, mt)
    try:
        m = proto.Message.parse(v, data)
    except Exception as e:
        return Outcome(("decode", "decoding %r (version %s): %s: %s" %
                        (data, v, type(e).__name__, e)))
    bad = []
    if m.cmd() != cmd or m.ta_id != want["ta-id"] or m.msg_type != mt:
        bad.append("header")
    args = list(m.args)
    if len(args) != len(mand):
        bad.append("number of fields")
    for (f, t), x in zip(mand.items(), args):
        if not same(t, x, want[f]):
            bad.append(f)
    names = {f.replace("-", "_"): f for f in opt if f in want}
    if set(m.optargs) != set(names):
        bad.append("optional fields")
    else:
        for n, f in names.items():
            if not same(opt[f], m.optargs[n], want[f]):
                bad.append(f)
    kinds = [m.is_request(), m.is_accept(), m.is_notify(), m.is_inform(),
             m.is_complete(), m.is_fail()]
    order = ["request", "accept", "notify", "inform", "complete", "fail"]
    if kinds != [mt == x for x in order] or \
       m.is_client_generated() != (mt in refproto.CLIENT_TYPES) or \
       m.is_server_generated() == (mt in refproto.CLIENT_TYPES):
        bad.append("message type predicates")
    if bad:
        return Outcome(("decode", "%r is decoded with wrong %s: %r %r" %
                        (data, ", ".join(bad), args, dict(m.optargs))))
    return Outcome(None, True, {"message " + mt: 1})


def run_decode(case):
    v = case["v"]
    if "raw" in case:
        data = bytes.fromhex(case["raw"])
    else:
        data = json.dumps(case["json"]).encode()
    verdict, m = refproto.parse(v, data)
    if verdict == "ok":
        return check_decoded(v or 2, data, m)
    try:
        proto.Message.parse(v, data)
        got = "accepted"
    except proto.ProtocolError:
        got = "rejected"
    except Exception as e:
        return Outcome(("exception", "decoding %r: %s: %s" %
                        (data[:300], type(e).__name__, str(e)[:200])))
    if verdict == "bad" and got == "accepted":
        return Outcome(("accepted", "%r is accepted (version %s): %s" %
                        (data, v, m)))
    return Outcome(None, verdict == "bad", {verdict: 1})
