"""Reference message format, written from PROTOCOLv2.md and PROTOCOLv3.md."""
import json

INT_MAX = (1 << 63) - 1
S, I, N, PR = "string", "int", "number", "props"

# (command, versions) -> message type -> (mandatory, optional)
FR = {"fail-reason": S}
SINGLE, MULTI, TWO = "single", "multi", "two-way"
E = {}

SVC = {"service-id": I, "generation": I, "service-props": PR, "ttl": I,
       "client-id": I}

CMDS = {
    "hello": dict(kind=SINGLE, versions=(2, 3),
                  request=({"client-id": I, "protocol-minimum-version": I,
                            "protocol-maximum-version": I}, E),
                  complete=({"protocol-version": I}, E)),
    "track": dict(kind=TWO, versions=(3,), notify=({"track-type": S}, E),
                  inform=({"track-type": S}, E)),
    "subscribe": dict(kind=MULTI, versions=(2, 3),
                      request=({"subscription-id": I}, {"filter": S}),
                      notify=({"match-type": S, "service-id": I},
                              {"generation": I, "service-props": PR, "ttl": I,
                               "client-id": I, "orphan-since": N})),
    "unsubscribe": dict(kind=SINGLE, versions=(2, 3),
                        request=({"subscription-id": I}, E)),
    "subscriptions": dict(kind=MULTI, versions=(2, 3),
                          notify=({"subscription-id": I, "client-id": I},
                                  {"filter": S})),
    "services": dict(kind=MULTI, versions=(2, 3), request=(E, {"filter": S}),
                     notify=(SVC, {"orphan-since": N})),
    "publish": dict(kind=SINGLE, versions=(2, 3),
                    request=({"service-id": I, "generation": I,
                              "service-props": PR, "ttl": I}, E)),
    "unpublish": dict(kind=SINGLE, versions=(2, 3),
                      request=({"service-id": I}, E)),
    "ping": dict(kind=SINGLE, versions=(2, 3)),
    "clients": dict(kind=MULTI, versions=(2, 3),
                    notify={2: ({"client-id": I, "client-address": S,
                                 "time": I}, E),
                            3: ({"client-id": I, "client-address": S,
                                 "time": I, "idle": N,
                                 "protocol-version": I}, {"latency": N})}),
}
MSG_TYPES = ("request", "accept", "notify", "inform", "complete", "fail")
CLIENT_TYPES = ("request", "inform")


def fields(cmd, version, mtype):
    c = CMDS[cmd]
    if mtype == "fail":
        return E, FR
    f = c.get(mtype, (E, E))
    if isinstance(f, dict):
        f = f[version]
    return f


class Bad(Exception):
    pass


class Gray(Exception):
    pass


def check_field(name, t, v):
    if t == S:
        if not isinstance(v, str):
            raise Bad("%s not a string" % name)
    elif t == I:
        if isinstance(v, bool):
            raise Bad("%s boolean" % name)
        if not isinstance(v, int) or v < 0 or v > INT_MAX:
            raise Bad("%s not a non-negative integer" % name)
    elif t == N:
        if isinstance(v, bool):
            raise Bad("%s boolean" % name)
        if not isinstance(v, (int, float)):
            raise Bad("%s not a number" % name)
        if v != v or v in (float("inf"), float("-inf")):
            raise Gray()
        if v < 0:
            raise Bad("%s negative" % name)
    elif t == PR:
        if not isinstance(v, dict):
            raise Bad("%s not an object" % name)
        for k, vals in v.items():
            if not isinstance(vals, list):
                raise Bad("property values not a list")
            for x in vals:
                if isinstance(x, bool) or not isinstance(x, (str, int)):
                    raise Bad("property value type")
                if isinstance(x, int) and not -2**63 <= x < 2**63:
                    raise Gray()


def _pairs(p):
    d = dict(p)
    if len(d) != len(p):
        raise Gray()
    return d


def _constant(name):
    # Python takes NaN and Infinity, which aren't JSON
    raise ValueError(name)


def parse(version, data):
    """Returns ('ok', message dict) or ('bad', reason) or ('gray', None)."""
    if version is None:
        version = 2
    gray = False
    try:
        try:
            m = json.loads(data.decode("utf-8"), object_pairs_hook=_pairs,
                           parse_constant=_constant)
        except Gray:
            return "gray", None
        except (ValueError, RecursionError) as e:
            return "bad", "json"
        if not isinstance(m, dict):
            raise Bad("not an object")
        for f, t in (("ta-cmd", S), ("ta-id", I), ("msg-type", S)):
            if f not in m:
                raise Bad("missing " + f)
            check_field(f, t, m[f])
        cmd, mt = m["ta-cmd"], m["msg-type"]
        if cmd not in CMDS or version not in CMDS[cmd]["versions"]:
            raise Bad("unknown command")
        if mt not in MSG_TYPES:
            raise Bad("unknown message type")
        mand, opt = fields(cmd, version, mt)
        for f, t in mand.items():
            if f not in m:
                raise Bad("missing " + f)
            try:
                check_field(f, t, m[f])
            except Gray:
                gray = True
        for f, t in opt.items():
            if f in m:
                try:
                    check_field(f, t, m[f])
                except Gray:
                    gray = True
        for f in m:
            if f not in mand and f not in opt and \
               f not in ("ta-cmd", "ta-id", "msg-type"):
                raise Bad("unknown field " + f)
        if gray:
            return "gray", None
        return "ok", m
    except Bad as e:
        return "bad", str(e)


def canon_props(wire):
    """Multimap as dict key -> frozenset, keys without values dropped."""
    out = {}
    for k, vs in wire.items():
        s = frozenset((type(v).__name__, v) for v in vs)
        if s:
            out[k] = s
    return out


def plain_props(canon):
    return {k: [v for _, v in vs] for k, vs in canon.items()}


def wire(cmd, ta_id, mtype="request", **fields):
    m = {"ta-cmd": cmd, "ta-id": ta_id, "msg-type": mtype}
    for k, v in fields.items():
        if v is not None:
            m[k.replace("_", "-")] = v
    return json.dumps(m).encode("utf-8")
