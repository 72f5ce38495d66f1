"""Configuration files against a reference interpretation."""
import copy
import os
import tempfile

import yaml

from .. import env, refconf
from ..runner import Outcome

RULE = ("configuration files made from random valid content in varying YAML "
        "styles; with values replaced by ones of any type and range, keys "
        "removed, renamed, added or moved, or both names of an alias used; "
        "and with random edits of the text; what the documentation leaves "
        "open (null values, unknown keys, limits at odds with a default) may "
        "be rejected or not; non-trivial: valid and different from the "
        "defaults, or to be rejected")
COUNTS = {"quick": 9000, "thorough": 400000}
ISOLATE = False
CPU_LIMIT = 30
paf = env.load()
conf, sd = paf.conf, paf.sd
SCRATCH = tempfile.gettempdir()

ADDRS = ["ux:local", "uxf:/tmp/x", "tls:*:4711", "tls:192.168.1.59:4711",
         "utls:[::1]:3", "tcp:10.0.0.1:9", "sctp:1.2.3.4:5", "utls:a.b:1",
         "ux:\u00e5 b", "tls:x#y:1", "xutls:a:1", "tlsx:a:1", "tls", "ux:tls:1",
         "TLS:a:1", "stls:a:1", " tls:a:1"]
ANY = [None, True, False, 0, 1, 2, 3, 4, 5, -1, 15, 30, 60, 1.5, 2.0, 3.0,
       float("inf"), 10**30, "", "x", "3", "min", "ux:a", [], [1], {}, ["min"],
       {"min": 1}, {"max": 3}, "true", "info", {"a": "b"}, [[]],
       {"addr": "ux:a"}, {"clients": 1}, "tls:a:1", [None], {1: 2},
       "console syslog log_file", ["clients"], "addr"]


def domain(r):
    d = {}
    if r.random() < .4:
        d["name"] = r.choice(["domain0", "x", "\u00e5", "a b: c", "3", "true"])
    if r.random() < .4:
        v = d["protocol_version"] = {}
        lo, hi = r.choice([(2, 3), (2, 2), (3, 3), (3, 2), (1, 3), (2, 4), (4, 4),
                           (1, 1), (4, 5), (0, 0), (1, 2), (3, 4)]
                          if r.random() < .3 else [(2, 3), (2, 2), (3, 3)])
        if r.random() < .7:
            v["min"] = lo
        if r.random() < .7:
            v["max"] = hi
    if r.random() < .5:
        v = d["idle"] = {}
        if r.random() < .6:
            v["min"] = r.choice([1, 2, 4, 10, 10, 0] if r.random() < .3
                                else [1, 2, 4])
        if r.random() < .6:
            v["max"] = r.choice([1, 4, 5, 15, 60, 10**9])
    if r.random() < .25:
        d["max_idle_time"] = r.choice([4, 5, 15, 40, 3, 100])
        if r.random() < .8 and "max" in d.get("idle", {}):
            del d["idle"]["max"]
    socks = []
    for _ in range(r.choice([1, 1, 2, 3])):
        a = r.choice(ADDRS)
        if r.random() < .5:
            socks.append(a)
        else:
            s = {"addr": a}
            if a.split(":")[0] in ("tls", "utls") and r.random() < .8 or \
               r.random() < .05:
                s["tls"] = {k: "/etc/%s.pem" % k for k in
                            r.sample(["cert", "key", "tc", "crl"],
                                     r.randint(0, 4))}
            socks.append(s)
    d[r.choice(["sockets", "sockets", "addrs"])] = socks
    return d


def document(r):
    doc = {}
    if r.random() < .85:
        doc["domains"] = [domain(r) for _ in range(r.choice([0, 1, 1, 2, 3]))]
    if r.random() < .5:
        res = doc["resources"] = {}
        for c in ("user", "total"):
            if r.random() < .7:
                res[c] = {k: r.choice([0, 1, 5, 10000, 10**12])
                          for k in refconf.KINDS if r.random() < .6}
    if r.random() < .6:
        log = doc["log"] = {}
        opts = {"console": [True, False], "syslog": [True, False],
                "log_file": ["/tmp/l", "x y", "", " x "],
                "log_file_backup": [0, 1, 7],
                "log_file_max_size": [0, 1, 5000], "syslog_socket":
                ["/dev/log", "/run/x", ""], "facility":
                sorted(refconf.FACILITIES), "filter": sorted(refconf.LEVELS)}
        for k, vs in opts.items():
            if r.random() < .5:
                log[k] = r.choice(vs)
    return doc


def places(v, out):
    """all containers within a document"""
    if isinstance(v, dict):
        out.append(v)
        for x in v.values():
            places(x, out)
    elif isinstance(v, list):
        out.append(v)
        for x in v:
            places(x, out)
    return out


def near(r, s):
    """a string which is easily mistaken for another"""
    x = r.randrange(7)
    if x == 0:
        return s.upper() if r.random() < .5 else s.capitalize()
    if x == 1:
        return r.choice([" %s", "%s ", "\t%s", "%s\n"]) % s
    if x == 2:
        return s[:-1] if r.random() < .5 else s[1:]
    if x == 3:
        return s + r.choice(["s", "x", "_", "-", s])
    if x == 4:
        return r.choice(["x", "u", "no", "un"]) + s
    if x == 5:
        return s.replace("_", "-") if "_" in s else s.replace(":", "", 1)
    return ""


def mutate(r, doc):
    c = r.choice(places(doc, []))
    keys = list(c) if isinstance(c, dict) else list(range(len(c)))
    x = r.random()
    strs = [k for k in keys if isinstance(c[k], str)]
    if strs and r.random() < .3:
        k = r.choice(strs)
        c[k] = near(r, c[k])
        return
    names = [k for k in keys if isinstance(k, str)] if isinstance(c, dict) \
        else []
    if names and r.random() < .05:
        k = r.choice(names)
        c[near(r, k)] = c.pop(k)
        return
    if x < .55 and keys:
        c[r.choice(keys)] = copy.deepcopy(r.choice(ANY))
    elif x < .7 and keys and isinstance(c, dict):
        k = r.choice(keys)
        del c[k]
    elif isinstance(c, list):
        c.insert(r.randint(0, len(c)), copy.deepcopy(r.choice(ANY)))
    else:
        k = r.choice(["min", "max", "sockets", "addrs", "max_idle_time",
                      "idle", "name", "protocol_version", "addr", "tls",
                      "user", "total", "clients", "services", "subscriptions",
                      "domains", "log", "resources", "cert", "ca", "extra",
                      "console", "filter", "facility", "log_file_backup", 7])
        c.setdefault(k, copy.deepcopy(r.choice(ANY)))


def text(r, doc):
    t = yaml.safe_dump(doc, default_flow_style=r.choice([None, True, False]),
                       allow_unicode=r.random() < .5,
                       default_style=r.choice([None, None, None, '"'])
                       if r.random() < .1 else None)
    return t


PIECES = ["&", "*a", "!", "!!int x", "!!timestamp x", "2020-99-99", "{", "}",
          "[", "]", ":", "\t", "- ", "%", "@", "`", "\x00", "\u2028", "? ",
          "!!python/object:os.system", "0x", "1:90", "\n", " ", "#", "'",
          '"', "|", ">", "<<: ", "~", "---\n", "..."]


def gen(rng, tier, i):
    r = rng
    x = r.random()
    doc = document(r)
    if x < .45:
        pass
    else:
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            mutate(r, doc)
    t = text(r, doc)
    if r.random() < .02:
        # the file that is shipped, altered by its users
        t = example() or t
        x = 1 - x * .12
    if x > .88:
        for _ in range(r.choice([1, 1, 2, 4])):
            p = r.randint(0, len(t))
            if r.random() < .5:
                t = t[:p] + r.choice(PIECES) + t[p:]
            else:
                t = t[:p] + t[p + r.choice([1, 1, 3, 10]):]
    data = t.encode("utf-8", "surrogatepass")
    if x > .99:
        p = r.randint(0, len(data))
        data = data[:p] + bytes([r.randrange(128, 256)]) + data[p:]
    return {"text": data.decode("latin-1")}


def example():
    try:
        with open(os.path.join(env.REPO, "conf", "pafd-example.conf"),
                  encoding="utf-8") as f:
            return f.read()
    except (OSError, ValueError):
        return ""


def fixed_cases(tier):
    if example():
        yield {"text": example().encode("utf-8").decode("latin-1")}
    for t in ("[" * 5000, "{a: " * 3000, "&a [*a]", "domains: &a [*a]",
              "&a {domains: [*a]}", "\xff\xfe", "", "---", "- 1", "5",
              "log: {log_file_backup: 0x}", "a: !!timestamp x",
              "a: !!bool x", "a: !!int ''", "a: 2020-99-99", "!!set {a}",
              "resources: &r {user: *r}", "a: &a {<<: *a}"):
        yield {"text": t}


def observed(c):
    kinds = dict(clients=sd.ResourceType.CLIENT,
                 services=sd.ResourceType.SERVICE,
                 subscriptions=sd.ResourceType.SUBSCRIPTION)
    lg = c.log
    return {
        "domains": [{
            "name": d.name,
            "version": (d.proto_version_limit.version_min,
                        d.proto_version_limit.version_max),
            "idle": (d.idle_limit.idle_min, d.idle_limit.idle_max),
            "sockets": [(s.addr, dict(s.tls_attrs)) for s in d.sockets]}
            for d in c.domains],
        "log": dict(console=lg.console, log_file=lg.log_file,
                    log_file_backup=lg.log_file_backup,
                    log_file_max_size=lg.log_file_max_size,
                    syslog=lg.syslog, syslog_socket=lg.syslog_socket,
                    facility=lg.facility, filter=lg.filter),
        "user": {k: c.resources.user.resources[t] for k, t in kinds.items()},
        "total": {k: c.resources.total.resources[t] for k, t in kinds.items()},
    }


def strict(a, b):
    """equal, and of equal types"""
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and \
            all(strict(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and \
            all(strict(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    return a == b


def short(case):
    t = repr(case["text"])
    return t if len(t) < 600 else t[:300] + "..." + t[-40:]


def run(case):
    data = case["text"].encode("latin-1")
    verdict, want = refconf.interpret(data)
    st = {verdict: 1}
    fd, name = tempfile.mkstemp(prefix="vfconf", dir=SCRATCH)
    try:
        with os.fdopen(fd, "wb") as f:
            f.write(data)
        try:
            got = conf.load(name)
        except conf.Error as e:
            if not str(e).strip():
                return Outcome(("message", "rejected without a message: %s" %
                                short(case)))
            got = None
        except Exception as e:
            return Outcome(("exception", "%s with %s" %
                            (env.describe(e), short(case))), True, st)
    finally:
        os.unlink(name)
    if got is None:
        if verdict == "ok":
            return Outcome(("rejected", "rejected: %s" % short(case)))
        return Outcome(None, verdict == "bad", st)
    if verdict == "bad":
        return Outcome(("accepted", "accepted in spite of %s: %s" %
                        (want, short(case))), True, st)
    try:
        str(got)
    except Exception as e:
        return Outcome(("print", "%s printing the configuration of %s" %
                        (env.describe(e), short(case))), True, st)
    seen = observed(got)
    for k in want:
        if not strict(want[k], seen[k]):
            return Outcome(("differs", "%s is %r, expected %r, with %s" %
                            (k, seen[k], want[k], short(case))), True, st)
    return Outcome(None, verdict == "ok" and want != refconf.defaults(), st)
