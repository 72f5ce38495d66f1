"""Filter evaluation against an independent evaluator."""
from .. import env, reffilter
from ..runner import Outcome

RULE = ("random filters (all operators, nesting to depth 5, substrings with "
        "up to 12 middle parts) and property multimaps over small alphabets "
        "which make matches likely, incl. newlines, regular expression "
        "characters, non-ASCII text, integers and their decimal strings, "
        "long repetitive values, and many operands or values of which few "
        "decide; non-trivial: the filter refers to a key "
        "present in the properties")
COUNTS = {"quick": 150000, "thorough": 6000000}
ISOLATE = False
CPU_LIMIT = 30
filter = env.load().filter

KEYS = ["a", "b", "name", "k", "K", "a b", "\u00e5", "(", "!x", "="]
ALPHA = ["a", "b", "ab", "aa", "\n", ".", "*", "+", "$", "^", "[", "\\",
         "(", ")", "\u00e5", " ", "!", "|", "1", "4", "-", "\r", "\u2028"]
INTS = [0, 1, -1, 2, 5, 41, 42, 43, -42, 10**18, -10**18, 2**63 - 1, 10**30]


def text(rng, lo=0, hi=6):
    return "".join(rng.choice(ALPHA[:5] if rng.random() < .7 else ALPHA)
                   for _ in range(rng.randint(lo, hi)))


def part(rng):
    return text(rng, 1, 2)


def leaf(rng, keys):
    k = rng.choice(keys)
    t = rng.randrange(7)
    if t == 0:
        return ["pres", k]
    if t == 1:
        return ["gt", k, rng.choice(INTS)]
    if t == 2:
        return ["lt", k, rng.choice(INTS)]
    if t == 3:
        v = rng.choice([str(rng.choice(INTS)), text(rng, 1), part(rng)])
        if rng.random() < 0.15:
            # other ways of writing an integer: no integer is equal to these
            n = rng.choice(INTS)
            v = rng.choice(["0%d", "00%d", "+%d", " %d", "%d ", "%d.0",
                            "%d.", "%de0", "0x%d", "-%d", "%d\n"]) % n
        return ["eq", k, v]
    numeric = rng.random() < 0.25
    while True:
        p = (lambda g: g.choice("0124-")) if numeric else part
        ini = p(rng) if rng.random() < .5 else None
        fin = p(rng) if rng.random() < .5 else None
        mids = [p(rng) for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 12]))]
        if ini or fin or mids:
            return ["sub", k, ini, mids, fin]


def tree(rng, keys, d):
    if d == 0 or rng.random() < 0.5:
        return leaf(rng, keys)
    k = rng.randrange(3)
    if k == 0:
        return ["not", tree(rng, keys, d - 1)]
    return [("and", "or")[k - 1], [tree(rng, keys, d - 1)
                                   for _ in range(rng.choice([2, 2, 3, 5]))]]


def derived(rng, f, props):
    """a property value near to what the filter asks for"""
    if f[0] in ("and", "or"):
        for x in f[1]:
            derived(rng, x, props)
    elif f[0] == "not":
        derived(rng, f[1], props)
    elif rng.random() < 0.6:
        vs = props.setdefault(f[1], [])
        if f[0] == "eq":
            v = f[2]
            try:
                if rng.random() < 0.5:
                    v = int(float(v)) if v.endswith(("0", ".")) and \
                        "." in v else int(v)
            except (ValueError, OverflowError):
                pass
            vs.append(v if rng.random() < .8 else str(v) + part(rng))
        elif f[0] in ("gt", "lt"):
            n = f[2] + rng.choice([-1, 0, 1, 1, -1, 100, -100])
            vs.append(n if rng.random() < .8 else str(n))
        elif f[0] == "sub":
            ps = [f[2] or ""] + list(f[3]) + [f[4] or ""]
            x = rng.random()
            if x < 0.1 and len(ps) > 3:
                i = rng.randrange(1, len(ps) - 2)
                ps[i], ps[i + 1] = ps[i + 1], ps[i]
            elif x < 0.2:
                del ps[rng.randrange(len(ps))]
            glue = rng.choice(["", "", "x", "\n", "ab"])
            v = glue.join(ps)
            if rng.random() < 0.1:
                v = v[:-1]
            if rng.random() < 0.05:
                v = v + "y"
            if rng.random() < 0.5:
                # substrings are a matter of strings only
                try:
                    v = int(v)
                except ValueError:
                    pass
            vs.append(v)


def wide(rng, keys):
    """many operands or values, at most a few of which decide"""
    n = rng.choice([8, 12, 17, 33, 70])
    want = rng.random() < 0.5
    fs = []
    props = {k: [] for k in keys}
    for j in range(n):
        k = rng.choice(keys)
        v = str(j) if rng.random() < 0.5 else text(rng, 1) + "#"
        f = rng.choice([["eq", k, v], ["eq", k, v], ["sub", k, v, [], None],
                        ["sub", k, None, [v], None], ["eq", "no", v]])
        decides = rng.random() < 0.5 / n
        if decides == want and f[1] != "no":
            props[k].append(int(v) if v == str(j) and f[0] == "eq" and
                            rng.random() < 0.5 else v)
        elif f[1] == "no" and not want:
            f = ["not", f]
        fs.append(f)
    for k in keys:
        rng.shuffle(props[k])
    return {"filter": ["or" if want else "and", fs], "props": props}


def gen(rng, tier, i):
    keys = rng.sample(KEYS, rng.choice([1, 2, 3]))
    if i % 400 == 7:
        # evaluation cost
        n = rng.choice([50, 300])
        return {"filter": ["sub", "a", "a", ["a"] * rng.randint(5, 40), "b"],
                "props": {"a": ["a" * n + rng.choice(["", "c", "ab"])]}}
    if i % 50 == 9:
        return wide(rng, keys)
    f = tree(rng, keys, rng.choice([0, 1, 2, 3, 5]))
    props = {}
    derived(rng, f, props)
    for k in keys:
        if rng.random() < 0.3:
            props.setdefault(k, []).append(
                rng.choice([text(rng), rng.choice(INTS),
                            str(rng.choice(INTS))]))
    return {"filter": f, "props": props}


def keys_of(f):
    if f[0] in ("and", "or"):
        return set().union(*(keys_of(x) for x in f[1]))
    if f[0] == "not":
        return keys_of(f[1])
    return {f[1]}


def run(case):
    f, raw = case["filter"], case["props"]
    props = {k: set(v) for k, v in raw.items() if v}
    s = reffilter.show(f)
    if reffilter.norm(reffilter.parse(s)[1]) != reffilter.norm(f):
        # no such expression (only shrinking produces these)
        return Outcome(None, False, {"not an expression": 1})
    want = reffilter.match(f, props)
    st = {"match" if want else "no match": 1}
    nontrivial = bool(keys_of(f) & set(props))
    try:
        parsed = filter.parse(s)
    except filter.ParseError:
        # a matter of parsing (C08)
        return Outcome(None, False, {"not accepted": 1})
    try:
        got = parsed.match(props)
    except Exception as e:
        return Outcome(("exception", "%s matching %r against %r: %s" %
                        (type(e).__name__, s, props, e)))
    if bool(got) != want:
        return Outcome(("result", "%r matches %r: %s, expected %s" %
                        (s, props, got, want)))
    return Outcome(None, nontrivial, st)
