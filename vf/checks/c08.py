"""Filter syntax against an independent parser of the documented grammar."""
from .. import env, reffilter
from ..runner import Outcome
from . import c07

RULE = ("filter strings printed from random expressions with arbitrary text, "
        "mutations of such strings, random strings of special characters, "
        "nesting to depth 100000, up to 500 operands, long texts, and arbitrary text for escaping; strings "
        "on which grammar and implementation leave room (an unescaped "
        "exclamation mark, unusual integer forms, nesting beyond 32 levels) "
        "must not fail otherwise than by a parse error; non-trivial: all but "
        "the latter")
COUNTS = {"quick": 150000, "thorough": 6000000}
ISOLATE = False
CPU_LIMIT = 30
filter = env.load().filter

TOK = list("()&|!=<>*\\ab1- ") + [" ", "\n", "(a=b)", "(a=*)", "(k>1)", "\\(", "\\!",
                                  "((", "))", "(&", "(|", "(!", "**", "=*"]
TEXT = list("ab1 ()&|!=<>*\\-.\n\t\"'{}[]") + ["\u00e5", "\U0001f600",
                                                "\x01", "~", "\x7f"]


def text(rng, lo=0, hi=8):
    return "".join(rng.choice(TEXT) for _ in range(rng.randint(lo, hi)))


def expr(rng, d):
    if d == 0 or rng.random() < 0.45:
        k = text(rng, 1, 3)
        t = rng.randrange(5)
        if t == 0:
            return ["pres", k]
        if t == 1:
            return ["gt", k, rng.choice(c07.INTS)]
        if t == 2:
            return ["lt", k, rng.choice(c07.INTS)]
        if t == 3:
            return ["eq", k, text(rng, 1)]
        while True:
            ini = text(rng, 1, 3) if rng.random() < .5 else None
            fin = text(rng, 1, 3) if rng.random() < .5 else None
            mids = [text(rng, 1, 3) for _ in range(rng.choice([0, 1, 2, 4]))]
            if ini or fin or mids:
                return ["sub", k, ini, mids, fin]
    k = rng.randrange(3)
    if k == 0:
        return ["not", expr(rng, d - 1)]
    return [("and", "or")[k - 1],
            [expr(rng, d - 1) for _ in range(rng.choice([2, 2, 3, 4]))]]


def mutate(rng, s):
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        i = rng.randint(0, len(s))
        k = rng.randrange(5)
        if k == 0:
            s = s[:i] + s[i + 1:]
        elif k == 1:
            s = s[:i] + rng.choice(TOK) + s[i:]
        elif k == 2:
            s = s[:i] + rng.choice(TOK) + s[i + 1:]
        elif k == 3:
            j = min(len(s), i + rng.randint(1, 6))
            s = s[:i] + s[i:j] * 2 + s[j:]
        else:
            s = s[:i]
    return s


def gen(rng, tier, i):
    x = rng.random()
    if x < 0.3:
        return {"ast": expr(rng, rng.choice([0, 1, 2, 4]))}
    if x < 0.65:
        return {"str": mutate(rng, reffilter.show(expr(rng, rng.choice(
            [0, 1, 2]))))}
    if x < 0.8:
        return {"str": "".join(rng.choice(TOK)
                               for _ in range(rng.randint(0, 12)))}
    if x < 0.84:
        n = str(rng.choice(c07.INTS + [5, 10]))
        v = rng.choice([" %s", "%s ", "\t%s", "%s\n", "+%s", "-%s", "--%s",
                        "- %s", "%s_0", "_%s", "%s.0", "%s.", "%se3",
                        "0x%s", "0%s", "%s-", "%sL", "%s%%", "\u00a0%s",
                        "%s\u00b2", "\u0663%s", "%s\u2003", "%s 1", "\"%s\"",
                        "%.0s", "%s\\", "%s*"]) % n
        s = "(%s%s%s)" % (rng.choice("kn"), rng.choice("<>"), v)
        if rng.random() < 0.3:
            s = "(&(a=b)%s)" % s
        return {"str": s}
    if x < 0.95:
        return {"escape": text(rng, 1)}
    if x < 0.953:
        # many operands, or long texts
        parts = [expr(rng, rng.choice([0, 0, 1, 1, 2]))
                 for _ in range(rng.randint(1, 6))]
        n = rng.choice([20, 50, 90, 99, 100, 101, 130, 200, 500])
        ast = [rng.choice(["and", "or"]),
               [rng.choice(parts) for _ in range(n)]]
        for _ in range(rng.choice([0, 0, 1, 2])):
            ast = rng.choice([["not", ast], ["or", [ast, parts[0]]],
                              ["and", [parts[0], ast, ast]]])
        return {"ast": ast}
    if x < 0.955:
        n = rng.choice([100, 1000, 10000])
        return {"ast": ["eq", "a" * rng.choice([1, n]),
                        text(rng, n // 2, n)]}
    op = rng.choice(["(!", "(!", "(&(a=b)", "(|(a=*)", "(&"])
    n = rng.choice([2, 5, 10, 20, 29, 31, 60, 99, 101, 200, 1000, 20000,
                    100000])
    tail = ")" * (n + rng.choice([0, 0, 0, -1, 1]))
    return {"deep": [op, n, tail.count(")")]}


def parse(s):
    """('ok', filter), ('bad', None), or an Outcome"""
    try:
        return "ok", filter.parse(s)
    except filter.ParseError:
        return "bad", None
    except Exception as e:
        return "exception", "%s: %s" % (type(e).__name__, str(e)[:100])


def run(case):
    if "escape" in case:
        return run_escape(case["escape"])
    if "deep" in case:
        op, n, close = case["deep"]
        s = op * n + "(a=b)" + ")" * close
    elif "ast" in case:
        s = reffilter.show(case["ast"])
    else:
        s = case["str"]
    if len(s) > 3000 and "deep" in case:
        verdict, ast = "gray", None
    else:
        verdict, ast = reffilter.parse(s)
    got, f = parse(s)
    if got == "exception":
        return Outcome(("exception", "parsing %r: %s" % (s[:300], f)))
    if verdict != "gray" and got != verdict:
        return Outcome(("verdict", "%r is %s, but was %s" %
                        (s, verdict, {"ok": "accepted", "bad": "rejected"}
                         [got])))
    if got == "ok":
        try:
            p1 = str(f)
            f.match({"a": {"b"}})
        except Exception as e:
            return Outcome(("exception", "using %r: %s: %s" %
                            (s[:300], type(e).__name__, e)))
        if len(p1) < 3000 or "ast" in case:
            v1, ast1 = reffilter.parse(p1)
            if v1 == "bad" or (ast is not None and v1 != "gray" and
                               reffilter.norm(ast1) != reffilter.norm(ast)):
                return Outcome(("print", "%r is printed as %r" % (s, p1)))
        g2, f2 = parse(p1)
        if g2 != "ok":
            return Outcome(("reparse", "%r is printed as %r, which is not "
                            "accepted" % (s[:300], p1[:300])))
        if str(f2) != p1:
            return Outcome(("stable", "%r is printed as %r, and that as %r" %
                            (s[:300], p1[:300], str(f2)[:300])))
    return Outcome(None, verdict != "gray", {"%s (%s)" % (verdict, got): 1})


def run_escape(t):
    try:
        e = filter.escape(t)
    except Exception as ex:
        return Outcome(("escape", "escaping %r: %r" % (t, ex)))
    for s, props, want in (
            ("(k=%s)" % e, {"k": {t}}, True),
            ("(k=%s)" % e, {"k": {t + "x"}}, False),
            ("(k=%s)" % e, {"k": {"x" + t}}, False),
            ("(%s=*)" % e, {t: {1}}, True),
            ("(%s=*)" % e, {t + "x": {1}}, False),
            ("(k=%s*)" % e, {"k": {t + "x"}}, True),
            ("(k=*%s*)" % e, {"k": {"x" + t + "y"}}, True)):
        got, f = parse(s)
        if got != "ok":
            return Outcome(("escape", "%r, with %r escaped, is not accepted" %
                            (s, t)))
        try:
            m = bool(f.match(props))
        except Exception as ex:
            return Outcome(("escape", "%r against %r: %r" % (s, props, ex)))
        if m != want:
            return Outcome(("escape", "%r, with %r escaped, matching %r is %s"
                            % (s, t, props, m)))
    return Outcome(None, True, {"escape": 1})
