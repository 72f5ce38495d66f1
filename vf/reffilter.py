"""Reference filter language, written from the grammar in PROTOCOLv3.md.

AST: ('eq',k,v) ('gt',k,n) ('lt',k,n) ('pres',k) ('sub',k,ini,[mid],fin)
     ('not',f) ('and',[f..]) ('or',[f..])
"""

SPECIAL = set("!&*()<=>\\|")
# the characters of SPECIAL that must be escaped; an unescaped '!' inside of
# a string is outside the grammar, but tolerated by the implementation
MAX_DEPTH = 32


class Bad(Exception):
    pass


class Gray(Exception):
    """The string is in a zone where both verdicts are tolerated."""


class P:
    def __init__(self, s):
        self.s = s
        self.i = 0
        self.gray = False
        self.depth = 0

    def peek(self):
        if self.i >= len(self.s):
            raise Bad("end")
        return self.s[self.i]

    def eat(self, c):
        if self.peek() != c:
            raise Bad("expected " + c)
        self.i += 1

    def string(self):
        out = []
        while True:
            c = self.peek()
            if c == "\\":
                self.i += 1
                c = self.peek()
                if c not in SPECIAL:
                    raise Bad("escape")
                out.append(c)
                self.i += 1
            elif c == "\0":
                raise Bad("NUL")
            elif c == "!":
                self.gray = True
                out.append(c)
                self.i += 1
            elif c in SPECIAL:
                return "".join(out)
            else:
                out.append(c)
                self.i += 1

    def integer(self):
        v = self.string()
        t = v[1:] if v.startswith("-") else v
        if t and all(ch in "0123456789" for ch in t):
            if len(t) > 1 and t[0] == "0":
                raise Bad("leading zero")
            if len(t) > 4000:
                self.gray = True
                return 0
            return int(v)
        # this includes forms which Python's int() takes, but the grammar
        # does not: a plus sign, underscores, other digits than the ASCII ones
        raise Bad("integer")

    def filter(self):
        self.eat("(")
        f = self.comp()
        self.eat(")")
        return f

    def comp(self):
        self.depth += 1
        if self.depth > MAX_DEPTH:
            self.gray = True
            if self.depth > 150:
                raise Gray()
        try:
            c = self.peek()
            if c in "&|":
                self.i += 1
                ops = []
                while self.peek() == "(":
                    ops.append(self.filter())
                if self.peek() != ")" or len(ops) < 2:
                    raise Bad("operands")
                return ("and" if c == "&" else "or", ops)
            if c == "!":
                self.i += 1
                return ("not", self.filter())
            return self.item()
        finally:
            self.depth -= 1

    def item(self):
        k = self.string()
        if k == "":
            raise Bad("key")
        c = self.peek()
        if c == "=":
            self.i += 1
            parts = [self.string()]
            while self.peek() == "*":
                self.i += 1
                parts.append(self.string())
            if self.peek() != ")":
                raise Bad("junk in value")
            if len(parts) == 1:
                if parts[0] == "":
                    raise Bad("empty value")
                return ("eq", k, parts[0])
            ini, mids, fin = parts[0] or None, parts[1:-1], parts[-1] or None
            if any(m == "" for m in mids):
                raise Bad("empty substring")
            if ini is None and fin is None and not mids:
                return ("pres", k)
            return ("sub", k, ini, mids, fin)
        if c in "<>":
            self.i += 1
            n = self.integer()
            if self.peek() != ")":
                raise Bad("junk")
            return ("gt" if c == ">" else "lt", k, n)
        raise Bad("operator")


def parse(s):
    """Returns (verdict, ast): verdict 'ok', 'bad' or 'gray'."""
    p = P(s)
    try:
        f = p.filter()
        if p.i != len(s):
            raise Bad("trailing")
        if p.gray:
            return "gray", f
        return "ok", f
    except Gray:
        return "gray", None
    except Bad:
        return ("gray" if p.gray else "bad"), None


def esc(s):
    return "".join("\\" + c if c in SPECIAL else c for c in s)


def show(f):
    t = f[0]
    if t == "eq":
        return "(%s=%s)" % (esc(f[1]), esc(f[2]))
    if t == "gt":
        return "(%s>%d)" % (esc(f[1]), f[2])
    if t == "lt":
        return "(%s<%d)" % (esc(f[1]), f[2])
    if t == "pres":
        return "(%s=*)" % esc(f[1])
    if t == "sub":
        return "(%s=%s)" % (esc(f[1]), "*".join(
            esc(x) for x in [f[2] or ""] + list(f[3]) + [f[4] or ""]))
    if t == "not":
        return "(!%s)" % show(f[1])
    return "(%s%s)" % ("&" if t == "and" else "|", "".join(map(show, f[1])))


def is_int(v):
    return isinstance(v, int) and not isinstance(v, bool)


def sub_match(v, ini, mids, fin):
    """Naive but exact: dynamic programming over split points."""
    if ini is not None:
        if not v.startswith(ini):
            return False
        v = v[len(ini):]
    if fin is not None:
        if not v.endswith(fin):
            return False
        v = v[:len(v) - len(fin)]
    # positions reachable after having placed the first n middle parts
    reach = {0}
    for m in mids:
        nxt = set()
        lo = min(reach)
        for i in range(lo, len(v) - len(m) + 1):
            if v[i:i + len(m)] == m:
                nxt.add(i + len(m))
        if not nxt:
            return False
        reach = nxt
    return True


def match(f, props):
    """props: dict key -> iterable of values (non-empty)."""
    t = f[0]
    if t == "and":
        return all(match(x, props) for x in f[1])
    if t == "or":
        return any(match(x, props) for x in f[1])
    if t == "not":
        return not match(f[1], props)
    vals = props.get(f[1])
    if not vals:
        return False
    if t == "pres":
        return True
    if t == "eq":
        return any((v if isinstance(v, str) else str(v)) == f[2]
                   for v in vals)
    if t == "gt":
        return any(is_int(v) and v > f[2] for v in vals)
    if t == "lt":
        return any(is_int(v) and v < f[2] for v in vals)
    if t == "sub":
        return any(isinstance(v, str) and sub_match(v, f[2], f[3], f[4])
                   for v in vals)
    raise AssertionError(t)


def depth(f):
    if f[0] == "not":
        return 1 + depth(f[1])
    if f[0] in ("and", "or"):
        return 1 + max(depth(x) for x in f[1])
    return 1


# --- generation -----------------------------------------------------------

KEYS = ["name", "k", "a", "n"]
VALS = ["v", "x", "ab", "aab", "foo", "1", "42", "-7"]


def gen(rng, keys=KEYS, vals=VALS, ints=(-7, 0, 1, 5, 42), d=3, rawstr=None):
    r = rng.random()
    if d > 0 and r < 0.45:
        k = rng.randrange(3)
        if k == 0:
            return ("not", gen(rng, keys, vals, ints, d - 1, rawstr))
        return (("and", "or")[k - 1],
                [gen(rng, keys, vals, ints, d - 1, rawstr)
                 for _ in range(rng.choice([2, 2, 2, 3, 4]))])

    def s(pool):
        if rawstr is not None and rng.random() < 0.4:
            return rawstr(rng)
        return rng.choice(pool)
    key = s(keys)
    t = rng.randrange(6)
    if t == 0:
        return ("pres", key)
    if t == 1:
        return ("gt", key, rng.choice(ints) + rng.choice([0, 0, 1, -1]))
    if t == 2:
        return ("lt", key, rng.choice(ints) + rng.choice([0, 0, 1, -1]))
    if t == 3:
        def part():
            v = s(vals)
            i = rng.randrange(len(v))
            return v[i:i + rng.randint(1, 2)]
        while True:
            ini = part() if rng.random() < .5 else None
            fin = part() if rng.random() < .5 else None
            mids = [part() for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))]
            if ini or fin or mids:
                return ("sub", key, ini, mids, fin)
    return ("eq", key, s(vals))


def norm(f):
    """Lists to tuples, for comparison of ASTs that went through JSON."""
    if isinstance(f, (list, tuple)):
        return tuple(norm(x) for x in f)
    return f
