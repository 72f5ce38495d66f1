"""Sessions with the real command line client, fed with command lines and
connected to a scripted server."""
import json
import os
import random
import re
import select
import shlex
import shutil
import signal
import socket
import sys
import tempfile
import time
import traceback

from .. import env, refproto, simxcm
from ..runner import Outcome

RULE = ("sessions of up to 30 command lines (valid ones in all quoting "
        "styles, with typed property values; wrong numbers of arguments, "
        "empty, non-numeric, negative and excessive ones, unbalanced quotes, "
        "unknown commands, random edits), over both protocol versions, with "
        "successes and failures with and without reason reported by the "
        "server; property values and reasons which can't be printed as they "
        "are; input which is not UTF-8; and program arguments of all kinds; "
        "lines with numbers in a "
        "format other than documented may either be rejected or performed; "
        "non-trivial: at least three operations or rejections")
COUNTS = {"quick": 5000, "thorough": 120000}
ISOLATE = False
CPU_LIMIT = 120
BUDGET = {"quick": 200}
paf = env.load()
INT_MAX = 2**63 - 1
PAFC = os.path.join(env.REPO, "app", "pafc")
MARK = 0x7a00000000
CMDS = ["id", "ping", "hello", "version", "track", "services", "clients",
        "publish", "unpublish", "subscribe", "unsubscribe", "subscriptions",
        "quit", "help", "EOF"]
REASONS = ["no-hello", "old-generation", "permission-denied", "x y z",
           "non-existent-service-id", "100% \u00e5", "\ud800"]
HEX = ["0", "1", "ff", "DeadBeef", "7fffffffffffffff", "00042", "12345678"]
BADHEX = ["-1", "x", "", "g1", "8000000000000000", "1.5", "ffffffffffffffffff",
          "0x10", "1_0", "+5", "'", "-7fffffffffffffff", "1 2"]
DEC = ["0", "1", "42", "60", "9223372036854775807", "007"]
BADDEC = ["-1", "x", "", "1e3", "9223372036854775808", "1.5", "0x10", "1_0",
          "+5", "99999999999999999999999", "ff"]
KEYS = ["name", "k", "a b", "\u00e5", "", "|", "x'y", "(", "4711", "k\\"]
VALS = ["service-a", "1", "-1", "42", "|4711|", "|x|", "||", "|", "|x", "",
        "https://1.2.3.4:5555", "a b", "\u00e5\u4e16", "1.5", "0x10", "it's",
        "\"q\"", "9223372036854775807", "-9223372036854775808", "| 5 |", "-",
        "007", "#x", "\\", "|||", "1a"]
FILTERS = ["(name=service-a)", "(&(a=b)(x>3))", "(name=*)", "(a=b c)", "((",
           "", "(a=\\*)", "x", "(name='q')", "(!(a=\"b\"))"]


# -- generation -------------------------------------------------------------

def quote(r, s):
    x = r.random()
    if s and x < .5 and not re.search(r"[\s'\"\\#]", s):
        return s
    if x < .7:
        return shlex.quote(s)
    if x < .9:
        return '"' + re.sub(r'(["\\])', r'\\\1', s) + '"'
    if not s:
        return "''"
    return "".join(c if c.isalnum() and c.isascii() else "\\" + c for c in s)


def gline(r):
    x = r.random()
    sep = r.choice([" "] * 5 + ["  ", "\t"])
    if x < .35:
        args = []
        if r.random() < .5:
            args.append(r.choice(HEX if r.random() < .85 else BADHEX))
        for _ in range(2):
            args.append(r.choice(DEC if r.random() < .93 else BADDEC))
        for _ in range(r.choice([0, 1, 1, 2, 4])):
            args += [r.choice(KEYS), r.choice(VALS)]
        if r.random() < .08:
            del args[r.randrange(len(args))]
        if r.random() < .04:
            args = args[:r.randint(0, 2)]
        line = sep.join(["publish"] + [quote(r, a) for a in args])
    elif x < .5:
        line = r.choice(["unpublish", "unsubscribe"]) + sep + \
            r.choice(HEX if r.random() < .7 else BADHEX)
    elif x < .67:
        n = r.choice([0, 1, 1, 1, 1, 2])
        line = sep.join([r.choice(["subscribe", "services"])] + [
            quote(r, r.choice(FILTERS)) for _ in range(n)])
    elif x < .77:
        line = sep.join(["track"] + r.choice(
            [[], [], ["query"], ["query"], ["verbose"], ["quiet"], ["x"],
             ["''"], ["query", "query"], ["'"]]))
    elif x < .93:
        line = r.choice(["id", "ping", "hello", "version", "clients",
                         "subscriptions", "clients", "subscriptions", "help",
                         "help publish", "? ping"])
        if r.random() < .05:
            line += " x"
    else:
        line = r.choice(["", " ", "foo", "?", "!ls", "Ping", "ping!", "'", "#",
                         "help foo", "do_ping", "publish", "unpublish",
                         "unsubscribe", "=", "cmdloop", "\u00e5", "(x)",
                         "quit now", "EOF", "quit"])
    if r.random() < .1 and line:
        p = r.randrange(len(line))
        y = r.random()
        if y < .4:
            line = line[:p] + r.choice("'\"\\ |-#x()0") + line[p:]
        elif y < .7:
            line = line[:p] + line[p + 1:]
        else:
            line = line[:p] + line[p:p + 1] * 2 + line[p + 1:]
    if r.random() < .02 and not re.match("\\s*(quit|EOF)", line):
        # bytes which aren't UTF-8
        p = r.randrange(len(line) + 1)
        line = line[:p] + r.choice(["\udcff", "\udcc3", "\udce4\udcb8"]) + \
            line[p:]
    return line


def gargv(r):
    """options, and whether the target is a domain"""
    out = []
    if r.random() < .4:
        out += ["-i", r.choice(["0", "ff", "7fffffffffffffff", "1234abcd"])]
    if r.random() < .3:
        out += ["-p", r.choice(["2", "3"])]
    if r.random() < .4:
        out += r.choice([["-n", "0"], ["-n", "1"], ["-n", "2"], ["-n", "9"],
                         ["-n", "-1"], ["-p", "4"], ["-p", "1"], ["-p", "x"],
                         ["-n", "x"], ["-i", "xyz"], ["-i", ""], ["-x"],
                         ["-h"], ["-i"], ["-p", ""], ["-n", "-3"]])
    n = r.choice([1] * 8 + [0, 2])
    out += [r.choice(["dom", "ux:direct"]) for _ in range(n)]
    return out


def gen(rng, tier, i):
    r = rng
    c = {"version": r.choice([2, 3, 3]), "tty": r.random() < .85, "argv": ["ux:direct"],
         "plan": [], "lines": [], "hold": r.choice([0, 0, 1, 2, 5]),
         "addrs": ["ux:%s" % x for x in "abc"[:r.randint(1, 3)]]}
    if r.random() < .2:
        c["argv"] = gargv(r)
        n = r.randint(0, 3)
    else:
        n = r.randint(1, 30)
    if r.random() < .02:
        c["refuse"] = True
    fails = r.choice([0, .2, .2, .6])
    for _ in range(n):
        c["lines"].append(gline(r))
    if n > 3 and r.random() < .15:
        c["lines"].insert(r.randrange(2), "track")
        for _ in range(r.randint(1, 4)):
            c["lines"].insert(r.randrange(2, len(c["lines"])), "track query")
    for _ in range(r.randint(1, 7)):
        c["plan"].append([None if r.random() >= fails else
                          r.choice(REASONS + [""]), r.randrange(2**32)])
    return c


# -- reference --------------------------------------------------------------

def number(tok, base):
    """value, None if malformed, or "gray" """
    if re.fullmatch("[0-9]+" if base == 10 else "[0-9a-fA-F]+", tok):
        v = int(tok, base)
        return v if v <= INT_MAX else None
    try:
        v = int(tok, base)
    except ValueError:
        return None
    return "gray" if 0 <= v <= INT_MAX else None


def value(tok):
    if len(tok) >= 2 and tok[0] == "|" and tok[-1] == "|":
        return tok[1:-1]
    if re.fullmatch("-?[0-9]+", tok):
        v = int(tok)
        return v if -2**63 <= v < 2**63 else "gray"
    try:
        int(tok)
        return ["gray"]
    except ValueError:
        pass
    return tok


class Line:
    """kind: "op" (request), "local", "bad" (message but no request), "gray",
    "nothing", "quit", or "track"..."""

    def __init__(self, kind, request=None, note=""):
        self.kind, self.request, self.note = kind, request, note


def encodable(s):
    return not re.search("[\ud800-\udfff]", s)


def interpret(text):
    s = text.strip()
    if not s:
        return Line("nothing")
    if not encodable(s):
        return Line("bad")
    if s[0] in "?!":
        return Line("bad")
    m = re.match("[A-Za-z0-9_]*", s)
    name, arg = m.group(0), s[m.end():].strip()
    if name not in CMDS:
        return Line("bad")
    if name in ("quit", "EOF"):
        return Line("quit")
    if name == "help":
        return Line("bad")
    if name in ("id", "version"):
        return Line("local", note=name)
    if name in ("ping", "hello", "clients", "subscriptions"):
        return Line("op" if not arg else "gray", (name, {}))
    if name in ("unpublish", "unsubscribe"):
        v = number(arg, 16)
        if v is None:
            return Line("bad")
        f = "service-id" if name == "unpublish" else "subscription-id"
        if v == "gray":
            return Line("gray", (name, {f: int(arg, 16)}))
        return Line("op", (name, {f: v}))
    try:
        args = shlex.split(arg)
    except ValueError:
        return Line("bad")
    if name in ("services", "subscribe"):
        if len(args) > 1:
            return Line("bad")
        f = {"filter": args[0]} if args else {}
        if name == "subscribe":
            f["subscription-id"] = any
        return Line("op", (name, f))
    if name == "track":
        if not args:
            return Line("track")
        if args in (["query"], ["verbose"], ["quiet"]):
            return Line("track-" + args[0])
        return Line("bad")
    # publish
    gray = False
    fields = {}
    rest = list(args)
    if len(args) % 2:
        v = number(rest[0], 16)
        if v is None:
            return Line("bad")
        if v == "gray":
            gray, v = True, int(rest[0], 16)
        fields["service-id"] = v
        rest.pop(0)
    else:
        fields["service-id"] = any
    if len(rest) < 2:
        return Line("bad")
    for f in ("generation", "ttl"):
        v = number(rest.pop(0), 10)
        if v is None:
            return Line("bad")
        if v == "gray":
            gray, v = True, all
        fields[f] = v
    pr = {}
    for k, v in zip(rest[::2], rest[1::2]):
        v = value(v)
        if v == "gray" or v == ["gray"]:
            gray = True
            v = 0
        pr.setdefault(k, []).append(v)
    fields["service-props"] = refproto.canon_props(pr)
    if gray:
        fields["service-props"] = all
    return Line("gray" if gray else "op", ("publish", fields))


def matches(req, want):
    """whether a request is as expected"""
    name, fields = want
    m = {k: v for k, v in req.items() if k not in ("ta-id", "msg-type")}
    if m.pop("ta-cmd") != name or req["msg-type"] != "request":
        return False
    if name == "hello":
        return True
    if set(m) != set(fields):
        return False
    for k, v in m.items():
        w = fields[k]
        if w is all:
            continue
        if w is any:
            if type(v) is not int or not 0 <= v <= INT_MAX:
                return False
        elif k == "service-props":
            if refproto.canon_props(v) != w:
                return False
        elif v != w or type(v) is not type(w):
            return False
    return True


# -- the scripted server ----------------------------------------------------

def shown_number(v):
    return str(v)


class Server:
    def __init__(self, case, sock):
        self.case = case
        self.sock = sock
        self.requests = []      # (request, expected output)
        self.hello = None
        self.informs = []
        self.held = []          # track queries not answered yet
        self.queries = 0
        self.notes = []         # texts expected to be printed any time
        self.track_ta = None
        self.addr = None

    def send(self, ta, cmd, mtype, **fields):
        self.sock.send(refproto.wire(cmd, ta, mtype, **fields))

    def handle(self, data):
        if data[:1] == b"A":
            self.addr = data[1:].decode()
            return
        m = json.loads(data.decode())
        cmd, ta = m["ta-cmd"], m["ta-id"]
        if m["msg-type"] == "inform":
            self.informs.append(m)
            if m.get("track-type") == "query":
                self.held.append((ta, cmd))
            self.release(self.case.get("hold", 0))
            return
        if self.hello is None:
            self.hello = m
            v = min(self.case["version"], m["protocol-maximum-version"])
            v = max(v, m["protocol-minimum-version"])
            self.version = v
            self.send(ta, "hello", "complete", protocol_version=v)
            return
        plan = self.case["plan"]
        if cmd == "ping":
            self.release(0)
        reason, seed = plan[len(self.requests) % len(plan)] if plan \
            else (None, 0)
        if cmd == "unsubscribe" and m.get("subscription-id", 0) >= MARK:
            reason = None
        r = random.Random(seed)
        out = {"ok": reason is None, "reason": reason, "rows": []}
        self.requests.append((m, out))
        if reason is not None:
            self.send(ta, cmd, "fail", fail_reason=reason or None)
            return
        getattr(self, "do_" + cmd, self.simple)(r, m, ta, cmd, out)

    def release(self, n):
        """answer track queries, should there be more than n"""
        if len(self.held) > n:
            for ta, cmd in self.held:
                self.send(ta, cmd, "notify", track_type="reply")
            self.held = []

    def simple(self, r, m, ta, cmd, out):
        self.send(ta, cmd, "complete")

    def do_hello(self, r, m, ta, cmd, out):
        out["rows"].append([str(self.version)])
        self.send(ta, cmd, "complete", protocol_version=self.version)

    def props(self, r):
        return {k: v if isinstance(v, list) else [v] for k, v in
                r.sample([("name", "svc"), ("port", 4711), ("x", -5),
                          ("\u00e5", "\u4e16"), ("k", "v"), ("d", "4711"),
                          ("n", "-12"), ("many", ["a", "b", 17]),
                          ("both", ["33", 34]), ("b", "1.5"), ("e", ""),
                          ("big", 2**63 - 1), ("half", "\ud83d"),
                          ("\udcff", "x")], r.randint(0, 3))}

    def service(self, r):
        f = {"service_id": r.choice([0, 1, 0xabc, INT_MAX, r.getrandbits(60)]),
             "generation": r.choice([0, 1, 7, 12345]),
             "service_props": self.props(r),
             "ttl": r.choice([0, 60, 3600, 99999]),
             "client_id": r.choice([0, 0xdead, r.getrandbits(60)])}
        row = ["%x" % f["service_id"], str(f["generation"]), str(f["ttl"]),
               "%x" % f["client_id"]]
        if r.random() < .3:
            since = r.choice([0.5, 10, 1.25])
            f["orphan_since"] = env.START_TIME - since
            row.append("%.1f" % (f["ttl"] - since))
        for k, vs in f["service_props"].items():
            # the manual page shows strings in quotes
            row += [x for x in [k] + ["'%s'" % v if isinstance(v, str) else
                                      (v,) for v in vs]
                    if isinstance(x, tuple) or encodable(x)]
        return f, row

    def do_services(self, r, m, ta, cmd, out):
        self.send(ta, cmd, "accept")
        for _ in range(r.choice([0, 1, 2, 5])):
            f, row = self.service(r)
            out["rows"].append(row)
            self.send(ta, cmd, "notify", **f)
        self.send(ta, cmd, "complete")

    def do_clients(self, r, m, ta, cmd, out):
        self.send(ta, cmd, "accept")
        for _ in range(r.choice([0, 1, 2, 5])):
            up = r.choice([0, 5, 3599, 90061])
            f = {"client_id": r.choice([0, 1, 0xdead, r.getrandbits(60)]),
                 "client_address": r.choice(["ux:", "tcp:10.0.0.1:33",
                                             "tls:[::1]:4711"]),
                 "time": int(env.START_TIME) - up}
            import datetime
            row = ["%x" % f["client_id"], f["client_address"],
                   str(datetime.timedelta(seconds=up))]
            if self.version == 3:
                f["idle"] = r.choice([0, 0.25, 17.5])
                f["protocol_version"] = r.choice([2, 3])
                row += ["%.3f" % f["idle"], str(f["protocol_version"])]
                if r.random() < .5:
                    f["latency"] = r.choice([0.001, 0.0125, 2])
                    row.append("%.1f" % (f["latency"] * 1e3))
            out["rows"].append(row)
            self.send(ta, cmd, "notify", **f)
        self.send(ta, cmd, "complete")

    def do_subscriptions(self, r, m, ta, cmd, out):
        self.send(ta, cmd, "accept")
        for _ in range(r.choice([0, 1, 2, 5])):
            f = {"subscription_id": r.choice([0, 0xabc, INT_MAX]),
                 "client_id": r.choice([0, 1, 0xdead])}
            row = ["%x" % f["subscription_id"], "%x" % f["client_id"]]
            if r.random() < .5:
                f["filter"] = r.choice(["(a=b)", "(&(name=x)(k>3))"])
                row.append(f["filter"])
            out["rows"].append(row)
            self.send(ta, cmd, "notify", **f)
        self.send(ta, cmd, "complete")

    def do_subscribe(self, r, m, ta, cmd, out):
        self.send(ta, cmd, "accept")
        sub = "%x" % m["subscription-id"]
        out["rows"].append([sub])
        for _ in range(r.choice([0, 0, 1, 3])):
            f, row = self.service(r)
            mt = f["match_type"] = r.choice(["appeared", "modified",
                                             "disappeared"])
            if mt == "disappeared":
                f = {"match_type": mt, "service_id": f["service_id"]}
                row = row[:1]
            self.notes.append([sub, mt] + row)
            self.send(ta, cmd, "notify", **f)
        if r.random() < .1:
            self.send(ta, cmd, "complete")

    def do_track(self, r, m, ta, cmd, out):
        self.send(ta, cmd, "accept")
        for _ in range(r.choice([0, 0, 1, 2])):
            self.queries += 1
            self.send(ta, cmd, "notify", track_type="query")


# -- the session ------------------------------------------------------------

class RealSock:
    """A connection to the scripted server."""

    def __init__(self, sock):
        self.sock = sock

    def fileno(self):
        return self.sock.fileno()

    def set_target(self, condition):
        pass

    def send(self, msg):
        self.sock.send(msg)
        return 0

    def receive(self):
        return self.sock.recv(70000)

    def finish(self):
        pass

    def close(self):
        self.sock.close()


_code = {}


def code():
    if not _code:
        with open(PAFC) as f:
            _code["x"] = compile(f.read(), PAFC, "exec")
    return _code["x"]


def child(case, sock, infile, out, err, domains):
    for s in (signal.SIGTERM, signal.SIGVTALRM, signal.SIGINT,
              signal.SIGALRM):
        signal.signal(s, signal.SIG_DFL)
    signal.alarm(100)
    os.dup2(infile, 0)
    os.dup2(out, 1)
    os.dup2(err, 2)
    sys.stdin = open(0, encoding="utf-8", closefd=False)
    sys.stdout = open(1, "w", encoding="utf-8", closefd=False,
                      buffering=1 if case.get("tty", True) else -1)
    sys.stderr = open(2, "w", encoding="utf-8", closefd=False, buffering=1)
    sys.argv = ["pafc"] + case["argv"]
    simxcm.SELECT_IMPL["poll"] = None
    sys.modules["time"] = env.FAKE_TIME
    os.environ["PAF_DOMAINS"] = domains
    random.seed()

    def connect(addr, flags=0, attrs={}):
        if case.get("refuse"):
            raise simxcm.oserr(111)
        sock.send(b"A" + addr.encode())
        sock.setblocking(False)
        return RealSock(sock)
    sys.modules["paf.xcm"].connect = connect
    status = 77
    try:
        exec(code(), {"__name__": "__main__", "__file__": PAFC})
        status = 0
    except SystemExit as e:
        status = e.code if isinstance(e.code, int) else \
            0 if e.code is None else 1
    except BaseException:
        traceback.print_exc()
    sys.stdout.flush()
    os._exit(status)


def session(case):
    base = tempfile.mkdtemp(prefix="vfcli")
    try:
        with open(os.path.join(base, "dom"), "w") as f:
            f.write("\n".join(case["addrs"]) + "\n")
        lines = []
        for i, line in enumerate(case["lines"]):
            lines += [line, "unsubscribe %x" % (MARK + i), "mark%d" % i]
        lines += ["ping", "quit"]
        inp = tempfile.TemporaryFile(dir=base)
        inp.write(("\n".join(lines) + "\n").encode("utf-8",
                                                   "surrogateescape"))
        inp.flush()
        inp.seek(0)
        a, b = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        orfd, owfd = os.pipe()
        errf = tempfile.TemporaryFile(dir=base)
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                a.close()
                child(case, b, inp.fileno(), owfd, errf.fileno(), base)
            finally:
                os._exit(78)
        b.close()
        os.close(owfd)
        inp.close()
        srv = Server(case, a)
        out = b""
        deadline = time.monotonic() + 60
        open_fds = [a.fileno(), orfd]
        hung = False
        while open_fds:
            left = deadline - time.monotonic()
            if left <= 0:
                hung = True
                os.kill(pid, signal.SIGKILL)
                break
            ready, _, _ = select.select(open_fds, [], [], left)
            for fd in ready:
                if fd == orfd:
                    d = os.read(orfd, 65536)
                    out += d
                else:
                    try:
                        d = a.recv(70000)
                        if d:
                            srv.handle(d)
                    except OSError:
                        d = b""
                if not d:
                    open_fds.remove(fd)
        _, st = os.waitpid(pid, 0)
        os.close(orfd)
        a.close()
        errf.seek(0)
        err = errf.read().decode("utf-8", "replace")
        errf.close()
        return srv, out.decode("utf-8", "replace"), err, st, hung
    finally:
        shutil.rmtree(base)


def program(argv, addrs):
    """The outcome of program arguments: ("run", address, client id, version),
    "exit0", "exit1", or None if undefined."""
    import getopt
    try:
        opts, args = getopt.getopt(argv, "i:p:n:alh")
    except getopt.GetoptError:
        return "exit1"
    cid = version = index = None
    for o, v in opts:
        if o == "-i":
            cid = number(v, 16)
            if cid is None:
                return "exit1"
            if cid == "gray":
                return None
        elif o == "-p":
            if v not in ("2", "3"):
                return "exit1" if not v.strip().isdigit() or \
                    int(v) not in (2, 3) else None
            version = int(v)
        elif o == "-n":
            try:
                index = int(v)
            except ValueError:
                return "exit1"
        elif o == "-h":
            return "exit0"
        else:
            return None
    if len(args) != 1:
        return "exit1"
    if args[0] != "dom":
        return ("run", args[0], cid, version) if index is None else "exit1"
    index = index or 0
    if not 0 <= index < len(addrs):
        return "exit1"
    return ("run", addrs[index], cid, version)


def split(out, n):
    """the output caused by each command line"""
    parts = []
    for i in range(n):
        m = re.search(r"\*\*\* Unknown syntax: mark%d\n" % i, out)
        if not m:
            return parts, out
        parts.append(out[:m.start()])
        out = out[m.end():]
    return parts, out


def has_row(text, row):
    """whether there is a line that shows all elements of a row"""
    for line in text.split("\n"):
        if contains(line, row):
            return True
    return False


def contains(line, row):
    for x in row:
        if isinstance(x, tuple):
            # a number, and not a string
            if not re.search(r"(?<![0-9A-Za-z.'\"-])%d(?![0-9A-Za-z.'\"])" % x,
                             line):
                return False
            continue
        # no part of a longer number or word
        if x and x in line:
            if re.search(r"((?<=0x)|(?<![0-9A-Za-z.]))%s(?![0-9A-Za-z])" %
                         re.escape(x), line):
                continue
            if not x[0].isalnum() or not x[-1].isalnum():
                continue
            return False
        elif x:
            return False
    return True


class Bad(Exception):
    pass


def judge(case, srv, out, err, st, hung, stats):
    if hung:
        raise Bad("hang", "program does not end")
    status = os.waitstatus_to_exitcode(st)
    if "Traceback" in err:
        raise Bad("traceback", err[-600:])
    want = program(case["argv"], case["addrs"])
    if want is None:
        return
    if isinstance(want, str):
        stats["program"] = 1
        if (status == 0) != (want == "exit0") or status < 0:
            raise Bad("status", "exit status %d with arguments %r" %
                      (status, case["argv"]))
        if not (out + err).strip():
            raise Bad("silent", "no message with arguments %r" %
                      case["argv"])
        if srv.addr is not None:
            raise Bad("connected", "connection made with arguments %r" %
                      case["argv"])
        return
    if case.get("refuse"):
        if status <= 0 or not (out + err).strip():
            raise Bad("refused", "status %d on refused connection" % status)
        return
    _, addr, cid, version = want
    if srv.addr != addr:
        raise Bad("address", "connected to %r, expected %r" %
                  (srv.addr, addr))
    h = srv.hello
    vs = (version, version) if version else (2, 3)
    if h is None or cid is not None and h["client-id"] != cid or \
       (h["protocol-minimum-version"], h["protocol-maximum-version"]) != vs:
        raise Bad("hello", "hello %r with arguments %r" % (h, case["argv"]))
    parts, tail = split(out, len(case["lines"]))
    reqs = list(srv.requests)
    track = None            # None, "accepted", "failed"
    informs = 0
    quit_early = False
    for i, text in enumerate(case["lines"]):
        line = interpret(text)
        if line.kind == "quit":
            quit_early = True
            break
        if i >= len(parts):
            raise Bad("ended", "session ended by %r: %s" %
                      (text, out[-200:]))
        seg = parts[i]
        # the separator's own output is the last OK
        seg = seg[:seg.rindex("OK.")] if "OK." in seg else seg
        body = re.sub(r"^(> )+", "", seg, flags=re.M)
        mine = []
        while reqs:
            m, o = reqs.pop(0)
            if m["ta-cmd"] == "unsubscribe" and \
               m["subscription-id"] == MARK + i:
                break
            mine.append((m, o))
        else:
            raise Bad("separator", "session out of step at %r" % text)
        if len(mine) > 1:
            raise Bad("requests", "%r issues %r" % (text, mine))
        kind, note, expect = line.kind, line.note, line.request
        if kind == "track":
            if srv.version < 3 or track == "accepted":
                kind = "bad"
            elif track == "failed":
                kind, expect = "gray", ("track", {})
            else:
                kind, expect = "op", ("track", {})
        elif kind.startswith("track-"):
            if track is None:
                kind = "bad"
            elif track == "failed":
                continue
            else:
                if kind == "track-query":
                    informs += 1
                if mine:
                    raise Bad("requests", "%r issues %r" % (text, mine))
                if "OK." not in body:
                    raise Bad("output", "%r says %r" % (text, body))
                continue
        if kind in ("bad", "local", "nothing"):
            if mine:
                raise Bad("requests", "%r issues %r" % (text, mine))
            if kind == "local":
                w = ["%x" % h["client-id"]] if note == "id" else \
                    [str(srv.version)]
                if not any(contains(x.replace("0x", ""), w)
                           for x in body.split("\n")):
                    raise Bad("output", "%r says %r" % (text, body))
            elif kind == "bad":
                stats["rejected"] += 1
                if not body.strip():
                    raise Bad("silent", "no message on %r" % text)
                if re.search("^OK\\.", body, re.M):
                    raise Bad("output", "OK on %r" % text)
            continue
        if not mine:
            if kind == "gray":
                if not body.strip():
                    raise Bad("silent", "no message on %r" % text)
                continue
            raise Bad("missing", "%r issues no request, says %r" %
                      (text, body))
        stats["ops"] += 1
        m, o = mine[0]
        if not matches(m, expect):
            raise Bad("request", "%r issues %r" % (text, m))
        if m["ta-cmd"] == "track":
            track = "accepted" if o["ok"] else "failed"
        if o["ok"] != bool(re.search("OK\\.", body)):
            raise Bad("outcome", "%r says %r, outcome is %r" %
                      (text, body, o))
        if not o["ok"]:
            r = o["reason"]
            if r and not encodable(r):
                pass
            elif r and r not in body or not r and "unknown" not in body:
                raise Bad("reason", "%r says %r, reason is %r" %
                          (text, body, r))
        if m["ta-cmd"] == "publish" and "service-id" in expect[1] and \
           expect[1]["service-id"] is any and \
           "%x" % m["service-id"] not in body:
            raise Bad("output", "%r does not tell the service id" % text)
        for row in o["rows"] if o["ok"] else []:
            if not has_row(body, row):
                raise Bad("output", "%r does not show %r: %r" %
                          (text, row, body))
    for row in srv.notes if not quit_early else []:
        if not has_row(out, row):
            raise Bad("notification", "not shown: %r" % row)
    kinds = [m.get("track-type") for m in srv.informs]
    if not quit_early and (
            kinds.count("query") != informs or
            kinds.count("reply") != srv.queries or
            len(kinds) != informs + srv.queries):
        raise Bad("track", "track informs %r, expected %d queries and %d "
                  "replies" % (kinds, informs, srv.queries))
    n = len(re.findall(r"(?i)^.*track.* [0-9.]+ ms\b", out, re.M))
    if not quit_early and n != informs:
        raise Bad("track", "%d replies to %d track queries reported: %s" %
                  (n, informs, out[-300:]))
    if informs > 1:
        stats["several track queries"] = 1
    if status != 0:
        raise Bad("status", "exit status %d: %s" % (status, out[-200:]))
    rest = [m["ta-cmd"] for m, o in reqs]
    if rest != ([] if quit_early else ["ping"]):
        raise Bad("requests", "unexpected requests %r" % rest)


def run(case):
    stats = {"ops": 0, "rejected": 0}
    srv, out, err, st, hung = session(case)
    failure = None
    try:
        judge(case, srv, out, err, st, hung, stats)
    except Bad as e:
        failure = e.args
    return Outcome(failure, stats["ops"] + stats["rejected"] >= 3 or
                   stats.get("program", 0) > 0, stats)
