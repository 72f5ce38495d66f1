"""The daemon, from command line to exit, against a reference interpretation
of its command line and configuration file."""
import copy
import json
import logging
import os
import select
import shutil
import signal
import socket
import sys
import tempfile
import threading
import traceback

import yaml

from .. import classify, env, model, refconf, sim, simxcm
from ..genhist import Gen
from ..model import Divergence, Inconclusive
from ..runner import Outcome, in_child
from ..sim import default_domain
from . import c19

RULE = ("random command lines with a configuration file or without one, "
        "valid ones and ones with invalid values, unknown options or missing "
        "files; the daemon's main() is run in a process of its own on the "
        "simulated transport: a random history judged by the reference model "
        "under the expected domains and limits, probes of all log levels, "
        "and a termination signal; non-trivial: served with something "
        "configured, or to be refused")
COUNTS = {"quick": 20000, "thorough": 300000}
ASSUMPTIONS = ["the transport is simulated, so that addresses are opaque",
               "negative -b and -x, and files the documentation leaves open, "
               "may be refused or not"]
CPU_LIMIT = 30
SHRINK_KEEP = ("signal", "style")
ISOLATE = False         # has a process per case anyway
SCRATCH = tempfile.gettempdir()
LEVELS = ["debug", "info", "warning", "error", "critical"]
SIGNALS = {"TERM": signal.SIGTERM, "INT": signal.SIGINT, "HUP": signal.SIGHUP}
TLS = {"cert": "tls.cert_file", "key": "tls.key_file", "tc": "tls.tc_file",
       "crl": "tls.crl_file"}

HOOKS = """
import os
def ok(servers):
    open(os.path.join(%(dir)r, "hook.out"), "w").write(str(len(servers)))
def fails(servers):
    raise KeyError("x")
"""


# --- generation

class DGen(Gen):
    pass


def unique_addrs(r, doc):
    """most configurations get addresses of their own for all sockets"""
    n = 0
    doc = copy.deepcopy(doc)
    for d in doc.get("domains") or []:
        for key in ("sockets", "addrs"):
            for k, s in enumerate(d.get(key) or []):
                n += 1
                if isinstance(s, dict):
                    s["addr"] += str(n)
                else:
                    d[key][k] = s + str(n)
    return doc


def options(r):
    opts = []
    x = r.random
    log = r.choice(["-n", "-n", "-u", "-u", "-nu", None])
    if log is not None and "n" in log:
        opts.append(["-n"])
    if log is not None and "u" in log:
        opts.append(["-u", r.choice(["@/sock", "@/sock", "@/sock", "@/sock",
                                     "@/none"])])
    if x() < .4:
        opts.append(["-s"])
    if x() < .4:
        opts.append(["-o", r.choice(["@/file"] * 7 + ["@/no/file"])])
        if x() < .5:
            opts.append(["-b", r.choice(["0", "1", "2", "3"])])
        if x() < .5:
            opts.append(["-x", r.choice(["200", "500", "1000", "100000"])])
    if x() < .6:
        opts.append(["-l", r.choice(LEVELS)])
    if x() < .3:
        opts.append(["-y", r.choice(sorted(refconf.FACILITIES))])
    if x() < .4:
        opts.append(["-c", r.choice(["0", "1", "2", "3", "5"])])
    for _ in range(r.choice([0, 0, 0, 1, 2])):
        opts.append(["-m", "+".join("ux:m%d" % r.randrange(30)
                                    for _ in range(r.choice([1, 2, 2, 3, 4, 7])))])
    if x() < .1:
        opts.append(["-r", r.choice(["vfhook.ok", "vfpkg.hooks.ok", "vfhook.fails",
                                     "vfpkg.hooks.fails", "vfpkg.ok",
                                     "vfhook.none", "vfnohook.x", "x"])])
    # the odd
    if x() < .2:
        opts.append(r.choice([
            ["-l", "x"], ["-l", ""], ["-l", "INFO"], ["-y", "x"], ["-y", ""],
            ["-c", "x"], ["-c", "-1"], ["-c", ""], ["-c", "1.5"],
            ["-c", "99999999999999999999"], ["-b", "x"], ["-b", ""],
            ["-x", "1k"], ["-x", "-5"], ["-b", "-1"], ["-v"], ["-h"], ["-q"],
            ["-m", ""], ["-m", "ux:a++ux:b"], ["-f", "@/none"], ["-f", "@"],
            ["-c", "1_0"], ["-c", " 3"], ["-z", "1"], ["-l"], ["-c"],
            ["--help"], ["-c", "0x10"], ["-u", ""],
            ["-o", ""], ["-o", "@"]]))
    if x() < .15 and opts:
        o = copy.deepcopy(r.choice(opts))
        if len(o) == 2:
            p = [q for q in ("1", "2", "debug", "error", "daemon", "user")]
            if o[0] in ("-c", "-b"):
                o[1] = r.choice(p[:2])
            elif o[0] == "-l":
                o[1] = r.choice(p[2:4])
            elif o[0] == "-y":
                o[1] = r.choice(p[4:])
        opts.append(o)
    r.shuffle(opts)
    return opts


def gen(rng, tier, i):
    r = rng
    doc = None
    text = None
    if r.random() < .6:
        doc = c19.document(r)
        if r.random() < .93:
            doc = unique_addrs(r, doc)
        lg = doc.get("log")
        if lg is None and r.random() < .5:
            lg = doc["log"] = {"syslog": False}
        if lg is not None:
            if "log_file" in lg:
                lg["log_file"] = "@/file2"
            if "syslog_socket" in lg:
                lg["syslog_socket"] = "@/sock"
            if "log_file_max_size" in lg:
                lg["log_file_max_size"] = r.choice([200, 1000, 50000])
            if r.random() < .3:
                lg.pop("syslog_socket", 0)
                lg["syslog"] = False
        for c in (doc.get("resources") or {}).values():
            for k in c:
                if r.random() < .6:
                    c[k] = r.choice([1, 2, 3, 4])
        if r.random() < .12:
            c19.mutate(r, doc)
        text = c19.text(r, doc)
        if r.random() < .03:
            p = r.randint(0, len(text))
            text = text[:p] + r.choice(c19.PIECES) + text[p:]
    opts = options(r)
    if text is not None:
        opts.insert(r.randint(0, len(opts)), ["-f", "@/conf"])
    args = ["ux:a%d" % r.randrange(9)
            for _ in range(r.choice([0, 0, 1, 1, 2, 4]))]
    if text is None and not args and r.random() < .8:
        args = ["ux:a"]
    if r.random() < .08 and args:
        # an address which is used twice
        many = [o for o in opts if o[0] == "-m" and len(o) == 2]
        if many and r.random() < .7:
            o = r.choice(many)
            o[1] = "+".join(r.sample(o[1].split("+") + [r.choice(args)],
                                     o[1].count("+") + 2))
        elif r.random() < .5:
            opts.insert(r.randint(0, len(opts)),
                        ["-m", "+".join(r.sample(["ux:m1", r.choice(args)],
                                                 r.choice([1, 2])))])
        else:
            args.append(r.choice(args))
    case = {"opts": opts, "args": args, "conf": text,
            "style": r.choice(["plain", "plain", "attach", "dashes"]),
            "signal": r.choice(sorted(SIGNALS)),
            "early": r.random() < .15}
    kind, want = expectation(case, "/tmp/@", dry=True)
    ops = []
    if kind == "serve" and want["domains"]:
        small = [d["idle"][1] <= 60 for d in want["domains"]]
        g = DGen(r, weights=dict(conn=1, pub=5, sub=4, list=4, lists=1,
                                 adv=2, expire=2, critical=2),
                 conf={"domains": [
                     default_domain(vmin=d["version"][0],
                                    vmax=d["version"][1],
                                    idle_min=d["idle"][0],
                                    idle_max=d["idle"][1],
                                    socks=len(d["sockets"]))
                     for d in want["domains"]], "sched": "all"},
                 length=(5, 22))
        g.op_critical = lambda: g.adv(r.choice(
            [1, 2.5, 4.1, 3.9, 14, 16, 28, 31])) if any(small) else None
        ops = g.build()["ops"]
        if r.random() < .1:
            # the transport refuses an address
            d = r.choice(want["domains"])
            if d["sockets"]:
                case["refuse"] = r.choice(d["sockets"])[0]
    case["ops"] = ops
    case["seed"] = r.randrange(1 << 30)
    return case


def fixed_cases(tier):
    base = {"conf": None, "style": "plain", "signal": "TERM", "early": False,
            "ops": [], "seed": 1}
    # with the default log level, nothing is filtered or added
    yield dict(base, opts=[["-u", "@/sock"], ["-s"], ["-o", "@/file"]],
               args=["ux:a"])
    yield dict(base, opts=[], args=["ux:a"])
    yield dict(base, opts=[["-n"]], args=[])
    for opt, vals in (("-l", LEVELS), ("-y", sorted(refconf.FACILITIES))):
        for v in vals:
            yield dict(base, opts=[[opt, v], ["-u", "@/sock"]], args=["ux:a"])
    clients = [["conn", n, 0, 0, 0] for n in range(4)]
    for f in ("resources: {total: {clients: 2}}", None):
        for c in ("0", "1", "2", "3", None):
            opts = [["-n"]]
            if c is not None:
                opts.append(["-c", c])
            if f is not None:
                opts.append(["-f", "@/conf"])
            yield dict(base, opts=opts, args=["ux:a", "ux:b"], ops=clients,
                       conf=f)
    rot = [["-n"], ["-o", "@/file"]]
    for b in ("0", "1", "3"):
        yield dict(base, opts=rot + [["-b", b], ["-x", "500"]], args=["ux:a"])
        yield dict(base, opts=rot + [["-b", b]], args=["ux:a"])


# --- reference

NOVAL = {"-s", "-n", "-v", "-h"}
VAL = {"-f", "-m", "-b", "-x", "-o", "-u", "-l", "-y", "-c", "-r"}


def number(v):
    """an integer value, "bad" or "open" """
    t = v.strip()
    if v.isascii() and (v.isdigit() or v[:1] == "-" and v[1:].isdigit()):
        return int(v)
    try:
        int(t)
    except ValueError:
        return "bad"
    return "open"


def exists(path):
    return os.path.lexists(path)


def expectation(case, d, dry=False):
    """(kind, want): kind is "serve", "refuse", "info" (print something and
    exit with 0) or "open"."""
    opts = [[x.replace("@", d) if k else x for k, x in enumerate(o)]
            for o in case["opts"]]
    bad = openq = info = False
    out = None
    name = None
    for o in opts:
        if o[0] in NOVAL and len(o) == 1 or o[0] in VAL and len(o) == 2:
            pass
        elif o[0] in VAL and len(o) == 1:
            # takes what follows as its value
            return "open", None
        else:
            return "refuse", "unknown option"
        if o[0] == "-f":
            name = o[1]
    conf = refconf.defaults()
    if name is not None:
        if name == d + "/conf" and case["conf"] is not None:
            kind, conf = refconf.interpret(
                case["conf"].replace("@", d).encode("utf-8",
                                                    "surrogatepass"))
            if kind == "bad":
                return "refuse", conf
            if kind != "ok":
                openq = True
        else:
            return "refuse", "no such file"
    conf = copy.deepcopy(conf)
    log = conf["log"]
    doms = [[a] for a in case["args"]]
    want = {"hook": None}
    for o in opts:
        v = o[1] if len(o) > 1 else None
        if o[0] == "-s":
            log["console"] = True
        elif o[0] == "-n":
            log["syslog"] = False
        elif o[0] == "-o":
            log["log_file"] = v
        elif o[0] in ("-b", "-x", "-c"):
            n = number(v)
            if n == "bad":
                bad = True
            elif n == "open":
                openq = True
            elif n < 0:
                if o[0] == "-c":
                    bad = True
                else:
                    openq = True
            elif o[0] == "-b":
                log["log_file_backup"] = n
            elif o[0] == "-x":
                log["log_file_max_size"] = n
            else:
                conf["total"]["clients"] = n or None
        elif o[0] == "-u":
            log["syslog_socket"] = v
        elif o[0] == "-l":
            if v in refconf.LEVELS:
                log["filter"] = refconf.LEVELS[v]
            else:
                bad = True
        elif o[0] == "-y":
            if v in refconf.FACILITIES:
                log["facility"] = refconf.FACILITIES[v]
            else:
                bad = True
        elif o[0] == "-m":
            doms.append(v.split("+"))
            if "" in doms[-1]:
                openq = True
        elif o[0] == "-r":
            want["hook"] = v
        elif o[0] in ("-v", "-h"):
            info = True
    if bad:
        return ("open" if info else "refuse"), "invalid option value"
    if info:
        return ("open" if openq else "info"), None
    if doms:
        conf["domains"] = [{"name": None, "version": (2, 3), "idle": (4, 30),
                            "sockets": [(a, {}) for a in addrs]}
                           for addrs in doms]
    if openq:
        return "open", None
    if not conf["domains"]:
        return "refuse", "no domains"
    want.update(conf)
    if dry:
        return "serve", want
    if log["syslog"]:
        path = log["syslog_socket"]
        if not exists(path):
            return "refuse", "no log socket"
        if path != d + "/sock":
            return "open", None
    if log["log_file"] is not None:
        path = log["log_file"]
        if path and not path.startswith(d + "/"):
            return "open", None
        if not path or os.path.isdir(path) or \
           not os.path.isdir(os.path.dirname(path)):
            return "refuse", "no log file"
    addrs = [s[0] for x in conf["domains"] for s in x["sockets"]]
    if len(set(addrs)) < len(addrs) or \
       case.get("refuse") and case["refuse"] in addrs:
        return "refuse", "address in use"
    if want["hook"] not in (None, "vfhook.ok", "vfpkg.hooks.ok"):
        return "refuse", "hook"
    return "serve", want


def argv(case, d):
    out = ["pafd"]
    for o in case["opts"]:
        o = [x.replace("@", d) if k else x for k, x in enumerate(o)]
        if case["style"] == "attach" and len(o) == 2 and o[1] and \
           len(o[0]) == 2:
            out.append(o[0] + o[1])
        else:
            out += o
    if case["style"] == "dashes":
        out.append("--")
    return out + list(case["args"])


# --- the run

class DaemonWorld(sim.World):
    def __init__(self, paf, net, loop, want):
        self.paf = paf
        self.stats = {}
        self.net = net
        self.peers = {}
        self.domains = []
        self.port = 1000
        self.evpos = 0
        self.autoreply = set()
        self.conf = {}
        self.loop = loop
        net.loop = loop
        self.user = {k: v for k, v in want["user"].items() if v is not None}
        self.total = {k: v for k, v in want["total"].items() if v is not None}
        self.servers = []
        for d in want["domains"]:
            m = model.DomainModel(
                dict(vmin=d["version"][0], vmax=d["version"][1],
                     idle_min=d["idle"][0], idle_max=d["idle"][1],
                     user=self.user, total=self.total), self.stats)
            m.socks = [s[0] for s in d["sockets"]]
            m.faults = False
            self.domains.append(m)

    def close(self):
        pass


class DaemonRunner(sim.Runner):
    def __init__(self, case, world):
        self.case = case
        self.world = world
        sim.install_autoreply(world)
        self.auto_sync = True
        self.executed = 0


class Problem(Exception):
    def __init__(self, sig, msg):
        Exception.__init__(self, sig, msg)
        self.sig = sig
        self.msg = msg


class SignalNet(simxcm.Net):
    """Looks at the real descriptors, too, when told to."""
    final = False

    def poll(self, ep, timeout):
        real = [fd for fd in ep.fds if fd < simxcm.FD_BASE]
        if real and (self.final or self.run_until is None):
            p = select.poll()
            for fd in real:
                p.register(fd, select.POLLIN)
            got = p.poll(200)
            if got:
                return got
            if self.final:
                raise Problem("signal", "does not stop on a signal")
        return super().poll(ep, timeout)


PROBES = [(10, "debug"), (20, "info"), (30, "warning")]


def play(paf, case, want, net, loop, orig_run, result):
    """what happens while the daemon serves"""
    # sockets
    got = [(a, attrs) for a, attrs in net.server_attrs]
    exp = []
    for d in want["domains"]:
        for addr, tls in d["sockets"]:
            attrs = {"xcm.blocking": False}
            for k, v in tls.items():
                attrs[TLS[k]] = v
            if "crl" in tls:
                attrs["tls.check_crl"] = True
            exp.append((addr, attrs))
    key = lambda x: (x[0], sorted(x[1].items()))
    if sorted(got, key=key) != sorted(exp, key=key):
        raise Problem("sockets", "serves %r, expected %r" % (got, exp))
    # log probes
    log, cat = paf.logging, paf.logging.LogCategory.CORE
    for level, name in PROBES:
        getattr(log, name)("vfprobe-%d." % level, cat)
    log.exception("vfprobe-40.")
    # service
    if case["ops"]:
        w = DaemonWorld(paf, net, loop, want)
        r = DaemonRunner({"ops": case["ops"]}, w)
        try:
            r.run()
        except Inconclusive:
            result["stats"]["inconclusive"] = 1
        except Divergence as e:
            raise Problem("service/" + classify.signature(e),
                          "%s: %s" % (e.kind, e.detail))
        result["stats"]["ops"] = r.executed
    lines = 0
    if want["log"]["log_file_backup"] and \
       want["log"]["log_file_max_size"] <= 1000:
        lines = 30 * (want["log"]["log_file_backup"] + 2)
    for n in range(lines):
        log.exception("vfline-%d %s." % (n, "x" * 30))
    result["lines"] = lines
    if lines and want["log"]["log_file"] is not None and \
       want["log"]["filter"] <= 40:
        last = "vfline-%d " % (lines - 1)
        if last not in (slurp(want["log"]["log_file"]) or ""):
            raise Problem("log/last", "the latest record is not in the log "
                          "file")


def drive(case, d):
    """runs the daemon, in a child process"""
    paf = env.paf
    logging.disable(logging.NOTSET)
    logging.getLogger().handlers = []
    logging.raiseExceptions = True
    result = {"exit": None, "stats": {}, "problem": None, "lines": 0,
              "entered": False}
    env.reset(case["seed"])
    net = SignalNet(case["seed"])
    if case.get("refuse"):
        net.fail_bind.add(case["refuse"])
    sys.path.insert(0, d)
    kind, want = expectation(case, d)
    orig_run = paf.eventloop.EventLoop.run
    orig_server = paf.xcm.server
    if case["early"]:
        def server(addr, attrs={}):
            s = orig_server(addr, attrs=attrs)
            os.kill(os.getpid(), SIGNALS.get(case["signal"], signal.SIGTERM))
            return s
        paf.xcm.server = server

    def run(loop):
        first = not result["entered"]
        result["entered"] = True
        if not first:
            return orig_run(loop)
        net.loop = loop
        try:
            if case["early"]:
                net.final = True
            elif kind == "serve":
                paf.eventloop.EventLoop.run = orig_run
                play(paf, case, want, net, loop, orig_run, result)
                net.final = True
                os.kill(os.getpid(), SIGNALS.get(case["signal"], signal.SIGTERM))
            else:
                net.final = True
                os.kill(os.getpid(), SIGNALS.get(case["signal"], signal.SIGTERM))
            return orig_run(loop)
        except Problem as e:
            result["problem"] = (e.sig, e.msg)
            raise BaseProblem()
        except Exception as e:
            if env.from_paf(e):
                raise
            result["harness"] = traceback.format_exc()
            raise BaseProblem()
    paf.eventloop.EventLoop.run = run
    try:
        paf.daemon.main(argv(case, d))
        result["exit"] = "returned"
    except SystemExit as e:
        c = e.code
        result["exit"] = 0 if c is None else c if isinstance(c, int) else 1
        if not (c is None or isinstance(c, int)):
            print(c)
    except BaseProblem:
        pass
    except Problem as e:
        result["problem"] = (e.sig, e.msg)
    except env.HarnessError:
        raise
    except Exception as e:
        result["problem"] = ("exception", env.describe(e))
    result["bound"] = len(net.server_attrs)
    result["open"] = sorted(net.servers) or \
        ["%d connections" % len(net.socks) for _ in net.socks][:1]
    sys.stdout.flush()
    sys.stderr.flush()
    logging.shutdown()
    return result


class BaseProblem(BaseException):
    pass


NOBODY = 65534


def confine():
    """The daemon writes log files wherever it is told to (or, when broken,
    elsewhere): let it have no more than its scratch directory."""
    if os.getuid() == 0:
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)


def in_dir(case, d):
    """in a child process"""
    data = []
    sock = socket.socket(socket.AF_UNIX, socket.SOCK_DGRAM)
    sock.bind(os.path.join(d, "sock"))
    os.chmod(os.path.join(d, "sock"), 0o666)

    def reader():
        while True:
            m = sock.recv(65536)
            if m == b"vf-end":
                return
            data.append(m)
    t = threading.Thread(target=reader, daemon=True)
    t.start()
    if case["conf"] is not None:
        with open(os.path.join(d, "conf"), "wb") as f:
            f.write(case["conf"].replace("@", d).encode("utf-8",
                                                        "surrogatepass"))
    os.mkdir(os.path.join(d, "vfpkg"))
    for name in ("vfhook.py", "vfpkg/hooks.py"):
        with open(os.path.join(d, name), "w") as f:
            f.write(HOOKS % {"dir": d})
    for n, name in ((1, "stdout"), (2, "stderr")):
        fd = os.open(os.path.join(d, name), os.O_CREAT | os.O_WRONLY |
                     os.O_APPEND)
        os.dup2(fd, n)
        os.close(fd)
    sys.stdout = open(1, "w", closefd=False)
    sys.stderr = open(2, "w", closefd=False)
    os.chdir(d)
    confine()
    result = drive(case, d)
    end = socket.socket(socket.AF_UNIX, socket.SOCK_DGRAM)
    end.connect(os.path.join(d, "sock"))
    end.send(b"vf-end")
    t.join(10)
    result["syslog"] = data
    return result


def slurp(path):
    try:
        with open(path, errors="replace") as f:
            return f.read()
    except OSError:
        return None


def check_log(case, d, want, res):
    log = want["log"]
    got = {}
    got["console"] = slurp(os.path.join(d, "stderr")) or ""
    got["syslog"] = "\n".join(m.decode("utf-8", "replace")
                              for m in res["syslog"])
    path = log["log_file"]
    text = ""
    backups = 0
    if path is not None:
        for n in range(50, 0, -1):
            t = slurp("%s.%d" % (path, n))
            if t is not None:
                backups += 1
                text += t
        text += slurp(path) or ""
    got["file"] = text
    on = {"console": log["console"], "syslog": log["syslog"],
          "file": path is not None}
    for name in ("file", "file2"):
        full = os.path.join(d, name)
        if full != path and os.path.exists(full):
            return "log/file", "logs to %s, not to %s" % (full, path)
    for dest, enabled in on.items():
        for level in (10, 20, 30, 40):
            seen = got[dest].count("vfprobe-%d." % level)
            exp = int(enabled and level >= log["filter"])
            if dest == "file" and res["lines"] and not seen:
                continue        # may have been rotated away
            if dest == "console" and not any(on.values()) and level >= 30:
                continue        # the last resort of the logging module
            if seen != exp:
                return "log/" + dest, \
                    "%d instead of %d records of level %d at the %s" % \
                    (seen, exp, level, dest)
    names = {7: 10, 6: 20, 4: 30, 3: 40}
    for m in res["syslog"]:
        if m[:1] != b"<" or not m[1:m.find(b">")].isdigit():
            return "log/format", "sends %r to the log socket" % m[:80]
        pri = int(m[1:m.find(b">")])
        if pri >> 3 != log["facility"]:
            return "log/facility", "facility %d instead of %d" % \
                (pri >> 3, log["facility"])
        if names.get(pri & 7, 50) < log["filter"]:
            return "log/severity", "severity %d with filter %d" % \
                (pri & 7, log["filter"])
    if path is None:
        return None
    keep, size = log["log_file_backup"], log["log_file_max_size"]
    if backups > keep:
        return "log/backups", "%d instead of %d backups" % (backups, keep)
    if log["filter"] > 40:
        return None
    if keep and size and res["lines"]:
        if backups != keep:
            return "log/backups", "%d instead of %d backups" % (backups, keep)
        for n in [path] + ["%s.%d" % (path, k)
                           for k in range(1, keep + 1)]:
            t = slurp(n)
            # a record of its own may exceed the limit
            if t is not None and len(t) > size and t.count("vfline") > 1:
                return "log/size", "%s has %d bytes, limit %d" % \
                    (n, len(t), size)
    return None


def show(case):
    return "%r%s" % (argv(case, "@"), "" if case["conf"] is None else
                     " with configuration %r" % case["conf"][:700])


def run(case):
    base = tempfile.mkdtemp(prefix="vfd", dir=SCRATCH)
    os.chmod(base, 0o755)
    d = os.path.join(base, "d")
    os.mkdir(d)
    if os.getuid() == 0:
        os.chown(d, NOBODY, NOBODY)
    try:
        try:
            kind, want = expectation(case, d)
        except UnicodeError:
            return Outcome(None, False, {})
        res = in_child(in_dir, case, d)
        if res.get("harness"):
            raise RuntimeError(res["harness"])
        kind, want = expectation(case, d)
        st = dict(res["stats"])
        st[kind] = 1

        def failed(sig, msg):
            return Outcome((sig, "%s; %s" % (msg, show(case))), True, st)
        if res["problem"] is not None:
            return failed(*res["problem"])
        out = (slurp(os.path.join(d, "stdout")) or "") + \
            (slurp(os.path.join(d, "stderr")) or "")
        code = res["exit"]
        if not isinstance(code, int):
            return failed("returned", "main() returns")
        if kind == "serve":
            if code != 0 or not res["entered"]:
                return failed("status", "exit status %r instead of serving "
                              "until signal %s: %s" % (code, case["signal"],
                                                       out[-600:]))
            if res["open"]:
                return failed("left", "left open at exit: %r" % res["open"])
            if want["hook"] and slurp(os.path.join(d, "hook.out")) != \
               str(len(want["domains"])):
                return failed("hook", "hook not called with %d servers" %
                              len(want["domains"]))
            if not case["early"]:
                f = check_log(case, d, want, res)
                if f is not None:
                    return failed(*f)
        elif kind == "refuse":
            if code == 0 or res["entered"]:
                return failed("accepted", "%s in spite of %s" % (
                    "serves" if res["entered"] else "exit status 0", want))
            early = want not in ("hook", "address in use")
            if early and res["bound"]:
                return failed("bound", "binds sockets in spite of %s" % want)
            if early and not out.strip():
                return failed("message", "no error message on %s" % want)
            if early and "Traceback" in out:
                return failed("trace", "stack trace on %s" % want)
        elif kind == "info":
            if code != 0 or res["entered"] or res["bound"]:
                return failed("info", "status %d, %sserving" % (
                    code, "" if res["entered"] else "not "))
            if not out.strip():
                return failed("message", "prints nothing")
        else:
            if not res["entered"] and code == 0 and \
               not any(o[0] in ("-v", "-h") for o in case["opts"]):
                return failed("status", "exit status 0 without serving")
            if res["entered"] and code != 0:
                return failed("status", "status %d after a signal" % code)
        return Outcome(None, kind != "open", st)
    finally:
        shutil.rmtree(base, ignore_errors=True)


env.load()
