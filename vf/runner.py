"""Runs checks: generates cases, evaluates them in several processes, shrinks
failures, writes replay and evidence files."""
import gc
import hashlib
import importlib
import json
import multiprocessing
import os
import pickle
import random
import resource
import select
import signal
import sys
import time
import traceback

from . import env, shrink

CPU_LIMIT = 60          # seconds of processor time for a single case
WALL_LIMIT = 400        # seconds
PROCS = int(os.environ.get("VF_PROCS", "8"))


class Hang(BaseException):
    pass


class Outcome:
    """failure: None, or (signature, message); the signature identifies what
    has to stay the same while shrinking."""

    def __init__(self, failure=None, nontrivial=True, stats=None):
        self.failure = failure
        self.nontrivial = nontrivial
        self.stats = stats or {}


def _alarm(signo, frame):
    raise Hang()


def blame(e):
    """What the code under test did, if it is what an exception that nobody
    expected is due to; None if it may be the machinery, the system, or an
    interface that has changed."""
    text = "%s: %s" % (type(e).__name__, e)
    if isinstance(e, (OSError, MemoryError, RuntimeError, ModuleNotFoundError,
                      env.HarnessError)) and \
       not isinstance(e, RecursionError):
        return None
    root = os.path.realpath(env.REPO) + os.sep
    frames = [f for f in traceback.extract_tb(e.__traceback__)
              if "importlib" not in f.filename]
    if isinstance(e, SyntaxError) and \
       os.path.realpath(e.filename or "").startswith(root):
        return ("broken", text)
    if not frames:
        return None
    last = frames[-1]
    if os.path.realpath(last.filename).startswith(root):
        return ("broken:%s:%s" % (type(e).__name__, last.name),
                "%s (in %s)" % (text, last.name))
    if isinstance(e, (AttributeError, TypeError, ValueError, LookupError)) \
       and "NoneType" in text:
        return ("nothing:%s" % last.name, "no result (%s, in %s)" %
                (text, last.name))
    return None


def evaluate(mod, case, cpu=None):
    """Runs a case; a case that uses up an extreme amount of processor time
    is a failure."""
    old = signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, cpu or
                     getattr(mod, "CPU_LIMIT", CPU_LIMIT))
    try:
        return mod.run(case)
    except Hang:
        return Outcome(("hang", "does not terminate (more than %d s of "
                        "processor time)" % CPU_LIMIT))
    except Exception as e:
        failure = blame(e)
        if failure is None:
            raise
        return Outcome(failure)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


def evaluate_isolated(mod, case, cpu=None):
    """As evaluate(), in a process of its own: no case sees anything that an
    earlier one left behind in the code under test."""
    if not getattr(mod, "ISOLATE", True):
        return evaluate(mod, case, cpu)
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rfd)
            try:
                out = evaluate(mod, case, cpu)
                data = pickle.dumps((out, None))
            except Exception:
                data = pickle.dumps((None, traceback.format_exc()))
            with os.fdopen(wfd, "wb") as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(wfd)
    with os.fdopen(rfd, "rb") as f:
        if not select.select([f], [], [], WALL_LIMIT)[0]:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            return Outcome(("hang:blocked", "does not return within %d s" %
                            WALL_LIMIT))
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if not data:
        if os.WIFSIGNALED(status) and os.WTERMSIG(status) != signal.SIGKILL:
            return Outcome(("died", "the process died of signal %d" %
                            os.WTERMSIG(status)))
        raise RuntimeError("case process ended without a result: %d" % status)
    out, error = pickle.loads(data)
    if error is not None:
        raise RuntimeError("in case process:\n" + error)
    return out


def in_child(fn, *args):
    """The (picklable) result of a function called in a process of its own."""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rfd)
            try:
                signal.signal(signal.SIGVTALRM, _alarm)
                signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
                data = pickle.dumps((fn(*args), None))
            except (Exception, Hang):
                data = pickle.dumps((None, traceback.format_exc()))
            with os.fdopen(wfd, "wb") as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(wfd)
    with os.fdopen(rfd, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise RuntimeError("process ended without a result")
    out, error = pickle.loads(data)
    if error is not None:
        raise RuntimeError("in child process:\n" + error)
    return out


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


def worker(args):
    """Evaluates every nth case."""
    prop, tier, seed, shard, nshards, total, deadline = args
    try:
        resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
        mod = load(prop)
        gc.collect()
        gc.freeze()
        res = dict(evaluations=0, nontrivial=[], stats={}, samples=[],
                   failure=None, error=None, shard=shard, slow=0.0,
                   truncated=False)
        for i in range(shard, total, nshards):
            if time.monotonic() > deadline:
                res["truncated"] = True
                break
            rng = random.Random("%d/%s/%d" % (seed, prop, i))
            case = mod.gen(rng, tier, i)
            t = time.monotonic()
            out = evaluate_isolated(mod, case)
            res["slow"] = max(res["slow"], time.monotonic() - t)
            res["evaluations"] += 1
            for k, v in out.stats.items():
                res["stats"][k] = res["stats"].get(k, 0) + v
            if out.nontrivial:
                res["nontrivial"].append(case_key(case))
                if len(res["samples"]) < 2 and i >= nshards:
                    text = json.dumps(case)
                    if len(text) < 3000:
                        res["samples"].append(case)
            if out.failure is not None:
                res["failure"] = (i, case, out.failure)
                break
        return res
    except Exception:
        return dict(error=traceback.format_exc(), shard=shard)


def load(prop):
    return importlib.import_module("vf.checks." + prop.lower())


def minimise(mod, case, failure):
    sig = failure[0]

    def fails(c):
        try:
            out = evaluate_isolated(mod, c, 20)
        except Exception:
            return False
        return out.failure is not None and out.failure[0] == sig
    if sig.startswith("hang") or not getattr(mod, "SHRINK", True):
        return case
    return shrink.Shrinker(fails, keep=getattr(mod, "SHRINK_KEEP", ()),
                           max_s=getattr(mod, "SHRINK_S", 60)).shrink(case)


def known(here, prop):
    """'known' entries of known-findings.txt: lines of the form
    known: property=<id> case=<file under corpus> <what fails>"""
    out = []
    path = os.path.join(here, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            f = line.split(None, 3)
            if len(f) == 4 and f[0] == "known:" and \
               f[1] == "property=" + prop:
                out.append((f[2].partition("=")[2], f[3].strip()))
    return out


def corpus(here, prop):
    d = os.path.join(here, "corpus", prop)
    if os.path.isdir(d):
        for n in sorted(os.listdir(d)):
            if n.endswith(".json"):
                yield os.path.join(d, n)


def write_replay(here, prop, case, failure, name=None):
    d = os.path.join(here, "out", "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (prop, name or case_key(case)[:10]))
    with open(path, "w") as f:
        json.dump({"property": prop, "signature": failure[0],
                   "message": failure[1], "case": case}, f, indent=1)
        f.write("\n")
    return path


def report(here, prop, case, failure):
    path = write_replay(here, prop, case, failure)
    print("%s: %s" % (prop, failure[1]))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    sys.stdout.flush()


def write_evidence(here, prop, ev):
    d = os.path.join(here, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")


def check(here, prop, tier):
    t0 = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        mod = load(prop)
        if hasattr(mod, "prepare"):
            mod.prepare(here)
    except Exception as e:
        failure = blame(e)
        if failure is None:
            raise
        # not even usable
        report(here, prop, None, failure)
        write_evidence(here, prop, {
            "property": prop, "tier": tier, "seed": seed,
            "level": "exploration",
            "coverage": {"evaluations": 1, "distinct_nontrivial": 0,
                         "rule": "the code can be loaded", "samples": []},
            "assumptions": [], "violations": 1,
            "wall_s": round(time.monotonic() - t0, 2)})
        return 1
    violations = 0
    evaluations = 0
    nontrivial = set()
    stats = {}
    samples = []
    knowns = known(here, prop)
    known_files = {os.path.join(here, "corpus", f): w for f, w in knowns}

    # inputs that failed at one time, and enumerated ones
    fixed = [(p, json.load(open(p))["case"]) for p in corpus(here, prop)]
    if hasattr(mod, "fixed_cases"):
        fixed += [(None, c) for c in mod.fixed_cases(tier)]
    for path, case in fixed:
        out = evaluate_isolated(mod, case)
        evaluations += 1
        for k, v in out.stats.items():
            stats[k] = stats.get(k, 0) + v
        if out.nontrivial:
            nontrivial.add(case_key(case))
        if path in known_files:
            if out.failure is not None:
                print("KNOWN-FINDING: property=%s %s" %
                      (prop, known_files[path]))
            continue
        if out.failure is not None:
            violations += 1
            if path is None:
                case = minimise(mod, case, out.failure)
            report(here, prop, case, out.failure)
            break

    truncated = False
    error = None
    if not violations:
        total = mod.COUNTS[tier]
        scale = float(os.environ.get("VF_SCALE", "1"))
        total = int(total * scale)
        procs = min(PROCS, getattr(mod, "PROCS", PROCS))
        deadline = t0 + getattr(mod, "BUDGET", {}).get(
            tier, 300 if tier == "quick" else 780)
        ctx = multiprocessing.get_context("fork")
        with ctx.Pool(procs) as pool:
            results = pool.map(worker, [
                (prop, tier, seed, s, procs, total, deadline)
                for s in range(procs)], chunksize=1)
        failures = []
        for r in results:
            if r["error"]:
                error = r["error"]
                continue
            evaluations += r["evaluations"]
            nontrivial.update(r["nontrivial"])
            samples += r["samples"]
            truncated = truncated or r["truncated"]
            for k, v in r["stats"].items():
                stats[k] = stats.get(k, 0) + v
            if r["failure"]:
                failures.append(r["failure"])
        if failures:
            i, case, failure = min(failures, key=lambda f: f[0])
            small = minimise(mod, case, failure) \
                if "VF_FAST" not in os.environ else case
            out = evaluate_isolated(mod, small)
            if out.failure is not None and out.failure[0] == failure[0]:
                case, failure = small, out.failure
            violations += 1
            report(here, prop, case, failure)
    if error and not violations:
        sys.stderr.write(error)
        return 3

    samples = samples[:3] or [c for _, c in fixed[:1]]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(nontrivial),
            "rule": mod.RULE,
            "samples": samples,
            "fixed_cases": len(fixed),
            "classes": {k: stats[k] for k in sorted(stats)},
            "stopped_by_time_budget": truncated,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": violations,
    }
    write_evidence(here, prop, ev)
    if violations:
        return 1
    print("%s: held on %d cases (%d distinct non-trivial) in %.1f s" %
          (prop, evaluations, len(nontrivial), ev["wall_s"]))
    return 0


def replay(here, path):
    d = json.load(open(path))
    try:
        mod = load(d["property"])
        if hasattr(mod, "prepare"):
            mod.prepare(here)
        out = evaluate(mod, d["case"]) if d["case"] is not None else Outcome()
    except Exception as e:
        out = Outcome(blame(e))
        if out.failure is None:
            raise
    if out.failure is not None:
        print(out.failure[1])
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    print("holds: %s" % json.dumps(out.stats, sort_keys=True))
    return 0


def main(argv, here):
    try:
        if argv[0] == "replay":
            return replay(here, argv[1])
        if argv[0] == "setup":
            from . import setup
            return setup.main(here)
        return check(here, argv[0], argv[1])
    except Exception:
        traceback.print_exc()
        return 3
