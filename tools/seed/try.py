"""try.py [--all] [--nocheck] [ID...]: confirm planted bugs in scratch copies and run the
checks on them. (Development aid; no check depends on it.)"""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.realpath(os.path.join(HERE, "..", ".."))
OUT = os.path.join(VERIF, "seeded")
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, cwd, env=None, timeout=900):
    r = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True,
                       text=True, env=dict(os.environ, **(env or {})),
                       timeout=timeout)
    return r.returncode, r.stdout + r.stderr


def one(bug, checks, nocheck):
    d = os.path.join(OUT, bug)
    meta = json.load(open(os.path.join(d, "meta.json")))
    t = tempfile.mkdtemp(prefix="try")
    repo = os.path.join(t, "repo")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
        demo = os.path.join(t, "demo")
        shutil.copytree(d, demo)
        for f in ("patch.diff", "meta.json"):
            os.remove(os.path.join(demo, f))
        out = [bug, meta["property"]]
        rc0, o0 = sh("bash %s/demo.sh" % demo, repo)
        rc, o = sh("git apply %s/patch.diff" % d, repo)
        if rc:
            return bug, "PATCH DOES NOT APPLY " + o
        rc1, o1 = sh("bash %s/demo.sh" % demo, repo)
        # the stable tests
        rct, ot = sh("PYTHONPATH=%s /opt/venv/bin/python -m pytest -q "
                     "-p no:cacheprovider --ignore=test_paf.py ." % repo,
                     os.path.join(repo, "test"),
                     env={"PYTHONDONTWRITEBYTECODE": "1"})
        out.append("demo %d/%d" % (rc0, rc1))
        if rc0 != 0:
            out.append("BAD UNCHANGED: " + o0[-600:])
        if rc1 == 0:
            out.append("DEMO PASSES WITH PATCH")
        else:
            out.append(o1.strip().splitlines()[-1][:150] if o1.strip() else "")
        if rct:
            out.append("TESTS FAIL " + ot[-300:])
        if not nocheck:
            for c in (checks or [meta["property"]]):
                rc, o = sh("python3-vt run.py %s quick" % c, VERIF,
                           env={"VF_REPO": repo, "VERIF_SEED": "1",
                                "VF_OUT": os.path.join(t, "out")})
                v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
                if rc == 1 and v:
                    out.append("%s CAUGHT" % c)
                elif rc == 0:
                    if c == meta["property"]:
                        out.append("%s MISSED" % c)
                else:
                    out.append("%s rc %d %s" % (c, rc, o[-300:]))
        return bug, " | ".join(out)
    finally:
        shutil.rmtree(t)


args = [a for a in sys.argv[1:] if not a.startswith("--")]
checks = None
if "--all" in sys.argv:
    checks = [json.loads(l)["id"]
              for l in open(os.path.join(VERIF, "properties.jsonl"))]
bugs = args or sorted(os.listdir(OUT))
with concurrent.futures.ThreadPoolExecutor(3) as ex:
    for bug, res in ex.map(lambda b: one(b, checks, "--nocheck" in sys.argv),
                           bugs):
        print(res, flush=True)
