"""Helper to create /verif/seeded/<id>: plant(id, property, edits, needs,
breaks, demo). edits: (file, old, new) triples applied to a copy of /repo."""
import json
import os
import re
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(HERE, "..", "..", "seeded")


def plant(bug_id, prop, edits, needs, breaks, demo, extra=()):
    d = os.path.join(OUT, bug_id)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="plant")
    try:
        subprocess.run("git -C /repo archive HEAD | tar -x -C %s && "
                       "cd %s && git init -q && git add -A && "
                       "git -c user.email=x -c user.name=x commit -qm x" %
                       (t, t), shell=True, check=True)
        for f, old, new in edits:
            p = os.path.join(t, f)
            s = open(p).read()
            assert s.count(old) == 1, (bug_id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", t, "diff"], check=True,
                              capture_output=True, text=True).stdout
        diff = re.sub(r"^index .*\n", "", diff, flags=re.M)
        assert diff
    finally:
        shutil.rmtree(t)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    open(os.path.join(d, "demo.py"), "w").write(demo.lstrip("\n"))
    shutil.copy(os.path.join(HERE, "demo.sh"), d)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    if "import h" in demo or "from h import" in demo:
        shutil.copy(os.path.join(HERE, "h.py"), d)
    for name in extra:
        shutil.copy(os.path.join(HERE, name), d)
