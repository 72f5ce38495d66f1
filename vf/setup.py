"""Prepares everything that checks need beyond the code under test."""
import importlib
import os
import sys


def main(here):
    for d in ("out", "evidence"):
        os.makedirs(os.path.join(here, d), exist_ok=True)
    checks = os.path.join(here, "vf", "checks")
    for n in sorted(os.listdir(checks)):
        if n.startswith("c") and n.endswith(".py"):
            src = open(os.path.join(checks, n)).read()
            if "def prepare" in src:
                importlib.import_module("vf.checks." + n[:-3]).prepare(here)
    print("ready (%s)" % sys.version.split()[0])
    return 0
