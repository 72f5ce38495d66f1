"""Generic minimisation of JSON cases: removal of list elements and
dictionary entries, smaller numbers, shorter strings."""
import math
import copy
import json
import time


def paths(v, p=()):
    """all positions in a JSON value, outermost first"""
    yield p, v
    if isinstance(v, list):
        for i, x in enumerate(v):
            yield from paths(x, p + (i,))
    elif isinstance(v, dict):
        for k in sorted(v):
            yield from paths(v[k], p + (k,))


def get(v, p):
    for k in p:
        v = v[k]
    return v


def put(v, p, x):
    if not p:
        return x
    v = copy.deepcopy(v)
    t = v
    for k in p[:-1]:
        t = t[k]
    t[p[-1]] = x
    return v


class Budget(Exception):
    pass


class Shrinker:
    def __init__(self, fails, max_runs=600, max_s=60.0, keep=()):
        self.fails = fails
        self.runs = 0
        self.max_runs = max_runs
        self.end = time.monotonic() + max_s
        self.keep = set(keep)
        self.seen = set()

    def try_(self, cand):
        key = json.dumps(cand, sort_keys=True)
        if key in self.seen:
            return False
        self.seen.add(key)
        if self.runs >= self.max_runs or time.monotonic() > self.end:
            raise Budget()
        self.runs += 1
        if self.fails(cand):
            self.best = cand
            return True
        return False

    def shrink(self, case):
        self.best = case
        try:
            while True:
                before = json.dumps(self.best, sort_keys=True)
                self.lists()
                self.scalars()
                if json.dumps(self.best, sort_keys=True) == before:
                    break
        except Budget:
            pass
        return self.best

    def kept(self, p):
        return any(k in self.keep for k in p)

    def lists(self):
        done = set()
        while True:
            todo = [(p, len(v)) for p, v in paths(self.best)
                    if isinstance(v, (list, dict)) and len(v) and
                    not self.kept(p) and p not in done and len(p) < 8]
            if not todo:
                return
            p, _ = todo[0]
            done.add(p)
            self.one_list(p)

    def one_list(self, p):
        v = get(self.best, p)
        if isinstance(v, dict):
            if p == ():
                return
            for k in sorted(v):
                w = dict(get(self.best, p))
                if k in w and k not in self.keep:
                    del w[k]
                    self.try_(put(self.best, p, w))
            return
        size = len(v)
        while size >= 1:
            i = 0
            while True:
                v = get(self.best, p)
                if i >= len(v):
                    break
                if not self.try_(put(self.best, p, v[:i] + v[i + size:])):
                    i += size
            size //= 2

    def scalars(self):
        for p, v in list(paths(self.best)):
            if self.kept(p) or isinstance(v, bool) or v is None:
                continue
            try:
                v = get(self.best, p)
            except (KeyError, IndexError, TypeError):
                continue
            if isinstance(v, bool):
                continue
            if isinstance(v, int):
                for c in (0, 1, 2, v // 2, v - 1):
                    if abs(c) < abs(v) and self.try_(put(self.best, p, c)):
                        break
            elif isinstance(v, float) and math.isfinite(v):
                for c in (0, 1, float(int(v)), round(v, 1)):
                    if c != v and abs(c) <= abs(v) and \
                       self.try_(put(self.best, p, c)):
                        break
            elif isinstance(v, str) and v:
                if self.try_(put(self.best, p, "")):
                    continue
                size = len(v) // 2
                while size >= 1:
                    i = 0
                    while True:
                        v = get(self.best, p)
                        if i >= len(v):
                            break
                        if not self.try_(put(self.best, p,
                                             v[:i] + v[i + size:])):
                            i += size
                    size //= 2
