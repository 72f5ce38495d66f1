"""Loads the code under test from the working tree, with its transport, its
clock and its poll primitives replaced by simulated ones.

The replacement is done at module level (sys.modules) while paf is imported,
so it does not depend on how the code under test is written, only on which
modules it uses."""
import importlib
import importlib.util
import logging
import logging.handlers
import os
import random as _random
import select as _real_select
import sys
import time as _real_time
import types

# everything paf imports from the standard library is loaded up front, so
# that none of it sees the simulated modules
import cmd, collections, contextlib, ctypes, datetime, enum, errno, fcntl  # noqa
import getopt, itertools, json, json.decoder, json.encoder, math, re  # noqa
import shlex, signal, socket, threading, bisect, heapq, weakref, functools  # noqa
import traceback, operator, string, struct, copy, warnings, queue  # noqa
import yaml  # noqa

REPO = os.environ.get("VF_REPO", "/repo")

START_TIME = 1000000.0


class HarnessError(Exception):
    """Something is wrong with the harness, not with the code under test."""


class Clock:
    def __init__(self):
        self.now = START_TIME

    def reset(self):
        self.now = START_TIME


CLOCK = Clock()


class FakeTime(types.ModuleType):
    def __init__(self):
        super().__init__("time")
        for n in dir(_real_time):
            if not n.startswith("__"):
                setattr(self, n, getattr(_real_time, n))
        self.time = lambda: CLOCK.now
        self.monotonic = lambda: CLOCK.now
        self.time_ns = lambda: int(CLOCK.now * 1e9)
        self.monotonic_ns = self.time_ns
        self.perf_counter = lambda: CLOCK.now

        def sleep(t):
            CLOCK.now += t
        self.sleep = sleep


FAKE_TIME = FakeTime()

# set by the simulation in use: classes with the epoll/poll interface
SELECT_IMPL = {"epoll": None, "poll": None}


class FakeSelect(types.ModuleType):
    def __init__(self):
        super().__init__("select")
        for n in dir(_real_select):
            if not n.startswith("__"):
                setattr(self, n, getattr(_real_select, n))

        def epoll(*a, **kw):
            if SELECT_IMPL["epoll"] is None:
                return _real_select.epoll(*a, **kw)
            return SELECT_IMPL["epoll"](*a, **kw)

        def poll(*a, **kw):
            if SELECT_IMPL["poll"] is None:
                return _real_select.poll(*a, **kw)
            return SELECT_IMPL["poll"](*a, **kw)
        self.epoll = epoll
        self.poll = poll


FAKE_SELECT = FakeSelect()

_loaded = False


class _P:
    pass


paf = _P()


def load():
    """Imports the code under test in simulated surroundings. All modules
    are returned as attributes of `paf`."""
    global _loaded
    if _loaded:
        return paf
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    from . import simxcm
    fake_xcm = simxcm.make_module()
    saved = {n: sys.modules[n] for n in ("time", "select")}
    sys.modules["time"] = FAKE_TIME
    sys.modules["select"] = FAKE_SELECT
    try:
        pkg = importlib.import_module("paf")
        where = os.path.realpath(pkg.__file__)
        if not where.startswith(os.path.realpath(REPO) + os.sep):
            raise HarnessError("paf imported from %s" % where)
        sys.modules["paf.xcm"] = fake_xcm
        pkg.xcm = fake_xcm
        paf.pkg = pkg
        for name in ("logging", "proto", "props", "filter", "timer", "eventloop",
                     "sd", "conf", "server", "client", "daemon"):
            setattr(paf, name, importlib.import_module("paf." + name))
    finally:
        sys.modules.update(saved)
    paf.xcm = fake_xcm
    logging.disable(logging.CRITICAL)
    _loaded = True
    return paf


def reset(seed):
    CLOCK.reset()
    _random.seed(seed)


def from_paf(e):
    """Whether an exception was raised in, or by something called from, the
    code under test, rather than in the harness."""
    import traceback
    here = os.path.dirname(os.path.realpath(__file__)) + os.sep
    repo = os.path.realpath(REPO) + os.sep
    for f in reversed(traceback.extract_tb(e.__traceback__)):
        name = os.path.realpath(f.filename)
        if name.startswith(here):
            return False
        if name.startswith(repo):
            return True
    return False


def describe(e):
    import traceback
    repo = os.path.realpath(REPO) + os.sep
    where = [f.name for f in traceback.extract_tb(e.__traceback__)
             if os.path.realpath(f.filename).startswith(repo)]
    return "%s: %s%s" % (type(e).__name__, e,
                         " (in %s)" % where[-1] if where else "")
