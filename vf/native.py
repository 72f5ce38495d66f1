"""Builds and loads the stand-in for libxcm.so.0."""
import ctypes
import fcntl
import hashlib
import importlib.util
import os
import subprocess
import sys

from . import env

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.path.join(HERE, "native", "fakexcm.c")
DIR = os.path.join(HERE, "out", "native")
LIB = os.path.join(DIR, "libxcm.so.0")


def build():
    os.makedirs(DIR, exist_ok=True)
    stamp = hashlib.sha1(open(SRC, "rb").read()).hexdigest()
    tag = LIB + ".stamp"
    with open(os.path.join(DIR, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(LIB) and os.path.exists(tag) and \
           open(tag).read() == stamp:
            return LIB
        tmp = LIB + ".tmp"
        subprocess.check_call(["gcc", "-shared", "-fPIC", "-O2", "-Wall",
                               "-Wl,-soname,libxcm.so.0", "-o", tmp, SRC,
                               "-lpthread"])
        os.rename(tmp, LIB)
        with open(tag, "w") as f:
            f.write(stamp)
    return LIB


_lib = None
_binding = None


def lib():
    """the library, for access to its test functions"""
    global _lib
    if _lib is None:
        build()
        _lib = ctypes.CDLL(LIB, mode=ctypes.RTLD_GLOBAL)
        _lib.fake_count.restype = ctypes.c_long
        _lib.fake_count.argtypes = [ctypes.c_char_p]
        _lib.fake_last_error.restype = ctypes.c_char_p
        _lib.fake_inject.argtypes = [ctypes.c_char_p, ctypes.c_int,
                                     ctypes.c_int]
        _lib.fake_inject.restype = None
        _lib.fake_clear_injected.restype = None
        _lib.fake_track.argtypes = [ctypes.c_bool]
        _lib.fake_track.restype = None
        _lib.fake_set.argtypes = [ctypes.c_char_p, ctypes.c_int,
                                       ctypes.c_char_p, ctypes.c_size_t]
        _lib.fake_get.argtypes = [ctypes.c_char_p,
                                       ctypes.POINTER(ctypes.c_int),
                                       ctypes.c_char_p, ctypes.c_size_t]
        _lib.fake_select.argtypes = [ctypes.c_long]
        _lib.fake_newest.restype = ctypes.c_long
    return _lib


def binding():
    """The code under test's own transport binding, on top of the stand-in;
    loaded under another name, as paf.xcm may be a simulation."""
    global _binding
    if _binding is None:
        lib()
        sys.dont_write_bytecode = True
        spec = importlib.util.spec_from_file_location(
            "real_paf_xcm", os.path.join(env.REPO, "paf", "xcm.py"))
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        _binding = m
    return _binding
