"""The transport binding on top of a stand-in for the transport library, with
real sockets underneath."""
import ctypes
import errno
import gc
import hashlib
import os
import select
import signal

from .. import env, native
from ..runner import Outcome

RULE = ("random sequences of connection set-up, messages of 0 to 70000 bytes "
        "of any content, attributes of all types, mode and target changes, "
        "closing, dropping and misuse of sockets, with injected failures of "
        "every library function; the library verifies its arguments and "
        "counts sockets and attribute maps; non-trivial: messages were "
        "transferred and a failure reported")
COUNTS = {"quick": 16000, "thorough": 600000}
ASSUMPTIONS = ["the stand-in library has the interface of the real one",
               "string attributes are UTF-8 without null characters"]
CPU_LIMIT = 30
ADDRS = ["ux:a", "tls:1.2.3.4:5", "tcp:h:1", "utls:[::1]:7", "ux:\u00e5"]
ERRNOS = ["ECONNRESET", "EPIPE", "ETIMEDOUT", "EMSGSIZE", "EMFILE", "ENOMEM",
          "EINVAL", "EPROTO", "EAGAIN", "EINTR", "ENOENT", "EACCES",
          "ECONNREFUSED", "EADDRINUSE", "ENOTSUP", "EHOSTUNREACH", "EOVERFLOW"]
FUNS = ["connect", "server", "accept", "send", "receive", "finish", "fd",
        "set_blocking", "attr_get", "attr_set", "await", "close"]
VALUES = [True, False, 0, 1, -1, 2**31, -2**31, 2**63 - 1, -2**63, 255, 256,
          "", "x", "\u00e5\u00f8", "a" * 300, "/a b/c.pem", "1", "true"]
BADVALUES = [None, 1.5, [1], {"a": 1}, 2**63, -2**63 - 1, 2**64 + 5, "a\0b",
             "\0"]
SIZES = [0, 1, 2, 7, 100, 1000, 4096, 8192, 65534, 65535, 65536, 70000]
TYPES = {"bool": 1, "int64": 2, "str": 3, "bin": 4}


def prepare(here):
    native.build()


def gen(rng, tier, i):
    r = rng
    ops = []

    def attrs():
        if r.random() < .6:
            return {}
        d = {r.choice(["tls.cert_file", "tls.check_crl", "a.b", "x"]):
             r.choice(VALUES) for _ in range(r.choice([1, 2, 3]))}
        if r.random() < .12:
            d[r.choice(["x", "a.b", "y"])] = r.choice(BADVALUES)
        return d
    slots = ["c%d" % n for n in range(6)]
    for n in range(r.choice([1, 1, 2])):
        ops.append(["server", "s%d" % n, r.choice(ADDRS),
                    attrs() if r.random() < .2 else {}])
    for n in range(r.choice([0, 1, 1, 2, 2])):
        ops.append(["connect", slots[2 * n], "s0", {}, 1])
        ops.append(["accept", "s0", slots[2 * n + 1], {}])
    w = {"connect": 4, "accept": 4, "send": 8, "receive": 9, "close": 1.5,
         "drop": 1, "reclose": .5, "after": .5, "setattr": 3, "getattr": 3,
         "peerattr": 2, "target": 3, "blocking": 1, "finish": .7,
         "inject": 3, "fileno": 1, "server": .5, "badaddr": .4,
         "badname": .5}
    for k in list(w):
        if k not in ("connect", "accept") and r.random() < .2:
            w[k] = 0
    names = sorted(w)
    for _ in range(r.randint(8, 40)):
        k = r.choices(names, [w[n] for n in names])[0]
        c = r.choice(slots[:4] if r.random() < .6 else slots)
        if k == "connect":
            ops.append(["connect", c, "s%d" % r.randrange(2), attrs(),
                        r.choice([1, 1, 1, 0, 0, 2, -1])
                        if r.random() < .3 else 1])
            if r.random() < .7:
                ops.append(["accept", ops[-1][2], r.choice(slots), attrs()])
        elif k == "accept":
            ops.append(["accept", "s%d" % r.randrange(2), c, attrs()])
        elif k == "send":
            for _ in range(r.choice([1, 1, 2, 5])):
                ops.append(["send", c, r.choice(SIZES), r.randrange(1000)])
        elif k == "receive":
            for _ in range(r.choice([1, 1, 2, 5])):
                ops.append(["receive", c])
        elif k in ("close", "drop", "reclose"):
            ops.append([k, r.choice(slots + ["s0", "s1"])])
        elif k == "after":
            ops.append([k, r.choice(slots + ["s0"]),
                        r.choice(["send", "receive", "accept", "finish",
                                  "fileno", "get_attr", "set_attr",
                                  "set_target", "set_blocking"])])
        elif k == "setattr":
            ops.append([k, r.choice(slots + ["s0"]),
                        r.choice(["a", "b.c", "xcm.x", "ro.x"]),
                        r.choice(VALUES if r.random() < .8 else BADVALUES)])
        elif k == "getattr":
            ops.append([k, r.choice(slots + ["s0"]),
                        r.choice(["a", "b.c", "xcm.x", "none", "d"])])
        elif k == "peerattr":
            t = r.choice(sorted(TYPES))
            if t == "bool":
                v = r.choice(["00", "01"])
            elif t == "int64":
                v = r.choice([0, 1, -1, 2**63 - 1, -2**63, 77]).to_bytes(
                    8, "little", signed=True).hex()
            elif t == "str":
                v = (r.choice(["", "x", "\u00e5", "a" * 8191, "a" * 8192,
                               "a b"]).encode() + b"\0").hex()
            else:
                v = bytes(r.randrange(256) for _ in range(
                    r.choice([0, 1, 20, 64, 8192, 8193]))).hex()
                if r.random() < .3:
                    v = "00" + v[2:]
            ops.append([k, c, "d", t, v])
            if r.random() < .8:
                ops.append(["getattr", c, "d"])
        elif k == "target":
            ops.append([k, r.choice(slots + ["s0", "s1"]),
                        r.choice([0, 1, 2, 3, 4, 4, 1, 8, 5, -1])])
        elif k == "blocking":
            ops.append([k, c, r.random() < .3])
        elif k in ("finish", "fileno"):
            ops.append([k, r.choice(slots + ["s0"])])
        elif k == "inject":
            f = r.choice(FUNS)
            ops.append([k, f, r.choice(ERRNOS), r.choice([0, 0, 0, 1])])
        elif k == "server":
            ops.append(["server", "s1", r.choice(ADDRS), attrs()])
        elif k == "badname":
            ops.append([k, r.choice(slots + ["s0", "s1"]),
                        r.choice(["server", "connect", "addattr", "getattr",
                                  "setattr"]),
                        r.choice(["\0", "\0x", "\0\0", "\ud800"])])
        else:
            ops.append([k, c, r.choice(["", "x", "foo:a", "ux:", "ux:none"])])
    return {"ops": ops}


def content(size, seed):
    """any bytes, null ones included, at the ends too"""
    if seed % 7 == 0:
        return b"\0" * size
    block = hashlib.sha512(b"%d" % seed).digest()
    m = (block * (size // 64 + 1))[:size]
    if seed % 5 == 0 and size:
        m = m[:-1] + b"\0"
    if seed % 11 == 0 and size:
        m = b"\0" + m[1:]
    return m


class Model:
    def __init__(self, server, ident, addr):
        self.server = server
        self.ident = ident
        self.addr = addr
        self.blocking = True
        self.target = 0
        self.attrs = {}
        self.closed = False
        self.pending = []       # server: connected, but not yet accepted
        self.queue = []         # messages to be received
        self.peer = None
        self.reset = False      # may get a reset, once


class Fail(Exception):
    pass


def bad_attrs(attrs):
    """the first value that can't be represented"""
    return any(not representable(v) for v in attrs.values())


def representable(v):
    if isinstance(v, bool):
        return True
    if isinstance(v, int):
        return -2**63 <= v < 2**63
    if isinstance(v, str):
        return "\0" not in v
    return False


class Runner:
    def __init__(self, case):
        self.case = case
        self.x = native.binding()
        self.lib = native.lib()
        self.socks = {}         # slot -> (socket, model)
        self.inj = []
        self.st = {}
        self.uniq = "-%d" % os.getpid()

    def count(self, k):
        self.st[k] = self.st.get(k, 0) + 1

    def lcount(self, what):
        return self.lib.fake_count(what.encode())

    def injected(self, fun):
        """the errno of a failure due, in the order of the library"""
        for i, e in enumerate(self.inj):
            if e[0] == fun:
                if e[2] > 0:
                    e[2] -= 1
                    return None
                del self.inj[i]
                return e[1]
        return None

    def due(self, fun):
        """whether the next call fails"""
        for e in self.inj:
            if e[0] == fun:
                return e[2] <= 0
        return False

    def fails(self, what, fn, errnos):
        """fn has to raise an error with one of the errnos"""
        try:
            v = fn()
        except OSError as e:
            if e.errno not in errnos:
                raise Fail("errno/" + what, "%s: errno %r, expected %r" %
                           (what, e.errno, sorted(errnos)))
            if type(e) is not type(OSError(e.errno, "")):
                raise Fail("errno/" + what, "%s: %s for errno %d" %
                           (what, type(e).__name__, e.errno))
            self.count("failures")
            return
        except Exception as e:
            raise Fail("exception/" + what, "%s: %s instead of errno %r" %
                       (what, env.describe(e), sorted(errnos)))
        raise Fail("unreported/" + what, "%s gives %r, expected errno %r" %
                   (what, v if not isinstance(v, bytes) else v[:50],
                    sorted(errnos)))

    def works(self, what, fn):
        try:
            return fn()
        except Exception as e:
            raise Fail("exception/" + what, "%s: %s" % (what,
                                                        env.describe(e)))

    def rejects(self, what, fn):
        """fn has to raise anything at all"""
        try:
            v = fn()
        except Exception:
            self.count("rejected")
            return
        raise Fail("accepted/" + what, "%s gives %r" % (what, v))

    def get(self, slot):
        e = self.socks.get(slot)
        if e is None or e[1].closed:
            return None, None
        return e

    def conn(self, slot):
        s, m = self.get(slot)
        if m is None or m.server:
            return None, None
        return s, m

    def seen(self, m, name):
        """an attribute, according to the library"""
        if self.lib.fake_select(m.ident) < 0:
            raise Fail("closed", "socket of %s is closed" % m.addr)
        t = ctypes.c_int()
        buf = ctypes.create_string_buffer(20000)
        n = self.lib.fake_get(name.encode(), ctypes.byref(t), buf, 20000)
        if n < 0:
            return None
        return t.value, buf.raw[:n]

    @staticmethod
    def wire(v):
        if isinstance(v, bool):
            return 1, bytes([v])
        if isinstance(v, int):
            return 2, v.to_bytes(8, "little", signed=True)
        return 3, v.encode() + b"\0"

    def check_attrs(self, what, m, attrs):
        for k, v in attrs.items():
            got = self.seen(m, k)
            if got != self.wire(v):
                raise Fail("attribute/" + what, "%s with %s=%r arrives as %r" %
                           (what, k, v, got))
            m.attrs[k] = v

    @staticmethod
    def untouched(attrs, fun):
        """the caller's attributes remain as they are"""
        def call():
            given = dict(attrs)
            try:
                return fun(given)
            finally:
                if given != attrs:
                    raise Fail("caller", "attributes %r changed to %r" %
                               (attrs, given))
        return call

    # operations

    def op_server(self, slot, addr, attrs):
        if slot in self.socks:
            return
        attrs = dict(attrs)
        attrs.setdefault("xcm.blocking", False)
        addr += self.uniq
        call = self.untouched(attrs, lambda given: self.x.server(
            addr, attrs=given))
        if bad_attrs(attrs):
            return self.rejects("server", call)
        e = self.injected("server")
        if e:
            return self.fails("server", call, {e})
        if any(m.server and not m.closed and m.addr == addr
               for _, m in self.socks.values()):
            return self.fails("server", call, {errno.EADDRINUSE})
        s = self.works("server", call)
        m = Model(True, self.lib.fake_newest(), addr)
        m.blocking = False
        self.socks[slot] = (s, m)
        self.check_attrs("server", m, attrs)
        self.check_attrs("server", m, {"xcm.local_addr": addr})

    def op_connect(self, slot, srv, attrs, flags):
        if self.get(slot)[0] is not None:
            return
        e = self.socks.get(srv)
        if e is None:
            return
        _, sm = e
        attrs = dict(attrs)
        call = self.untouched(attrs, lambda given: self.x.connect(
            sm.addr, flags, attrs=given) if given else self.x.connect(
                sm.addr, flags))
        if bad_attrs(attrs) or flags not in (0, 1):
            return self.rejects("connect", call)
        e = self.injected("connect")
        if e:
            return self.fails("connect", call, {e})
        if sm.closed:
            # its address may have been bound anew
            live = [m for _, m in self.socks.values()
                    if m.server and not m.closed and m.addr == sm.addr]
            if not live:
                return self.fails("connect", call, {errno.ECONNREFUSED})
            sm = live[0]
        s = self.works("connect", call)
        m = Model(False, self.lib.fake_newest(), sm.addr)
        m.blocking = flags != 1
        self.socks[slot] = (s, m)
        if flags == 1:
            attrs["xcm.blocking"] = False
        self.check_attrs("connect", m, attrs)
        self.check_attrs("connect", m, {"xcm.remote_addr": sm.addr})
        self.modes(s, m)
        sm.pending.append(m)
        self.count("connected")

    def op_badaddr(self, slot, addr):
        e = self.injected("connect")
        self.fails("connect", lambda: self.x.connect(addr, 1),
                   {e} if e else {errno.EINVAL, errno.ECONNREFUSED})

    def op_badname(self, slot, what, tail):
        """addresses and names the library can't be given"""
        s, m = self.get(slot)
        if what == "server":
            call = lambda: self.x.server("ux:bad" + self.uniq + tail,
                                         attrs={"xcm.blocking": False})
        elif m is None:
            return
        elif what == "connect":
            call = lambda: self.x.connect(m.addr + tail, 1)
        elif what == "addattr":
            call = lambda: self.x.connect(m.addr, 1, attrs={"a" + tail: 1})
        elif what == "getattr":
            call = lambda: s.get_attr("xcm.local_addr" + tail)
        else:
            call = lambda: s.set_attr("a" + tail, 1)
        self.rejects("name/" + what, call)

    def op_accept(self, srv, slot, attrs):
        if self.get(slot)[0] is not None:
            return
        s, sm = self.get(srv)
        if sm is None or not sm.server:
            return
        attrs = dict(attrs)
        call = self.untouched(attrs, lambda given: s.accept(
            attrs=given) if given else s.accept())
        if bad_attrs(attrs):
            return self.rejects("accept", call)
        e = self.injected("accept")
        if e:
            return self.fails("accept", call, {e})
        if not sm.pending:
            return self.fails("accept", call, {errno.EAGAIN})
        c = self.works("accept", call)
        peer = sm.pending.pop(0)
        m = Model(False, self.lib.fake_newest(), peer.addr)
        m.blocking = False
        self.socks[slot] = (c, m)
        m.peer, peer.peer = peer, m
        m.queue, peer.early = getattr(peer, "early", []), []
        if peer.closed:
            m.reset = True
        self.check_attrs("accept", m, attrs)
        self.count("accepted")

    def op_send(self, slot, size, seed):
        s, m = self.conn(slot)
        if s is None:
            return
        msg = content(size, seed)
        call = lambda: s.send(msg)
        q = getattr(m, "early", []) if m.peer is None else m.peer.queue
        full = len(q) >= 8 or sum(map(len, q)) > 40000
        if full and m.blocking and not self.due("send"):
            return
        e = self.injected("send")
        if e:
            return self.fails("send", call, {e})
        if size == 0:
            return self.fails("send", call, {errno.EINVAL})
        if size > 65535:
            return self.fails("send", call, {errno.EMSGSIZE})
        if m.peer is None:
            if not hasattr(m, "early"):
                m.early = []
            q, gone = m.early, getattr(m, "lost", False)
        else:
            q, gone = m.peer.queue, m.peer.closed
        if gone:
            self.fails("send", call, {errno.EPIPE, errno.ECONNRESET})
            m.reset = True
            return
        try:
            s.send(msg)
        except OSError as e:
            if full and e.errno == errno.EAGAIN:
                self.count("would block")
                return
            if m.reset and e.errno == errno.ECONNRESET:
                m.reset = False
                return
            raise Fail("exception/send", "sending %d bytes: %s" %
                       (size, env.describe(e)))
        except Exception as e:
            raise Fail("exception/send", "sending %d bytes: %s" %
                       (size, env.describe(e)))
        q.append(msg)
        self.count("sent")
        if size == 65535:
            self.count("sent maximum size")

    def op_receive(self, slot):
        s, m = self.conn(slot)
        if s is None:
            return
        gone = m.peer.closed if m.peer is not None else \
            getattr(m, "lost", False)
        if not m.queue and not gone and m.blocking and not self.due("receive"):
            return
        e = self.injected("receive")
        if e:
            return self.fails("receive", s.receive, {e})
        try:
            got = s.receive()
        except OSError as e:
            if m.reset and e.errno == errno.ECONNRESET:
                m.reset = False
                self.count("failures")
                return
            if e.errno == errno.EAGAIN and not m.queue and not gone:
                self.count("failures")
                return
            raise Fail("errno/receive", "receive with %d messages queued%s: "
                       "%s" % (len(m.queue), ", closed" * bool(gone),
                               env.describe(e)))
        except Exception as e:
            raise Fail("exception/receive", "receive: %s" % env.describe(e))
        if not m.queue:
            if gone and got == b"" and type(got) is bytes:
                self.count("end of file")
                return
            raise Fail("message", "receives %d bytes %r out of nothing" %
                       (len(got), got[:50]))
        want = m.queue.pop(0)
        if got != want or type(got) is not bytes:
            raise Fail("message", "receives %d bytes %r..., sent were %d "
                       "bytes %r..." % (len(got), got[:20], len(want),
                                        want[:20]))
        self.count("received")

    def gone(self, m):
        m.closed = True
        if m.server:
            for p in m.pending:
                p.lost = True
                p.reset = True
            m.pending = []
        elif m.peer is not None:
            m.peer.reset = True

    def op_close(self, slot):
        s, m = self.get(slot)
        if s is None:
            return
        n = self.lcount("closed")
        e = self.injected("close")
        try:
            s.close()
        except OSError as x:
            if x.errno != e:
                raise Fail("exception/close", "close: %s" % env.describe(x))
        except Exception as x:
            raise Fail("exception/close", "close: %s" % env.describe(x))
        self.gone(m)
        if self.lcount("closed") != n + 1:
            raise Fail("close", "%d sockets closed by close()" %
                       (self.lcount("closed") - n))

    def op_drop(self, slot):
        """the last reference goes away"""
        s, m = self.get(slot)
        if s is None:
            return
        self.injected("close")
        n = self.lcount("closed")
        del self.socks[slot]
        self.gone(m)
        del s
        gc.collect()
        if self.lcount("closed") != n + 1:
            raise Fail("close", "%d sockets closed by dropping one" %
                       (self.lcount("closed") - n))

    def op_reclose(self, slot):
        e = self.socks.get(slot)
        if e is None or not e[1].closed:
            return
        n = self.lcount("closed")
        try:
            e[0].close()
        except Exception:
            pass
        if self.lcount("closed") != n:
            raise Fail("close", "closed again")

    def op_after(self, slot, what):
        """use of a socket that is closed"""
        e = self.socks.get(slot)
        if e is None or not e[1].closed or not hasattr(e[0], what):
            return
        args = {"send": (b"x",), "get_attr": ("a",), "set_attr": ("a", 1),
                "set_target": (1,), "set_blocking": (True,)}.get(what, ())
        self.rejects(what + " after close", lambda: getattr(e[0],
                                                            what)(*args))

    def op_setattr(self, slot, name, v):
        s, m = self.get(slot)
        if s is None:
            return
        call = lambda: s.set_attr(name, v)
        before = self.seen(m, name)
        if not representable(v):
            self.rejects("set_attr", call)
            if self.seen(m, name) != before:
                raise Fail("attribute", "%s changed by a rejected value %r" %
                           (name, v))
            return
        e = self.injected("attr_set")
        if e:
            self.fails("set_attr", call, {e})
        elif name.startswith("ro."):
            self.fails("set_attr", call, {errno.EACCES})
        else:
            self.works("set_attr", call)
            self.check_attrs("set_attr", m, {name: v})

    def op_peerattr(self, slot, name, t, v):
        """an attribute the transport has"""
        s, m = self.conn(slot)
        if s is None:
            return
        v = bytes.fromhex(v)
        self.lib.fake_select(m.ident)
        self.lib.fake_set(name.encode(), TYPES[t], v, len(v))
        if t == "bool":
            m.attrs[name] = v != b"\0"
        elif t == "int64":
            m.attrs[name] = int.from_bytes(v, "little", signed=True)
        elif t == "str":
            m.attrs[name] = v[:-1].decode()
        else:
            m.attrs[name] = v
        m.big = getattr(m, "big", set()) - {name}
        if len(v) > 8192:
            m.big.add(name)

    def op_getattr(self, slot, name):
        s, m = self.get(slot)
        if s is None:
            return
        call = lambda: s.get_attr(name)
        e = self.injected("attr_get")
        if e:
            return self.fails("get_attr", call, {e})
        if name not in m.attrs:
            return self.fails("get_attr", call, {errno.ENOENT})
        want = m.attrs[name]
        if name in getattr(m, "big", ()):
            # beyond the binding's buffer: reported, or in full
            try:
                got = call()
            except OSError as x:
                if x.errno == errno.EOVERFLOW:
                    return
                raise Fail("errno/get_attr", env.describe(x))
        else:
            got = self.works("get_attr", call)
        if type(got) is not type(want) or got != want:
            raise Fail("attribute", "get_attr gives %r instead of %r" %
                       (got, want))
        self.count("attributes read")

    def op_target(self, slot, cond):
        s, m = self.get(slot)
        if s is None:
            return
        call = lambda: s.set_target(cond)
        e = self.injected("await")
        if e or cond & ~(4 if m.server else 3):
            self.rejects("set_target", call)
        else:
            self.works("set_target", call)
            m.target = cond
        self.lib.fake_select(m.ident)
        if self.lib.fake_target() != m.target:
            raise Fail("target", "target %d becomes %d" %
                       (m.target, self.lib.fake_target()))
        self.readiness(s, m)

    def readiness(self, s, m):
        if self.peek("fd"):
            return
        fd = self.works("fileno", s.fileno)
        got = bool(select.select([fd], [], [], 0)[0])
        if m.server:
            want = bool(m.target & 4 and m.pending)
        elif m.target & 2:
            return
        else:
            if m.reset:
                return
            gone = m.peer.closed if m.peer is not None else \
                getattr(m, "lost", False)
            want = bool(m.target & 1 and (m.queue or gone))
        if got != want:
            raise Fail("readiness", "descriptor is %sready with target %d" %
                       ("" if got else "not ", m.target))

    def peek(self, fun):
        return any(e[0] == fun for e in self.inj)

    def op_fileno(self, slot):
        s, m = self.get(slot)
        if s is None:
            return
        e = self.injected("fd")
        if e:
            self.fails("fileno", s.fileno, {e})
        else:
            self.works("fileno", s.fileno)
            self.readiness(s, m)

    def op_finish(self, slot):
        s, m = self.get(slot)
        if s is None:
            return
        e = self.injected("finish")
        if e:
            self.fails("finish", s.finish, {e})
        else:
            self.works("finish", s.finish)

    def op_blocking(self, slot, on):
        s, m = self.conn(slot)
        if s is None:
            return
        e = self.injected("set_blocking")
        if e:
            self.fails("set_blocking", lambda: s.set_blocking(on), {e})
        else:
            self.works("set_blocking", lambda: s.set_blocking(on))
            m.blocking = on
        self.modes(s, m)

    def modes(self, s, m):
        got = self.works("is_blocking", s.is_blocking)
        self.lib.fake_select(m.ident)
        if got is not m.blocking or \
           bool(self.lib.fake_blocking()) is not m.blocking:
            raise Fail("blocking", "is_blocking() gives %r instead of %r" %
                       (got, m.blocking))

    def op_inject(self, fun, err, skip):
        if fun not in FUNS or not hasattr(errno, err) or len(self.inj) > 20:
            return
        e = getattr(errno, err)
        self.lib.fake_inject(fun.encode(), e, int(skip))
        self.inj.append([fun, e, int(skip)])

    def run(self):
        for op in self.case["ops"]:
            fn = getattr(self, "op_" + str(op[0]), None) if op else None
            if fn is None:
                continue
            try:
                fn(*op[1:])
            except Fail as f:
                f.op = op
                raise
            if self.lcount("errors"):
                raise Fail("misuse", "the library is called wrongly: %s" %
                           self.lib.fake_last_error().decode())
            if self.lcount("map_new") != self.lcount("map_del"):
                raise Fail("map", "%d attribute maps created, %d destroyed" %
                           (self.lcount("map_new"), self.lcount("map_del")))
        self.lib.fake_clear_injected()
        self.inj = []
        # what is under way arrives
        for slot in sorted(self.socks):
            for _ in range(100):
                s, m = self.conn(slot)
                if s is None or not m.queue:
                    break
                self.op_receive(slot)
        s = m = fn = None
        self.socks = {}
        gc.collect()
        if self.lcount("opened") != self.lcount("closed"):
            raise Fail("leak", "%d sockets opened, %d closed" %
                       (self.lcount("opened"), self.lcount("closed")))
        if self.lcount("errors"):
            raise Fail("misuse", "the library is called wrongly: %s" %
                       self.lib.fake_last_error().decode())


def stuck(signo, frame):
    raise Fail("hang", "blocks for more than 30 s")


def run(case):
    r = Runner(case)
    r.lib.fake_track(True)
    # nothing that is done here may block
    signal.signal(signal.SIGALRM, stuck)
    signal.alarm(30)
    try:
        r.run()
    except Fail as f:
        return Outcome((f.args[0], "%s%s" % (
            f.args[1], " (in %r)" % f.op if hasattr(f, "op") else "")), True,
            r.st)
    finally:
        signal.alarm(0)
    return Outcome(None, bool(r.st.get("received") and r.st.get("failures")),
                   r.st)
