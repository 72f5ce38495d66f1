"""A simulated XCM transport and poll mechanism, under control of a test."""
import errno
import os
import random
import select
import socket
import types
import weakref

from .env import CLOCK, HarnessError, SELECT_IMPL

SO_RECEIVABLE = 1
SO_SENDABLE = 2
SO_ACCEPTABLE = 4
NONBLOCK = 1
MAX_MSG = 65535

error = socket.error

NET = None
FD_BASE = 100000


class Livelock(Exception):
    """The code under test keeps polling without making progress."""


def oserr(e):
    return OSError(e, os.strerror(e))


class Peer:
    """The far end of a connection to a server under test."""

    def __init__(self, net, slot, addr, ski=None):
        self.net = net
        self.slot = slot
        self.addr = addr
        self.ski = ski
        self.to_server = []
        self.received = []
        self.window = None          # None: unlimited
        self.limited = False        # whether it ever was not
        self.eof = False
        self.err = None             # errno given once input is exhausted
        self.send_err = None
        self.conn = None            # server-side socket once accepted
        self.server_closed = False
        self.attr_err = None        # attribute that cannot be retrieved
        self.gone = False           # gone already when it is accepted

    def push(self, data):
        self.to_server.append(data)

    @property
    def dead(self):
        return self.eof or self.err is not None or self.server_closed


class Sock:
    def __init__(self, net):
        self.net = net
        self.closed = False
        self.target = 0
        self.attrs_set = {}
        self.fd = net.alloc_fd(self)

    def _open(self):
        if self.closed:
            raise AssertionError("operation on closed socket")

    def fileno(self):
        self._open()
        return self.fd

    def set_target(self, condition):
        self._open()
        if condition & ~(SO_RECEIVABLE | SO_SENDABLE | SO_ACCEPTABLE):
            raise ValueError("invalid condition: '%d'" % condition)
        self.target = condition

    def finish(self):
        self._open()

    blocking = False

    def set_blocking(self, val):
        self._open()
        self.blocking = bool(val)

    def is_blocking(self):
        self._open()
        return self.blocking

    def would_block(self):
        if self.blocking:
            raise Livelock("blocking operation on the transport")
        raise oserr(errno.EAGAIN)

    def set_attr(self, name, value):
        self._open()
        self.check_attr(name)
        self.attrs_set[name] = value

    def check_attr(self, name):
        pass

    def close(self):
        self._open()
        self.closed = True
        self.net.free_fd(self.fd)
        self.closed_hook()

    def closed_hook(self):
        pass


class ConnSock(Sock):
    """Server-side end of a connection."""

    def __init__(self, net, peer):
        Sock.__init__(self, net)
        self.peer = peer
        if peer.gone:
            # released by being closed, or else along with the object
            net.socks[self.fd] = weakref.proxy(self)
            net.goners.append(weakref.ref(self))
        else:
            peer.conn = self

    def __del__(self):
        if self.peer.gone and not self.closed:
            self.close()

    def check_attr(self, name):
        p = self.peer
        if p.attr_err != name:
            return
        if name == "tls.peer_subject_key_id":
            raise oserr(errno.ENOENT)
        # the connection has failed
        p.to_server.clear()
        p.err = errno.ENOTCONN
        self.net.event("err", p, p.err)
        raise oserr(p.err)

    def get_attr(self, name):
        self._open()
        self.check_attr(name)
        if name == "xcm.remote_addr":
            return self.peer.addr
        if name == "xcm.transport":
            return self.peer.addr.split(":", 1)[0]
        if name == "tls.peer_subject_key_id":
            if self.peer.ski is None:
                raise oserr(errno.ENOENT)
            return self.peer.ski
        raise oserr(errno.ENOENT)

    def receive(self):
        self._open()
        p = self.peer
        if p.to_server:
            m = p.to_server.pop(0)
            self.net.event("recv", p, m)
            return m
        if p.err is not None:
            self.net.event("err", p, p.err)
            raise oserr(p.err)
        if p.eof:
            self.net.event("eof", p, None)
            return b''
        self.would_block()

    def send(self, msg):
        self._open()
        p = self.peer
        if not isinstance(msg, (bytes, bytearray)):
            raise TypeError("bytes expected")
        if p.send_err is not None:
            self.net.event("err", p, p.send_err)
            raise oserr(p.send_err)
        if p.err is not None:
            self.net.event("err", p, p.err)
            raise oserr(p.err)
        if p.eof:
            self.net.event("err", p, errno.EPIPE)
            raise oserr(errno.EPIPE)
        if len(msg) > MAX_MSG:
            self.net.event("toobig", p, len(msg))
            raise oserr(errno.EMSGSIZE)
        if p.window is not None:
            if p.window <= 0:
                self.would_block()
            p.window -= 1
        p.received.append(bytes(msg))
        self.net.event("send", p, bytes(msg))
        return 0

    def ready(self):
        p = self.peer
        broken = p.eof or p.err is not None
        if self.target & SO_RECEIVABLE and (p.to_server or broken):
            return True
        if self.target & SO_SENDABLE and \
           (p.window is None or p.window > 0 or broken or
                p.send_err is not None):
            return True
        return False

    def closed_hook(self):
        self.peer.server_closed = True
        self.net.event("close", self.peer, None)


# failed accepts at a socket of a domain until which connections at the
# other ones must have been accepted
PATIENCE = 100


class ServerSock(Sock):
    def __init__(self, net, addr, attrs):
        Sock.__init__(self, net)
        self.addr = addr
        self.attrs = dict(attrs)
        self.pending = []
        self.accept_errs = []
        self.passed_over = 0
        self.group = [self]         # the sockets of the domain
        self.limit = None
        self.blocking = bool(self.attrs.get("xcm.blocking", True))

    def accept(self, attrs={}):
        self._open()
        if self.accept_errs:
            self.watch_others()
            raise oserr(self.accept_errs.pop(0))
        while self.pending:
            peer = self.pending.pop(0)
            s = ConnSock(self.net, peer)
            s.listener = self
            self.passed_over = 0
            s.blocking = bool(attrs.get("xcm.blocking", self.blocking))
            if not peer.gone:
                self.net.event("accept", peer, self.addr)
            return s
        self.would_block()

    def watch_others(self):
        """This socket failing must not have connections at another socket
        wait for it to recover."""
        n = sum(getattr(s, "listener", None) in self.group
                for s in self.net.socks.values())
        for g in self.group:
            if g is not self and g.pending and not g.accept_errs and \
               (self.limit is None or n < self.limit):
                g.passed_over += 1
                if g.passed_over == PATIENCE:
                    self.net.event("passed-over", g.pending[0], g.addr)

    def ready(self):
        return bool(self.target & SO_ACCEPTABLE and
                    (self.pending or self.accept_errs))

    def closed_hook(self):
        self.net.servers.pop(self.addr, None)


class Net:
    MAX_POLLS = 200000

    def __init__(self, seed):
        global NET
        NET = self
        self.rng = random.Random(seed)
        self.socks = {}
        self.servers = {}
        self.server_attrs = []
        self.goners = []
        self.events = []
        self.epolls = []
        self.loop = None
        self.run_until = None
        self.polls = 0
        self.sched = "all"        # all, one, shuffle
        self.spurious = 0.0
        self.client_connect = None
        self.fail_bind = set()
        SELECT_IMPL["epoll"] = FakeEpoll
        SELECT_IMPL["poll"] = FakePoll

    def event(self, kind, peer, data):
        self.events.append((kind, peer, data, CLOCK.now))

    def alloc_fd(self, sock):
        fd = FD_BASE
        while fd in self.socks:
            fd += 1
        self.socks[fd] = sock
        return fd

    def free_fd(self, fd):
        del self.socks[fd]
        for e in self.epolls:
            e.fds.pop(fd, None)

    def connect(self, server_addr, peer):
        self.servers[server_addr].pending.append(peer)

    # called by an epoll instance
    def poll(self, ep, timeout):
        self.polls += 1
        if self.polls > self.MAX_POLLS:
            raise Livelock("event loop does not come to rest")
        ready = [fd for fd in sorted(ep.fds)
                 if fd in self.socks and ep.fds[fd] and self.socks[fd].ready()]
        if ready:
            if self.sched == "one":
                ready = [self.rng.choice(ready)]
            elif self.sched == "shuffle":
                self.rng.shuffle(ready)
                ready = ready[:self.rng.randint(1, len(ready))]
            if self.spurious and self.rng.random() < self.spurious:
                other = [fd for fd in ep.fds if fd in self.socks and
                         fd not in ready]
                if other:
                    ready.insert(self.rng.randint(0, len(ready)),
                                 self.rng.choice(other))
            return [(fd, select.EPOLLIN) for fd in ready]
        if self.run_until is None:
            raise HarnessError("poll outside of a run")
        if timeout is None or timeout < 0:
            wake = float("inf")
        else:
            wake = CLOCK.now + timeout
        if wake <= self.run_until:
            if wake <= CLOCK.now:
                # the sum of now and a tiny timeout may round to now
                import math
                wake = math.nextafter(CLOCK.now, float("inf"))
            CLOCK.now = wake
            return []
        if self.run_until > CLOCK.now:
            CLOCK.now = self.run_until
        self.stop_requested = True
        self.loop.stop()
        return []


class FakeEpoll:
    def __init__(self, *a, **kw):
        self.fds = {}
        self.net = NET
        self.net.epolls.append(self)

    def register(self, fd, eventmask=None):
        if hasattr(fd, "fileno"):
            fd = fd.fileno()
        if fd in self.fds:
            raise FileExistsError(errno.EEXIST, "File exists")
        if fd >= FD_BASE and fd not in self.net.socks:
            raise OSError(errno.EBADF, "Bad file descriptor")
        if eventmask is None:
            eventmask = select.EPOLLIN | select.EPOLLOUT | select.EPOLLPRI
        self.fds[fd] = eventmask

    def modify(self, fd, eventmask):
        if hasattr(fd, "fileno"):
            fd = fd.fileno()
        if fd not in self.fds:
            raise FileNotFoundError(errno.ENOENT, "No such file")
        self.fds[fd] = eventmask

    def unregister(self, fd):
        if hasattr(fd, "fileno"):
            fd = fd.fileno()
        if fd not in self.fds:
            raise FileNotFoundError(errno.ENOENT, "No such file")
        del self.fds[fd]

    def poll(self, timeout=None, maxevents=-1):
        return self.net.poll(self, timeout)

    def fileno(self):
        return 3

    def close(self):
        self.fds = {}


class FakePoll:
    """Blocking waits of the client library."""

    def __init__(self):
        self.fds = {}

    def register(self, fd, eventmask=0):
        if hasattr(fd, "fileno"):
            fd = fd.fileno()
        self.fds[fd] = eventmask

    def modify(self, fd, eventmask):
        self.fds[fd] = eventmask

    def unregister(self, fd):
        del self.fds[fd]

    def poll(self, timeout=None):
        return NET.client_poll(self, timeout)


def make_module():
    m = types.ModuleType("paf.xcm")
    m.SO_RECEIVABLE = SO_RECEIVABLE
    m.SO_SENDABLE = SO_SENDABLE
    m.SO_ACCEPTABLE = SO_ACCEPTABLE
    m.NONBLOCK = NONBLOCK
    m.MAX_MSG = MAX_MSG
    m.error = error

    def server(addr, attrs={}):
        NET.server_attrs.append((addr, dict(attrs)))
        if addr in NET.servers or addr in NET.fail_bind:
            raise oserr(errno.EADDRINUSE)
        s = ServerSock(NET, addr, attrs)
        NET.servers[addr] = s
        return s

    def connect(addr, flags=0, attrs={}):
        if NET.client_connect is None:
            raise oserr(errno.ECONNREFUSED)
        return NET.client_connect(addr, flags, dict(attrs))
    m.server = server
    m.connect = connect
    m.Socket = Sock
    m.ConnectionSocket = ConnSock
    m.ServerSocket = ServerSock
    return m
