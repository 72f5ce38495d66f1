"""Simulated transport, clock and poll, to run the real server code on."""
import errno
import json
import os
import random
import select
import signal
import socket
import sys
import time
import types

sys.path.insert(0, os.getcwd())


class Net:
    now = 1700000000.0
    deadline = 0.0
    loop = None
    fds = {}
    listeners = {}
    next_fd = 5000


def err(e):
    return OSError(e, os.strerror(e))


RECEIVABLE, SENDABLE, ACCEPTABLE = 1, 2, 4


class Sock:
    def __init__(self):
        Net.next_fd += 1
        self.fd = Net.next_fd
        self.target = 0
        self.closed = False
        Net.fds[self.fd] = self

    def fileno(self):
        return self.fd

    def set_target(self, condition):
        assert not self.closed
        self.target = condition

    def finish(self):
        pass

    def set_attr(self, name, value):
        pass

    def close(self):
        assert not self.closed
        self.closed = True
        del Net.fds[self.fd]


class Conn(Sock):
    """One end of a connection."""

    def __init__(self, remote, ski=None):
        Sock.__init__(self)
        self.remote = remote
        self.ski = ski
        self.rx = []
        self.peer = None
        self.eof = False
        self.window = None       # messages which may be sent
        self.send_error = None

    def get_attr(self, name):
        if name == "xcm.remote_addr":
            return self.remote
        if name == "xcm.transport":
            return self.remote.split(":")[0]
        if name == "tls.peer_subject_key_id" and self.ski is not None:
            return self.ski
        raise err(errno.ENOENT)

    def ready(self):
        r = RECEIVABLE if self.rx or self.eof else 0
        if self.window is None or self.window > 0:
            r |= SENDABLE
        return r & self.target

    def receive(self):
        assert not self.closed
        if self.rx:
            return self.rx.pop(0)
        if self.eof:
            return b''
        raise err(errno.EAGAIN)

    def send(self, msg):
        assert not self.closed
        if self.send_error is not None:
            raise err(self.send_error)
        if self.eof:
            raise err(errno.EPIPE)
        if self.window is not None:
            if self.window == 0:
                raise err(errno.EAGAIN)
            self.window -= 1
        self.peer.rx.append(bytes(msg))

    def close(self):
        Sock.close(self)
        if self.peer is not None:
            self.peer.eof = True


class Listener(Sock):
    def __init__(self, addr):
        Sock.__init__(self)
        self.backlog = []
        self.accept_error = None
        Net.listeners[addr] = self

    def ready(self):
        return (ACCEPTABLE if self.backlog else 0) & self.target

    def accept(self, attrs={}):
        assert not self.closed
        if not self.backlog:
            raise err(errno.EAGAIN)
        return self.backlog.pop(0)


def link(addr, remote, ski=None):
    far, near = Conn(addr), Conn(remote, ski)
    far.peer, near.peer = near, far
    Net.listeners[addr].backlog.append(near)
    return far


class Epoll:
    def __init__(self):
        self.reg = set()

    def register(self, fd, mask=0):
        if fd in self.reg:
            raise err(errno.EEXIST)
        self.reg.add(fd)

    def modify(self, fd, mask):
        if fd not in self.reg:
            raise err(errno.ENOENT)

    def unregister(self, fd):
        if fd not in self.reg:
            raise err(errno.ENOENT)
        self.reg.remove(fd)

    def close(self):
        pass

    def poll(self, timeout=None, maxevents=-1):
        ready = [(fd, select.EPOLLIN) for fd in sorted(self.reg)
                 if fd in Net.fds and Net.fds[fd].ready()]
        if ready:
            return ready
        if timeout is None or timeout < 0 or \
           Net.now + timeout >= Net.deadline:
            Net.now = max(Net.now, Net.deadline)
            Net.loop.stop()
        else:
            Net.now += timeout + 1e-6
        return []


xcm = types.ModuleType("paf.xcm")
xcm.error = socket.error
xcm.SO_RECEIVABLE, xcm.SO_SENDABLE, xcm.SO_ACCEPTABLE = 1, 2, 4
xcm.NONBLOCK = 1
xcm.server = lambda addr, attrs={}: Listener(addr)
xcm.connect = lambda addr, flags=0, attrs={}: link(addr, "ux:client")
import paf
sys.modules["paf.xcm"] = xcm
paf.xcm = xcm
import logging
import logging.handlers
logging.disable(logging.CRITICAL)
logging.raiseExceptions = False
import paf.logging

time.time = lambda: Net.now
random.seed(4711)
select.epoll = Epoll
import paf.eventloop
import paf.conf
import paf.sd
import paf.server


def start(*addrs, name="d", user={}, total={}, versions=(2, 3),
          idle=(4, 30)):
    """One server, on the loop shared by all servers of this process."""
    if Net.loop is None:
        Net.loop = paf.eventloop.EventLoop()
    conf = paf.conf.Conf()
    limit = paf.conf.ProtoVersionLimitConf(*versions)
    domain = conf.add_domain(name, limit, paf.sd.IdleLimit(*idle))
    for addr in addrs or ("ux:srv",):
        domain.add_socket(addr, {})
    return paf.server.create(name, domain.sockets, paf.sd.resources(**user),
                             paf.sd.resources(**total), limit,
                             domain.idle_limit, Net.loop)


def run(seconds=0.0):
    """Have the event loop run until 'seconds' from now."""
    Net.deadline = Net.now + seconds
    Net.loop.run()


class Client:
    def __init__(self, cid=None, version=3, addr="ux:srv", remote="ux:client",
                 ski=None, hello=True):
        self.sock = link(addr, remote, ski)
        self.cid = cid
        self.ta_id = 0
        self.msgs = []
        run()
        if cid is not None and hello:
            r = self.hello(cid, version, version)
            assert r[-1]["msg-type"] == "complete", r

    def hello(self, cid, vmin=3, vmax=3):
        return self.req("hello", **{"client-id": cid,
                                    "protocol-minimum-version": vmin,
                                    "protocol-maximum-version": vmax})

    def send(self, cmd, ta_id=None, msg_type="request", **fields):
        if ta_id is None:
            ta_id = self.ta_id
            self.ta_id += 1
        msg = {"ta-cmd": cmd, "ta-id": ta_id, "msg-type": msg_type}
        for k, v in fields.items():
            msg[k.replace("_", "-")] = v
        self.sock.send(json.dumps(msg).encode())
        return ta_id

    def poll(self):
        while self.sock.rx:
            self.msgs.append(json.loads(self.sock.rx.pop(0)))

    def get(self, ta_id):
        self.poll()
        return [m for m in self.msgs if m["ta-id"] == ta_id]

    def req(self, cmd, **fields):
        ta_id = self.send(cmd, **fields)
        run()
        return self.get(ta_id)

    def ok(self, cmd, **fields):
        r = self.req(cmd, **fields)
        assert r and r[-1]["msg-type"] == "complete", (cmd, fields, r)
        return r[:-1]

    def fails(self, reason, cmd, **fields):
        r = self.req(cmd, **fields)
        assert r and r[-1]["msg-type"] == "fail" and \
            r[-1]["fail-reason"] == reason, (cmd, fields, r)

    def publish(self, sid, gen=1, props=None, ttl=10):
        self.ok("publish", service_id=sid, generation=gen,
                service_props={} if props is None else props, ttl=ttl)

    def subscribe(self, sub_id, **kw):
        return self.send("subscribe", subscription_id=sub_id, **kw)

    def events(self, ta_id):
        run()
        return [(m["match-type"], m["service-id"]) for m in self.get(ta_id)
                if m["msg-type"] == "notify"]

    def services(self, **kw):
        return {m["service-id"]: m for m in self.ok("services", **kw)
                if m["msg-type"] == "notify"}

    def clients(self):
        return {m["client-id"]: m for m in self.ok("clients")
                if m["msg-type"] == "notify"}

    def alive(self):
        return not self.sock.eof

    def close(self):
        self.sock.close()
        run()


def check(cond, *what):
    if not cond:
        print("FAILED:", *what)
        sys.exit(1)


def eq(got, expected, what=""):
    check(got == expected, what, "expected", expected, "got", got)


def done():
    print("ok")
    sys.stdout.flush()
    os._exit(0)
