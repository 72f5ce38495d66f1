"""Reference model of one Pathfinder domain, fed with what the server under
test did at its sockets (accepted, read, wrote, closed, and when).

It computes what the server should have written, in groups: groups of one
transaction are ordered, messages within a group are not."""
import json
from collections import deque

from . import reffilter, refproto

MAX_MSG = 65535
TOL = 1e-3
LATE = 0.5
HS_MIN, HS_MAX = 2.0, 3.5


class Divergence(Exception):
    def __init__(self, kind, detail, **info):
        super().__init__("%s: %s" % (kind, detail))
        self.kind = kind
        self.detail = detail
        self.info = info


DIRECTORY = ("hello", "publish", "unpublish", "subscribe", "services")


class Inconclusive(Exception):
    """The history left the part of the behaviour that is specified."""


class OneOf:
    def __init__(self, *vals):
        self.vals = vals

    def ok(self, v):
        return v in self.vals

    def __repr__(self):
        return "one of %r" % (sorted(self.vals),)


class Range:
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def ok(self, v):
        return not isinstance(v, bool) and isinstance(v, (int, float)) and \
            self.lo <= v <= self.hi

    def __repr__(self):
        return "%r..%r" % (self.lo, self.hi)


class Props:
    def __init__(self, canon):
        self.canon = canon

    def ok(self, v):
        return isinstance(v, dict) and all(
            isinstance(x, list) for x in v.values()) and \
            refproto.canon_props(v) == self.canon

    def __repr__(self):
        return repr(refproto.plain_props(self.canon))


class FilterEq:
    def __init__(self, ast):
        self.ast = ast

    def ok(self, v):
        if not isinstance(v, str):
            return False
        verdict, ast = reffilter.parse(v)
        return verdict != "bad" and \
            reffilter.norm(ast) == reffilter.norm(self.ast)

    def __repr__(self):
        return "a form of " + reffilter.show(self.ast)


class Exp:
    def __init__(self, cmd, mtype, fields=None, cause=None, nb=None, na=None,
                 opt=None, requires=None):
        self.cmd = cmd
        self.mtype = mtype
        self.fields = fields or {}
        self.cause = cause
        self.nb = nb
        self.na = na
        self.opt = opt or {}
        self.requires = requires
        self.done = False

    def matches(self, m):
        if m["ta-cmd"] != self.cmd or m["msg-type"] != self.mtype:
            return False
        rest = {k for k in m if k not in ("ta-cmd", "ta-id", "msg-type")}
        for k, v in self.fields.items():
            if k not in m:
                return False
            if hasattr(v, "ok"):
                if not v.ok(m[k]):
                    return False
            elif type(v) is not type(m[k]) or v != m[k]:
                return False
            rest.discard(k)
        for k, v in self.opt.items():
            if k in m and not v.ok(m[k]):
                return False
            rest.discard(k)
        return not rest

    def __repr__(self):
        return "<%s %s %s>" % (self.cmd, self.mtype, self.fields)


class Group:
    def __init__(self, batch=None):
        self.msgs = []
        self.batch = batch


class Svc:
    def __init__(self, sid):
        self.sid = sid
        self.orphan_since = None
        self.conn = None

    def due(self):
        return self.orphan_since + self.ttl

    def fields(self):
        f = {"generation": self.gen, "service-props": Props(self.props),
             "ttl": self.ttl, "client-id": self.client_id}
        if self.orphan_since is not None:
            f["orphan-since"] = Range(self.orphan_since - TOL,
                                      self.orphan_since + TOL)
        return f

    def matchable(self):
        return {k: [v for _, v in vs] for k, vs in self.props.items()}


class Sub:
    pass


class MConn:
    def __init__(self, peer, t):
        self.peer = peer
        self.accept_time = t
        self.client_id = None
        self.handshaked = False
        self.version = None
        self.user = user_of(peer)
        self.tas = {}
        self.track_ta = None
        self.query_out = None
        self.queried = False
        self.latency = None
        self.last_act = None
        self.mi_lo = self.mi_hi = None
        self.probe = None
        self.must_close = None
        self.must_close_cmd = None
        self.queues = {}
        self.generated = 0
        self.sent = 0
        self.closed = False
        self.recvd = 0
        self.waited = False


def user_of(peer):
    scheme, _, rest = peer.addr.partition(":")
    if scheme == "tls" and peer.ski is not None and \
       peer.attr_err != "tls.peer_subject_key_id":
        return "ski:" + ":".join("%02x" % b for b in peer.ski)
    if scheme in ("tls", "tcp"):
        return "ip:" + rest.rpartition(":")[0]
    return "default"


class DomainModel:
    def __init__(self, conf, stats):
        """conf: dict with vmin, vmax, idle_min, idle_max, user, total
        (each of the latter two with clients, subscriptions, services)."""
        self.conf = conf
        self.stats = stats
        self.peek = None
        self.services = {}
        self.subs = {}
        self.conns = []
        self.handshaked = {}
        self.batch = 0

    def st(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    # --- expectations

    def expect(self, conn, ta_id, exp, batch=None):
        q = conn.queues.setdefault(ta_id, deque())
        if batch is not None and q and q[-1].batch == batch:
            q[-1].msgs.append(exp)
        else:
            g = Group(batch)
            g.msgs.append(exp)
            q.append(g)
        conn.generated += 1
        return exp

    def complete(self, conn, m, **kw):
        return self.expect(conn, m["ta-id"], Exp(m["ta-cmd"], "complete", **kw))

    def accept(self, conn, m):
        return self.expect(conn, m["ta-id"], Exp(m["ta-cmd"], "accept"))

    def fail(self, conn, m, *reasons):
        self.st("fail:" + reasons[0])
        return self.expect(conn, m["ta-id"], Exp(
            m["ta-cmd"], "fail", {"fail-reason": OneOf(*reasons)},
            cause=tuple(reasons)))

    # --- limits

    def over(self, kind, user):
        if kind == "clients":
            users = [c.user for c in self.handshaked.values()]
        elif kind == "services":
            users = [s.user for s in self.services.values()]
        else:
            users = [s.user for s in self.subs.values()]
        ul, tl = self.conf["user"].get(kind), self.conf["total"].get(kind)
        return (tl is not None and len(users) >= tl) or \
            (ul is not None and users.count(user) >= ul)

    # --- idle bookkeeping

    def mi(self, conn):
        ttls = [s.ttl for s in self.services.values() if s.conn is conn]
        if ttls:
            return min(self.conf["idle_max"],
                       max(self.conf["idle_min"], min(ttls)))
        return self.conf["idle_max"]

    def active(self, conn, t):
        conn.last_act = t
        conn.probe = None
        conn.queried = False
        conn.mi_lo = conn.mi_hi = self.mi(conn)

    def touch_mi(self, conn):
        if conn is not None and conn.handshaked and not conn.closed:
            m = self.mi(conn)
            conn.mi_lo = min(conn.mi_lo, m)
            conn.mi_hi = max(conn.mi_hi, m)

    def idle_bounds(self, conn):
        """(earliest, latest) permissible time of an idle timeout"""
        if not conn.handshaked or conn.version < 3:
            return None
        lo = conn.last_act + 0.95 * conn.mi_lo
        hi = conn.last_act + 1.05 * conn.mi_hi
        if conn.probe is not None:
            lo = min(lo, conn.probe + 0.5 * conn.mi_lo)
            hi = min(hi, conn.probe + 0.5 * conn.mi_hi)
        return lo - TOL, hi + LATE

    # --- events from the transport

    def accepted(self, peer, t):
        conn = MConn(peer, t)
        peer.mconn = conn
        self.conns.append(conn)
        self.st("accepted")
        cap = self.conf["total"].get("clients")
        if cap is not None and len(self.conns) > cap:
            raise Divergence("cap", "%d connections open with a limit of %d"
                             % (len(self.conns), cap))

    def must(self, conn, why, cmd=None):
        if conn.must_close is None:
            conn.must_close = why
            conn.must_close_cmd = cmd

    def broken(self, peer, t):
        self.must(peer.mconn, "transport")

    def received(self, peer, data, t):
        self.purge(t, False)
        conn = peer.mconn
        if conn.must_close:
            return
        conn.recvd += 1
        if conn.generated - conn.sent >= 128:
            raise Divergence("throttle", "request read with %d messages queued"
                             % (conn.generated - conn.sent))
        verdict, m = refproto.parse(conn.version, data)
        if verdict == "gray":
            raise Inconclusive()
        if not conn.handshaked and conn.client_id is not None and \
           refproto.parse(3, data)[0] != verdict:
            # which version applies after a failed hello is not specified
            raise Inconclusive()
        if verdict != "ok":
            self.st("violation")
            self.must(conn, "protocol: %s" % m)
            return
        mt, cmd, ta_id = m["msg-type"], m["ta-cmd"], m["ta-id"]
        ta = conn.tas.get(ta_id)
        bad = None
        if mt not in refproto.CLIENT_TYPES:
            bad = "server type"
        elif ta is None and mt == "inform":
            bad = "inform without transaction"
        elif ta is not None and ta[0] != cmd:
            bad = "command differs from transaction"
        elif ta is not None and mt == "request":
            bad = "duplicate request"
        elif mt == "inform" and cmd != "track":
            bad = "inform in %s" % cmd
        if bad:
            self.st("violation")
            self.must(conn, "protocol: " + bad, cmd)
            return
        if not conn.handshaked and cmd != "hello":
            self.fail(conn, m, "no-hello")
            return
        if conn.handshaked:
            self.active(conn, t)
        if cmd in DIRECTORY and any(s.due() <= t + 1e-6
                                    for s in self.orphans_due()):
            # an orphan goes away at this very moment
            self.st("simultaneous expiry")
            raise Inconclusive()
        self.st("req:" + cmd)
        getattr(self, "do_" + cmd)(conn, m, t, mt)

    def closed(self, peer, t, why=None):
        self.purge(t, False)
        conn = peer.mconn
        if conn.must_close is None and not self.may_close(conn, t):
            raise Divergence("close:unexpected", "connection of %s closed "
                             "without a reason at %.3f" % (
                                 peer.slot, t), idle=conn.handshaked)
        self.disconnect(conn, t)

    def may_close(self, conn, t):
        if not conn.handshaked:
            ok = t >= conn.accept_time + HS_MIN - TOL
            if ok:
                self.st("handshake-timeout")
            return ok
        b = self.idle_bounds(conn)
        if b is not None and t >= b[0]:
            self.st("idle-timeout")
            if conn.probe is not None:
                self.st("probe-timeout")
            return True
        return False

    def disconnect(self, conn, t):
        conn.closed = True
        self.conns.remove(conn)
        if not conn.handshaked:
            return
        self.st("disconnect")
        del self.handshaked[conn.client_id]
        for sid in [i for i, s in self.subs.items() if s.conn is conn]:
            del self.subs[sid]
        self.batch += 1
        for s in self.services.values():
            if s.conn is conn:
                before = s.matchable()
                s.orphan_since = t
                s.conn = None
                self.st("orphaned")
                self.change(before, s, "orphan", self.batch)

    def sent(self, peer, data, t):
        self.purge(t, True)
        conn = peer.mconn
        conn.sent += 1
        if conn.waited:
            self.st("waited")
        try:
            m = json.loads(data.decode("utf-8"))
            if not isinstance(m, dict) or not isinstance(m["ta-cmd"], str) or \
               not isinstance(m["msg-type"], str):
                raise ValueError()
            ta_id = m["ta-id"]
            if isinstance(ta_id, bool) or not isinstance(ta_id, int):
                raise ValueError()
        except (ValueError, KeyError):
            raise Divergence("schema", "malformed message sent: %r" % data)
        if m["ta-cmd"] == "track" and m["msg-type"] == "notify" and \
           m.get("track-type") == "query":
            if self.idle_query(conn, m, t):
                return
        q = conn.queues.get(ta_id)
        if not q:
            raise Divergence("unexpected", "nothing expected, got %r at %.6f"
                             % (data, t), cmd=m["ta-cmd"], mt=m["msg-type"],
                             got=m, exp=None)
        g = q[0]
        for i, e in enumerate(g.msgs):
            if e.matches(m):
                if e.nb is not None and t < e.nb:
                    raise Divergence("early", "%r sent at %.6f, not due until "
                                     "%.6f" % (data, t, e.nb), exp=e, got=m,
                                     cmd=e.cmd, mt=e.mtype)
                if e.na is not None and t > e.na and not conn.peer.limited:
                    raise Divergence("late", "%r sent at %.6f, due by %.6f"
                                     % (data, t, e.na), exp=e, got=m,
                                     cmd=e.cmd, mt=e.mtype)
                if e.requires is not None and not e.requires.done:
                    raise Divergence("order", "%r sent before %r" %
                                     (data, e.requires), exp=e, got=m,
                                     cmd=e.cmd, mt=e.mtype)
                e.done = True
                del g.msgs[i]
                break
        else:
            raise Divergence("mismatch", "expected %s, got %r" %
                             (" or ".join(map(repr, g.msgs[:4])), data),
                             cmd=m["ta-cmd"], mt=m["msg-type"], got=m,
                             exp=g.msgs[0])
        if not g.msgs:
            q.popleft()
            if not q:
                del conn.queues[ta_id]

    def idle_query(self, conn, m, t):
        if m["ta-id"] in conn.queues or conn.track_ta != m["ta-id"] or \
           len(m) != 4:
            return False
        if conn.query_out is not None or conn.queried or conn.closed:
            raise Divergence("query", "superfluous track query", exp=None,
                             got=m, cmd="track", mt="notify")
        lo = conn.last_act + 0.45 * conn.mi_lo - TOL
        hi = conn.last_act + 0.55 * conn.mi_hi + LATE
        if not lo <= t <= hi and not conn.peer.limited:
            raise Divergence("query", "track query at %.3f, expected between "
                             "%.3f and %.3f" % (t, lo, hi), exp=None, got=m,
                             cmd="track", mt="notify")
        conn.query_out = t
        conn.queried = True
        conn.generated += 1
        self.st("idle-query")
        return True

    # --- commands

    def do_hello(self, conn, m, t, mt):
        cid = m["client-id"]
        if conn.client_id is None:
            conn.client_id = cid
        elif conn.client_id != cid:
            return self.fail(conn, m, "permission-denied")
        elif conn.handshaked:
            self.complete(conn, m, fields={"protocol-version": conn.version})
            return
        lo = max(m["protocol-minimum-version"], self.conf["vmin"])
        hi = min(m["protocol-maximum-version"], self.conf["vmax"])
        if lo > hi:
            return self.fail(conn, m, "unsupported-protocol-version")
        reasons = []
        cur = self.handshaked.get(cid)
        if cur is not None:
            reasons.append("client-id-exists")
            if cur.version >= 3:
                if cur.probe is None and cur.last_act is not None:
                    cur.probe = t
                if cur.track_ta is not None and cur.query_out is None:
                    self.expect(cur, cur.track_ta, Exp(
                        "track", "notify", {"track-type": "query"},
                        cause="probe"))
                    cur.query_out = t
                    cur.queried = True
                    self.st("probe-query")
        bound = {s.user for s in self.services.values() if s.client_id == cid}
        if cur is not None:
            bound.add(cur.user)
        if bound and conn.user not in bound:
            reasons.append("permission-denied")
        if self.over("clients", conn.user):
            reasons.append("insufficient-resources")
        if reasons:
            return self.fail(conn, m, *reasons)
        conn.handshaked = True
        conn.version = hi
        self.handshaked[cid] = conn
        self.active(conn, t)
        if bound:
            self.st("reconnect-with-orphans")
        self.complete(conn, m, fields={"protocol-version": hi})

    def do_ping(self, conn, m, t, mt):
        self.complete(conn, m)

    def do_track(self, conn, m, t, mt):
        ta_id = m["ta-id"]
        if mt == "request":
            if conn.track_ta is not None:
                return self.fail(conn, m, "track-exists")
            conn.track_ta = ta_id
            conn.tas[ta_id] = ("track",)
            self.accept(conn, m)
        elif m["track-type"] == "query":
            self.expect(conn, ta_id, Exp("track", "notify",
                                         {"track-type": "reply"}))
        elif m["track-type"] == "reply":
            if conn.query_out is None:
                if conn.peer.limited:
                    # the query may be waiting to be sent
                    raise Inconclusive()
                self.must(conn, "protocol: unsolicited reply", "track")
            else:
                conn.latency = (t - conn.query_out, t - (
                    conn.accept_time if conn.peer.limited
                    else conn.query_out))
                conn.query_out = None
                self.st("track-reply")
        else:
            self.must(conn, "protocol: track type", "track")

    def do_subscribe(self, conn, m, t, mt):
        sub_id = m["subscription-id"]
        ast = None
        reasons = []
        if "filter" in m:
            verdict, ast = reffilter.parse(m["filter"])
            if verdict == "gray":
                raise Inconclusive()
            if verdict != "ok":
                reasons.append("invalid-filter-syntax")
            elif self.too_large(conn, m, "subscriptions", {
                    "subscription-id": sub_id,
                    "filter": reffilter.show(ast)}):
                reasons.append("insufficient-resources")
        if sub_id in self.subs:
            reasons.append("subscription-id-exists")
        if self.over("subscriptions", conn.user):
            reasons.append("insufficient-resources")
        if reasons:
            return self.fail(conn, m, *reasons)
        s = Sub()
        s.sub_id, s.conn, s.ta_id, s.filter = sub_id, conn, m["ta-id"], ast
        s.client_id, s.user = conn.client_id, conn.user
        self.subs[sub_id] = s
        conn.tas[s.ta_id] = ("subscribe", s)
        self.accept(conn, m)
        self.batch += 1
        for svc in self.services.values():
            if self.sub_match(s, svc.matchable()):
                self.notify(s, "appeared", svc, "initial", self.batch)

    def sub_match(self, sub, props):
        return props is not None and (
            sub.filter is None or reffilter.match(sub.filter, props))

    def notify(self, sub, mtype, svc, cause, batch, **kw):
        f = {"match-type": mtype, "service-id": svc.sid}
        if mtype != "disappeared":
            f.update(svc.fields())
        self.st("notify:" + mtype)
        self.expect(sub.conn, sub.ta_id, Exp("subscribe", "notify", f,
                                             cause=cause, **kw), batch)

    def change(self, before, svc, cause, batch, removed=False, **kw):
        """before: matchable properties, or None if new"""
        after = None if removed else svc.matchable()
        for sub in self.subs.values():
            mb = self.sub_match(sub, before)
            ma = self.sub_match(sub, after)
            if mb and ma:
                self.notify(sub, "modified", svc, cause, batch, **kw)
            elif ma:
                self.notify(sub, "appeared", svc, cause, batch, **kw)
            elif mb:
                self.notify(sub, "disappeared", svc, cause, batch, **kw)

    def do_unsubscribe(self, conn, m, t, mt):
        sub = self.subs.get(m["subscription-id"])
        if sub is None:
            return self.fail(conn, m, "non-existent-subscription-id")
        if sub.client_id != conn.client_id:
            return self.fail(conn, m, "permission-denied")
        del self.subs[sub.sub_id]
        del sub.conn.tas[sub.ta_id]
        e = self.expect(sub.conn, sub.ta_id, Exp("subscribe", "complete"))
        self.complete(conn, m, requires=e)

    def do_subscriptions(self, conn, m, t, mt):
        self.accept(conn, m)
        self.batch += 1
        for s in self.subs.values():
            f = {"subscription-id": s.sub_id, "client-id": s.client_id}
            if s.filter is not None:
                f["filter"] = FilterEq(s.filter)
            self.expect(conn, m["ta-id"], Exp("subscriptions", "notify", f),
                        self.batch)
            self.st("listed-subscription")
        self.complete(conn, m)

    def do_services(self, conn, m, t, mt):
        ast = None
        if "filter" in m:
            verdict, ast = reffilter.parse(m["filter"])
            if verdict == "gray":
                raise Inconclusive()
            if verdict != "ok":
                return self.fail(conn, m, "invalid-filter-syntax")
        self.accept(conn, m)
        self.batch += 1
        for svc in self.services.values():
            if ast is None or reffilter.match(ast, svc.matchable()):
                f = {"service-id": svc.sid}
                f.update(svc.fields())
                self.expect(conn, m["ta-id"], Exp("services", "notify", f),
                            self.batch)
                self.st("listed-service")
                if svc.orphan_since is not None:
                    self.st("listed-orphan")
        self.complete(conn, m)

    def do_clients(self, conn, m, t, mt):
        self.accept(conn, m)
        self.batch += 1
        for c in self.handshaked.values():
            f = {"client-id": c.client_id, "client-address": c.peer.addr,
                 "time": Range(int(c.accept_time), int(c.accept_time + TOL))}
            if conn.version >= 3:
                idle = t - c.last_act
                f["idle"] = Range(0 if c.version < 3 else max(0, idle - TOL),
                                  idle + TOL)
                f["protocol-version"] = c.version
                if c.track_ta is not None and c.latency is not None:
                    f["latency"] = Range(max(0, c.latency[0] - TOL),
                                         c.latency[1] + TOL)
                    self.st("listed-latency")
            self.expect(conn, m["ta-id"], Exp("clients", "notify", f),
                        self.batch)
            self.st("listed-client")
        self.complete(conn, m)

    def too_large(self, conn, m, cmd, f):
        """Whether what is requested can't be told to anyone, since the
        message would be larger than the transport permits. In between of what
        is too large in any encoding, and what is small enough in any, the
        server may choose."""
        f = dict(f, **{"ta-cmd": cmd, "msg-type": "notify"})
        least = dict(f, **{"ta-id": 0, "client-id": 0})
        if cmd == "subscribe":
            least["match-type"] = "modified"
        rough = json.dumps(least)
        if len(rough) < MAX_MSG - 400:
            return False
        self.st("large " + m["ta-cmd"])
        if self.wire_size(least) > MAX_MSG + f.get("filter", "").count("!"):
            self.st("too large " + m["ta-cmd"])
            return True
        most = dict(f, **{"ta-id": refproto.INT_MAX,
                          "client-id": refproto.INT_MAX})
        if cmd == "subscribe":
            most["orphan-since"] = refproto.INT_MAX
        if len(json.dumps(most)) <= MAX_MSG:
            return False
        self.st("maybe too large " + m["ta-cmd"])
        if self.peek is None:
            raise Inconclusive()
        for a in self.peek(conn.peer):
            if a.get("ta-id") == m["ta-id"]:
                return a.get("fail-reason") == "insufficient-resources"
        raise Inconclusive()

    def wire_size(self, f):
        return len(json.dumps(f, ensure_ascii=False, separators=(",", ":"))
                   .encode("utf-8", "surrogatepass"))

    def do_publish(self, conn, m, t, mt):
        sid, gen, ttl = m["service-id"], m["generation"], m["ttl"]
        props = refproto.canon_props(m["service-props"])
        svc = self.services.get(sid)
        self.batch += 1
        f = {"match-type": "disappeared", "service-id": sid,
             "generation": gen, "service-props": refproto.plain_props(props),
             "ttl": ttl}
        if self.too_large(conn, m, "subscribe", f):
            # however many reasons there may be
            return self.fail(conn, m, "insufficient-resources",
                             "permission-denied", "old-generation",
                             "same-generation-but-different")
        if svc is None:
            if self.over("services", conn.user):
                return self.fail(conn, m, "insufficient-resources")
            svc = Svc(sid)
            svc.gen, svc.props, svc.ttl = gen, props, ttl
            svc.client_id, svc.user, svc.conn = conn.client_id, conn.user, conn
            self.services[sid] = svc
            self.st("published")
            self.change(None, svc, "publish", self.batch)
        else:
            reasons = []
            if svc.user != conn.user:
                reasons.append("permission-denied")
            if gen < svc.gen:
                reasons.append("old-generation")
            if gen == svc.gen and (ttl != svc.ttl or props != svc.props):
                reasons.append("same-generation-but-different")
            if reasons:
                # the reason reported is not ambiguous to a foreign user
                return self.fail(conn, m, *(reasons[:1]))
            before = svc.matchable()
            victim = svc.conn
            changed = gen > svc.gen or svc.client_id != conn.client_id or \
                svc.orphan_since is not None
            cause = "republish"
            if svc.orphan_since is not None:
                cause = "reclaim"
                self.st("reclaimed")
                if svc.client_id == conn.client_id:
                    self.st("reclaimed-by-self")
            if svc.client_id != conn.client_id:
                cause = "takeover" if cause == "republish" else cause
                self.st("takeover")
            if gen == svc.gen:
                self.st("refresh")
            svc.gen, svc.props, svc.ttl = gen, props, ttl
            svc.orphan_since = None
            svc.client_id, svc.conn = conn.client_id, conn
            if victim is not None and victim is not conn:
                self.touch_mi(victim)
            if changed:
                self.change(before, svc, cause, self.batch)
            self.st("republished")
        self.active(conn, t)
        self.complete(conn, m)

    def do_unpublish(self, conn, m, t, mt):
        svc = self.services.get(m["service-id"])
        if svc is None:
            return self.fail(conn, m, "non-existent-service-id")
        if svc.user != conn.user:
            return self.fail(conn, m, "permission-denied")
        self.batch += 1
        before = svc.matchable()
        if svc.client_id != conn.client_id or svc.orphan_since is not None:
            self.st("unpublish-foreign")
            victim = svc.conn
            svc.client_id, svc.conn = conn.client_id, conn
            svc.orphan_since = None
            self.touch_mi(victim)
            self.change(before, svc, "takeover", self.batch)
            self.batch += 1
        del self.services[svc.sid]
        self.st("unpublished")
        self.change(before, svc, "unpublish", self.batch, removed=True)
        self.active(conn, t)
        self.complete(conn, m)

    # --- time

    def orphans_due(self):
        return [s for s in self.services.values()
                if s.orphan_since is not None]

    def purge(self, t, inclusive):
        while True:
            due = [s for s in self.orphans_due()
                   if (s.due() <= t if inclusive else s.due() < t - 1e-6)]
            if not due:
                return
            first = min(s.due() for s in due)
            self.batch += 1
            for s in due:
                if s.due() <= first + 1e-6:
                    del self.services[s.sid]
                    self.st("purged")
                    self.change(s.matchable(), s, "purge", self.batch,
                                removed=True, nb=s.due() - 1e-6,
                                na=s.due() + LATE)

    def quiescent(self, t, pending):
        """Called once the server has nothing more to do at time t. pending:
        number of peers waiting to be accepted."""
        self.purge(t, True)
        for conn in self.conns:
            if conn.must_close:
                raise Divergence("close:missing", "connection of peer %s still "
                                 "open (%s)" % (conn.peer.slot, conn.must_close),
                                 why=conn.must_close, cmd=conn.must_close_cmd)
            if not conn.handshaked:
                if t > conn.accept_time + HS_MAX:
                    raise Divergence("close:missing", "connection without "
                                     "handshake open for %.1f s" %
                                     (t - conn.accept_time), why="handshake",
                                     cmd=None)
            else:
                b = self.idle_bounds(conn)
                if b is not None and t > b[1]:
                    raise Divergence("close:missing", "connection idle since "
                                     "%.3f still open at %.3f" % (conn.last_act,
                                                                  t),
                                     why="idle", cmd=None)
                if conn.version == 3 and conn.track_ta is not None and \
                   conn.query_out is None and not conn.queried and \
                   t > conn.last_act + 0.55 * conn.mi_hi + LATE and \
                   not conn.peer.limited:
                    raise Divergence("query", "no track query to connection "
                                     "idle since %.3f at %.3f" %
                                     (conn.last_act, t), exp=None, got=None,
                                     cmd="track", mt="notify")
            w = conn.peer.window
            queued = conn.generated - conn.sent
            if queued > 0 and (w is None or w > 0):
                for ta_id, q in conn.queues.items():
                    for g in q:
                        e = g.msgs[0]
                        raise Divergence("missing", "never sent to peer %s: "
                                         "%r in transaction %d" % (
                                             conn.peer.slot, e, ta_id),
                                         exp=e, got=None, cmd=e.cmd,
                                         mt=e.mtype, limited=w is not None)
            if queued > 0:
                conn.waited = True
                if queued >= 128:
                    self.st("throttled")
            if conn.peer.to_server and queued < 128:
                raise Divergence("unread", "%d messages from peer %s not read"
                                 % (len(conn.peer.to_server), conn.peer.slot))
            if conn.peer.eof or conn.peer.err is not None:
                raise Divergence("close:missing", "the end of peer %s's "
                                 "connection goes unnoticed" %
                                 conn.peer.slot, why="transport", cmd=None)
        cap = self.conf["total"].get("clients")
        if pending:
            self.st("waiting")
        if pending and (cap is None or len(self.conns) < cap):
            raise Divergence("accept", "%d connections not accepted with %d "
                             "open" % (pending, len(self.conns)))

    def ambiguous(self, t):
        """Whether an orphan may or may not be gone at t; returns a later
        time at which this is settled."""
        for s in self.orphans_due():
            if t - LATE < s.due() <= t + 1e-6:
                return s.due() + LATE + 0.01
        return None
