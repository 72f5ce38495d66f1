"""Generation of histories (lists of operations, see sim.Runner).

The generator keeps a rough picture of what the history has built up so far,
to be able to aim operations at something. The picture need not be right."""
import json

from . import reffilter
from .sim import BAD_FILTERS, BIG_IDLE, FILTERS, PROPSETS, USERS, \
    default_domain

BASE = dict(
    up=4, hello=0.5, pub=6, repub=5, takeover=2, foreign=1.5, unpub=2,
    sub=4, unsub=1.5, list=3, lists=0.5, ping=0.5, close=3, reconnect=3,
    adv=2, expire=2.5, linger=0.4, track=0, tinf=0, junk=0, badfilter=0.3, rehello=0.3,
    window=0, multi=0, dupta=0, nohello=0, conn=0, reuse=0.3, probe=0,
    accerr=0, attrerr=0, flood=0, churn=0, stall=0, bulk=0.15,
)


class Gen:
    def __init__(self, rng, weights=None, length=(8, 30), slots=6, cids=5,
                 users=(0, 0, 1), sids=4, subs=4, ttls=(0, 1, 2, 5, 10, 60),
                 versions=(2, 3, 3), gens=(0, 1, 2, 3, 5), conf=None,
                 sync=None, propsets=None, filters=None, swarm=True,
                 closes=("eof", "eof", "reset", "timeout"), warm=None):
        self.rng = rng
        w = dict(BASE)
        w.update(weights or {})
        if swarm:
            # leave out some features, in order to get more of the others
            for k in list(w):
                if k not in ("up", "pub", "repub", "list") and \
                   rng.random() < 0.2:
                    w[k] = 0
        self.w = {k: v for k, v in w.items() if v > 0}
        self.length = length
        self.nslots, self.ncids = slots, cids
        self.users = users
        self.nsids, self.nsubs = sids, subs
        self.ttls, self.versions, self.gens = ttls, versions, gens
        self.conf = dict(conf or {})
        self.closes = closes
        self.filters = filters
        self.propsets = propsets
        self.domains = self.conf.get("domains") or [default_domain()]
        self.conf.setdefault("domains", self.domains)
        if sync is None:
            sync = rng.random() < 0.75
        self.sync = sync
        if not sync:
            self.ttls = tuple(max(1, t) for t in ttls)
        if "sched" not in self.conf:
            self.conf["sched"] = rng.choice(["all", "all", "one", "shuffle"])
            if rng.random() < 0.3:
                self.conf["spurious"] = 0.2
        # ids which are easily confused
        self.ids = (0, 1)
        if rng.random() < 0.25:
            self.ids = rng.choice([(2**60, 1), (2**63 - 1, -1), (5, 2**32),
                                   (1, 2**53), (0, 2**55), (3, 10**6)])
        self.slots = {}         # slot -> dict(cid, user, dom, services, subs)
        self.svcs = {}          # (dom, sid) -> dict
        self.subsl = {}         # (dom, sub) -> slot
        self.now = 0.0
        self.ops = []
        self.warm = warm
        self.extra = 0

    # --- helpers

    def emit(self, *op):
        op = list(op)
        # the ids which are actually used
        if op[0] == "up":
            op[4] = self.actual(op[4])
        elif op[0] in ("hello", "sub", "unsub"):
            op[2] = self.actual(op[2])
        elif op[0] in ("pub", "unpub") and self.ids[1] != 1:
            op[2] = self.actual(op[2])
        elif op[0] == "msg" and isinstance(op[2], dict):
            op[2] = {k: self.actual(v) if k in (
                "client-id", "subscription-id") else v
                for k, v in op[2].items()}
        self.ops.append(op)

    def actual(self, ident):
        return (self.ids[0] + ident * self.ids[1]) % 2**63

    def live(self, **kw):
        return [s for s, d in self.slots.items() if d is not None and
                all(d.get(k) == v for k, v in kw.items())]

    def pick_slot(self, **kw):
        c = self.live(**kw)
        return self.rng.choice(c) if c else None

    def free_slot(self):
        c = [s for s in range(self.nslots) if self.slots.get(s) is None]
        return self.rng.choice(c) if c else None

    def user_for(self, cid):
        if self.rng.random() < 0.08:
            return self.rng.choice(self.users)
        return self.users[cid % len(self.users)]

    def flt(self):
        r = self.rng
        if self.filters is not None:
            return r.choice(self.filters)
        x = r.random()
        if x < 0.35:
            return None
        if x < 0.7:
            return r.randrange(len(FILTERS))
        return reffilter.show(reffilter.gen(
            r, keys=["name", "k"], vals=["a", "b", "ab", "5", "42"],
            ints=(-7, 1, 5, 42), d=2))

    def props(self):
        r = self.rng
        if self.propsets is not None:
            return r.choice(self.propsets)
        if r.random() < 0.75:
            return r.randrange(len(PROPSETS))
        return {k: [r.choice(["a", "b", "ab", "aab", "", 1, 5, 42, "42", -7])
                    for _ in range(r.choice([0, 1, 1, 2, 3]))]
                for k in r.sample(["name", "k", "x", "y"], r.randint(0, 3))}

    def sid(self):
        x = self.rng.randrange(self.nsids)
        return [11, 12, 0, 2**63 - 1, 14, 15, 16, 17, 18, 19, 20, 21][x % 12] \
            if x < 12 else 100 + x

    def connected(self, slot, cid, user, dom):
        self.slots[slot] = dict(cid=cid, user=user, dom=dom, ok=True)

    # --- operations

    def op_up(self, cid=None, user=None, dom=None):
        r = self.rng
        s = self.free_slot()
        if s is None:
            return
        if dom is None:
            dom = r.randrange(len(self.domains))
        if cid is None:
            used = {d["cid"] for d in self.slots.values()
                    if d is not None and d["dom"] == dom}
            c = [c for c in range(1, self.ncids + 1) if c not in used]
            if c and r.random() < 0.9:
                cid = r.choice(c)
            else:
                cid = r.randint(1, self.ncids)
        if user is None:
            user = self.user_for(cid)
        nsock = self.domains[dom].get("socks", 1)
        if nsock > 1 or r.random() < 0.15:
            self.emit("conn", s, dom, r.randrange(nsock), user)
            lo = r.choice([0, 1, 2, 2, 2, 3])
            self.emit("hello", s, cid, lo, max(lo, r.choice(self.versions)))
        else:
            self.emit("up", s, dom, user, cid, r.choice(self.versions))
        self.connected(s, cid, user, dom)
        return s

    def op_conn(self):
        s = self.free_slot()
        if s is None:
            return
        d = self.rng.randrange(len(self.domains))
        self.emit("conn", s, d, self.rng.randrange(4),
                  self.rng.choice(self.users))
        self.connected(s, None, 0, d)

    def op_hello(self):
        s = self.pick_slot()
        if s is None:
            return
        r = self.rng
        cid = self.slots[s]["cid"]
        if cid is None or r.random() < 0.3:
            cid = r.randint(1, self.ncids)
            self.slots[s]["cid"] = self.slots[s]["cid"] or cid
        lo, hi = r.choice([(2, 3), (2, 3), (2, 2), (3, 3), (0, 2), (3, 9),
                           (0, 1), (4, 9), (3, 2), (2, 2**63 - 1), (0, 0)])
        self.emit("hello", s, cid, lo, hi)

    op_rehello = op_hello

    def op_probe(self):
        """hello with the id of somebody who is connected"""
        s = self.pick_slot()
        f = self.free_slot()
        if s is None or f is None or self.slots[s]["cid"] is None:
            return
        d = self.slots[s]
        self.emit("up", f, d["dom"], d["user"], d["cid"],
                  self.rng.choice(self.versions))
        self.connected(f, d["cid"], d["user"], d["dom"])

    def publish(self, s, sid, gen, props, ttl):
        d = self.slots[s]
        self.emit("pub", s, sid, gen, props, ttl)
        self.svcs[(d["dom"], sid)] = dict(
            gen=gen, props=props, ttl=ttl, slot=s, cid=d["cid"],
            user=d["user"], orphan=None)

    def op_pub(self):
        s = self.pick_slot()
        if s is None:
            return self.op_up()
        self.publish(s, self.sid(), self.rng.choice(self.gens), self.props(),
                     self.rng.choice(self.ttls))

    def pick_svc(self, **kw):
        c = [k for k, v in self.svcs.items()
             if all(v.get(a) == b for a, b in kw.items())]
        return self.rng.choice(sorted(c)) if c else None

    def republish(self, s, key, mode=None):
        r = self.rng
        v = self.svcs[key]
        mode = mode or r.choice(["same", "same", "higher", "higher",
                                 "higher-same", "lower", "props", "ttl"])
        gen, props, ttl = v["gen"], v["props"], v["ttl"]
        if mode == "higher":
            gen += r.choice([1, 1, 7])
            props, ttl = self.props(), r.choice(self.ttls)
        elif mode == "higher-same":
            gen += 1
        elif mode == "lower":
            gen = max(0, gen - 1)
        elif mode == "props":
            props = self.props()
        elif mode == "ttl":
            ttl = r.choice(self.ttls)
        ok = gen > v["gen"] or (gen == v["gen"] and props == v["props"] and
                                ttl == v["ttl"])
        if ok and v["user"] == self.slots[s]["user"]:
            self.publish(s, key[1], gen, props, ttl)
        else:
            self.emit("pub", s, key[1], gen, props, ttl)

    def op_repub(self):
        key = self.pick_svc()
        if key is None:
            return self.op_pub()
        v = self.svcs[key]
        s = v["slot"]
        if self.slots.get(s) is None or self.slots[s]["cid"] != v["cid"] or \
           self.slots[s]["dom"] != key[0]:
            s = self.pick_slot(cid=v["cid"], dom=key[0])
        if s is None:
            s = self.pick_slot(dom=key[0])
        if s is not None:
            self.republish(s, key)

    def op_takeover(self):
        key = self.pick_svc()
        if key is None:
            return
        s = self.pick_slot(user=self.svcs[key]["user"], dom=key[0])
        if s is not None:
            self.republish(s, key)

    def op_foreign(self):
        key = self.pick_svc()
        if key is None:
            return
        s = self.pick_slot(dom=key[0])
        if s is None:
            return
        if self.rng.random() < 0.5:
            self.republish(s, key)
        else:
            self.emit("unpub", s, key[1])

    def op_unpub(self):
        r = self.rng
        key = self.pick_svc()
        if key is None or r.random() < 0.1:
            s = self.pick_slot()
            if s is not None:
                self.emit("unpub", s, self.sid())
            return
        v = self.svcs[key]
        s = v["slot"]
        if self.slots.get(s) is None or r.random() < 0.3 or \
           self.slots[s]["dom"] != key[0]:
            s = self.pick_slot(dom=key[0])
        if s is None:
            return
        self.emit("unpub", s, key[1])
        if self.slots[s]["user"] == v["user"]:
            del self.svcs[key]

    def op_sub(self):
        s = self.pick_slot()
        if s is None:
            return self.op_up()
        sub = self.rng.randrange(self.nsubs)
        self.emit("sub", s, sub, self.flt())
        self.subsl.setdefault((self.slots[s]["dom"], sub), s)

    def op_badfilter(self):
        s = self.pick_slot()
        if s is None:
            return
        if self.rng.random() < 0.5:
            self.emit("sub", s, self.rng.randrange(self.nsubs),
                      self.rng.choice(BAD_FILTERS))
        else:
            self.emit("list", s, "services", self.rng.choice(BAD_FILTERS))

    def op_unsub(self):
        r = self.rng
        if self.subsl and r.random() < 0.85:
            key = r.choice(sorted(self.subsl))
            s = self.subsl[key]
            if r.random() < 0.2 or self.slots.get(s) is None:
                s = self.pick_slot(dom=key[0])
            else:
                del self.subsl[key]
            sub = key[1]
        else:
            s = self.pick_slot()
            sub = r.randrange(self.nsubs)
        if s is not None:
            self.emit("unsub", s, sub)

    def op_list(self):
        s = self.pick_slot()
        if s is not None:
            self.emit("list", s, "services",
                      self.flt() if self.rng.random() < 0.4 else None)

    def op_lists(self):
        s = self.pick_slot()
        if s is not None:
            self.emit("list", s,
                      self.rng.choice(["clients", "subscriptions"]))

    def op_ping(self):
        s = self.pick_slot()
        if s is not None:
            self.emit("ping", s)

    def op_track(self):
        s = self.pick_slot()
        if s is not None:
            self.emit("track", s)
            if self.rng.random() < 0.6:
                self.emit("auto", s, True)

    def op_tinf(self):
        s = self.pick_slot()
        if s is not None:
            self.emit("tinf", s, self.rng.choice(
                ["query", "query", "reply", "other"]))

    def closed(self, s):
        self.slots[s] = None
        for v in self.svcs.values():
            if v["slot"] == s and v["orphan"] is None:
                v["orphan"] = self.now
        for k in [k for k, x in self.subsl.items() if x == s]:
            del self.subsl[k]

    def op_close(self, s=None):
        if s is None:
            owners = {v["slot"] for v in self.svcs.values()
                      if v["orphan"] is None}
            c = [x for x in self.live() if x in owners]
            if c and self.rng.random() < 0.6:
                s = self.rng.choice(c)
            else:
                s = self.pick_slot()
        if s is not None:
            how = self.rng.choice(self.closes)
            self.emit("close", s, how)
            if how != "broken" or self.rng.random() < 0.5:
                self.closed(s)
        return s

    def op_reconnect(self):
        """An owner goes away (or is away already) and comes back to
        republish."""
        r = self.rng
        key = self.pick_svc()
        if key is None:
            return
        v = self.svcs[key]
        s = v["slot"]
        if v["orphan"] is None:
            if self.slots.get(s) is None:
                return
            self.op_close(s)
            if r.random() < 0.5:
                self.adv(r.choice([0.1, 0.5, 1, v["ttl"] / 2]))
        n = self.pick_slot(cid=v["cid"], dom=key[0])
        if n is None:
            n = self.op_up(cid=v["cid"], user=v["user"], dom=key[0])
        if n is None:
            return
        if r.random() < 0.85:
            self.republish(n, key, r.choice(["same", "same", "higher",
                                             "higher-same", None]))
        if r.random() < 0.25:
            for k in sorted(self.svcs):
                if self.svcs[k]["cid"] == v["cid"] and k[0] == key[0]:
                    self.republish(n, k, "same")

    def op_linger(self):
        """A client leaves orphans on more than one old connection; its id
        is then used by itself, or by another user."""
        r = self.rng
        dom = r.randrange(len(self.domains))
        cid = r.randint(1, self.ncids)
        user = self.user_for(cid)
        for s in self.live(cid=cid, dom=dom):
            self.op_close(s)
        for _ in range(r.choice([1, 2, 2, 3])):
            s = self.op_up(cid=cid, user=user, dom=dom)
            if s is None:
                return
            for _ in range(r.choice([1, 1, 2])):
                if r.random() < 0.8:
                    self.publish(s, self.sid(), r.choice(self.gens),
                                 self.props(), r.choice([5, 60, 100, 300]))
                else:
                    self.op_sub()
            self.op_close(s)
            if r.random() < 0.3:
                self.adv(r.choice([0.1, 1, 3, 70]))
        if r.random() < 0.8:
            s = self.op_up(cid=cid, user=r.choice(self.users), dom=dom)
            if s is not None and r.random() < 0.5:
                self.op_reconnect()

    def adv(self, dt):
        dt = round(max(0.0, dt), 6)
        self.emit("adv", dt)
        self.now += dt
        for k in [k for k, v in self.svcs.items() if v["orphan"] is not None
                  and v["orphan"] + v["ttl"] < self.now - 30]:
            del self.svcs[k]

    def op_adv(self):
        r = self.rng
        self.adv(r.choice([0.001, 0.3, 1, 1, 2.5, 4, 7, 15, r.random() * 5]))

    def op_expire(self):
        """Move to about the expiration time of an orphan."""
        r = self.rng
        orphans = [v for v in self.svcs.values() if v["orphan"] is not None]
        if not orphans:
            return self.op_close()
        v = r.choice(orphans)
        left = v["orphan"] + v["ttl"] - self.now
        if left > 4000 or left < 0:
            return self.op_adv()
        self.adv(left + r.choice([-1, -0.3, -0.01, -0.001, 0.001, 0.6, 2]))

    def op_multi(self):
        """several requests at once"""
        n = self.rng.randint(2, 6)
        for _ in range(n):
            self.step(["pub", "repub", "sub", "list", "ping", "unpub",
                       "unsub"])

    def op_dupta(self):
        """an id of an earlier transaction, live or not, used again"""
        s = self.pick_slot()
        if s is None:
            return
        ta = self.rng.randint(0, 8)
        self.emit("msg", s, self.request(ta))

    def request(self, ta):
        r = self.rng
        m = {"ta-cmd": r.choice(["ping", "services", "subscribe", "track",
                                 "hello", "clients", "unsubscribe",
                                 "subscriptions", "publish", "unpublish"]),
             "ta-id": ta,
             "msg-type": r.choice(["request"] * 5 + ["inform"])}
        c = m["ta-cmd"]
        if m["msg-type"] == "inform":
            if c == "track" or r.random() < 0.3:
                m["track-type"] = r.choice(["query", "reply", "query", "x"])
            return m
        if c in ("subscribe", "unsubscribe"):
            m["subscription-id"] = r.randrange(self.nsubs)
        elif c in ("publish", "unpublish"):
            m["service-id"] = self.sid()
            if c == "publish":
                m["generation"] = r.choice(self.gens)
                m["service-props"] = {"name": ["a"]}
                m["ttl"] = r.choice(self.ttls)
        elif c == "hello":
            m["client-id"] = r.randint(1, self.ncids)
            m["protocol-minimum-version"] = r.choice([0, 2, 3])
            m["protocol-maximum-version"] = r.choice([2, 3, 9])
        return m

    def op_reuse(self):
        """an id of a transaction which has ended, or of the far end of the
        number range, for a new one"""
        s = self.pick_slot()
        if s is not None:
            self.emit("msg", s, {"ta-cmd": "ping", "msg-type": "request",
                                 "ta-id": self.rng.choice(
                                     [500, 500, 501, 2**63 - 1])})

    def op_nohello(self):
        s = self.free_slot()
        if s is None:
            return
        d = self.rng.randrange(len(self.domains))
        self.emit("conn", s, d, 0, self.rng.choice(self.users))
        self.connected(s, None, 0, d)
        if self.rng.random() < 0.15:
            # doesn't read either
            self.emit("window", s, 0)
            if self.rng.random() < 0.5:
                self.emit("hello", s, self.rng.randint(1, self.ncids),
                          *self.rng.choice([(0, 1), (4, 9), (2, 3)]))
        for _ in range(self.rng.randint(1, 3)):
            m = self.request(self.rng.randint(0, 3))
            if self.rng.random() < 0.8:
                m["msg-type"] = "request"
            self.emit("msg", s, m)

    def op_junk(self):
        from . import junk
        s = self.pick_slot()
        if s is None or self.rng.random() < 0.3:
            f = self.free_slot()
            if f is not None:
                d = self.rng.randrange(len(self.domains))
                self.emit("conn", f, d, 0, self.rng.choice(self.users))
                self.connected(f, None, 0, d)
                s = f
        if s is not None:
            self.emit("raw", s, junk.message(self.rng, self).hex())

    def op_window(self):
        r = self.rng
        s = self.pick_slot()
        if s is None:
            return
        x = r.random()
        if x < 0.5:
            self.emit("window", s, r.choice([0, 0, 1, 2, 10, 64, 130]))
        elif x < 0.85:
            self.emit("more", s, r.choice([1, 1, 2, 10, 63, 64, 65, 200]))
        else:
            self.emit("window", s, None)

    def op_flood(self):
        """many requests from one client"""
        r = self.rng
        s = self.pick_slot()
        if s is None:
            return
        n = r.choice([3, 10, 40, 100, 127, 128, 129, 140, 260])
        self.extra += n // 2
        for k in range(n):
            if r.random() < 0.9:
                self.emit("ping", s)
            else:
                self.emit("list", s, "services", None)

    def op_churn(self):
        """many changes of one service"""
        r = self.rng
        key = self.pick_svc()
        s = key and self.pick_slot(cid=self.svcs[key]["cid"], dom=key[0])
        if s is None:
            return self.op_pub()
        for _ in range(r.choice([3, 10, 40, 70, 130])):
            v = self.svcs[key]
            self.publish(s, key[1], v["gen"] + 1, v["props"], v["ttl"])

    def op_huge(self):
        """requests near the limits of the transport"""
        r = self.rng
        s = self.pick_slot()
        if s is None:
            return
        d = self.slots[s]
        char = r.choice(["x", "x", "x", "\u00e5", "\u20ac", "\U0001f600",
                         "\x01", '"', "!"])
        size = r.choice([65535 + r.randint(-300, 300)] * 3 +
                        [65000, 66500, 100000, 200000])
        if r.random() < 0.7:
            sid, gen = self.sid(), r.choice([0, 1, 2, 2**63 - 1])
            ttl = r.choice(list(self.ttls) + [2**63 - 1])
            self.emit("huge", s, "pub", sid, gen, char, size, ttl)
            if r.random() < 0.5:
                self.svcs[(d["dom"], sid)] = dict(
                    gen=gen, props=0, ttl=ttl, slot=s, cid=d["cid"],
                    user=d["user"], orphan=None)
        else:
            self.emit("huge", s, "sub", 6000 + r.randrange(50), 0, char,
                      size)
            if r.random() < 0.5 and self.pick_slot() is not None:
                self.emit("subs", self.pick_slot())

    def op_bulk(self):
        """many subscriptions or services of one client"""
        r = self.rng
        s = self.pick_slot()
        if s is None:
            return
        d = self.slots[s]
        n = r.choice([12, 20, 35, 35, 70, 140])
        self.extra += n
        first = 5000 + 200 * r.randrange(3)
        kind = r.choice(["sub", "pub", "pub", "both"])
        props, ttl = self.props(), r.choice(self.ttls)
        flt = r.choice([self.flt(), 2])
        for i in range(first, first + n):
            if kind != "pub" and (kind == "sub" or i % 2):
                self.emit("sub", s, i, flt)
            else:
                self.emit("pub", s, i, 1, props, ttl)
        x = r.random()
        if kind != "sub":
            self.svcs[(d["dom"], i)] = dict(
                gen=1, props=props, ttl=ttl, slot=s, cid=d["cid"],
                user=d["user"], orphan=None)
        if x < 0.4:
            self.op_close(s)
        elif x < 0.6:
            for i in range(first, first + n):
                self.emit("unpub" if kind == "pub" else "unsub", s, i)
            self.extra += n

    def op_stall(self):
        r = self.rng
        s = self.pick_slot()
        if s is None:
            return
        self.emit("window", s, r.choice([0, 0, 0, 1, 3]))
        getattr(self, r.choice(["op_flood", "op_churn", "op_multi"]))()
        for _ in range(r.randint(0, 4)):
            self.emit("more", s, r.choice([1, 2, 5, 63, 64, 65, 128]))
            if r.random() < 0.5:
                self.step()
        if r.random() < 0.15 and self.slots.get(s) is not None:
            self.op_close(s)

    def op_attrerr(self):
        """a connection found to have failed during its handshake"""
        r = self.rng
        s = self.free_slot()
        if s is None:
            return
        d = r.randrange(len(self.domains))
        self.emit("conn", s, d, r.randrange(3), r.choice(self.users))
        self.emit("attrerr", s, r.choice(["xcm.transport", "xcm.transport",
                                          "tcp.keepalive"]))
        self.connected(s, None, 0, d)
        for _ in range(r.choice([1, 1, 2])):
            self.emit("hello", s, r.randint(1, self.ncids),
                      *r.choice([(2, 3), (2, 3), (2, 2), (4, 9)]))
        if r.random() < 0.5:
            self.emit("pub", s, self.sid(), r.choice(self.gens),
                      self.props(), r.choice(self.ttls))

    def op_accerr(self):
        import errno
        r = self.rng
        if r.random() < 0.3:
            # accepted, but failed by then
            self.emit("gone", r.randrange(len(self.domains)), r.randrange(3),
                      r.choice([1, 1, 1, 2, 5, 20]))
            return
        self.emit("accerr", r.randrange(len(self.domains)), r.randrange(3),
                  r.choice([errno.EMFILE, errno.ECONNABORTED, errno.EPROTO,
                            errno.ENOMEM]),
                  # now and then, the socket fails for a while
                  r.choice([1, 1, 2, 20, 250]))

    def step(self, only=None):
        names = only or list(self.w)
        names = sorted(names)
        ws = [self.w.get(n, 1) for n in names]
        getattr(self, "op_" + self.rng.choices(names, ws)[0])()
        if not self.sync and self.rng.random() < 0.3:
            self.emit("sync")

    def build(self):
        r = self.rng
        n = r.randint(*self.length)
        for _ in range(r.randint(1, 3) if self.warm is None else self.warm):
            self.op_up()
        while len(self.ops) < n + self.extra:
            self.step()
        return self.case()

    def case(self):
        return {"seed": self.rng.randrange(1 << 30), "conf": self.conf,
                "sync": self.sync, "ops": self.ops}


def history(rng, **kw):
    return Gen(rng, **kw).build()
