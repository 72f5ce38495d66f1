"""Restart of the server, with clients coming back to republish."""
import json
import random

from .. import classify, env, sim
from ..genhist import Gen
from ..model import Divergence, Inconclusive
from ..runner import Outcome

RULE = ("random histories, cut at random points by a restart of the server "
        "with an empty directory, after which clients reconnect in any order, "
        "with any protocol version, and republish what they own in any order "
        "and number, interleaved with a subscriber; listings before and "
        "after, and what a subscriber gets, are compared; non-trivial: at "
        "least two services restored")
COUNTS = {"quick": 4000, "thorough": 150000}
env.load()


class RestartGen(Gen):
    def build(self):
        segments = []
        for _ in range(self.rng.choice([1, 1, 2, 3])):
            self.ops = []
            Gen.build(self)
            # services are better not all gone by now
            for _ in range(self.rng.randint(0, 3)):
                self.op_pub()
            segments.append(self.ops)
            self.length = (3, 10)
        c = self.case()
        del c["ops"]
        c["segments"] = segments
        return c


def gen(rng, tier, i):
    return RestartGen(rng, weights=dict(
        pub=8, repub=6, takeover=4, reconnect=4, close=2, up=5, unpub=1.5,
        expire=1, sub=1.5, list=0.5), length=(8, 24), sids=6,
        users=(0, 0, 1), warm=rng.randint(2, 4)).build()


def canon(m):
    props = m["service-props"]
    return (m["service-id"], m["generation"], m["ttl"], m["client-id"],
            json.dumps({k: sorted(v, key=repr) for k, v in props.items()},
                       sort_keys=True))


def answers(p, ta):
    out = []
    for data in p.received:
        m = json.loads(data)
        if m["ta-id"] == ta:
            out.append(m)
    return out


def observer(w, name, cid):
    p = w.connect(name, 0, 0, 0)
    w.request(p, "hello", client_id=cid, protocol_minimum_version=2,
              protocol_maximum_version=3)
    return p


def listing(w, p):
    ta = w.request(p, "services")
    w.sync()
    return [m for m in answers(p, ta) if m["msg-type"] == "notify"]


def members(w):
    """slots of clients which have completed the handshake"""
    out = {}
    for slot, p in w.peers.items():
        if p.dead or isinstance(slot, str):
            continue
        if p.mconn.handshaked:
            out[slot] = (p, p.mconn.client_id)
    return out


class Broken(Exception):
    pass


def restart(old, case, rng, stats):
    """Returns the new world."""
    obs = observer(old, "before", 8000001)
    had = listing(old, obs)
    owners = members(old)
    by_cid = {cid: slot for slot, (p, cid) in owners.items()}
    mine = {slot: [] for slot in owners}
    want = set()
    for m in had:
        slot = by_cid.get(m["client-id"])
        if slot is not None and "orphan-since" not in m:
            mine[slot].append(m)
            want.add(canon(m))
    old.close()
    w = sim.World(case.get("conf", {}), rng.randrange(1 << 30))
    w.stats = old.stats
    for m in w.domains:
        m.stats = w.stats
    sim.install_autoreply(w)
    sub = None
    todo = []
    order = sorted(owners)
    rng.shuffle(order)
    for slot in order:
        n = rng.choice([1, 1, 2, 3])
        todo.append([slot, "hello"])
        pubs = [m for m in mine[slot] for _ in range(rng.choice([1, 1, n]))]
        rng.shuffle(pubs)
        todo += [[slot, m] for m in pubs]
    if rng.random() < 0.6:
        # interleave, keeping each client's own order
        slots = [t[0] for t in todo]
        rng.shuffle(slots)
        its = {s: iter([t for t in todo if t[0] == s]) for s in owners}
        todo = [next(its[s]) for s in slots]
    when = rng.randint(0, len(todo))
    sent = []
    new = {}
    for n, (slot, what) in enumerate(todo + [[None, None]]):
        if n == when:
            sub = observer(w, "sub", 8000002)
            sub.ta = w.request(sub, "subscribe", subscription_id=8000002)
            if rng.random() < 0.5:
                w.sync()
        if slot is None:
            break
        p, cid = owners[slot]
        if what == "hello":
            host = sim.USERS.index(next(
                u for u in sim.USERS if u[1] == p.ski and
                p.addr.startswith(u[0])))
            x = w.connect(slot, 0, 0, host)
            x.cid = cid
            new[slot] = x
            w.request(x, "hello", client_id=cid, protocol_minimum_version=2,
                      protocol_maximum_version=rng.choice([2, 3]))
        else:
            republish(w, new[slot], what, sent)
        if rng.random() < 0.3:
            w.sync()
    w.sync()
    stats["restored"] = stats.get("restored", 0) + len(want)
    outcome(sent)
    obs = observer(w, "after", 8000001)
    got = {canon(m) for m in listing(w, obs) if "orphan-since" not in m}
    if got != want:
        raise Broken("directory after restart differs: missing %s, extra %s" %
                     (sorted(want - got), sorted(got - want)))
    rebuilt = {}
    for m in answers(sub, sub.ta):
        if m["msg-type"] == "notify":
            if m["match-type"] == "disappeared":
                rebuilt.pop(m["service-id"], None)
            else:
                rebuilt[m["service-id"]] = canon(m)
    if set(rebuilt.values()) != want:
        raise Broken("a subscriber can reconstruct %s, expected %s" % (
            sorted(rebuilt.values()), sorted(want)))
    # once more, which has to change nothing
    seen = len(sub.received)
    sent = []
    again = [(s, m) for s in order for m in mine[s]]
    rng.shuffle(again)
    for slot, m in again:
        republish(w, new[slot], m, sent)
    w.sync()
    outcome(sent)
    if len(sub.received) != seen:
        raise Broken("subscriber notified of an unchanged republication: %r" %
                     sub.received[seen])
    if {canon(m) for m in listing(w, obs)} != want:
        raise Broken("repeated republication has changed the directory")
    for p in (obs, sub):
        w.hangup(p, "eof")
    w.sync()
    return w


def republish(w, p, m, sent):
    ta = w.request(p, "publish", service_id=m["service-id"],
                   generation=m["generation"],
                   service_props=m["service-props"], ttl=m["ttl"])
    sent.append((p, ta, m))


def outcome(sent):
    for p, ta, m in sent:
        got = answers(p, ta)
        if [x["msg-type"] for x in got] != ["complete"]:
            raise Broken("republication of %r answered with %r" % (m, got))


def run(case):
    stats = {}
    rng = random.Random(case.get("seed", 0))
    r = None
    phase = "history"
    try:
        w = None
        for ops in case["segments"]:
            sub = dict(case, ops=ops, final=False)
            if w is None:
                r = sim.Runner(sub)
            else:
                r.case = sub
                r.world = w
            w = r.world
            w.close = lambda: None
            r.run()
            del w.close
            if w.domains[0].ambiguous(sim.CLOCK.now):
                w.settle()
            phase = "restart"
            w = restart(w, case, rng, stats)
            phase = "history"
        w.close()
    except Broken as e:
        return Outcome(("relation", str(e)), True, stats)
    except Divergence as d:
        if phase == "restart" and "C27" in classify.tags(d):
            return Outcome((classify.signature(d), "%s: %s" %
                            (d.kind, d.detail)), True, stats)
        stats["divergences of other properties"] = 1
        return Outcome(None, False, stats)
    except Inconclusive:
        return Outcome(None, False, {"inconclusive": 1})
    if r is not None:
        stats.update(r.world.stats)
    return Outcome(None, stats.get("restored", 0) >= 2, stats)
