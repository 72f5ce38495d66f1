"""Reference interpretation of pafd configuration files."""
import logging.handlers

import yaml

LEVELS = {"debug": 10, "info": 20, "warning": 30, "error": 40, "critical": 50}
FACILITIES = logging.handlers.SysLogHandler.facility_names
KINDS = ("clients", "services", "subscriptions")
LOG_DEFAULTS = dict(console=False, log_file=None, log_file_backup=0,
                    log_file_max_size=1000000, syslog=True,
                    syslog_socket="/dev/log",
                    facility=logging.handlers.SysLogHandler.LOG_DAEMON,
                    filter=logging.INFO)


def defaults():
    return {"domains": [], "log": dict(LOG_DEFAULTS),
            "user": dict.fromkeys(KINDS), "total": dict.fromkeys(KINDS)}


class Bad(Exception):
    pass


class Interp:
    def __init__(self):
        self.gray = False       # may be rejected, but not taken otherwise

    def get(self, d, key, types, default=None):
        """types: str, int, bool, dict or list"""
        v = d.get(key)
        if v is None:
            if key in d:
                self.gray = True
            return default
        if types is int and isinstance(v, bool) or not isinstance(v, types):
            raise Bad("%s: %r" % (key, v))
        return v

    def known(self, d, keys):
        if any(k not in keys for k in d):
            self.gray = True

    def root(self, src):
        if src is None:
            self.gray = True
            src = {}
        if not isinstance(src, dict):
            raise Bad("root")
        self.known(src, ("domains", "log", "resources"))
        out = defaults()
        self.log(out["log"], self.get(src, "log", dict, {}))
        out["domains"] = [self.domain(d) for d in
                          self.get(src, "domains", list, [])]
        res = self.get(src, "resources", dict, {})
        self.known(res, ("user", "total"))
        for c in ("user", "total"):
            for k, v in self.get(res, c, dict, {}).items():
                if k not in KINDS:
                    raise Bad("resource %r" % (k,))
                if v is None:
                    self.gray = True
                elif isinstance(v, bool) or not isinstance(v, int) or v < 0:
                    raise Bad("limit %r" % (v,))
                out[c][k] = v
        return out

    def log(self, out, d):
        self.known(d, LOG_DEFAULTS)
        for k in ("console", "syslog"):
            out[k] = self.get(d, k, bool, out[k])
        for k in ("log_file", "syslog_socket"):
            out[k] = self.get(d, k, str, out[k])
        for k in ("log_file_backup", "log_file_max_size"):
            out[k] = self.get(d, k, int, out[k])
            if out[k] < 0:
                self.gray = True
        for k, names in (("facility", FACILITIES), ("filter", LEVELS)):
            v = self.get(d, k, str)
            if v is not None:
                if v not in names:
                    raise Bad("%s %r" % (k, v))
                out[k] = names[v]

    def domain(self, d):
        if not isinstance(d, dict):
            raise Bad("domain")
        self.known(d, ("name", "protocol_version", "idle", "max_idle_time",
                       "sockets", "addrs"))
        out = {"name": self.get(d, "name", str)}
        v = self.get(d, "protocol_version", dict, {})
        self.known(v, ("min", "max"))
        lo, hi = self.get(v, "min", int, 2), self.get(v, "max", int, 3)
        if not 2 <= lo <= hi <= 3:
            raise Bad("version")
        out["version"] = (lo, hi)
        idle = self.get(d, "idle", dict, {})
        self.known(idle, ("min", "max"))
        lo, hi = self.get(idle, "min", int), self.get(idle, "max", int)
        old = self.get(d, "max_idle_time", int)
        if old is not None:
            if hi is not None:
                raise Bad("max_idle_time and idle.max")
            if "max" in idle:
                self.gray = True
            hi = old
        if lo is not None and lo < 1:
            raise Bad("idle.min")
        if hi is not None and hi < 1:
            raise Bad("idle.max")
        out["idle"] = (4 if lo is None else lo, 30 if hi is None else hi)
        if out["idle"][0] > out["idle"][1]:
            # possibly a default at odds with the other value given
            raise Bad("idle.min > idle.max")
        socks, addrs = self.get(d, "sockets", list), self.get(d, "addrs", list)
        if socks is None and addrs is None:
            raise Bad("no sockets")
        if socks is not None and addrs is not None:
            raise Bad("sockets and addrs")
        out["sockets"] = [self.socket(s) for s in
                          (addrs if socks is None else socks)]
        if not out["sockets"]:
            self.gray = True
        return out

    def socket(self, s):
        if isinstance(s, str):
            return (s, {})
        if not isinstance(s, dict):
            raise Bad("socket")
        self.known(s, ("addr", "tls"))
        addr = self.get(s, "addr", str)
        if addr is None:
            raise Bad("no addr")
        tls = self.get(s, "tls", dict)
        out = {}
        if tls is not None:
            if addr.split(":")[0] not in ("tls", "utls"):
                if tls:
                    raise Bad("tls on %r" % addr)
                self.gray = True
            for k, v in tls.items():
                if k not in ("cert", "key", "tc", "crl"):
                    raise Bad("tls %r" % (k,))
                if not isinstance(v, str):
                    raise Bad("tls %r" % (v,))
                else:
                    out[k] = v
        return (addr, out)


def interpret(text):
    """text: bytes. Returns "ok", "gray" (also rejection is fine) or "bad",
    and the expected outcome."""
    try:
        src = yaml.safe_load(text.decode("utf-8"))
    except Exception as e:
        return "bad", "YAML: %s" % type(e).__name__
    i = Interp()
    try:
        out = i.root(src)
    except Bad as e:
        return "bad", str(e)
    return "gray" if i.gray else "ok", out
