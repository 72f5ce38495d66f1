"""Which properties a divergence from the reference model contradicts."""

ALL_SERVER = {"C01", "C02", "C03", "C04", "C05", "C06", "C09", "C10", "C11",
              "C12", "C13", "C14", "C17", "C18", "C22", "C23", "C27"}

REASONS = {
    "permission-denied": {"C05"},
    "client-id-exists": {"C12", "C14"},
    "insufficient-resources": {"C06"},
    "old-generation": {"C03"},
    "same-generation-but-different": {"C03", "C27"},
    "invalid-filter-syntax": {"C08"},
    "subscription-id-exists": {"C14", "C02"},
    "non-existent-subscription-id": {"C02"},
    "non-existent-service-id": {"C01", "C04"},
    "unsupported-protocol-version": {"C12"},
    "no-hello": {"C12"},
    "track-exists": {"C13"},
}

CMD = {
    "hello": {"C12", "C11", "C14", "C27"},
    "publish": {"C01", "C03", "C11", "C04", "C27", "C14"},
    "unpublish": {"C01", "C03", "C11", "C04"},
    "subscribe": {"C02", "C11", "C14"},
    "unsubscribe": {"C02", "C11", "C14"},
    "ping": {"C11"},
    "services": {"C11", "C01"},
    "clients": {"C11", "C22"},
    "subscriptions": {"C11", "C22"},
    "track": {"C11", "C13"},
}

LIST = {
    "services": {"C01", "C03", "C04", "C05", "C14", "C23", "C27", "C06"},
    "clients": {"C22", "C14", "C13", "C23"},
    "subscriptions": {"C22", "C14", "C23", "C02"},
}

CAUSES = {
    "orphan": {"C04", "C14"},
    "reclaim": {"C04", "C27", "C03"},
    "takeover": {"C05", "C03"},
    "republish": {"C03", "C27"},
    "purge": {"C04", "C01"},
    "publish": {"C03", "C01"},
    "unpublish": {"C01"},
    "initial": set(),
}


def tags(d):
    """d: model.Divergence"""
    k = d.kind
    i = d.info
    if k == "crash":
        return set(ALL_SERVER)
    if k in ("cap", "accept"):
        return {"C18"}
    if k == "leak":
        return {"C10", "C14", "C18"}
    if k in ("throttle", "unread"):
        return {"C17"}
    if k == "close:unexpected":
        t = {"C10", "C11", "C14"}
        t |= {"C13"} if i.get("idle") else {"C18", "C12"}
        return t | {"C17"}
    if k == "close:missing":
        why = i["why"]
        if why == "idle":
            return {"C13", "C14"}
        if why == "handshake":
            return {"C18"}
        if why == "transport":
            return {"C14", "C10", "C17", "C04"}
        t = {"C10", "C11", "C09"}
        return t | ({"C13"} if i.get("cmd") == "track" else set()) | {"C12"}
    if k == "oversize":
        return {"C10"}
    if k == "schema":
        return {"C09", "C11"}
    if k == "query":
        return {"C13"}
    # what is left concerns a message: unexpected, mismatch, early, late,
    # order, missing
    cmd, mt = i.get("cmd"), i.get("mt")
    t = set()
    got, exp = i.get("got"), i.get("exp")
    if mt == "notify" or (exp is not None and exp.mtype == "notify"):
        if cmd == "subscribe":
            t |= {"C02", "C23"}
            causes = [exp.cause] if exp is not None else \
                ["takeover", "republish", "orphan", "purge"]
            for c in causes:
                t |= CAUSES.get(c, set())
            if exp is None:
                t |= {"C14", "C27"}
        elif cmd in LIST:
            t |= LIST[cmd]
        elif cmd == "track":
            t |= {"C13", "C11"}
    if mt != "notify" or (exp is not None and exp.mtype != "notify"):
        t |= CMD.get(cmd, set())
        for x in (got and got.get("fail-reason"),):
            t |= REASONS.get(x, set())
        if exp is not None and exp.cause and isinstance(exp.cause, tuple):
            for x in exp.cause:
                t |= REASONS.get(x, set())
        # a listing which ended too early, or a stream
        if cmd in LIST and got is not None and \
           got.get("msg-type") == "complete":
            t |= LIST[cmd]
    if k == "missing":
        t |= {"C17", "C11"}
    if k == "order":
        t |= {"C11", "C02"}
    if k == "unexpected":
        t |= {"C11", "C17"}
    return t


def signature(d):
    return "%s/%s/%s" % (d.kind, d.info.get("cmd"), d.info.get("mt"))
