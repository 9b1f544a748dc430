"""C04 - only the reply to the outstanding request is ever delivered."""
from mc import fds
LEVEL = "model_checking"
RULE = ("one execution = one call (or history of calls) with one schedule of datagrams; nontrivial = schedules which contain "
        "at least one datagram that must not be delivered")
BOUNDS = {
    "quick": "all sequences of <= 2 adversarial datagrams (menu of ~30 field mutations) followed by the genuine reply or "
             "silence, every operation, version, digest/cipher, sync and async; all delivery schedules (drop, duplicate, delay, "
             "reorder, <= 3 datagrams per request) of 3 consecutive requests; sessions of 280 calls with all earlier replies repeated in each; ids within +-2500; credentials (5 communities / user names / engine ids) differing by any one octet, padding, case or normal form; 12000 unwanted datagrams in a call; all interleavings of the socket operations of 2-3 real threads; 2-3 tasks of one async session starting in every order around the arrival of replies",
    "thorough": "as quick with sequences of <= 3 datagrams and every combination of operations in the 3-request histories",
}
ASSUMPTIONS = [
    "request-id and msgID collisions of the random source are outside the property",
    "PDU types that cannot appear in a reply (GetRequest ... Trap) must never be delivered; whether they are skipped or "
    "rejected is not constrained", "a v1/v2c message carrying a Report PDU is not constrained",
]
V3N = ["v3", "v3-md5l", "v3-shal", "v3-md5l-desl", "v3-shal-desl", "v3-md5l-aesl", "v3-shal-aesl"]
CFGS = ["v1", "v2c"] + V3N
OPS = ("get", "get_many", "getnext", "getbulk")


def tasks(tier, info):
    full = tier == "thorough"
    t = []
    for c in CFGS:
        for kind in ("sync", "async"):
            for op in OPS:
                if c == "v1" and op == "getbulk":
                    continue
                d3 = full or (op == "get" and kind == "sync" and c in ("v2c", "v3"))
                parts = 8 if d3 else 1
                for p in range(parts):
                    t.append(dict(k="menu", cfg=c, kind=kind, op=op, depth=3 if d3 else 2, part=p, parts=parts))
    for c in ("v1", "v2c", "v3", "v3-md5l-desl", "v3-shal-aesl"):
        for kind in ("sync", "async"):
            mixes = [("get",) * 3, ("get", "get_many", "getnext"), ("getbulk", "get", "getnext"),
                     ("getnext", "getnext", "getnext"), ("getbulk", "getbulk", "getbulk")]
            if full:
                import itertools
                mixes = list(itertools.product(OPS, repeat=3))
            for m in mixes:
                if c == "v1" and "getbulk" in m:
                    continue
                t.append(dict(k="net", cfg=c, kind=kind, ops=list(m)))
    for a, p in (("", ""), ("md5", ""), ("sha", "aes"), ("md5", "des")):
        for kind in ("sync", "async"):
            t.append(dict(k="disc", auth=a, priv=p, kind=kind))
    for c in ("v2c", "v3-shal-aesl"):
        t.append(dict(k="conc", cfg=c))
        t.append(dict(k="race", cfg=c))
    for c in CFGS:
        for kind in ("sync", "async"):
            if full or c in ("v1", "v2c", "v3", "v3-md5l-desl", "v3-shal-aesl"):
                for op in OPS if full else ("get", "getnext" if kind == "sync" else "get_many"):
                    t.append(dict(k="stale", cfg=c, kind=kind, op=op, n=1200 if full else 280))
                t.append(dict(k="near", cfg=c, kind=kind, n=20000 if full else 2500))
                for i in range(CREDS):
                    t.append(dict(k="creds", cfg=c, kind=kind, i=i, full=full))
                t.append(dict(k="flood", cfg=c, kind=kind, n=200000 if full else 12000))
    from .c03 import mt_tasks
    t += mt_tasks("results", full)
    return t


def run_mt(ctx, task):
    from .c03 import run_mt as f
    f(ctx, task)


def run(ctx, task):
    globals()["run_" + task["k"]](ctx, task)


# community or user name, engine id of the session
CRED = [("public", b"\x80\x00\x1f\x88\x04mc-engine"), ("a", b"E"), (" Pub-lic ", b"\x80\x00\x00\x00 "), ("se\x00cr\x00", b"\x80\x00\x00\x09e\x00"),
        ("\u043f\u0430\u0440\u043e\u043b\u044c\u00e9", bytes(range(32)))]
CREDS = len(CRED)

D, S, E, N, X, A = "deliver", "skip", "decode error", "not delivered", "report", "anything"


def menu(cfg):
    """(label, verdict, builder(q, vbs, prev) -> datagram)

    verdict per the property; prev = identifiers of the previous request (or None)"""
    from .. import world, ber
    out = []
    rep = world.reply

    def add(lab, v, f):
        out.append((lab, v, f))

    add("genuine", D, lambda q, v, p: rep(cfg, q, v))
    I = 0x7FFFFFFF
    add("req-id+1", S, lambda q, v, p: rep(cfg, q, v, req_id=q.req_id + 1))
    add("req-id-1", S, lambda q, v, p: rep(cfg, q, v, req_id=q.req_id - 1))
    add("req-id+2^32", S, lambda q, v, p: rep(cfg, q, v, req_id=q.req_id + (1 << 32)))
    add("req-id+2^31", S, lambda q, v, p: rep(cfg, q, v, req_id=q.req_id + (1 << 31)))
    add("-req-id", S, lambda q, v, p: rep(cfg, q, v, req_id=-q.req_id - 1))
    add("req-id 0", S, lambda q, v, p: rep(cfg, q, v, req_id=0))
    add("req-id low octet", S, lambda q, v, p: rep(cfg, q, v, req_id=(q.req_id & 0xFF) | (~q.req_id & 0x7FFFFF00)))
    add("req-id high octets", S, lambda q, v, p: rep(cfg, q, v, req_id=q.req_id ^ 1))
    add("prev req-id", S, lambda q, v, p: rep(cfg, q, v, req_id=p[0], **({"msg_id": p[1]} if cfg.ver == "v3" else {})))
    for k in (64, 72, 80):
        add(f"req-id+2^{k}", N, lambda q, v, p, k=k: rep(cfg, q, v, req_id=q.req_id + (1 << k)))
        add(f"req-id-2^{k}", N, lambda q, v, p, k=k: rep(cfg, q, v, req_id=q.req_id - (1 << k)))
    add("garbage", E, lambda q, v, p: b"\x30\x03garbage")
    add("truncated", E, lambda q, v, p: rep(cfg, q, v)[:-1])
    add("trailing octet", E, lambda q, v, p: rep(cfg, q, v) + b"\0")
    for tag in (ber.GET, ber.GETNEXT, ber.GETBULK, ber.SET, ber.INFORM, ber.TRAPV2):
        add(f"pdu {tag:#x} other id", N, lambda q, v, p, tag=tag: rep(cfg, q, v, tag=tag, req_id=q.req_id ^ 5))
    if cfg.ver != "v3":
        c = cfg.community.encode()
        for lab, x in (("other", b"private"), ("prefix", c[:-1]), ("longer", c + b"c"), ("empty", b""),
                       ("case", c.upper()), ("nul", c + b"\0"), ("last", c[:-1] + b"d"), ("first", b"q" + c[1:])):
            add("community " + lab, S, lambda q, v, p, x=x: rep(cfg, q, v, community=x))
            add("community " + lab + " and id", S, lambda q, v, p, x=x: rep(cfg, q, v, community=x, req_id=q.req_id ^ 3))
        for ver in (0, 1, 2, 3, 256 + cfg.mver, cfg.mver - 256, (1 << 32) + cfg.mver, (1 << 40) + cfg.mver, (1 << 64) + cfg.mver):
            if ver != cfg.mver:
                add(f"version {ver}", N if ver >> 63 > 0 else E, lambda q, v, p, ver=ver: rep(cfg, q, v, version=ver))
        v3m = world.v3("md5")
        add("v3 message", E, lambda q, v, p: world.v3_msg(v3m, world.response(q.req_id, v), q.req_id))
        return out
    u = cfg.user.encode()
    for lab, x in (("other", b"someone"), ("prefix", u[:-1]), ("longer", u + b"r"), ("empty", b""), ("case", u.upper())):
        add("user " + lab, S, lambda q, v, p, x=x: rep(cfg, q, v, user=x))
    for lab, x in (("other", b"\x80\x00\x1f\x88\x04another-one"), ("prefix", cfg.engine[:-1]), ("longer", cfg.engine + b"e"),
                   ("empty", b""), ("last", cfg.engine[:-1] + b"X")):
        add("engine " + lab, S, lambda q, v, p, x=x: rep(cfg, q, v, engine=x))
        # signed and encrypted by the peer's own keys for that engine
        add("engine+keys " + lab, S, lambda q, v, p, x=x: rep(cfg, q, v, engine=x, auth_key=cfg.akey(x), priv_key=cfg.pkey(x)))
    for lab, f in (("+1", lambda m: m + 1), ("-1", lambda m: m - 1), ("+2^32", lambda m: m + (1 << 32)), ("0", lambda m: 0),
                   ("+2^31", lambda m: m + (1 << 31)), ("neg", lambda m: -m - 1)):
        add("msgID " + lab, S, lambda q, v, p, f=f: rep(cfg, q, v, msg_id=f(q.msg_id)))
    for k in (64, 72):
        add(f"msgID+2^{k}", N, lambda q, v, p, k=k: rep(cfg, q, v, msg_id=q.msg_id + (1 << k)))
    for k in (32, 64):
        add(f"version+2^{k}", N, lambda q, v, p, k=k: rep(cfg, q, v, version=3 + (1 << k)))
        add(f"security model+2^{k}", N, lambda q, v, p, k=k: rep(cfg, q, v, sec_model=3 + (1 << k)))
    add("prev msgID", S, lambda q, v, p: rep(cfg, q, v, msg_id=p[1]))
    add("prev req-id only", S, lambda q, v, p: rep(cfg, q, v, req_id=p[0]))
    add("swapped ids", S, lambda q, v, p: rep(cfg, q, v, msg_id=q.req_id, req_id=q.msg_id))
    add("msgID and req-id", S, lambda q, v, p: rep(cfg, q, v, msg_id=q.msg_id ^ 1, req_id=q.req_id ^ 1))
    add("user and engine", S, lambda q, v, p: rep(cfg, q, v, user=b"x", engine=b"\x80yy"))
    for ver in (0, 1, 2, 4, 259, 3 - 256, (1 << 32) + 3):
        add(f"version {ver}", E, lambda q, v, p, ver=ver: rep(cfg, q, v, version=ver))
    for sm in (0, 1, 2, 4, 259):
        add(f"security model {sm}", N, lambda q, v, p, sm=sm: rep(cfg, q, v, sec_model=sm))
    add("report", X, lambda q, v, p: world.report(cfg, q, req_id=q.req_id))
    add("report msgID", S, lambda q, v, p: world.report(cfg, q, req_id=q.req_id, msg_id=q.msg_id ^ 1))
    add("report prev msgID", S, lambda q, v, p: world.report(cfg, q, req_id=q.req_id, msg_id=p[1]))
    add("report user", S, lambda q, v, p: world.report(cfg, q, req_id=q.req_id, user=b"zz"))
    add("report engine", S, lambda q, v, p: world.report(cfg, q, req_id=q.req_id, engine=b"\x80\x00zz"))
    add("v2c message", E, lambda q, v, p: world.community_msg(1, b"public", world.response(q.req_id, v)))
    add("v1 message", E, lambda q, v, p: world.community_msg(0, b"public", world.response(q.req_id, v)))
    return out


def predicted(verdicts):
    """set of admissible outcomes for the queue of (verdict, value)"""
    if not verdicts:
        return {"timeout"}
    v, val = verdicts[0]
    if v == D:
        return {("value", val)}
    if v == S:
        return predicted(verdicts[1:])
    if v == E:
        return {"decode"}
    if v == X:
        return {"auth"}
    if v == N:
        return {"decode"} | predicted(verdicts[1:])
    raise ValueError(v)


def observed(world, r, op):
    m = world.mods().g
    if r[0] == "ok":
        v = r[1]
        if op == "get_many":
            v = list(v.values())
            return ("value", v[0]) if len(v) == 1 else ("value", v)
        if op in ("getnext", "getbulk"):
            return ("value", v[0][1]) if len(v) == 1 else ("value", v)
        return ("value", v)
    e = r[1]
    if isinstance(e, (TimeoutError, BlockingIOError)):  # which of the two is C18's business
        return "timeout"
    if isinstance(e, m.SnmpAuthError):
        return "auth"
    if isinstance(e, m.SnmpDecodeError):
        return "decode"
    return world.show(r)[:150]


BASE = (1, 3, 6, 1, 2, 1)


def value_vbs(world, ber, op, val, q=None):
    o = BASE + (1, 0)
    if op in ("getnext", "getbulk") and q is not None and q.oids and len(q.oids[0]) > len(BASE):
        o = q.oids[0] + (1,)
    return [world.vb(o, ber.integer(val))]


class Caller:
    """fresh session; every call drives `plan` (list of builders) at send time"""

    def __init__(self, ctx, cfg, kind):
        from .. import world, ber
        import vnet
        self.world, self.ber, self.vnet, self.ctx, self.cfg, self.kind = world, ber, vnet, ctx, cfg, kind
        self.w = world.wire()
        self.w.clear()
        self.w.responder = self.respond
        self.sess = cfg.session(kind, timeout=0.5)
        self.fd = fds.fd_of(self.sess)
        self.plan = []
        self.prev = None
        self.q = None
        self.built = []

    def respond(self, fd, data):
        q = self.world.parse_request(data, self.cfg)
        self.q = q
        for d in self.plan(q) if callable(self.plan) else self.plan:
            self.vnet.inject(fd, d)

    def call(self, op, it=None):
        r = self.world.call(self.sess, self.kind, op, oid="1.3.6.1.2.1.1.0", oids=["1.3.6.1.2.1.1.0"], base="1.3.6.1.2.1",
                            limit=1, it=it, maxrep=1)
        self.w.clear()
        return r


def run_menu(ctx, task):
    from .. import world
    import itertools
    cfg, kind, op = world.BY_NAME[task["cfg"]], task["kind"], task["op"]
    M = menu(cfg)
    c = Caller(ctx, cfg, kind)
    ber = c.ber
    # one genuine exchange so that "previous" identifiers exist
    c.plan = lambda q: [world.reply(cfg, q, value_vbs(world, ber, op, 1, q))]
    c.call(op)
    c.prev = (c.q.req_id, getattr(c.q, "msg_id", 0))
    n = 0
    for depth in range(0, task["depth"] + 1):
        for seq in itertools.product(range(len(M)), repeat=depth):
            for final in (True, False):
                n += 1
                if n % task["parts"] != task["part"]:
                    continue
                items = [M[i] for i in seq] + ([M[0]] if final else [])
                labs = ", ".join(x[0] for x in items)
                ctx.case(f"{cfg.name} {kind} {op}: {labs}")
                want = predicted([(x[1], 100 + i) for i, x in enumerate(items)])

                def plan(q, items=items):
                    c.last = [x[2](q, value_vbs(world, ber, op, 100 + i, q), c.prev) for i, x in enumerate(items)]
                    return c.last

                c.plan = plan
                r = c.call(op)
                c.vnet.flush(c.fd)
                c.prev = (c.q.req_id, getattr(c.q, "msg_id", 0))
                got = observed(world, r, op)
                ctx.evals += 1
                ctx.trans += len(items)
                if depth:
                    ctx.nontrivial += 1
                if got not in want:
                    ctx.violation(f"{op}: [{labs}] -> {got}, expected {want}",
                                  f"{cfg.name} {kind} {op} datagrams={[d.hex() for d in c.last]}"[:3000],
                                  key=f"{cfg.name} {kind} {op} [{labs}]")
                    c = Caller(ctx, cfg, kind)
                    c.plan = lambda q: [world.reply(cfg, q, value_vbs(world, ber, op, 1, q))]
                    c.call(op)
                    c.prev = (c.q.req_id, getattr(c.q, "msg_id", 0))
                else:
                    ctx.state((cfg.name, kind, op, seq, final))
    ctx.sample(f"{cfg.name} {kind} {op}: menu of {len(M)} datagrams, all sequences up to {task['depth']}; last: [{labs}] -> {got}")


def run_stale(ctx, task):
    """a long session: ahead of every reply the replies to ALL the requests made before arrive once more"""
    from .. import world
    cfg, kind, op = world.BY_NAME[task["cfg"]], task["kind"], task["op"]
    c = Caller(ctx, cfg, kind)
    old, ids = [], set()
    for i in range(task["n"]):
        ctx.case(f"{cfg.name} {kind} {op}: call {i} after all earlier replies")
        for final in (True, False):
            if not final and i % 16:
                continue

            def plan(q):
                r = world.reply(cfg, q, value_vbs(world, c.ber, op, i, q))
                out = (old if i % 2 else old[::-1]) + ([r] if final else [])
                plan.mine = r
                return out

            c.plan = plan
            got = observed(world, c.call(op), op)
            c.vnet.flush(c.fd)
            old.append(plan.mine)
            k = (c.q.req_id, getattr(c.q, "msg_id", 0))
            if k in ids:
                # identifiers drawn at random met again: the earlier reply does match
                ctx.note("identifiers repeat")
                return
            ids.add(k)
            ctx.evals += 1
            ctx.nontrivial += 1
            ctx.trans += len(old)
            want = ("value", i) if final else "timeout"
            if got != want:
                ctx.violation(f"{op}: call {i} of the session, {len(old)} earlier replies arrive again: got {got}, expected {want}",
                              f"{cfg.name} {kind} {op} call {i} final={final}", key=f"stale {cfg.name} {kind} {op} {i} {final}")
                return
    ctx.state((cfg.name, kind, op, len(old)))
    ctx.traces += 1
    ctx.sample(f"{cfg.name} {kind} {op}: {task['n']} calls, every earlier reply repeated in every call")


def run_near(ctx, task):
    """identifiers near to the outstanding one"""
    from .. import world
    cfg, kind = world.BY_NAME[task["cfg"]], task["kind"]
    c = Caller(ctx, cfg, kind)
    ks = [k for x in range(1, task["n"] + 1) for k in (x, -x)]
    ks += [m << s for s in range(8, 31) for m in (3, 5, 255, -3, -255)]
    fields = ["req_id"] + (["msg_id"] if cfg.ver == "v3" else [])
    for f in fields:
        for i in range(0, len(ks), 50):
            ctx.case(f"{cfg.name} {kind}: {f} + {ks[i:i + 50]}")

            def plan(q):
                v = value_vbs(world, c.ber, "get", 13, q)
                return [world.reply(cfg, q, v, **{f: getattr(q, f) + k}) for k in ks[i:i + 50]] + \
                    [world.reply(cfg, q, value_vbs(world, c.ber, "get", 7, q))]

            c.plan = plan
            got = observed(world, c.call("get"), "get")
            c.vnet.flush(c.fd)
            ctx.evals += 50
            ctx.nontrivial += 50
            ctx.trans += 51
            if got != ("value", 7):
                ctx.violation(f"{f} differs by one of {ks[i:i + 50]}: got {got}", f"{cfg.name} {kind} get",
                              key=f"near {cfg.name} {kind} {f} {i}")
                break
            ctx.state((cfg.name, kind, f, i))
    ctx.sample(f"{cfg.name} {kind}: {len(ks)} identifiers near to the outstanding one")


def edits(x, full):
    """octet strings near to x, each other than x: one octet replaced, added or removed; padding, case, rotation, repetition"""
    out = {}
    for i in range(len(x)):
        for b in range(256):
            out[x[:i] + bytes((b,)) + x[i + 1:]] = None
        out[x[:i] + x[i + 1:]] = None
        out[x[:i]] = out[x[i:]] = out[x[i:] + x[:i]] = None
        out[x[:i] + x[i:i + 1].swapcase() + x[i + 1:]] = None
    for i in range(len(x) + 1) if full or len(x) < 12 else (0, 1, len(x) // 2, len(x) - 1, len(x)):
        for b in range(256):
            out[x[:i] + bytes((b,)) + x[i:]] = None
    for b in (0, 9, 10, 13, 32, 0x2A, 0xFF):
        for k in range(1, 34):
            p = bytes((b,)) * k
            out[x + p] = out[p + x] = out[p] = out[p + x + p] = None
        out[x.replace(bytes((b,)), b"")] = out[x.strip(bytes((b,)))] = None
    for k in range(2, 9):
        out[x * k] = None
    for y in (x.upper(), x.lower(), x.swapcase(), x.title(), x[::-1], x.strip(), x + b"." + x, b"*", b"%", b"public", b"private"):
        out[y] = None
    try:
        import unicodedata
        t = x.decode()
        for f in ("NFC", "NFD", "NFKC", "NFKD"):
            out[unicodedata.normalize(f, t).encode()] = None
        for u in (t.upper(), t.lower(), t.casefold(), t.swapcase()):
            out[u.encode()] = None
        for e in ("latin-1", "utf-16-le", "utf-16-be", "cp1251"):
            out[t.encode(e, "replace")] = None
    except UnicodeDecodeError:
        pass
    out.pop(x, None)
    return list(out)


def run_creds(ctx, task):
    """credentials near to the session's ones, ahead of the reply"""
    from .. import world
    text, engine = CRED[task["i"]]
    cfg, kind = world.BY_NAME[task["cfg"]], task["kind"]
    cfg = cfg.with_(user=text, engine=engine) if cfg.ver == "v3" else cfg.with_(community=text)
    c = Caller(ctx, cfg, kind)
    fields = [("user", text.encode()), ("engine", engine)] if cfg.ver == "v3" else [("community", text.encode())]
    ops = ("get", "get_many")
    for f, own in fields:
        l = edits(own, task["full"])

        def attempt(part, op):
            def plan(q):
                v = value_vbs(world, c.ber, op, 13, q)
                return [world.reply(cfg, q, v, **{f: x}) for x in part] + [world.reply(cfg, q, value_vbs(world, c.ber, op, 7, q))]
            c.plan = plan
            got = observed(world, c.call(op), op)
            c.vnet.flush(c.fd)
            return got

        for i in range(0, len(l), 50):
            op = ops[(i // 50) % 2]
            part = l[i:i + 50]
            ctx.case(f"{cfg.name} {kind}: {f} {own!r} and replies of {[x.hex() for x in part]}")
            got = attempt(part, op)
            ctx.evals += len(part)
            ctx.nontrivial += len(part)
            ctx.trans += len(part) + 1
            if got != ("value", 7):
                while len(part) > 1:
                    half = part[:len(part) // 2]
                    part = half if attempt(half, op) != ("value", 7) else part[len(part) // 2:]
                ctx.violation(f"{op}: a reply with {f} {part[0]!r} instead of {own!r} is not skipped: got {got}", f"{cfg.name} {kind} {op}",
                              key=f"creds {cfg.name} {kind} {f} {own!r}")
                break
            ctx.state((cfg.name, kind, task["i"], f, i))
        ctx.sample(f"{cfg.name} {kind}: {len(l)} values near to the {f} {own!r}")


def run_flood(ctx, task):
    """very many unwanted datagrams ahead of the reply, at once and one after another"""
    from .. import world
    cfg, kind = world.BY_NAME[task["cfg"]], task["kind"]
    for gap in (0, 1000):
        for n in (10, 127, 128, 255, 256, 257, 1000, 1100, 4095, 4096, task["n"] // (1 if not gap else 4)):
            for op in ("get", "getnext"):
                c = Caller(ctx, cfg, kind)
                ctx.case(f"{cfg.name} {kind} {op}: {n} unwanted datagrams {gap} ns apart")

                def plan(q):
                    bad = world.reply(cfg, q, value_vbs(world, c.ber, op, 13, q), req_id=q.req_id ^ 1)
                    now = c.vnet.now()
                    for j in range(n):
                        c.vnet.inject(c.fd, bad, now + gap * j) if gap else c.vnet.inject(c.fd, bad)
                    good = world.reply(cfg, q, value_vbs(world, c.ber, op, 7, q))
                    c.vnet.inject(c.fd, good, now + gap * n) if gap else c.vnet.inject(c.fd, good)
                    return []

                c.plan = plan
                got = observed(world, c.call(op), op)
                ctx.evals += 1
                ctx.nontrivial += 1
                ctx.trans += n
                if got != ("value", 7):
                    ctx.violation(f"{op}: {n} unwanted datagrams {gap} ns apart, then the reply: got {got}", f"{cfg.name} {kind} {op}",
                                  key=f"flood {cfg.name} {kind} {op} {gap} {n}")
                ctx.state((cfg.name, kind, op, gap, n))
    ctx.sample(f"{cfg.name} {kind}: up to {task['n']} unwanted datagrams in one call")


def run_net(ctx, task):
    """3 consecutive requests; during each, any sequence of <= 3 replies to requests made so far is delivered"""
    from .. import world
    import itertools
    cfg, kind, ops = world.BY_NAME[task["cfg"]], task["kind"], task["ops"]
    scheds = []
    for j in range(3):
        s = []
        for n in range(0, 4 if j < 2 else 3):
            s += list(itertools.product(range(j + 1), repeat=n))
        scheds.append(s)
    scheds[0] = [x for x in scheds[0] if len(x) < 3]
    c = Caller(ctx, cfg, kind)
    ber = c.ber
    total = 0
    for h in itertools.product(*scheds):
        ctx.case(f"{cfg.name} {kind} {ops} {h}")
        c.vnet.flush(c.fd)
        reps = []
        queue = []
        its = {op: [] for op in OPS}
        total += 1
        for j, op in enumerate(ops):
            def plan(q, j=j, op=op):
                reps.append(world.reply(cfg, q, value_vbs(world, ber, op, 10 + j, q)))
                return [reps[i] for i in h[j]]

            c.plan = plan
            queue += list(h[j])
            want = "timeout"
            while queue:
                x = queue.pop(0)
                if x == j:
                    want = ("value", 10 + j)
                    break
            r = c.call(op)
            got = observed(world, r, op)
            ctx.trans += 1
            if got != want:
                ctx.violation(f"request {j} ({op}): got {got}, expected {want}",
                              f"{cfg.name} {kind} ops={ops} deliveries={h}", key=f"net {cfg.name} {kind} {ops} {h}")
                c = Caller(ctx, cfg, kind)
                break
        ctx.evals += 1
        ctx.nontrivial += 1 if h != ((0,), (1,), (2,)) else 0
    ctx.state((cfg.name, kind, tuple(ops), total))
    ctx.traces += total
    ctx.sample(f"{cfg.name} {kind} {ops}: {total} delivery schedules")


def run_disc(ctx, task):
    """engine discovery: only the Report to the outstanding probe may complete it"""
    from .. import world, ber, agent
    import itertools
    import vnet
    cfg = world.v3(task["auth"] or None, task["priv"] or None, given=False)
    kind = task["kind"]
    evil = b"\x80\x00\x1f\x88\x04EVIL"

    def mk(q, **kw):
        return world.report(cfg, q, req_id=q.req_id, **kw)

    M = [("genuine", D, lambda q: mk(q)),
         ("msgID", S, lambda q: mk(q, msg_id=q.msg_id ^ 1, engine=evil)),
         ("msgID 0", S, lambda q: mk(q, msg_id=0, engine=evil)),
         ("user", S, lambda q: mk(q, user=b"intruder", engine=evil)),
         ("version", E, lambda q: mk(q, version=2, engine=evil)),
         ("garbage", E, lambda q: b"\x30\x00"),
         ("truncated", E, lambda q: mk(q, engine=evil)[:-1]),
         ("response other id", S, lambda q: world.v3_msg(world.v3(), world.response(q.req_id ^ 9, b""), q.msg_id, user=b"",
                                                        engine=evil))]
    w = world.wire()
    for depth in range(0, 4):
        for seq in itertools.product(range(len(M)), repeat=depth):
            for final in (True, False):
                items = [M[i] for i in seq] + ([M[0]] if final else [])
                w.clear()
                sess = cfg.session(kind, timeout=0.5)
                ag = agent.Agent(cfg)
                cnt = [0]

                def responder(fd, data):
                    cnt[0] += 1
                    if cnt[0] == 1:
                        q = world.parse_request(data, None)
                        for x in items:
                            vnet.inject(fd, x[2](q))
                        return
                    vnet.flush(fd)
                    ag(fd, data)

                w.responder = responder
                ctx.case(f"disc {kind} {[x[0] for x in items]}")
                r = world.call(sess, kind, "refresh")
                ctx.evals += 1
                ctx.nontrivial += 1 if depth else 0
                want = predicted([(x[1], 0) for x in items])
                want = {"value" if isinstance(x, tuple) else x for x in want}
                got = "value" if r[0] == "ok" else observed(world, r, "get")
                if got == "value" and sess.get_engine_id() != cfg.engine:
                    got = f"adopted engine id {sess.get_engine_id()!r}"
                if got not in want:
                    ctx.violation(f"discovery [{', '.join(x[0] for x in items)}] -> {got}, expected {want}",
                                  f"{cfg.name} {kind}", key=f"disc {cfg.name} {kind} {[x[0] for x in items]}")
                vnet.flush(fds.fd_of(sess))
                ctx.state((cfg.name, kind, seq, final))


def run_conc(ctx, task):
    """two concurrent tasks of one asynchronous session: whatever is delivered answers that very request"""
    from .. import world, ber
    import asyncio
    import itertools
    import vnet
    cfg = world.BY_NAME[task["cfg"]]
    w = world.wire()
    opsets = list(itertools.product(("get", "get_many", "getnext"), repeat=2))
    for ops in opsets:
        for start_gap in (0, 1):
            for sched in itertools.chain.from_iterable(itertools.product((0, 1), repeat=n) for n in range(0, 5)):
                w.clear()
                sess = cfg.session("async", timeout=0.5)
                reps = []

                def responder(fd, data):
                    q = world.parse_request(data, cfg)
                    reps.append(world.reply(cfg, q, [world.vb(q.oids[0] if q.pdu_tag == ber.GET else q.oids[0] + (0,),
                                                              ber.integer(10 + q.oids[0][-1]))]))
                    if len(reps) == 2:
                        for i, x in enumerate(sched):
                            vnet.inject(fd, reps[x], vnet.now() + i * 1000)

                w.responder = responder

                async def one(i, op):
                    oid = f"1.3.6.1.2.1.{i}"
                    if op == "get":
                        return await sess.get(oid)
                    if op == "get_many":
                        return list((await sess.get_many([oid])).values())[0]
                    async for k, v in sess.getnext(oid):
                        return v

                async def both():
                    ts = [asyncio.ensure_future(one(1, ops[0]))]
                    for _ in range(start_gap):
                        await asyncio.sleep(0)
                    ts.append(asyncio.ensure_future(one(2, ops[1])))
                    return await asyncio.gather(*ts, return_exceptions=True)

                ctx.case(f"conc {cfg.name} {ops} {sched}")
                r = world.outcome(lambda: world.arun(both()))
                ctx.evals += 1
                ctx.nontrivial += 1
                bad = None
                if r[0] != "ok":
                    bad = world.show(r)[:100]
                else:
                    for i, x in enumerate(r[1]):
                        if isinstance(x, BaseException):
                            if not world.is_documented(x):
                                bad = repr(x)
                        elif x != 11 + i:
                            bad = f"task {i} received {x!r}, which answered another request"
                if bad:
                    ctx.violation(f"concurrent {ops}: {bad}", f"{cfg.name} schedule {sched}",
                                  key=f"conc {cfg.name} {ops} {sched}")
                vnet.flush(fds.fd_of(sess))
                ctx.state((cfg.name, ops, start_gap, sched))


def run_race(ctx, task):
    """concurrent tasks of one asynchronous session, every order of their steps around the arrival of a reply: nobody receives
    the reply to another request, and the latest request receives its own one"""
    from .. import world, ber
    import asyncio
    import itertools
    import vnet
    cfg = world.BY_NAME[task["cfg"]]
    w = world.wire()
    T = 0.5
    MS = 1_000_000

    def explore(ops, starts, delays):
        """task i starts after starts[i] (loop iterations, or seconds as a float); reply i arrives delays[i] s after request i
        (None: never)"""
        label = f"race {cfg.name} {ops} starts={starts} replies={delays}"
        ctx.case(label)
        w.clear()
        sess = cfg.session("async", timeout=T)
        sent = []

        def responder(fd, data):
            q = world.parse_request(data, cfg)
            i = q.oids[0][-1]
            sent.append(i)
            if delays[i] is not None:
                vnet.inject(fd, world.reply(cfg, q, [world.vb(q.oids[0] if q.pdu_tag == ber.GET else q.oids[0] + (0,),
                                                              ber.integer(10 + i))]), vnet.now() + int(delays[i] * 1000) * MS)

        w.responder = responder

        async def one(i, op):
            if isinstance(starts[i], float):
                await asyncio.sleep(starts[i])
            else:
                for _ in range(starts[i]):
                    await asyncio.sleep(0)
            oid = f"1.3.6.1.2.1.{i}"
            if op == "get":
                return await sess.get(oid)
            if op == "get_many":
                return list((await sess.get_many([oid])).values())[0]
            async for k, v in sess.getnext(oid):
                return v

        async def both():
            return await asyncio.gather(*[asyncio.ensure_future(one(i, op)) for i, op in enumerate(ops)], return_exceptions=True)

        r = world.outcome(lambda: world.arun(both()))
        ctx.evals += 1
        ctx.nontrivial += 1
        ctx.trans += len(ops)
        bad = None
        if r[0] != "ok":
            bad = world.show(r)[:100]
        else:
            for i, x in enumerate(r[1]):
                if isinstance(x, BaseException):
                    if type(x) is not TimeoutError:
                        bad = repr(x)
                    elif sent and i == sent[-1] and delays[i] is not None and delays[i] <= 0.8 * T:
                        bad = f"task {i} sent the latest request and did not receive its reply, which came in time"
                elif x != 10 + i:
                    bad = f"task {i} received {x!r}, which answered another request"
        vnet.flush(fds.fd_of(sess))
        if not bad:  # the session is still usable
            sent.clear()
            r = world.outcome(lambda: world.arun(sess.get("1.3.6.1.2.1.0")))
            if delays[0] == 0.0 and r != ("ok", 10):
                bad = f"the next get() of the session: {world.show(r)[:100]}"
            vnet.flush(fds.fd_of(sess))
        if bad:
            ctx.violation(f"concurrent {ops}: {bad}", label, key=label)
        ctx.state(label)

    for ops in itertools.product(("get", "get_many", "getnext"), repeat=2):
        for starts in itertools.product((0, 1, 2, 3, 4, 0.1, 0.4), repeat=2):
            for delays in itertools.product((0.0, 0.001, 0.3, None), repeat=2):
                explore(ops, starts, delays)
    for starts in itertools.product((0, 1, 2, 3, 0.2) if not ctx.full else (0, 1, 2, 3, 4, 0.2, 0.4), repeat=3):
        for delays in itertools.product((0.0, 0.3, None), repeat=3):
            explore(("get",) * 3, starts, delays)
    ctx.sample(f"{cfg.name}: two and three tasks of one session, starting in every order around the arrival of replies")
