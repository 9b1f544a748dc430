"""C03 - requests on the wire are exactly what the caller asked for."""
from mc import fds
LEVEL = "model_checking"
RULE = ("one execution = one history of API calls (or one parameter combination) on a fresh session; nontrivial = number "
        "of emitted datagrams that were strictly decoded and compared field by field")
BOUNDS = {
    "quick": "all histories of 2 calls (3 for v2c and two v3 configurations) over 19/23 actions incl. nested and neighbour "
             "sessions, every version / digest / cipher / key type, sync and async; OID, community, user, size and RNG sweeps; all combinations of given and omitted session parameters; "
             "all interleavings of the socket operations of 2-3 real threads (7 programs); all schedules of the buffer pool under shuttle DFS",
    "thorough": "all histories of 3 calls in every configuration, 4 calls in v2c and v3-sha-aes; every configuration pair x thread program, deeper pool schedules",
}
ASSUMPTIONS = [
    "msgMaxSize, context name and the reportable flag are not constrained by the property beyond well-formedness",
    "getbulk(max_repetitions=0) means the session default (documented) and is not explored",
]
V3N = ["v3", "v3-md5l", "v3-shal", "v3-md5l-desl", "v3-shal-desl", "v3-md5l-aesl", "v3-shal-aesl"]
CFGS = ["v1", "v2c"] + V3N


def tasks(tier, info):
    full = tier == "thorough"
    t = []
    deep = ("v2c", "v3-shal-aesl", "v3-md5l-desl")
    for c in CFGS + ["disc:md5:des", "disc:sha:aes", "disc:md5:", "disc::"]:
        for kind in ("sync", "async"):
            d = 2
            if full or (c in deep and kind == "sync"):
                d = 3
            parts = {2: 1, 3: 12}[d]
            for p in range(parts):
                t.append(dict(k="hist", cfg=c, kind=kind, depth=d, part=p, parts=parts))
    if full:
        for c in ("v2c", "v3-shal-aesl"):
            for p in range(64):
                t.append(dict(k="hist", cfg=c, kind="sync", depth=4, part=p, parts=64))
    for c in CFGS:
        for kind in ("sync", "async"):
            t.append(dict(k="args", cfg=c, kind=kind))
        t.append(dict(k="sizes", cfg=c, full=full))
        t.append(dict(k="rng", cfg=c))
    for kind in ("sync", "async"):
        t.append(dict(k="creds", kind=kind))
        t.append(dict(k="policy", kind=kind))
        t.append(dict(k="bulk", kind=kind, full=full))
        t.append(dict(k="ctor", kind=kind))
    t += mt_tasks("sent", full)
    from ..mtpool import tasks as pool_tasks
    t += pool_tasks(info, full)
    return t


def run_threads(ctx, task):
    from ..mtpool import run as f
    f(ctx, task)


MT_CFGS = ["v1", "v2c", "v3-md5l-desl", "v3-shal-aesl"]
MT_PROGS = ["get", "many", "big*", "next", "over get", "get* many", "many get"]


def mt_tasks(what, full):
    t = []
    pairs = [(a, b) for i, a in enumerate(MT_CFGS) for b in MT_CFGS[i:]]
    if not full:
        pairs = [("v2c", "v2c"), ("v1", "v3-md5l-desl"), ("v2c", "v3-shal-aesl"), ("v3-md5l-desl", "v3-shal-aesl")]
    for a, b in pairs:
        for p in MT_PROGS:
            t.append(dict(k="mt", what=what, cfgs=[a, b], p0=p, progs=MT_PROGS if full else MT_PROGS[:6]))
    for p in ("get", "many", "over get")[: 3 if full else 2]:
        for q in ("get", "many", "get*")[: 3 if full else 2]:
            t.append(dict(k="mt", what=what, cfgs=["v2c", "v3-shal-aesl", "v3-md5l-desl"], p0=p, p1=q,
                          progs=MT_PROGS[:4] if full else MT_PROGS[:1]))
    return t


def run_mt(ctx, task):
    """one session per thread; all interleavings of the socket operations"""
    from .. import mt, world, ber
    from types import SimpleNamespace

    def judge(m, data, want):
        if want is None or want[0] == "none":
            return "a datagram which nobody asked for"
        try:
            q = world.parse_request(data, m.cfg)
        except ber.BerError as e:
            return f"malformed request: {e}"
        return check(SimpleNamespace(cfg=m.cfg, disc=False, env=None, tag=want[0], oids=[tuple(o) for o in want[1]],
                                     f1=want[2], f2=want[3]), q)

    cfgs = [get_cfg(c) for c in task["cfgs"]]
    for q in task["progs"]:
        ps = [task["p0"]] + ([task["p1"]] if "p1" in task else []) + [q]
        mt.explore(ctx, cfgs, [p.split() for p in ps], judge, task["what"])


def get_cfg(name):
    from ..world import BY_NAME, v3
    if name.startswith("disc"):
        _, a, p = name.split(":")
        return v3(a or None, p or None, given=False)
    return BY_NAME[name]


def check(x, q, st=None):
    """emitted datagram q against the request x"""
    cfg = x.cfg
    if q.version != cfg.mver:
        return f"version {q.version}"
    if cfg.ver != "v3":
        if q.community != cfg.community.encode():
            return f"community {q.community!r:.40}"
    elif x.disc:
        if q.flags & 3 or q.engine or q.user:
            return "the engine discovery request is not empty noAuthNoPriv"
    else:
        if q.flags & ~7:
            return f"flags {q.flags:#x}"
        if (q.flags & 3) != (1 if cfg.auth else 0) + (2 if cfg.priv else 0):
            return f"security level {q.flags & 3}"
        if q.sec_model != 3:
            return f"security model {q.sec_model}"
        if not 0 <= q.msg_id <= 0x7FFFFFFF:
            return f"msgID {q.msg_id}"
        if not 484 <= q.max_size <= 0x7FFFFFFF:
            return f"msgMaxSize {q.max_size}"
        if q.user != cfg.user.encode():
            return f"user {q.user!r:.40}"
        if q.engine != cfg.engine:
            return f"engine id {q.engine!r:.40}"
        if q.encrypted != bool(cfg.priv):
            return "encryption of the scoped PDU"
        if q.ctx_engine != cfg.engine or q.ctx_name != b"":
            return f"context {q.ctx_engine!r:.40}/{q.ctx_name!r}"
        if cfg.priv and q.pad >= (8 if cfg.priv == "des" else 16):
            return f"{q.pad} octets behind the scoped PDU"
        if len(q.auth_params) != (12 if cfg.auth else 0) or len(q.priv_params) != (8 if cfg.priv else 0):
            return "security parameter sizes"
        if x.env is not None:
            a = x.env.by_fd[fds.fd_of(x.sess)][1]
            known = getattr(a, "client_knows", None)
            if known is not None and (q.boots, q.time) != known:
                return f"boots/time {(q.boots, q.time)} instead of {known}"
    if q.pdu_tag != x.tag:
        return f"PDU type {q.pdu_tag:#x} instead of {x.tag:#x}"
    if not 0 <= q.req_id <= 0x7FFFFFFF:
        return f"request-id {q.req_id}"
    if (q.f1, q.f2) != (x.f1, x.f2):
        return f"non-repeaters/max-repetitions {(q.f1, q.f2)} instead of {(x.f1, x.f2)}"
    if q.oids != x.oids:
        return f"OIDs {q.oids!r:.80} instead of {x.oids!r:.80}"
    if any(v != b"\x05\x00" for v in q.values):
        return "a variable is not bound to NULL"
    return None


def run(ctx, task):
    globals()["run_" + task["k"]](ctx, task)


def run_hist(ctx, task):
    from .. import hist
    cfg = get_cfg(task["cfg"])
    hist.explore(ctx, cfg, task["kind"], task["depth"], check, task["part"], task["parts"])
    ctx.sample(f"{cfg.name} {task['kind']}: all histories of length {task['depth']} over {len(hist.actions(cfg))} actions")


class One:
    """one session, one call, the datagram it emits"""

    def __init__(self, ctx, cfg, kind="sync", check=None, **kw):
        self.check, self.st = check or globals()["check"], {}
        from .. import world, hist, ber
        import vnet
        self.world, self.hist, self.ber, self.vnet = world, hist, ber, vnet
        self.ctx, self.cfg, self.kind = ctx, cfg, kind
        self.w = world.wire()
        kw.setdefault("timeout", 0.001)
        self.sess = cfg.session(kind, **kw)
        self.w.clear()
        self.w.responder = None

    def call(self, lab, op, tag, want, f1=0, f2=0, must=True, **kw):
        """no answer is given: the call times out; walks emit their first request"""
        ctx = self.ctx
        ctx.case(f"{self.cfg.name} {self.kind} {lab}")
        self.w.clear()
        r = self.world.call(self.sess, self.kind, op, **kw)
        ctx.evals += 1
        sent = self.w.sent
        bad = None
        if not sent:
            if must or r[0] == "ok" or not self.world.is_documented(r[1]):
                bad = f"nothing was sent ({self.world.show(r)[:100]})"
        elif len(sent) != 1:
            bad = f"{len(sent)} datagrams sent"
        else:
            ctx.nontrivial += 1
            x = self.hist.Rec(cfg=self.cfg, data=sent[0], tag=tag, oids=[tuple(o) for o in want], f1=f1, f2=f2,
                              disc=False, env=None, sess=self.sess, act=op)
            bad = self.hist.judge(x, self.check, self.st)
        self.st["lost"] = 0 if sent else self.st.get("lost", 0) + 1
        if bad:
            ctx.violation(f"{bad} [{op}]", f"{self.cfg.name} {self.kind} {lab} sent={[s.hex()[:300] for s in sent[:2]]}",
                          key=f"{self.cfg.name} {self.kind} {lab}: {bad}"[:200])
        ctx.state((self.cfg.name, self.kind, lab))
        return r, sent


def accepted_oids(full=False):
    from .. import values
    return [o for o in values.oid_samples() if o[0] <= 2 and o[1] <= 39] + [
        (a, b) + s for a in range(3) for b in range(40) for s in ((), (0,), (4294967295, 1))]


def run_args(ctx, task):
    cfg = get_cfg(task["cfg"])
    o1 = One(ctx, cfg, task["kind"])
    ber = o1.ber
    T = ber.oid_text
    oids = accepted_oids()
    for o in oids:
        o1.call(f"get {T(o)[:60]}", "get", ber.GET, [o], oid=T(o))
        o1.call(f"getnext {T(o)[:60]}", "getnext", ber.GETNEXT, [o], base=T(o))
        if cfg.ver != "v1":
            o1.call(f"getbulk {T(o)[:60]}", "getbulk", ber.GETBULK, [o], 0, 20, base=T(o))
            o1.call(f"fetch {T(o)[:60]}", "fetch", ber.GETBULK, [o], 0, 20, base=T(o))
        else:
            o1.call(f"fetch {T(o)[:60]}", "fetch", ber.GETNEXT, [o], base=T(o))
    short = [o for o in oids if len(o) < 12]
    for n in range(0, 60):
        for off in (0, 7, 31):
            l = [short[(off + i * 5) % len(short)] for i in range(n)]
            o1.call(f"get_many {n} from {off}", "get_many", ber.GET, l, oids=[T(x) for x in l])
    # order and duplicates matter
    import itertools
    three = [(1, 3, 6, 1), (1, 3, 6, 1, 128), (1, 3, 6)]
    for n in (1, 2, 3):
        for l in itertools.product(three, repeat=n):
            o1.call(f"get_many {l}", "get_many", ber.GET, l, oids=[T(x) for x in l])
    ctx.sample(f"{cfg.name} {task['kind']}: every operation x {len(oids)} OIDs")


def run_sizes(ctx, task):
    """request sizes octet by octet up to beyond the buffer"""
    cfg = get_cfg(task["cfg"])
    o1 = One(ctx, cfg)
    ber = o1.ber
    T = ber.oid_text
    base = (1, 3, 6, 1)
    for n in range(0, 420 if task["full"] else 300):
        o = base + (1,) * n
        o1.call(f"len {n}", "get", ber.GET, [o], oid=T(o))
        o1.call(f"len {n} next", "getnext", ber.GETNEXT, [o], base=T(o))
    step = 1 if task["full"] else 7
    for n in list(range(420, 4200, step)) + list(range(3850, 4100)):
        o = base + (1,) * n
        o1.call(f"len {n}", "get", ber.GET, [o], oid=T(o), must=n < 3700)
    for k in range(1, 400, 1 if task["full"] else 5):
        l = [base + (128 + i,) for i in range(k)]
        o1.call(f"{k} oids", "get_many", ber.GET, l, oids=[T(x) for x in l], must=k < 200)


def run_rng(ctx, task):
    """identifiers stay in range whatever the random source yields"""
    cfg = get_cfg(task["cfg"])
    o1 = One(ctx, cfg)
    ber = o1.ber
    pats = [0, 1, 0x7F, 0x80, 0xFF, 0x7FFF, 0x8000, 0x7FFFFF, 0x800000, 0x7FFFFFFF, 0x80000000, 0x80000001, 0xFFFFFFFF,
            0x100000000, 0x1FFFFFFFF, (1 << 63) - 1, 1 << 63, (1 << 63) | 0x7FFFFFFF, (1 << 64) - 1, 0xAAAAAAAAAAAAAAAA,
            0x5555555555555555] + [1 << k for k in range(64)]
    for a in pats:
        for b in (pats[:8] + [a]) if cfg.ver == "v3" else [0]:
            o1.vnet.script_random(a.to_bytes(8, "little") + b.to_bytes(8, "little"))
            o1.call(f"random {a:#x} {b:#x}", "get", ber.GET, [(1, 3, 6)], oid="1.3.6")
    o1.vnet.script_random(b"")


def run_creds(ctx, task):
    from ..world import Cfg, v3
    from .. import ber
    for n in list(range(0, 140)) + [200, 255, 256, 257, 1000]:
        for ver in ("v1", "v2c"):
            c = Cfg(ver, community="c" * n)
            One(ctx, c, task["kind"]).call(f"community {n}", "get", ber.GET, [(1, 3, 6)], oid="1.3.6")
        for a, p in ((None, None), ("md5", None), ("sha", "aes"), ("md5", "des")):
            if n:
                c = v3(a, p, user="u" * n)
                One(ctx, c, task["kind"]).call(f"user {n}", "get", ber.GET, [(1, 3, 6)], oid="1.3.6")
                if n <= 64:
                    c = v3(a, p, engine=bytes(range(100, 100 + n)))
                    One(ctx, c, task["kind"]).call(f"engine {n}", "get", ber.GET, [(1, 3, 6)], oid="1.3.6")
    for s in ("\u00e9t\u00e9", "\x00", "a b", "\u4e2d\u6587", "\x7f\n", "public "):
        c = Cfg("v2c", community=s)
        One(ctx, c, task["kind"]).call(f"community {s!r}", "get", ber.GET, [(1, 3, 6)], oid="1.3.6")
        c = v3("sha", "aes", user=s)
        One(ctx, c, task["kind"]).call(f"user {s!r}", "get", ber.GET, [(1, 3, 6)], oid="1.3.6")


def run_policy(ctx, task):
    """fetch(): GetBulk only for v2c/v3 with bulk allowed; version defaults"""
    from ..world import BASIC
    from .. import ber
    for cfg in BASIC:
        for ab in (True, False):
            for mr in (1, 5, 127, 128, 300):
                o1 = One(ctx, cfg, task["kind"], allow_bulk=ab, max_repetitions=mr)
                bulk = cfg.ver != "v1" and ab
                o1.call(f"fetch allow={ab} mr={mr}", "fetch", ber.GETBULK if bulk else ber.GETNEXT, [(1, 3, 6)], 0,
                        mr if bulk else 0, base="1.3.6")
                o1.call("getnext", "getnext", ber.GETNEXT, [(1, 3, 6)], base="1.3.6")
                if cfg.ver != "v1":
                    o1.call("getbulk default", "getbulk", ber.GETBULK, [(1, 3, 6)], 0, mr, base="1.3.6")
                    o1.call("getbulk 7", "getbulk", ber.GETBULK, [(1, 3, 6)], 0, 7, base="1.3.6", maxrep=7)
                o1.call("get", "get", ber.GET, [(1, 3, 6)], oid="1.3.6")
        if cfg.ver != "v1":  # no version given: v3 when there is a user, otherwise v2c
            o1 = One(ctx, cfg, task["kind"], version=None, max_repetitions=9)
            o1.call("default version", "get", ber.GET, [(1, 3, 6)], oid="1.3.6")
            o1.call("default version, fetch", "fetch", ber.GETBULK, [(1, 3, 6)], 0, 9, base="1.3.6")


def run_bulk(ctx, task):
    from .. import world, ber
    cfgs = [world.V2C, world.BY_NAME["v3-shal-aesl"]]
    vals = list(range(1, 1025)) + [v for k in range(8, 31) for v in ((1 << k) - 1, 1 << k, (1 << k) + 1)] + [0x7FFFFFFF]
    if task["full"]:
        vals += range(1025, 66000)
    for cfg in cfgs:
        o1 = One(ctx, cfg, task["kind"])
        for v in vals:
            o1.call(f"maxrep {v}", "getbulk", ber.GETBULK, [(1, 3, 6)], 0, v, base="1.3.6", maxrep=v)


def run_ctor(ctx, task):
    """every combination of given and omitted session parameters"""
    import itertools
    from gufo.snmp.policer import RPSPolicer
    from .. import world, ber
    m = world.mods()
    extra = [{}, dict(tos=16), dict(send_buffer=4096, recv_buffer=8192), dict(port=1161), dict(port=...), dict(limit_rps=1000),
             dict(limit_rps=0.5), dict(policer=RPSPolicer(1e6)), dict(timeout=...), dict(timeout=3)]
    user = world.v3("sha", "aes")
    n = 0
    for ver, com, usr, ab, mr, ex in itertools.product((..., None, "v1", "v2c", "v3"), (..., "public", "c0m"), (..., None, "u"), (..., True, False),
                                                       (..., 3), extra):
        real = ver if ver not in (..., None) else "v3" if usr == "u" else "v2c"
        kw = dict(ex, version=getattr(m.V, ver) if isinstance(ver, str) else ver, community=com, allow_bulk=ab, max_repetitions=mr)
        kw["user"] = user.user_obj() if usr == "u" else usr
        if real == "v3" and usr != "u":
            ctx.case(f"v3 without a user {ex}")
            ctx.evals += 1
            r = world.outcome(lambda: world.V2C.session(task["kind"], **kw))
            if r[0] == "ok" or not isinstance(r[1], Exception):
                ctx.violation(f"v3 session without a user: {world.show(r)[:100]}", f"{task['kind']} {ver} {ex}")
            continue
        if real == "v3":
            cfg = user
            kw.setdefault("engine_id", cfg.engine)
        else:
            cfg = world.Cfg(real, community="public" if com is ... else com)
        lab = f"{task['kind']} version={ver} community={com} user={usr} allow_bulk={ab} max_repetitions={mr} {sorted(ex)}"
        ctx.case(lab)
        o1 = One(ctx, cfg, task["kind"], **kw)
        bulk = real != "v1" and ab is not False
        k = 20 if mr is ... else mr
        for _ in range(2):
            o1.call(lab, "get", ber.GET, [(1, 3, 6)], oid="1.3.6")
            o1.call(lab, "fetch", ber.GETBULK if bulk else ber.GETNEXT, [(1, 3, 6)], 0, k if bulk else 0, base="1.3.6")
            if real != "v1":
                o1.call(lab, "getbulk", ber.GETBULK, [(1, 3, 6)], 0, k, base="1.3.6")
        n += 1
    ctx.sample(f"{task['kind']}: {n} combinations of session parameters")
