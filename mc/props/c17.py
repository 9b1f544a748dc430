"""C17 - oversized requests fail cleanly; buffer code stays in bounds."""
LEVEL = "exploration"
RULE = ("one execution = one request of an enumerated size, one history of requests, or one sequence of buffer operations; "
        "nontrivial = refused requests, requests within 4 octets of a length-form or capacity boundary, and all buffer sequences")
BOUNDS = {
    "quick": "request size octet by octet from empty to 4300 octets, grown through the OID , the number of OIDs, the community, the "
             "user name and the engine id, x 9 configurations x get/get_many/getnext/getbulk/refresh, sync and async; all "
             "histories of 3 requests (2 for most asynchronous sessions; too long at any level / exact fit / small / long reply / neighbour session); all sequences "
             "of 3 operations over 64 buffer operations, of 5 over 14 and of 4 pool operations; all schedules of the pool under shuttle DFS",
    "thorough": "as quick with histories of 4, sequences of 4 over all and of 7 over 14 buffer operations",
}
ASSUMPTIONS = [
    "the buffer capacity is 4080 octets; AES ciphertext may be padded by at most 15 octets, DES by at most 7",
    "identifiers have the width observed for the preceding request (the random source is scripted to a constant)",
    "get_bookmark() before set_bookmark(), or after the marked octets were dropped, has no defined result",
    "unwritten octets are detected by running every sequence over two different memory contents",
]
V3N = ["v3", "v3-md5l", "v3-shal", "v3-md5l-desl", "v3-shal-desl", "v3-md5l-aesl", "v3-shal-aesl"]
CFGS = ["v1", "v2c"] + V3N
CAP = 4080
BASE = (1, 3, 6, 1, 4, 1)


def grow(n, a=7):
    """an OID with n more octets than BASE: arcs of five octets, then arcs of one"""
    return BASE + (4294967295 - a,) * (n // 5) + (a,) * (n % 5)


EDGES = sorted({x + d for x in (127, 128, 255, 256, CAP) for d in range(-4, 5)})


def tasks(tier, info):
    full = tier == "thorough"
    t = []
    if info.get("rmc_ok"):
        for d, small, parts in ((1, False, 1), (2, False, 1), (3, False, 8)) + (((4, False, 64), (6, True, 16), (7, True, 64)) if full else ((5, True, 8),)):
            for p in range(parts):
                t.append(dict(k="buf", depth=d, small=small, part=p, parts=parts))
        for p in range(4):
            t.append(dict(k="pool", depth=5 if full else 4, part=p, parts=4))
    for c in CFGS:
        for op in ("get", "get_many", "getnext", "getbulk"):
            if c == "v1" and op == "getbulk":
                continue
            for kind in ("sync", "async"):
                t.append(dict(k="oid", cfg=c, op=op, kind=kind, full=full or kind == "sync"))
        for part in range(2):
            t.append(dict(k="many", cfg=c, part=part, parts=2, full=full))
        for part in range(2):
            t.append(dict(k="creds", cfg=c, part=part, parts=2, full=full))
        t.append(dict(k="huge", cfg=c))
        for kind in ("sync", "async"):
            d = 4 if full else 3 if kind == "sync" or c in ("v2c", "v3-shal-aesl") else 2
            parts = 8 if full else 3 if d == 3 else 1
            for p in range(parts):
                t.append(dict(k="hist", cfg=c, kind=kind, depth=d, part=p, parts=parts))
        if c.count("-") == 2:
            t.append(dict(k="pads", cfg=c))
    from ..mtpool import tasks as pool_tasks
    return t + pool_tasks(info, full)


def run_threads(ctx, task):
    from ..mtpool import run as f
    f(ctx, task)


def run(ctx, task):
    globals()["run_" + task["k"]](ctx, task)


# ---- buffer operations in the crate itself ------------------------------------------
def run_buf(ctx, task):
    from .. import rmc
    m = rmc.load(ctx)
    n, states, bad = m.buffer_ops(task["depth"], task["part"], task["parts"], task["small"])
    ctx.evals += n
    ctx.nontrivial += n
    ctx.trans += n * task["depth"]
    for s in states:
        ctx.state(("buf", s))
    if bad:
        ctx.violation(f"buffer operations {bad[0]}: {bad[1]}", f"rmc buffer {bad[0]}", key=f"buffer: {bad[1]}"[:120])
    ctx.sample(f"all sequences of {task['depth']} buffer operations over {m.buffer_menu(task['small'])}")


def run_pool(ctx, task):
    from .. import rmc
    m = rmc.load(ctx)
    n, bad = m.pool_ops(task["depth"], task["part"], task["parts"])
    ctx.evals += n
    ctx.nontrivial += n
    if bad:
        ctx.violation(f"pool operations {bad[0]}: {bad[1]}", f"rmc pool {bad[0]}", key=f"pool: {bad[1]}"[:120])
    ctx.state(("pool", task["depth"], task["part"]))
    ctx.sample(f"all sequences of {task['depth']} pool operations")


# ---- requests ------------------------------------------------------------------------
def enc_size(cfg, ids, tag, oids, f1, f2, boots=0, time=0, engine=None, user=None, disc=False):
    """(smallest, largest) size of the complete message; ids = (request-id, msgID)"""
    from .. import ber, world
    n = ber.NULL_TLV
    p = ber.tlv(tag, ber.integer(ids[0]) + ber.integer(f1) + ber.integer(f2) +
                ber.tlv(ber.SEQ, b"".join(ber.tlv(ber.SEQ, ber.oid(o) + n) for o in oids)))
    if cfg.ver != "v3":
        x = len(world.community_msg(cfg.mver, cfg.community.encode(), p))
        return x, x
    out = []
    auth, priv = (None, None) if disc else (cfg.auth, cfg.priv)
    eng = b"" if disc else cfg.engine
    sc = world.scoped(eng, p)
    pads = {None: (0,), "des": (-len(sc) % 8,), "aes": (0, -len(sc) % 16)}[priv]
    for pad in pads:
        d = ber.tlv(4, bytes(len(sc) + pad)) if priv else sc
        u = ber.tlv(ber.SEQ, ber.tlv(4, eng) + ber.integer(boots) + ber.integer(time) + ber.tlv(4, b"" if disc else cfg.user.encode()) +
                    ber.tlv(4, bytes(12) if auth else b"") + ber.tlv(4, bytes(8) if priv else b""))
        h = ber.tlv(ber.SEQ, ber.integer(ids[1]) + ber.integer(2048) + ber.tlv(4, b"\0") + ber.integer(3))
        out.append(len(ber.tlv(ber.SEQ, ber.integer(3) + h + ber.tlv(4, u) + d)))
    return min(out), max(out)


PAT = (0x5A5A5A5A5A5A5A5A).to_bytes(8, "little")


class Lab:
    def __init__(self, ctx, cfg, kind="sync", **kw):
        import vnet
        from .. import world, hist, ber
        self.ctx, self.cfg, self.kind, self.vnet, self.world, self.hist, self.ber = ctx, cfg, kind, vnet, world, hist, ber
        self.w = world.wire()
        self.w.clear()
        self.w.responder = None
        self.sess = cfg.session(kind, timeout=0.001, **kw)
        self.ids = (0x5A5A5A5A, 0x5A5A5A5A)
        self.clock = (0, 0)
        self.sizes = set()

    def call(self, lab, op, oids, check_after=True):
        """-> True when the request was sent"""
        ctx, cfg, ber, world = self.ctx, self.cfg, self.ber, self.world
        T = ber.oid_text
        if op == "refresh":
            tag, f1, f2, kw = ber.GET, 0, 0, {}
        else:
            tag, f1, f2, kw = {
                "get": (ber.GET, 0, 0, dict(oid=T(oids[0]) if oids else "")), "get_many": (ber.GET, 0, 0, dict(oids=[T(o) for o in oids])),
                "getnext": (ber.GETNEXT, 0, 0, dict(base=T(oids[0]) if oids else "")),
                "getbulk": (ber.GETBULK, 0, 20, dict(base=T(oids[0]) if oids else ""))}[op]
        label = f"{cfg.name} {self.kind} {op} {lab}"
        ctx.case(label)
        self.w.clear()
        self.vnet.script_random(PAT * 8)
        r = world.call(self.sess, self.kind, op, **kw)
        self.vnet.script_random(b"")
        sent = list(self.w.sent)
        ctx.evals += 1
        lo, hi = enc_size(cfg, self.ids, tag, oids, f1, f2, *self.clock)
        bad = None
        if sent:
            if len(sent) > 1:
                bad = f"{len(sent)} datagrams sent"
            else:
                x = self.hist.Rec(cfg=cfg, data=sent[0], tag=tag, oids=[tuple(o) for o in oids], f1=f1, f2=f2, disc=False, env=None,
                                  sess=self.sess, act=op)
                bad = self.hist.judge(x, self.judge)
                if not bad and r[0] == "exc" and not isinstance(r[1], (TimeoutError, BlockingIOError)):
                    bad = f"the request was sent but the call raised {world.show(r)[:100]}"
                self.sizes.add(len(sent[0]))
                if any(abs(len(sent[0]) - e) <= 4 for e in EDGES):
                    ctx.nontrivial += 1
        else:
            ctx.nontrivial += 1
            if hi <= CAP:
                bad = f"a request of {lo} octets, which fits, was not sent: {world.show(r)[:100]}"
            elif r[0] == "ok" or type(r[1]) is not world.mods().g.SnmpEncodeError:
                bad = f"a request of {lo} octets, which does not fit, gave {world.show(r)[:100]} instead of SnmpEncodeError"
        ctx.note("sent" if sent else "refused")
        if bad:
            ctx.violation(f"{bad} [{op}]", f"{label} size={lo} sent={[s.hex()[:300] for s in sent[:2]]}", key=f"{label}: {bad}"[:200])
        elif not sent and check_after:
            self.call(f"{lab}, then a small one", "get", [BASE + (1, 0)], False)
        ctx.state((cfg.name, self.kind, op, lab))
        return bool(sent)

    def judge(self, x, q, st):
        from . import c03
        e = c03.check(x, q, st)
        if e:
            return e
        if len(x.data) > CAP:
            return f"a message of {len(x.data)} octets"
        want = (q.req_id, q.msg_id if self.cfg.ver == "v3" else 0)
        self.ids = want
        return None


def run_oid(ctx, task):
    from .. import world
    cfg = world.BY_NAME[task["cfg"]]
    L = Lab(ctx, cfg, task["kind"])
    op = task["op"]
    step = 1 if task["full"] else 5
    ns = sorted(set(range(0, 4300, step)) | set(range(60, 320)) | set(range(3820, 4130)))
    for n in ns:
        L.call(f"len {n}", op, [grow(n, 7)])
    if CAP not in L.sizes and cfg.priv is None and not ctx.viol:
        ctx.note("exact_fit_missing")
    ctx.sample(f"{cfg.name} {task['kind']} {op}: {len(ns)} OID lengths, largest message {max(L.sizes, default=0)}")


def run_many(ctx, task):
    """many OIDs; the last ones sweep the remaining room octet by octet"""
    from .. import world
    cfg = world.BY_NAME[task["cfg"]]
    L = Lab(ctx, cfg)
    n = 0
    for width in (3, 9, 17, 60, 118, 120, 124, 200, 250, 252, 600) if task["full"] else (9, 60, 119, 250, 600):
        # octets per varbind, roughly
        o = grow(max(0, width - 9), 5)
        per = enc_size(cfg, L.ids, 0xA0, [o, o], 0, 0)[0] - enc_size(cfg, L.ids, 0xA0, [o], 0, 0)[0]
        k0 = max(0, (CAP - 200) // per)
        for k in (0, 1, 2, k0, k0 - 1, k0 // 2):
            lo, _ = enc_size(cfg, L.ids, 0xA0, [o] * max(k, 0), 0, 0)
            base_room = CAP - lo
            for extra in range(max(0, base_room - 60), base_room + 45, 1):
                n += 1
                if n % task["parts"] != task["part"]:
                    continue
                L.call(f"{k} x {width} + {extra}", "get_many", [o] * max(k, 0) + [grow(extra, 9)])
                L.call(f"{extra} + {k} x {width}", "get_many", [grow(extra, 9)] + [o] * max(k, 0))
    # the number of OIDs
    for k in range(task["part"], 520, task["parts"]):
        L.call(f"{k} OIDs", "get_many", [(1, 3)] * k)
        L.call(f"{k} OIDs of 2", "get_many", [(1, 3, 128)] * k)
        L.call(f"{k} OIDs of 8", "get_many", [BASE + (i, 4294967295) for i in range(k)])
    ctx.sample(f"{cfg.name}: mixes of many OIDs around the capacity, largest message {max(L.sizes, default=0)}")


def run_creds(ctx, task):
    """community / user name / engine id lengths"""
    from .. import world
    c0 = world.BY_NAME[task["cfg"]]
    ns = sorted(set(range(0, 300)) | set(range(300, 3800, 7 if not task["full"] else 1)) | set(range(3800, 4200)))
    for what in (("community",) if c0.ver != "v3" else ("user", "engine")):
        for n in ns[task["part"]::task["parts"]]:
            if what == "community":
                c = c0.with_(community="c" * n)
            elif what == "user":
                c = c0.with_(user="u" * n)
            else:
                if n == 0 or (n > 300 and n not in range(1800, 2060) and n % 10):
                    continue
                c = c0.with_(engine=bytes((0x80 + i) & 0x7F | 1 for i in range(n)))
            L = Lab(ctx, c)
            L.call(f"{what} {n}", "get", [BASE + (1, 0)], False)
            L.call(f"{what} {n} long", "getnext" if n % 2 else "get_many", [grow(n % 130, 1)], False)
            if c.auth:
                L.call(f"{what} {n} refresh", "refresh", [], False)
    ctx.sample(f"{c0.name}: {len(ns)} credential lengths")


def run_huge(ctx, task):
    from .. import world
    cfg = world.BY_NAME[task["cfg"]]
    for kind in ("sync", "async"):
        L = Lab(ctx, cfg, kind)
        for n in (4096, 5000, 8159, 8160, 8161, 10000, 16384, 32767, 32768, 65500, 65535, 65536, 65537, 65600, 70000, 131072, 200000):
            for op in ("get", "get_many", "getnext") + (("getbulk",) if cfg.ver != "v1" else ()):
                L.call(f"len {n}", op, [grow(n, 7)])
            if n <= 20000 or n == 70000:
                L.call(f"{n} OIDs", "get_many", [BASE + (i,) for i in range(n)])
            if cfg.ver != "v3":
                Lab(ctx, cfg.with_(community="c" * n), kind).call(f"community {n}", "get", [BASE], False)
            else:
                Lab(ctx, cfg.with_(user="u" * n), kind).call(f"user {n}", "get", [BASE], False)
                Lab(ctx, cfg.with_(engine=b"\x01" * n), kind).call(f"engine {n}", "get", [BASE], False)
    ctx.sample(f"{cfg.name}: up to 200000 octets")


# ---- histories -----------------------------------------------------------------------
def plan(cfg, ids):
    """named requests: exact fits and failures at every level of the message"""
    def longest(op_tag, f2, target):
        # OID length such that the message has `target` octets (largest below it when padding skips it)
        best = None
        for n in range(3500, 4100):
            lo, hi = enc_size(cfg, ids, op_tag, [grow(n, 7)], 0, f2)
            if hi <= target:
                best = n
        return best
    fit = longest(0xA0, 0, CAP)
    acts = {"small": ("get", [BASE + (1, 0)]), "none": ("get_many", []), "fit": ("get", [grow(fit, 7)])}
    # fails while writing: just over, in the middle of the header fields, in the varbind list, in the value, at once
    for d in (1, 3, 5, 8, 12, 17, 30, 60):
        acts[f"over{d}"] = ("get_many", [grow(fit + d, 7)])
    acts["manyover"] = ("get_many", [BASE + (i, 4294967295) for i in range(400)])
    acts["nextover"] = ("getnext", [grow(4200, 7)])
    acts["nextfit"] = ("getnext", [grow(fit, 7)])
    if cfg.ver != "v1":
        acts["bulkfit"] = ("getbulk", [grow(fit - 20, 7)])
    return acts


def run_hist(ctx, task):
    import itertools
    from .. import world, ber
    cfg = world.BY_NAME[task["cfg"]]
    kind = task["kind"]
    L0 = Lab(ctx, cfg, kind)
    L0.call("calibration", "get", [BASE])
    acts = plan(cfg, L0.ids)
    names = list(acts) + ["neighbour", "reply"]
    n = 0
    for h in itertools.product(names, repeat=task["depth"]):
        n += 1
        if n % task["parts"] != task["part"]:
            continue
        L = Lab(ctx, cfg, kind)
        L.ids = L0.ids
        ctx.traces += 1
        for i, a in enumerate(h):
            ctx.trans += 1
            if a == "neighbour":
                o = world.V2C if cfg.ver != "v2c" else world.BY_NAME["v3-shal-aesl"]
                M = Lab(ctx, o, "sync")
                M.call(f"history {' '.join(h)} step {i}: neighbour", "get", [BASE + (2, 0)])
                M.call(f"history {' '.join(h)} step {i}: neighbour over", "get", [grow(4100, 2)])
                continue
            if a == "reply":
                reply_step(ctx, L, " ".join(h))
                continue
            op, oids = acts[a]
            L.call(f"history {' '.join(h)} step {i}", op, oids, False)
            if len(ctx.viol) > 5:
                return
    ctx.sample(f"{cfg.name} {kind}: all histories of {task['depth']} over {len(names)}")


def reply_step(ctx, L, h):
    """a long reply goes through the same pool"""
    from .. import world, ber
    body = bytes(range(256)) * 15
    body = body[:3800]

    def responder(fd, data):
        q = world.parse_request(data, L.cfg)
        L.vnet.inject(fd, world.reply(L.cfg, q, [world.vb(BASE + (1, 0), ber.tlv(4, body))]))
    L.w.responder = responder
    r = world.call(L.sess, L.kind, "get", oid=ber.oid_text(BASE + (1, 0)))
    L.w.responder = None
    ctx.evals += 1
    if L.cfg.ver == "v3":
        L.clock = (7, 1000)
    if r != ("ok", body):
        ctx.violation(f"a long reply is not delivered: {world.show(r)[:100]}", f"{L.cfg.name} {L.kind} history {h}")


def run_pads(ctx, task):
    """the filler behind the scoped PDU never depends on what the buffer held before"""
    from .. import world, ber
    cfg = world.BY_NAME[task["cfg"]]

    def plain(kinds, n):
        L = Lab(ctx, cfg)
        for k in kinds:
            if k == "reply":
                reply_step(ctx, L, "pads")
            elif k == "reply2":
                L2 = Lab(ctx, cfg)
                reply_step(ctx, L2, "pads")
            else:
                L.call(f"pads {k}", "get", [BASE + (k,) * 3000], False)
        L.w.clear()
        L.vnet.script_random(PAT * 8)
        world.call(L.sess, "sync", "get", oid=ber.oid_text(grow(n, 3)))
        L.vnet.script_random(b"")
        if len(L.w.sent) != 1:
            return None
        try:
            q = world.parse_request(L.w.sent[0], cfg)
        except ber.BerError:
            return None
        return q.plain

    for n in range(0, 40):
        ref = None
        for kinds in ((), ("reply",), (0x55,), (0x2A,), (0x55, 0x2A), ("reply", 0x11), (0x11, "reply"), ("reply2",), (0x7F, 0x7F, "reply")):
            p = plain(kinds, n)
            ctx.evals += 1
            ctx.nontrivial += 1
            if ref is None:
                ref = p
            if p != ref:
                ctx.violation("the plaintext of a request depends on what was in the buffer before",
                              f"{cfg.name} len {n} after {kinds}: {p and p.hex()[-80:]} instead of {ref and ref.hex()[-80:]}",
                              key=f"{cfg.name} pads {kinds}")
            ctx.state((cfg.name, n, kinds))
    ctx.sample(f"{cfg.name}: 40 sizes x 9 buffer contents")
