"""C07 - get / get_many results and SNMP exceptions map as documented."""
from mc import fds
LEVEL = "exploration"
RULE = ("one execution = one get()/get_many()/walk step answered by one enumerated reply; nontrivial = distinct replies with "
        "an exception value, NULL, no varbind, several varbinds or a Report")
BOUNDS = {
    "quick": "all replies of 0..3 varbinds over 22 value kinds (all types, falsy values, NULL, three exceptions), OID patterns "
             "incl. duplicates and OIDs not asked for, for get and get_many, the same varbind 2..100 times, every error-status with NULL, all Reports (6 counters x ids x signed), "
             "get/get_many/getnext/getbulk, 9 configurations, sync and async",
    "thorough": "4 varbinds, every combination of OID pattern and kinds in every configuration",
}
ASSUMPTIONS = [
    "when the reply repeats an OID with two real values either may be in the dict",
    "a non-zero error-status together with real values is left open by the property and is not explored",
]
V3N = ["v3", "v3-md5l", "v3-shal", "v3-md5l-desl", "v3-shal-desl", "v3-md5l-aesl", "v3-shal-aesl"]
CFGS = ["v1", "v2c"] + V3N


def tasks(tier, info):
    full = tier == "thorough"
    t = []
    for c in CFGS:
        for kind in ("sync", "async"):
            for op in ("get", "get_many"):
                n = 3 if full or c in ("v1", "v2c", "v3-shal-aesl") else 2
                parts = 4 if n == 3 else 1
                for p in range(parts):
                    t.append(dict(k="kinds", cfg=c, kind=kind, op=op, n=n, part=p, parts=parts))
                t.append(dict(k="errs", cfg=c, kind=kind, op=op))
            t.append(dict(k="dups", cfg=c, kind=kind, full=full))
            t.append(dict(k="long", cfg=c, kind=kind))
            if c in V3N:
                t.append(dict(k="reports", cfg=c, kind=kind))
    if full:
        for c in ("v2c", "v3-shal-aesl"):
            for p in range(16):
                t.append(dict(k="kinds", cfg=c, kind="sync", op="get_many", n=4, part=p, parts=16))
    return t


def run(ctx, task):
    globals()["run_" + task["k"]](ctx, task)


def kinds():
    from .. import ber
    K = [("zero", ber.integer(0), 0), ("neg", ber.integer(-1), -1), ("int", ber.integer(1000), 1000),
         ("empty", ber.tlv(4, b""), b""), ("octets", ber.tlv(4, b"ab\0"), b"ab\0"), ("oid", ber.tlv(6, b"\x2b\x06"), "1.3.6"),
         ("ip", ber.tlv(0x40, b"\0\0\0\0"), "0.0.0.0"), ("c32", ber.tlv(0x41, b"\0"), 0), ("g32", ber.tlv(0x42, b"\x05"), 5),
         ("tt", ber.tlv(0x43, b"\x01\0"), 256), ("opaque", ber.tlv(0x44, b"\x04\x01x"), b"\x04\x01x"),
         ("c64", ber.tlv(0x46, b"\0"), 0), ("u32", ber.tlv(0x47, b"\0"), 0), ("false", ber.tlv(1, b"\0"), False),
         ("true", ber.tlv(1, b"\xff"), True), ("real0", ber.tlv(9, b""), 0.0), ("real", ber.tlv(9, b"\x80\x00\x03"), 3.0),
         ("odesc", ber.tlv(7, b"d"), b"d"),
         ("NULL", ber.NULL_TLV, "NULL"), ("NSO", ber.tlv(ber.NO_OBJECT), "EXC"), ("NSI", ber.tlv(ber.NO_INSTANCE), "EXC"),
         ("EOM", ber.tlv(ber.END_OF_MIB), "EXC")]
    return K


OIDS = [(1, 3, 6, 1, 2, 1, 1, 1, 0), (1, 3, 6, 1, 2, 1, 1, 2, 0), (1, 3, 6, 1, 4, 1, 4294967295, 128)]


class Lab:
    def __init__(self, ctx, task):
        from .. import world, ber
        import vnet
        self.ctx, self.world, self.ber, self.vnet = ctx, world, ber, vnet
        self.cfg, self.kind = world.BY_NAME[task["cfg"]], task["kind"]
        self.w = world.wire()
        self.w.clear()
        self.w.responder = self.respond
        self.fresh()
        self.make = None

    def fresh(self):
        self.sess = self.cfg.session(self.kind, timeout=0.5)

    def respond(self, fd, data):
        self.q = self.world.parse_request(data, self.cfg)
        self.vnet.inject(fd, self.make(self.q))

    def call(self, op, make, **kw):
        self.make = make
        self.w.clear()
        self.vnet.flush(fds.fd_of(self.sess))
        return self.world.call(self.sess, self.kind, op, oid=self.ber.oid_text(OIDS[0]),
                               oids=[self.ber.oid_text(o) for o in OIDS[:2]], base="1.3.6.1.2.1", limit=1, **kw)


def expect_get(vals):
    if not vals:
        return ("none",)
    if len(vals) > 1:
        return ("snmperror",)
    v = vals[0][2]
    if v == "NULL" and vals[0][0] == "NULL":
        return ("none",)
    if v == "EXC":
        return ("nosuch",)
    return ("value", v)


def same(a, b):
    return type(a) is type(b) and a == b


def verdict(lab, r, want):
    m = lab.world.mods().g
    k = want[0]
    if k == "none":
        ok = r[0] == "ok" and r[1] is None
    elif k == "value":
        ok = r[0] == "ok" and same(r[1], want[1])
    elif k == "nosuch":
        ok = r[0] == "exc" and isinstance(r[1], m.NoSuchInstance)
    elif k == "snmperror":
        ok = r[0] == "exc" and isinstance(r[1], m.SnmpError) and not isinstance(r[1], m.NoSuchInstance)
    elif k == "auth":
        ok = r[0] == "exc" and isinstance(r[1], m.SnmpAuthError)
    else:
        # dict: oid -> set of admissible values
        ok = (r[0] == "ok" and isinstance(r[1], dict) and set(r[1]) == set(want[1]) and
              all(any(same(r[1][o], x) for x in want[1][o]) for o in want[1]))
    return ok


def expect_many(ber, vbs):
    d = {}
    for o, k in vbs:
        if k[2] == "EXC" or k[0] == "NULL":
            continue
        d.setdefault(ber.oid_text(o), []).append(k[2])
    return ("dict", d)


def one(lab, op, vbs, err=0, idx=0, nontrivial=True):
    """vbs: [(oid, kind)]"""
    from .. import world
    ber = lab.ber
    want = expect_get([k for _, k in vbs]) if op == "get" else expect_many(ber, vbs)
    enc = b"".join([world.vb(o, k[1]) for o, k in vbs])
    label = f"{lab.cfg.name} {lab.kind} {op} err={err}/{idx} reply=[{', '.join(ber.oid_text(o) + '=' + k[0] for o, k in vbs)}]"
    lab.ctx.case(label)
    r = lab.call(op, lambda q: world.reply(lab.cfg, q, enc, err=err, idx=idx))
    lab.ctx.evals += 1
    lab.ctx.nontrivial += bool(nontrivial)
    if not verdict(lab, r, want):
        lab.ctx.violation(f"{op}: reply [{', '.join(k[0] for _, k in vbs)}] gave {lab.world.show(r)[:150]}, expected {want}",
                          label, key=label)
        lab.fresh()


def run_kinds(ctx, task):
    import itertools
    lab = Lab(ctx, task)
    K = kinds()
    n = 0
    for depth in range(task["n"] + 1):
        if depth == 4:
            K = K[:1] + K[4:6] + K[11:14] + K[18:]
        if task["n"] == 4 and depth < 4:
            continue
        for ks in itertools.product(K, repeat=depth):
            n += 1
            if n % task["parts"] != task["part"]:
                continue
            oids = (OIDS + [(2, 39, 7)])[:depth]
            one(lab, task["op"], list(zip(oids, ks)), nontrivial=depth != 1 or ks[0][2] in ("NULL", "EXC"))
        ctx.state((task["cfg"], task["kind"], task["op"], depth))
    ctx.sample(f"{task['cfg']} {task['kind']} {task['op']}: 0..{task['n']} varbinds over {len(K)} kinds")


def run_dups(ctx, task):
    """OID patterns: repeated, permuted, not asked for"""
    import itertools
    lab = Lab(ctx, task)
    K = kinds()
    sel = K if task["full"] else [K[0], K[2], K[3], K[13], K[18], K[19], K[20], K[21]]
    for depth in (1, 2, 3):
        for oids in itertools.product(OIDS, repeat=depth):
            for ks in itertools.product(sel, repeat=depth):
                one(lab, "get_many", list(zip(oids, ks)))
                if task["full"] or depth < 3 or len(set(oids)) < 3:
                    one(lab, "get", list(zip(oids, ks)))
            ctx.state((task["cfg"], task["kind"], oids))
    # a single varbind under any OID; the same varbind over and over
    o = OIDS[0]
    near = [o, o[:-1], o + (0,), o[:-1] + (1,), o[:-1] + (2 ** 32 - 1,), o[:2], (0, 0), (2, 39), (1, 3), o + (1,) * 15,
            (1, 3, 6, 1, 2, 1, 1, 1, 128), (1, 3, 6, 1, 2, 1, 1, 16384, 0)]
    for x in near:
        for k in K:
            one(lab, "get", [(x, k)])
            one(lab, "get_many", [(x, k)])
            for n in (2, 4, 10, 40, 100):
                one(lab, "get", [(x, k)] * n)
                one(lab, "get_many", [(x, k)] * n)
                one(lab, "get", [(x, k)] + [(o, K[-4])] * (n - 1))
                one(lab, "get", [(o, K[-1])] * (n - 1) + [(x, k)])
    ctx.sample(f"{task['cfg']} {task['kind']}: all OID patterns of length <= 3")


def run_errs(ctx, task):
    lab = Lab(ctx, task)
    K = {k[0]: k for k in kinds()}
    for err in range(0, 20):
        for idx in (0, 1, 2, 255):
            for ks in ([], ["NULL"], ["NULL", "NULL"], ["NULL", "NULL", "NULL"]):
                one(lab, task["op"], list(zip(OIDS, [K[k] for k in ks])), err=err, idx=idx)
    ctx.state((task["cfg"], task["kind"], task["op"], "errs"))
    ctx.sample(f"{task['cfg']} {task['kind']} {task['op']}: error-status 0..19 with NULL varbinds")


def run_long(ctx, task):
    """many varbinds: every position of one exception value among real values and the other way round"""
    lab = Lab(ctx, task)
    K = kinds()
    for n in (4, 5, 8, 16, 33, 60):
        oids = [(1, 3, 6, 1, 2, 1, 2, i, 300 + i) for i in range(n)]
        for pos in range(n):
            for kx in K[-4:]:
                ks = [K[2 + i % 4] for i in range(n)]
                ks[pos] = kx
                one(lab, "get_many", list(zip(oids, ks)))
                ks = [K[-4 + (i + pos) % 4] for i in range(n)]
                ks[pos] = K[3]
                one(lab, "get_many", list(zip(oids, ks)))
        for kx in K[-4:]:
            one(lab, "get_many", [(o, kx) for o in oids])
            one(lab, "get", [(o, kx) for o in oids])
        ctx.state((task["cfg"], task["kind"], n))
    ctx.sample(f"{task['cfg']} {task['kind']}: up to 60 varbinds")


def run_reports(ctx, task):
    from .. import world, agent
    lab = Lab(ctx, task)
    cfg = lab.cfg
    counters = [agent.UNSUPPORTED_SEC, agent.NOT_IN_WINDOW, agent.UNKNOWN_USER, agent.UNKNOWN_ENGINE, agent.WRONG_DIGEST,
                agent.DECRYPT_ERR, (1, 3, 6, 1, 6, 3, 12, 1, 4, 0)]
    for op in ("get", "get_many", "getnext", "getbulk", "fetch"):
        for ctr in counters:
            for signed in (False, True, "enc"):
                if signed == "enc" and not cfg.priv:
                    continue
                for rid in (None, 0, 1, 2147483647):
                    for val in (0, 1, 4294967295):
                        def make(q):
                            p = world.report_pdu(q.req_id if rid is None else rid, ctr, val)
                            if signed == "enc":
                                return world.v3_msg(cfg, p, q.msg_id, user=q.user, flags=3, encrypt=True)
                            return world.v3_msg(cfg, p, q.msg_id, user=q.user, encrypt=False,
                                                flags=1 if signed and cfg.auth else 0)
                        label = f"{cfg.name} {lab.kind} {op} Report {ctr} signed={signed} request-id={rid} value={val}"
                        ctx.case(label)
                        r = lab.call(op, make)
                        ctx.evals += 1
                        ctx.nontrivial += 1
                        if not verdict(lab, r, ("auth",)):
                            ctx.violation(f"{op}: Report gave {world.show(r)[:150]} instead of SnmpAuthError", label, key=label)
                            lab.fresh()
        ctx.state((cfg.name, lab.kind, op))
    # a Report received instead of a response must not damage the session
    for rep in (True, False, True, True, False):
        def make(q):
            if rep:
                return world.report(cfg, q, req_id=q.req_id)
            return world.reply(cfg, q, [world.vb(OIDS[0], lab.ber.integer(5))])
        r = lab.call("get", make)
        ctx.evals += 1
        if not verdict(lab, r, ("auth",) if rep else ("value", 5)):
            ctx.violation(f"get after reports: {world.show(r)[:150]}", f"{cfg.name} {lab.kind} report={rep}")
    ctx.sample(f"{cfg.name} {lab.kind}: Reports x counters x ids")
