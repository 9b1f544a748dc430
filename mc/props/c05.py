"""C05 - a walk returns the whole subtree, in order, once."""
LEVEL = "model_checking"
RULE = ("one execution = one complete walk of one MIB (or one interleaving of walks and other calls on one session) against "
        "an RFC 3416 agent model; nontrivial = walks whose expected result is not empty")
BOUNDS = {
    "quick": "all 2^10 MIBs over an OID universe with 1..5-octet arcs, byte-prefix siblings, an instance at the base and "
             "neighbours on both sides x 6 bases x getnext/getbulk/fetch x max-repetitions {1,2,3,7,20} x agent caps x v1/v2c "
             "(2^8 MIBs for the v3 configurations); linear MIBs of 0..45 entries x max-repetitions x caps; "
             "all pairs of 37 arcs, trees up to 128 arcs deep, tables of 2600 (66000) entries; all interleavings "
             "of two walks and get()s on one session",
    "thorough": "all 2^12 MIBs in every configuration, linear MIBs up to 130 entries, longer interleavings",
}
ASSUMPTIONS = [
    "the agent never caps a GetBulk reply to zero repetitions for a non-empty request and answers within 4080 octets",
    "v1 agents end the MIB with noSuchName and the request's varbinds echoed (RFC 1157 4.1.3)",
]
B = (1, 3, 6, 1, 2)
UNIVERSE = [
    B + (1, 1), B + (127,), B + (128,), B + (128, 1), B + (16383, 4294967295), B + (16384,), B + (4294967295,),
    B[:-1] + (3,), B, B[:-1] + (1, 9),  # after, at and before the base
    B + (1,), B + (255, 0), # thorough only
]
BASES = [B, (1, 3), B + (128,), B + (1,), B + (4294967295,), B + (5,)]
EXTRA_BASES = [(0, 0), (2, 39), (2, 1, 256), (1, 3, 6, 1, 4, 1) + (4294967295,) * 20]
V3N = ["v3", "v3-md5l", "v3-shal-desl", "v3-shal-aesl"]


def tasks(tier, info):
    full = tier == "thorough"
    t = []
    for c in ["v1", "v2c"] + V3N:
        bits = (12 if full else 10) if c in ("v1", "v2c") else (10 if full else 7)
        for kind in ("sync", "async"):
            for op in ("getnext", "getbulk", "fetch"):
                if c == "v1" and op == "getbulk":
                    continue
                b = bits if kind == "sync" or full else bits - 2
                parts = max(1, (1 << b) // (64 if op == "getbulk" else 256))
                for p in range(parts):
                    t.append(dict(k="mib", cfg=c, kind=kind, op=op, bits=b, part=p, parts=parts))
    for c in ("v1", "v2c", "v3-shal-aesl"):
        for kind in ("sync", "async"):
            t.append(dict(k="types", cfg=c, kind=kind))
            t.append(dict(k="bases", cfg=c, kind=kind))
            t.append(dict(k="pairs", cfg=c, kind=kind))
            t.append(dict(k="big", cfg=c, kind=kind, n=66000 if c == "v2c" and (full or kind == "sync") else 9000 if full else 2600))
            for p in range(2):
                t.append(dict(k="inter", cfg=c, kind=kind, full=full, part=p, parts=2))
            n = (131 if full else 46) if c != "v3-shal-aesl" else 46
            for p in range(4):
                t.append(dict(k="lin", cfg=c, kind=kind, n=n, part=p, parts=4))
    t.append(dict(k="defaults", kind="sync"))
    t.append(dict(k="defaults", kind="async"))
    return t


def run(ctx, task):
    globals()["run_" + task["k"]](ctx, task)


class Lab:
    def __init__(self, ctx, cfg, kind, **kw):
        from .. import world, agent, ber
        self.world, self.agentmod, self.ber, self.ctx, self.cfg, self.kind = world, agent, ber, ctx, cfg, kind
        self.w = world.wire()
        self.w.clear()
        self.ag = agent.Agent(cfg)
        self.w.responder = self.ag
        self.sess = cfg.session(kind, **kw)

    def walk(self, op, base, limit, maxrep=None):
        self.w.clear()
        self.ag.requests.clear()
        return self.world.call(self.sess, self.kind, op, base=self.ber.oid_text(base), limit=limit, maxrep=maxrep)

    def judge(self, op, base, mib, values, maxrep=None, cap=None, descr=""):
        want = [(self.ber.oid_text(o), values[o]) for o in self.agentmod.expected_walk(mib, base)]
        self.ag.cap = cap
        self.ctx.case(f"{self.cfg.name} {self.kind} {op} base={base} maxrep={maxrep} cap={cap} mib={sorted(mib)} {descr}")
        r = self.walk(op, base, len(want) + 4, maxrep)
        self.ctx.evals += 1
        self.ctx.trans += len(self.ag.requests)
        self.ctx.nontrivial += bool(want)
        self.ctx.traces += 1
        ok = r[0] == "ok" and r[1] == want and [type(v) for _, v in r[1]] == [type(v) for _, v in want]
        if not ok:
            got = r[1] if r[0] == "ok" else self.world.show(r)[:150]
            self.ctx.violation(
                f"{op}({self.ber.oid_text(base)}) yielded {str(got)[:300]}, expected {str(want)[:300]}",
                f"{self.cfg.name} {self.kind} max_repetitions={maxrep} cap={cap} mib={[self.ber.oid_text(k) for k in sorted(mib)]} {descr}"[:2500],
                key=f"{self.cfg.name} {self.kind} {op} {base} {maxrep} {cap} {sorted(mib)}"[:300])
        return ok


def get_cfg(name):
    from ..world import BY_NAME
    return BY_NAME[name]


def run_mib(ctx, task):
    from .. import ber
    cfg, kind, op = get_cfg(task["cfg"]), task["kind"], task["op"]
    lab = Lab(ctx, cfg, kind)
    vals = [0, -1, 2, 3, 4, 5, 6, 77, 88, 99, 10, 11]
    tl = [ber.integer(v) for v in vals]
    combos = [(None, None)]
    if op == "getbulk":
        combos = [(1, None), (2, None), (3, None), (7, None), (20, None), (20, 1), (7, 2), (3, 4), (2, 1)]
    elif op == "fetch" and cfg.ver != "v1":
        combos = [(None, None), (None, 1), (None, 3)]
    bits = task["bits"]
    for m in range(task["part"], 1 << bits, task["parts"]):
        idx = [i for i in range(bits) if m >> i & 1]
        mib = {UNIVERSE[i]: tl[i] for i in idx}
        values = {UNIVERSE[i]: vals[i] for i in idx}
        lab.ag.set_mib(mib)
        for base in BASES:
            for mr, cap in combos:
                lab.judge(op, base, mib, values, mr, cap)
        ctx.state((cfg.name, kind, op, m))
    ctx.sample(f"{cfg.name} {kind} {op}: MIBs part {task['part']}/{task['parts']} of 2^{bits}")


def run_types(ctx, task):
    """values of every type (also empty and zero ones) travel through the walk"""
    from .. import ber, world
    cfg, kind = get_cfg(task["cfg"]), task["kind"]
    lab = Lab(ctx, cfg, kind)
    items = [(ber.integer(0), 0), (ber.integer(-5), -5), (ber.tlv(4, b""), b""), (ber.tlv(4, b"\0\xff"), b"\0\xff"),
             (ber.tlv(6, b"\x2b\x06"), "1.3.6"), (ber.tlv(0x40, b"\x0a\0\0\1"), "10.0.0.1"),
             (ber.tlv(0x41, b"\0"), 0), (ber.tlv(0x42, b"\0\xff\xff\xff\xff"), 4294967295),
             (ber.tlv(0x43, b"\x01"), 1), (ber.tlv(0x44, b"\x9f\x78\x04\x3f\x80\0\0"), None),
             (ber.tlv(0x46, b"\0" + b"\xff" * 8), 2**64 - 1), (ber.tlv(1, b"\0"), False), (ber.tlv(9, b""), 0.0)]
    n = len(items)
    B2 = (1, 3, 6, 1, 4)
    # opaque value representation is C02's business: drop it here
    items = [x for x in items if x[1] is not None]
    n = len(items)
    for i in range(n):
        for j in range(n):
            for k in (0, i, n - 1):
                sel = [items[i], items[j], items[k]]
                mib = {B2 + (x + 1, 0): s[0] for x, s in enumerate(sel)}
                values = {B2 + (x + 1, 0): s[1] for x, s in enumerate(sel)}
                lab.ag.set_mib(mib)
                for op in ("getnext", "getbulk", "fetch"):
                    if cfg.ver == "v1" and op == "getbulk":
                        continue
                    lab.judge(op, B2, mib, values, 2 if op == "getbulk" else None)
                ctx.state((cfg.name, kind, i, j, k))
    ctx.sample(f"{cfg.name} {kind}: value triples through walks")


def run_bases(ctx, task):
    from .. import ber
    cfg, kind = get_cfg(task["cfg"]), task["kind"]
    lab = Lab(ctx, cfg, kind)
    for base in EXTRA_BASES:
        kids = [base + (0,), base + (0, 0), base + (127,), base + (128,), base + (16383,), base + (16384,), base + (2097151,),
                base + (2097152, 4294967295), base + (268435456,), base + (4294967295,)]
        outside = [o for o in (base[:-1] + (base[-1] - 1,) if base[-1] and len(base) > 2 else None,
                               base[:-1] + (base[-1] + 1, 1) if len(base) > 2 and base[-1] < 4294967295 else (2, 39, 4294967295)
                               if base < (2, 39) else None) if o]
        for m in range(1 << len(kids)):
            if bin(m).count("1") > 3 and m % 37:
                continue
            sel = [kids[i] for i in range(len(kids)) if m >> i & 1] + outside
            mib = {o: ber.integer(i) for i, o in enumerate(sel)}
            values = {o: i for i, o in enumerate(sel)}
            lab.ag.set_mib(mib)
            for op, mr in (("getnext", None), ("getbulk", 1), ("getbulk", 4), ("fetch", None)):
                if cfg.ver == "v1" and op == "getbulk":
                    continue
                lab.judge(op, base, mib, values, mr)
            ctx.state((cfg.name, kind, base, m))
    ctx.sample(f"{cfg.name} {kind}: bases {[ber.oid_text(b)[:40] for b in EXTRA_BASES]}")


ARCS = sorted({0, 1, 2, 39, 40, 126, 127, 128, 129, 200, 255, 256, 300, 8191, 8192, 16255, 16256, 16383, 16384, 16385, 16511, 16512, 65535,
               65536, 1048576, 2080767, 2097151, 2097152, 2097153, 266338303, 268435455, 268435456, 2147483647, 2147483648, 4294967167,
               4294967168, 4294967295})


def run_pairs(ctx, task):
    """every pair of neighbouring arcs, at several depths: the order of OIDs is the one of their arcs, not of their octets"""
    from .. import ber
    cfg, kind = get_cfg(task["cfg"]), task["kind"]
    lab = Lab(ctx, cfg, kind)
    for i, a in enumerate(ARCS):
        for b in ARCS[i + 1:]:
            for k, o in enumerate(([B + (a,), B + (b,)], [B + (a, b), B + (b,), B + (b, a)], [B + (7, a, 4294967295), B + (7, b, 0)])):
                mib = {x: ber.integer(j) for j, x in enumerate(o)}
                mib[B[:-1] + (3,)] = ber.integer(9)
                values = {x: j for j, x in enumerate(o)}
                lab.ag.set_mib(mib)
                op = ("getnext", "fetch")[(i + k) % 2]
                lab.judge(op, B, mib, values)
                if cfg.ver != "v1":
                    lab.judge("getbulk", B, mib, values, 1 + k)
        # the base is one of the arcs, its neighbours are outside
        base = B + (a,)
        mib = {B + (x, 1): ber.integer(j) for j, x in enumerate(ARCS)}
        values = {B + (x, 1): j for j, x in enumerate(ARCS)}
        lab.ag.set_mib(mib)
        for op, mr in (("getnext", None), ("fetch", None), ("getbulk", 3)):
            if cfg.ver != "v1" or op != "getbulk":
                lab.judge(op, base, mib, values, mr)
        ctx.state((cfg.name, kind, a))
    # deep trees: 1..123 arcs below the base
    for d in range(1, 124):
        o = [B + (3,) * j for j in range(1, d + 1)] + [B + (3,) * (d - 1) + (4294967295,)]
        mib = {x: ber.integer(j) for j, x in enumerate(o)}
        values = {x: j for j, x in enumerate(o)}
        lab.ag.set_mib(mib)
        lab.judge("fetch", B, mib, values)
        if d % 8 == 0:
            lab.judge("getnext", B + (3,) * (d // 2), mib, values)
    ctx.sample(f"{cfg.name} {kind}: all pairs of {len(ARCS)} arcs, trees up to 128 arcs deep")


def run_big(ctx, task):
    """one large table"""
    from .. import ber
    cfg, kind, n = get_cfg(task["cfg"]), task["kind"], task["n"]
    o = [B + (1 + i // 1000, i) for i in range(n)]
    mib = {x: ber.integer(i) for i, x in enumerate(o)}
    mib[B[:-1] + (3,)] = ber.integer(9)
    values = {x: i for i, x in enumerate(o)}
    for op, mr, cap in (("getnext", None, None), ("fetch", None, None), ("getbulk", 1, None), ("getbulk", 50, None), ("getbulk", 100, 7)):
        if cfg.ver == "v1" and op == "getbulk":
            continue
        lab = Lab(ctx, cfg, kind)
        lab.ag.set_mib(mib)
        want = [(ber.oid_text(x), values[x]) for x in o]
        lab.ag.cap = cap
        ctx.case(f"{cfg.name} {kind} {op} maxrep={mr} cap={cap}: table of {n} entries")
        r = lab.walk(op, B, n + 4, mr)
        ctx.evals += 1
        ctx.nontrivial += 1
        ctx.trans += len(lab.ag.requests)
        ctx.traces += 1
        if r != ("ok", want):
            i = next((i for i, x in enumerate(zip(r[1], want)) if x[0] != x[1]), len(r[1])) if r[0] == "ok" else -1
            ctx.violation(f"{op}: table of {n} entries: {lab.world.show(r)[:80]} first difference at {i}", f"{cfg.name} {kind} {mr} {cap}",
                          key=f"big {cfg.name} {kind} {op} {mr} {cap}")
        ctx.state((cfg.name, kind, op, mr, cap))
    ctx.sample(f"{cfg.name} {kind}: a table of {n} entries")


def run_lin(ctx, task):
    """n entries x max-repetitions x cap: ends of the walk at every offset inside a reply"""
    from .. import ber
    cfg, kind = get_cfg(task["cfg"]), task["kind"]
    lab = Lab(ctx, cfg, kind)
    base = B + (9,)
    for n in range(task["part"], task["n"], task["parts"]):
        for after in (0, 1, 30):
            o = [base + (i // 7, i) for i in range(n)] + [B + (10, i) for i in range(after)]
            mib = {x: ber.integer(i) for i, x in enumerate(o)}
            values = {x: i for i, x in enumerate(o)}
            lab.ag.set_mib(mib)
            if n % 8 == 0:
                lab.judge("getnext", base, mib, values)
            if cfg.ver == "v1":
                lab.judge("fetch", base, mib, values)
                continue
            for mr in (1, 2, 5, 9, 10, 11, 20, 45, 46, 127, 128, 255, 256, 65535, 2147483647):
                for cap in (None, 1, 4, 25):
                    if cap and cap > mr or (mr < 5 and n % 5):
                        continue
                    lab.judge("getbulk", base, mib, values, mr, cap)
            lab.judge("fetch", base, mib, values)
        ctx.state((cfg.name, kind, n))
    ctx.sample(f"{cfg.name} {kind}: linear MIBs of {task['part']} (mod {task['parts']}) entries below {task['n']}")


def run_defaults(ctx, task):
    """session-wide max_repetitions / allow_bulk"""
    from .. import ber
    kind = task["kind"]
    for cfgn in ("v2c", "v3-shal-aesl", "v1"):
        cfg = get_cfg(cfgn)
        for mr in (1, 2, 20, 25):
            for ab in (True, False):
                lab = Lab(ctx, cfg, kind, max_repetitions=mr, allow_bulk=ab)
                for n in (0, 1, 2, 19, 20, 21, 40, 41):
                    o = [B + (i,) for i in range(n)] + [(1, 3, 6, 1, 3)]
                    mib = {x: ber.integer(i) for i, x in enumerate(o)}
                    values = {x: i for i, x in enumerate(o)}
                    lab.ag.set_mib(mib)
                    ops = ("fetch", "getnext") + (("getbulk",) if cfg.ver != "v1" else ())
                    for op in ops:
                        lab.judge(op, B, mib, values, descr=f"session max_repetitions={mr} allow_bulk={ab}")
                ctx.state((cfgn, mr, ab))
    ctx.sample(f"{kind}: session defaults")


def run_inter(ctx, task):
    """every interleaving of two walks (and gets) on one session, and the same walk restarted in between"""
    import itertools
    from .. import ber, world
    cfg, kind = get_cfg(task["cfg"]), task["kind"]
    lab = Lab(ctx, cfg, kind)
    o = [B + (1, i) for i in range(3)] + [B + (2, i) for i in range(3)] + [(1, 3, 6, 1, 3)]
    mib = {x: ber.integer(i) for i, x in enumerate(o)}
    values = {x: i for i, x in enumerate(o)}
    lab.ag.set_mib(mib)
    lab.ag.cap = 2
    exp = {b: [(ber.oid_text(x), values[x]) for x in lab.agentmod.expected_walk(mib, b)] for b in (B, B + (1,), B + (2,))}
    ops = ("getnext", "getbulk", "fetch") if cfg.ver != "v1" else ("getnext", "fetch")
    n = 9 if task["full"] else 7
    cases = [(p, q, b1, b2) for p in ops for q in ops for b1, b2 in ((B + (1,), B + (2,)), (B, B + (2,)), (B, B))]
    for p, q, b1, b2 in cases[task["part"]::task["parts"]]:
        for sched in itertools.product((0, 1, 2), repeat=n):
            if sched.count(2) > 2 or sched[0] == 2:
                continue
            ctx.case(f"{cfg.name} {kind} {p}({b1}) {q}({b2}) schedule={sched}")
            r = drive(lab, kind, (p, q), (b1, b2), sched)
            ctx.evals += 1
            ctx.traces += 1
            ctx.trans += n
            ctx.nontrivial += 1
            bad = None
            if isinstance(r, str):
                bad = r
            else:
                for w in (0, 1):
                    e = exp[(b1, b2)[w]]
                    want = (e + ["END"])[:sched.count(w)]
                    if r[w][:len(want)] != want:
                        bad = f"walk {w} ({(p, q)[w]}) produced {r[w]}, expected {want}"
                if any(v != 5 for v in r[2]):
                    bad = f"get between walk steps returned {r[2]}"
            if bad:
                ctx.violation(bad[:300], f"{cfg.name} {kind} {p}({b1}) {q}({b2}) schedule={sched}",
                              key=f"{cfg.name} {kind} inter {p} {q} {b1} {b2} {sched}")
        ctx.state((cfg.name, kind, p, q, b1, b2))
    ctx.sample(f"{cfg.name} {kind}: interleavings of length {n}")


def drive(lab, kind, ops, bases, sched):
    s, ber, world = lab.sess, lab.ber, lab.world
    out = [[], [], []]

    def mk(i):
        return getattr(s, ops[i])(ber.oid_text(bases[i]))

    if kind == "sync":
        def f():
            its = [mk(0), mk(1)]
            for x in sched:
                if x == 2:
                    out[2].append(s.get(ber.oid_text(B + (2, 2))))
                elif not (out[x] and out[x][-1] == "END"):
                    out[x].append(next(its[x], "END"))
            return out
        r = world.outcome(f)
    else:
        async def g():
            its = [mk(0), mk(1)]
            for x in sched:
                if x == 2:
                    out[2].append(await s.get(ber.oid_text(B + (2, 2))))
                elif not (out[x] and out[x][-1] == "END"):
                    try:
                        out[x].append(await its[x].__anext__())
                    except StopAsyncIteration:
                        out[x].append("END")
            return out
        r = world.outcome(lambda: world.arun(g()))
    if r[0] != "ok":
        return "raised " + world.show(r)[:200]
    return r[1]
