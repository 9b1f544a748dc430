"""C02 - response values reach the caller exactly as encoded."""
LEVEL = "exploration"
RULE = ("one execution = one well-formed reply decoded through the public API and compared (type and value, key) with "
        "what the independent encoder put into it; nontrivial = the reply carries at least one data value")
BOUNDS = {
    "quick": "all 1-2 octet INTEGERs; boundary values of every type and content length; every pair and triple of "
             "(type at position, neighbour types); value x long-form length (0..4 octets) x every enclosing level; REAL "
             "grid base x scale x exponent format x exponent x mantissa; chains of relative names; all operations, versions, sync and async; "
             "every string of 0-2 octets and every length 0..300 x first / last octet, per string type; "
             "ranges of values decoded in place: every unsigned below 2^24 (and its 8-bit shifts) per type, every pair of neighbouring "
             "IpAddress octets, every binary REAL of an 11-bit exponent and a mantissa below 2^8 / of 11 bits / around 2^53",
    "thorough": "as quick, with all 3-octet INTEGERs, all uint encodings of <= 2 octets with every tag, the full REAL "
                "grid, sampling-free positions up to 40 varbinds, every configuration; all 2^32 values of every unsigned type and of IpAddress, every binary "
                "REAL with a one-octet exponent and a 16-bit mantissa",
}
ASSUMPTIONS = [
    "well-formed means X.690 BER definite form; constructed string encodings are not produced",
    "only REAL values exactly representable in binary64 (or decimal literals, correctly rounded) are demanded",
    "ObjectDescriptor is delivered as bytes (the library's documented behaviour)",
]
V3N = ["v3", "v3-md5l", "v3-shal", "v3-md5l-desl", "v3-shal-desl", "v3-md5l-aesl", "v3-shal-aesl"]
CFGS = ["v1", "v2c"] + V3N


def tasks(tier, info):
    full = tier == "thorough"
    t = []
    for c in CFGS if full else ("v1", "v2c", "v3", "v3-shal-aesl", "v3-md5l-desl"):
        for op in ("get", "get_many", "get_next", "get_bulk"):
            if c == "v1" and op == "get_bulk":
                continue
            t.append(dict(k="value", cfg=c, op=op, full=full and c == "v2c"))
    for p in range(4):
        t.append(dict(k="strings", cfg=("v1", "v2c", "v2c", "v3-shal-aesl")[p], op=("get_many", "get_many", "get_bulk", "get_many")[p],
                      part=p, parts=1 if full else 4))
    for p in range(4):
        t.append(dict(k="int2", cfg="v2c", op=("get", "get_many", "get_next", "get_bulk")[p]))
    if full:
        for p in range(16):
            t.append(dict(k="int3", cfg="v2c", op="get_many", part=p, parts=16))
    for c in ("v2c", "v1", "v3-md5l-aesl", "v3-shal-desl") + (("v3", "v3-md5l", "v3-shal") if full else ()):
        t.append(dict(k="forms", cfg=c, op="get_many", full=full))
        t.append(dict(k="forms", cfg=c, op="get", full=full))
    for c in CFGS if full else ("v2c", "v3-shal-aesl"):
        t.append(dict(k="pos", cfg=c, op="get_many", full=full))
        t.append(dict(k="pos", cfg=c, op="get_bulk", full=full))
        for op in ("get_many", "get_bulk"):
            t.append(dict(k="count", cfg=c, op=op))
    for op in ("get_many", "get_next", "get_bulk"):
        t.append(dict(k="name", cfg="v2c", op=op, full=full))
    for c in CFGS if full else ("v1", "v2c", "v3-shal-aesl"):
        t.append(dict(k="relative", cfg=c, op="get_many"))
    for c in CFGS:
        for kind in ("sync", "async"):
            t.append(dict(k="session", cfg=c, kind=kind, op="*"))
    if info.get("rmc_ok"):
        for p in range(16 if full else 4):
            t.append(dict(k="rmc", part=p, parts=16 if full else 4))
        for p in range(64 if full else 8):
            t.append(dict(k="sweep", part=p, parts=64 if full else 8, full=full))
    return t


class Run:
    def __init__(self, ctx, task):
        from .. import probe, ber, values, world
        self.ber, self.values, self.world = ber, values, world
        self.ctx, self.task = ctx, task
        self.cfg = world.BY_NAME[task["cfg"]]
        self.p = probe.Probe(self.cfg, task["op"])
        self.b = probe.Builder(self.p)
        self.op = task["op"]
        self.id = f"{task['cfg']}/{task['op']}"

    def expect(self, items):
        """items: [(arcs, pyvalue)] -> what the operation must return"""
        t = self.ber.oid_text
        if self.op == "get":
            return items[0][1]
        if self.op == "get_many":
            return {t(o): v for o, v in items}
        if self.op == "get_next":
            return (t(items[0][0]), items[0][1])
        return [(t(o), v) for o, v in items]

    def same(self, a, b):
        s = self.values.same
        if self.op == "get":
            return s(a, b)
        if self.op == "get_many":
            return isinstance(a, dict) and list(a) == list(b) and all(s(a[k], b[k]) for k in b)
        if self.op == "get_next":
            return isinstance(a, tuple) and len(a) == 2 and a[0] == b[0] and s(a[1], b[1])
        return isinstance(a, list) and len(a) == len(b) and all(
            isinstance(x, tuple) and len(x) == 2 and x[0] == y[0] and s(x[1], y[1]) for x, y in zip(a, b))

    def go(self, lab, items, data=None, typ="value"):
        """items: [(arcs, value TLV, pyvalue)]"""
        ctx = self.ctx
        if data is None:
            data = self.b.seed(b"".join(self.world.vb(o, t) for o, t, _ in items))
        ctx.case(self.id + " " + lab)
        r = self.p.feed(data)
        ctx.evals += 1
        ctx.nontrivial += 1
        ctx.note(typ)
        want = self.expect([(o, v) for o, _, v in items])
        if not (r[0] == "ok" and self.same(r[1], want)):
            ctx.violation(f"{typ} {lab}: got {self.world.show(r)[:150]} instead of {want!r:.150}",
                          f"{self.id} {lab} datagram={data.hex()}", key=f"{typ} {lab} {self.id}")
        ctx.state((self.id, lab))


def run(ctx, task):
    globals()["run_" + task["k"]](ctx, task)


O = (1, 3, 6, 1, 2, 1)


def run_value(ctx, task):
    R = Run(ctx, task)
    for typ, lab, t, v in R.values.cases(task["full"]):
        R.go(lab, [(O + (1, 0), t, v)], typ=typ)
    ctx.sample(f"{R.id} every value case, e.g. {typ} {lab}: {t.hex()[:60]} -> {v!r}")


def _ints(R, ctx, it, typ="int"):
    ber = R.ber
    batch = []

    def flush():
        if not batch:
            return
        R.go(f"{batch[0][1].hex()[:20]}..{batch[-1][1].hex()[:20]}" if typ == "string" else f"{batch[0][2]}..{batch[-1][2]}", batch, typ=typ)
        batch.clear()

    many = R.op in ("get_many", "get_bulk")
    for lab, t, v in it:
        if not many:
            R.go(lab, [(O + (1, 0), t, v)], typ=typ)
            continue
        batch.append((O + (1, len(batch)), t, v))
        if len(batch) >= 100 or sum(len(x[1]) for x in batch[:-1]) > 1500:
            flush()
    flush()


def run_int2(ctx, task):
    """every INTEGER of one or two content octets, in minimal form; every unsigned of up to 17 bits per tag"""
    R = Run(ctx, task)
    ber = R.ber
    _ints(R, ctx, ((f"{v}", ber.integer(v), v) for v in range(-32768, 32768)))
    for tag in (0x41, 0x42, 0x43, 0x46, 0x47):
        rng = range(0, 65536 + 300) if R.op in ("get_many", "get_bulk") else \
            [x for x in range(0, 65800) if x % 256 in (0, 1, 127, 128, 255)]
        _ints(R, ctx, ((f"{tag:#x}:{v}", ber.tlv(tag, ber.int_content(v)), v) for v in rng))


def strings():
    """every string of 0, 1 and 2 octets; every length up to 300 with each first and last octet of a few"""
    yield b""
    for a in range(256):
        yield bytes((a,))
    for a in range(256):
        for b in range(256):
            yield bytes((a, b))
    edge = (0, 0x0A, 0x0D, 0x20, 0x22, 0x41, 0x80, 0xFF)
    for n in range(3, 301):
        mid = bytes((i * 11 + n) & 0xFF for i in range(n - 2))
        for x in edge:
            yield bytes((x,)) + mid + b"Z"
            yield b"Z" + mid + bytes((x,))
        yield bytes((edge[n % 8],)) * n


def run_strings(ctx, task):
    """string contents, for each type with arbitrary octets as its content"""
    R = Run(ctx, task)
    ber = R.ber

    def it():
        for i, c in enumerate(strings()):
            for j, tag in enumerate((4, 7, 0x44)):
                if (i + j) % task["parts"] == task["part"] % task["parts"]:
                    yield f"{tag:#x}:{c.hex()[:12]}/{len(c)}", ber.tlv(tag, c), c
    _ints(R, ctx, it(), "string")
    ctx.sample(f"{R.id} strings of every 0..2 octets and every length up to 300, tags 04, 07, 44")


def run_int3(ctx, task):
    R = Run(ctx, task)
    n = (1 << 24) // task["parts"]
    lo = -(1 << 23) + n * task["part"]
    _ints(R, ctx, ((f"{v}", R.ber.integer(v), v) for v in range(lo, lo + n)))


def run_forms(ctx, task):
    """long-form lengths at every level"""
    R = Run(ctx, task)
    ber = R.ber
    N = ber.Node
    few = {}
    for c in R.values.cases(False):
        few.setdefault(c[0], []).append(c)
    sel = []
    for typ, l in few.items():
        step = max(1, len(l) // (40 if task["full"] else 14))
        sel += l[::step]
    other = (O + (2, 0), ber.tlv(4, b"neighbour"), b"neighbour")
    for typ, lab, t, v in sel:
        if len(t) > 1500:
            continue
        items = [(O + (1, 0), t, v)] + ([other] if R.op == "get_many" else [])
        inner = ber.tree(R.b.inner(b"".join(R.world.vb(o, x) for o, x, _ in items)))
        nodes = [n for _, n in inner.walk()]
        forms = (1, 2, 3, 4)
        for f in forms:
            for n in nodes:
                c = n.content if n.kids is None else b"".join(k.enc() for k in n.kids)
                if f == 1 and len(c) > 255:
                    continue
                n.form = f
                R.go(f"{lab} len-form{f}", items, R.b.outer(inner.enc()), typ)
                n.form = 0
            # all inner nodes at once
            if f > 1:
                for n in nodes:
                    n.form = f
                R.go(f"{lab} all-form{f}", items, R.b.outer(inner.enc()), typ)
                for n in nodes:
                    n.form = 0
        raw = inner.enc()
        ot = R.b.outer_tree(raw)
        for _, n in ot.walk():
            if n.raw is not None:
                continue
            for f in (1, 2, 3, 4):
                c = n.content if n.kids is None else b"".join(k.enc() for k in n.kids)
                if f == 1 and len(c) > 255:
                    continue
                n.form = f
                R.go(f"{lab} outer-form{f}", items, R.b.finish(ot.enc()), typ)
                n.form = 0


def one_of_each(R):
    seen = {}
    for c in R.values.cases(False):
        seen.setdefault(c[0], []).append(c)
    out = []
    for typ, l in seen.items():
        l = [x for x in l if len(x[2]) < 300]
        out += [l[0], l[len(l) // 2], l[-1]]
    return out


def run_pos(ctx, task):
    """every ordered pair (and triple of types) of neighbours"""
    R = Run(ctx, task)
    vals = one_of_each(R)
    for a in vals:
        for b in vals:
            R.go(f"{a[0]}:{a[1]} then {b[0]}:{b[1]}", [(O + (1,), a[2], a[3]), (O + (2,), b[2], b[3])], typ="pair")
    tv = vals[::3]
    for a in tv:
        for b in tv:
            for c in (vals if task["full"] else tv):
                R.go(f"{a[0]},{b[0]},{c[0]}", [(O + (1,), a[2], a[3]), (O + (2,), b[2], b[3]), (O + (3,), c[2], c[3])],
                     typ="triple")


def run_count(ctx, task):
    R = Run(ctx, task)
    vals = one_of_each(R)
    for n in range(1, 61):
        for off in range(0, len(vals), 5):
            items, size = [], 0
            for i in range(n):
                _, _, t, v = vals[(off + i) % len(vals)]
                size += len(t) + 20
                if size > 3700:
                    break
                items.append((O + (1, i), t, v))
            R.go(f"{n} varbinds from {off}", items, typ="count")


def run_name(ctx, task):
    R = Run(ctx, task)
    ber = R.ber
    names = R.values.oid_samples()
    five = ber.integer(5)
    if R.op == "get_many":
        for a in range(0, 3):
            for b in list(range(0, 40)) if a < 2 else list(range(0, 600)) + [16303, 16304, 4294967215]:
                names += [(a, b), (a, b, 7)]
        step = 20
        names = list(dict.fromkeys(names))
        for o in names:
            R.go(ber.oid_text(o)[:50], [(o, five, 5)], typ="name")
        short = [o for o in names if len(o) < 20]
        for i in range(0, len(short), step):
            R.go(f"names {i}", [(o, five, 5) for o in short[i:i + step]], typ="name")
    for s in R.values.SUBIDS:
        for u in R.values.SUBIDS:
            R.go(f"sub {s}.{u}", [(O + (s, u), five, 5)], typ="name")
        for k in range(1, 100, 7):
            R.go(f"sub {s} x {k}", [(O + (s,) * k, five, 5)], typ="name")
    lim = (1 << 16) if task["full"] else 2200
    for s in list(range(lim)) + list(range(16300, 16500)) + list(range(2097100, 2097200)):
        R.go(f"sub {s}", [(O + (s,), five, 5)], typ="name")


def run_relative(ctx, task):
    """names given as RELATIVE-OID: they replace the last arcs of the name before them"""
    import itertools
    R = Run(ctx, task)
    ber, vb = R.ber, R.world.vb
    five = ber.integer(5)
    S = (0, 1, 127, 128, 16383, 16384, 2097152, 4294967295)

    def rel(arcs):
        return ber.tlv(0x0D, b"".join(map(ber.b128, arcs)))

    bases = [(1, 3, 6, 1, 2, 1, 5), (2, 999, 6, 1, 128), (0, 0, 300, 70000, 1)]
    bases += [(1, 3) + x for x in itertools.product((5, 200, 2097152), repeat=3)]
    bases += [(1, 3, 6, 1, 4, 1, 4294967295, 2, 16384)]

    def go(base, chain, lab):
        items, raw, cur = [(base, five, 5)], vb(base, five), base
        for i, r in enumerate(chain):
            v = ber.integer(300 + i)
            if r is None:
                cur = O + (9, 200)
                raw += vb(cur, v)
            else:
                cur = cur[:len(cur) - len(r)] + r
                raw += vb(rel(r), v)
            items.append((cur, v, 300 + i))
        if len({x[0] for x in items}) < len(items):
            return
        R.go(lab, items, R.b.seed(raw), "relative")

    for b in bases:
        m = len(b) - 3
        for k in range(1, m + 1):
            for r in itertools.product(S if k < 3 else (1, 200, 4294967295), repeat=k) if k < 5 else [(7, 200) * 10]:
                r = r[:k]
                go(b, [r], f"{b} + {r}")
        for c in itertools.product(((1,), (200,), (70000,), (2, 300), None), repeat=3):
            if max(len(x or ()) for x in c) <= m:
                go(b, list(c), f"{b} + {c}")


def run_session(ctx, task):
    """through SnmpSession: every operation, automatic agent"""
    from .. import world, values, ber
    cfg, kind = world.BY_NAME[task["cfg"]], task["kind"]
    import vnet
    w = world.wire()
    vals = []
    seen = {}
    for c in values.cases(False):
        seen.setdefault(c[0], []).append(c)
    for typ, l in seen.items():
        l = [x for x in l if len(x[2]) < 1200]
        n = 12 if typ in ("real", "int", "oid") else 6
        vals += l[::max(1, len(l) // n)]
    sess = cfg.session(kind)
    cur = []
    base = (1, 3, 6, 1, 4)

    def responder(fd, data):
        q = world.parse_request(data, cfg)
        if q.pdu_tag == ber.GET:
            vbs = [world.vb(o, cur[0]) for o in q.oids] if q.oids else []
            if not q.oids:
                vnet.inject(fd, world.report(cfg, q))
                return
        else:
            o = q.oids[0]
            n = 1 if q.pdu_tag == ber.GETNEXT else 3
            last = o[5] if len(o) > 5 else 0
            vbs = []
            for i in range(n):
                last += 1
                x = base + (last,) if last <= 4 else (1, 3, 7, last)
                vbs.append(world.vb(x, cur[0]))
        vnet.inject(fd, world.reply(cfg, q, vbs))

    w.responder = responder
    for typ, lab, t, v in vals:
        cur[:] = [t]
        for op in ("get", "get_many", "getnext", "getbulk", "fetch"):
            if cfg.ver == "v1" and op == "getbulk":
                continue
            ctx.case(f"{cfg.name} {kind} {op} {lab}")
            r = world.call(sess, kind, op, base="1.3.6.1.4", limit=10)
            ctx.evals += 1
            ctx.nontrivial += 1
            if op == "get":
                good = r[0] == "ok" and values.same(r[1], v)
                want = v
            elif op == "get_many":
                want = {"1.3.6.1.2.1.1.0": v, "1.3.6.1.2.1.1.1": v}
                good = r[0] == "ok" and list(r[1]) == list(want) and all(values.same(r[1][k], v) for k in want)
            else:
                want = [(f"1.3.6.1.4.{i}", v) for i in range(1, 5)]
                good = r[0] == "ok" and len(r[1]) == 4 and all(
                    a[0] == b[0] and values.same(a[1], b[1]) for a, b in zip(r[1], want))
            if not good:
                ctx.violation(f"{typ} {lab} through {op}: got {world.show(r)[:150]} instead of {want!r:.100}",
                              f"{cfg.name} {kind} {op} value={t.hex()}", key=f"{typ} {lab} {op} {kind} {cfg.name}")
            ctx.state((cfg.name, kind, op, typ, lab))
            w.clear()


def run_rmc(ctx, task):
    from .. import rmc
    rmc.run_values(ctx, task)


def run_sweep(ctx, task):
    """whole ranges of values, decoded in place and taken as the Python object the caller gets"""
    from .. import rmc
    m = rmc.load(ctx)
    part, parts, full = task["part"], task["parts"], task["full"]
    jobs = []
    C = 1 << 22
    for tag in (0x41, 0x42, 0x43, 0x46, 0x47):
        for lo in range(0, 1 << 32 if full else 1 << 24, C):
            jobs.append(("uint", tag, lo, lo + C, 1, 0, 0))
        for shift, fill in ((8, 0), (8, 0xFF), (8, 0x80)) + (((40, 0), (40, (1 << 40) - 1), (20, 0xFFFFF), (32, 0x80000000)) if tag == 0x46 else ()):
            for lo in range(0, 1 << 24, C):
                jobs.append(("uint", tag, lo, lo + C, 1 if full else 5, shift, fill))
    for mul in (1, 1 << 8, 1 << 16) if not full else (1,):
        n = 1 << 32 if full else 1 << 20 if mul < 1 << 16 else 1 << 16
        for lo in range(0, n, C // 4):
            jobs.append(("ip", lo, min(n, lo + C // 4), 1, mul))
    for info in list(range(0x80, 0xB0)) + list(range(0xC0, 0xF0)):
        jobs.append(("real", info, -1100, 1101, 1, 256, 1, 0))
        if info & 3:
            jobs.append(("real", info, -1101, 1101, (1 << 53) - 40, (1 << 53) + 1, 1, 0))
            jobs.append(("real", info, -33000, 33000, 1, 4, 1, 0))
        for k in (1, 2):
            jobs.append(("real", info, -128, 128, 1, 2048, 1, k + 1))
        for sh in (15, 16, 24, 31, 32, 40, 48, 52, 55, 63):  # mantissas of every length
            jobs.append(("real", info, -128, 128, (1 << sh) - 4, (1 << sh) + 5, 1, 0))
        if full:
            for e in range(-128, 128, 64):
                jobs.append(("real", info, e, e + 64, 1, 65536, 1, 0))
            if info & 3:
                for e in range(-1100, 1100, 100):
                    jobs.append(("real", info, e, e + 100, 1, 65536, 5, 0))
    f = dict(uint=m.uint_sweep, ip=m.ip_sweep, real=m.real_sweep)
    for j in jobs[part::parts]:
        ctx.case(f"sweep {j}")
        r = f[j[0]](*j[1:])
        ctx.evals += r[0]
        ctx.nontrivial += r[1] if j[0] == "real" else r[0]
        ctx.note("sweep_" + j[0], r[0])
        if r[-1]:
            ctx.violation(f"{j[0]} {r[-1]}", f"rmc sweep {j}: {r[-1]}", key=f"sweep {j[0]} {str(r[-1])[:60]}")
        ctx.state(j)
    ctx.sample(f"rmc: {len(jobs[part::parts])} ranges of values, e.g. {jobs[part]}")
