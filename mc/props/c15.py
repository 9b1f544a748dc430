"""C15 - everything the library encodes, it decodes back unchanged and minimally."""
LEVEL = "exploration"
RULE = ("one execution = one value encoded by the library, compared octet by octet with the independent minimal encoding and "
        "decoded back by the library; nontrivial = integers outside 0..127, OIDs with multi-octet arcs, whole messages")
BOUNDS = {
    "quick": "every INTEGER of 1..3 content octets, +-2^16 around every +-2^(8k-1) and +-2^(8k), every n-octet pattern over 8 octet "
             "values and every pair of leading octets x 4 fills (n <= 8); every first x second arc pair, every arc 0..70000 and "
             "around every 7-bit boundary, all triples of 19 boundary arcs; Get/GetNext/GetBulk x v1/v2c/v3 over grids of every "
             "integer field, 0..300 octets of every string field, 0..130 names; every datagram of the argument, size, credential "
             "and random-identifier sweeps of all sessions",
    "thorough": "as quick with every 4-octet INTEGER, +-2^22 around the boundaries, every arc up to 2^21 and all pairs of "
                "integer-field boundary values per message",
}
ASSUMPTIONS = [
    "the minimal form is X.690 definite length with the fewest length octets and minimal two's complement INTEGER",
    "a value which the library refuses to encode with a documented exception is outside the property",
    "privacy padding behind an encrypted scoped PDU is not part of the encoding (RFC 3414 8.1.1.2)",
]
V3N = ["v3", "v3-md5l", "v3-shal", "v3-md5l-desl", "v3-shal-desl", "v3-md5l-aesl", "v3-shal-aesl"]
CFGS = ["v1", "v2c"] + V3N


def tasks(tier, info):
    full = tier == "thorough"
    t = []
    if info.get("rmc_ok"):
        step = 1 << 20
        for lo in range(-(1 << 23), 1 << 23, step):
            t.append(dict(k="ints", lo=lo, hi=lo + step - 1))
        t.append(dict(k="bounds", w=1 << 22 if full else 1 << 16))
        for n in range(2, 9):
            t.append(dict(k="patterns", n=n))
        if full:
            step = 1 << 25
            for lo in range(-(1 << 31), 1 << 31, step):
                t.append(dict(k="ints", lo=lo, hi=lo + step - 1))
        for p in range(8):
            t.append(dict(k="oids", part=p, parts=8, n=1 << 21 if full else 70000))
        for layer in ("pdu", "scoped", "v1", "v2c", "v3", "usm"):
            for p in range(4):
                t.append(dict(k="msgs", layer=layer, part=p, parts=4, full=full))
    for c in CFGS:
        for kind in ("sync", "async"):
            t.append(dict(k="wire", what="args", cfg=c, kind=kind))
            t.append(dict(k="wint", cfg=c, kind=kind, full=full))
        t.append(dict(k="wire", what="sizes", cfg=c, full=full))
        t.append(dict(k="wire", what="rng", cfg=c))
    for kind in ("sync", "async"):
        t.append(dict(k="wire", what="creds", kind=kind))
        t.append(dict(k="wire", what="bulk", kind=kind, full=full))
        for c in V3N:
            t.append(dict(k="boots", cfg=c, kind=kind))
    return t


def run(ctx, task):
    globals()["run_" + task["k"]](ctx, task)


def bounds():
    s = set()
    for k in range(1, 9):
        for b in (1 << (8 * k - 1), 1 << (8 * k)):
            s |= {b, -b}
    return sorted(s)


def run_ints(ctx, task):
    from .. import rmc
    n, bad = rmc.load(ctx).int_sweep(task["lo"], task["hi"])
    ctx.evals += n
    ctx.nontrivial += n
    if bad:
        ctx.violation(bad, f"INTEGER in {task['lo']}..{task['hi']}", key="INTEGER " + bad.split(" ")[0])
    ctx.sample(f"every INTEGER {task['lo']}..{task['hi']}")


def run_bounds(ctx, task):
    from .. import rmc
    m = rmc.load(ctx)
    for b in bounds():
        lo, hi = max(b - task["w"], -(1 << 63)), min(b + task["w"], (1 << 63) - 1)
        if lo > hi:
            continue
        n, bad = m.int_sweep(lo, hi)
        ctx.evals += n
        ctx.nontrivial += n
        if bad:
            ctx.violation(bad, f"INTEGER around {b}", key="INTEGER " + bad.split(" ")[0])
    ctx.sample(f"{len(bounds())} boundaries +-{task['w']}")


def run_patterns(ctx, task):
    from .. import rmc
    n, bad = rmc.load(ctx).int_patterns(b"\x00\x01\x7f\x80\x81\xaa\xfe\xff", b"\x00\x7f\x80\xff", task["n"])
    ctx.evals += n
    ctx.nontrivial += n
    if bad:
        ctx.violation(bad, f"{task['n']}-octet INTEGER pattern", key="INTEGER " + bad.split(" ")[0])


def run_oids(ctx, task):
    import itertools
    from .. import rmc, ber, values
    m = rmc.load(ctx)
    part, parts = task["part"], task["parts"]

    def one(arcs):
        txt = ber.oid_text(arcs)
        ctx.evals += 1
        try:
            enc, back, rest = m.oid_trip(txt)
        except ValueError as e:
            # 2.X with X > 39 may be refused as a whole
            if not (arcs[0] == 2 and arcs[1] > 39) or "panic" in str(e):
                ctx.violation(f"OID {txt[:60]}: {e}", txt[:2000], key=f"OID {txt[:200]}")
            return
        ctx.nontrivial += max(arcs[1:]) > 127
        if enc != ber.oid(arcs) or back != txt or rest:
            ctx.violation(f"OID {txt[:60]} is encoded as {enc.hex()[:80]} and read back as {back[:60]} with {rest} octets left",
                          txt[:2000], key=f"OID {txt[:200]}")

    for a in range(3):
        for b in range(part, 40 if a < 2 else 2000, parts):
            one((a, b))
            one((a, b, 1, 128))
    for x in range(part, task["n"], parts):
        one((1, 3, x))
        if x < 20000:
            one((1, 3, 6, x, 5))
    for k in (7, 14, 21, 28, 32):
        for d in range(-300 + part, 300, parts):
            if 0 <= (1 << k) + d < 1 << 32:
                one((1, 3, (1 << k) + d))
                one((1, 3, (1 << k) + d, (1 << k) + d, 0))
    for i, t in enumerate(itertools.product(values.SUBIDS, repeat=3)):
        if i % parts == part:
            one((1, 3) + t)
    for n in range(part, 520, parts):
        one((1, 3) + (1,) * n)
        one((1, 3) + (4294967295,) * n)
    ctx.sample(f"every arc 0..{task['n']} (part {part} of {parts})")


INTS = [0, 1, -1, 127, 128, 129, 255, 256, 257, -127, -128, -129, -255, -256, -257, 32767, 32768, 65535, 65536, -32767, -32768, -32769,
        -65535, -65536, 8388607, 8388608, -8388608, -8388609, 2147483647, 2147483648, 4294967295, -2147483648, -2147483649,
        (1 << 39) - 1, 1 << 39, 1 << 47, (1 << 55) - 1, -(1 << 55), -(1 << 55) + 1, (1 << 63) - 1, -(1 << 63), -(1 << 63) + 1]


def pdus(ber, full):
    """(label, expected start of the library's rendering, PDU)"""
    o = (1, 3, 6, 1, 2, 1, 1, 0)

    def mk(tag, rid, a, b, oids):
        body = ber.integer(rid) + ber.integer(a) + ber.integer(b) + ber.seq(*[ber.seq(ber.oid(x), ber.NULL_TLV) for x in oids])
        return ber.tlv(tag, body)

    for rid in INTS:
        yield f"get id {rid}", f"Get {rid} ", mk(ber.GET, rid, 0, 0, [o])
        yield f"getnext id {rid}", f"GetNext {rid} ", mk(ber.GETNEXT, rid, 0, 0, [o])
        yield f"getbulk id {rid}", "GetBulk", mk(ber.GETBULK, rid, 0, 10, [o])
    for a in INTS:
        for b in INTS if full else INTS[::3] + [20]:
            yield f"getbulk {a}/{b}", "GetBulk", mk(ber.GETBULK, 5, a, b, [o])
            if full:
                yield f"getbulk 300 {a}/{b}", "GetBulk", mk(ber.GETBULK, -300, b, a, [o, o])
    for n in list(range(0, 131)) + [200, 230]:
        for tag in (ber.GET, ber.GETNEXT, ber.GETBULK):
            yield f"{tag:02x} {n} names", "", mk(tag, 99, 0, 0 if tag != ber.GETBULK else 20, [o[:3] + (i,) for i in range(n)])
    for n in list(range(0, 300)) + [1000, 3000]:
        yield f"get long {n}", "Get 1 ", mk(ber.GET, 1, 0, 0, [(1, 3) + (1,) * n])
        yield f"getnext long {n}", "GetNext 1 ", mk(ber.GETNEXT, 1, 0, 0, [(1, 3) + (129,) * (n // 2) + (1,)])


def msgs(layer, full, max_size):
    """(label, expected start of the rendering, bytes)"""
    from .. import ber, world
    o = ber.seq(ber.seq(ber.oid((1, 3, 6)), ber.NULL_TLV))
    get = ber.tlv(ber.GET, ber.integer(1) + ber.integer(0) + ber.integer(0) + o)

    def arr(b):
        return "[" + ", ".join(map(str, b)) + "]"

    def usm(eng=b"e", boots=1, t=2, user=b"u", ap=b"", pp=b""):
        return (f"{arr(eng)} {boots} {t} {arr(user)} {arr(ap)} {arr(pp)}",
                ber.seq(ber.tlv(4, eng), ber.integer(boots), ber.integer(t), ber.tlv(4, user), ber.tlv(4, ap), ber.tlv(4, pp)))

    def fill(n):
        return bytes((i * 37 + 11) & 0xFF for i in range(n))

    lens = list(range(0, 300)) + [1000, 3000]
    if layer == "pdu":
        yield from pdus(ber, full)
    elif layer == "scoped":
        for lab, txt, p in pdus(ber, False):
            yield lab, arr(world.ENGINE) + " " + txt, ber.seq(ber.tlv(4, world.ENGINE), ber.tlv(4, b""), p)
        for n in lens:
            yield f"engine {n}", arr(fill(n)) + " Get 1 ", ber.seq(ber.tlv(4, fill(n)), ber.tlv(4, b""), get)
    elif layer in ("v1", "v2c"):
        v = 0 if layer == "v1" else 1
        for lab, txt, p in pdus(ber, full):
            if layer == "v2c" or p[0] != ber.GETBULK:
                yield lab, arr(b"public") + " " + txt, world.community_msg(v, b"public", p)
        for n in lens:
            yield f"community {n}", arr(fill(n)) + " Get 1 ", world.community_msg(v, fill(n), get)
    elif layer == "usm":
        for n in lens:
            for kw in ("eng", "user", "ap", "pp"):
                yield (f"{kw} {n}",) + usm(**{kw: fill(n)})
        for a in INTS:
            for b in INTS:
                yield (f"boots {a} time {b}",) + usm(boots=a, t=b)
        for a in (0, 1, 5, 12, 127, 128):
            for b in (0, 1, 32, 127, 128):
                for c in (0, 12):
                    for d in (0, 8):
                        yield (f"lengths {a} {b} {c} {d}",) + usm(fill(a), 3, 4, fill(b), fill(c), fill(d))
    else:
        def v3(mid=7, flags=4, u=None, data=None):
            t, b = u or usm()
            f = tuple("true" if flags & x else "false" for x in (1, 2, 4))
            return (f"{mid} ({', '.join(f)}) {t} ",
                    ber.seq(ber.integer(3), ber.seq(ber.integer(mid), ber.integer(max_size), ber.tlv(4, bytes((flags,))), ber.integer(3)),
                            ber.tlv(4, b), data if data is not None else ber.seq(ber.tlv(4, b"e"), ber.tlv(4, b""), get)))

        for mid in INTS:
            for fl in range(8):
                yield (f"id {mid} flags {fl}",) + v3(mid, fl)
        for n in lens:
            yield (f"cipher {n}",) + v3(9, 3, usm(ap=fill(12), pp=fill(8)), ber.tlv(4, fill(n)))
            yield (f"user {n}",) + v3(9, 1, usm(user=fill(n), ap=fill(12)))
            yield (f"engine {n}",) + v3(9, 1, usm(eng=fill(n), ap=fill(12)))
        for a in INTS:
            for b in INTS if full else INTS[::4]:
                yield (f"boots {a} time {b}",) + v3(9, 0, usm(boots=a, t=b))
        for lab, _, p in pdus(ber, False):
            yield (lab,) + v3(11, 4, None, ber.seq(ber.tlv(4, b"engine"), ber.tlv(4, b""), p))


def run_msgs(ctx, task):
    from .. import rmc, world
    m = rmc.load(ctx)
    layer = task["layer"]
    ms = 0
    if layer == "v3":  # the announced maximum is the library's own constant
        w = world.wire()
        w.clear()
        world.V3_ALL[0].sock(0).send_get("1.3.6")
        ms = world.parse_request(w.sent[-1]).max_size
    for i, (lab, txt, b) in enumerate(msgs(layer, task["full"], ms)):
        if i % task["parts"] != task["part"]:
            continue
        if len(b) > 4080:
            continue
        st, out = m.reenc(layer, b)
        ctx.evals += 1
        ctx.nontrivial += 1
        st2, rest, got = m.dec(layer, b, b"")
        bad = None
        if (st, out) != ("ok", b):
            bad = f"{out.hex()[:120] if st == 'ok' else st + ': ' + out.decode()[:150]}"
        elif st2 != "ok" or rest or not got.startswith(txt):
            bad = f"decoded as {st2} {got[:120]}"
        if bad:
            ctx.violation(f"{layer} {lab}: {b.hex()[:120]} -> {bad}", f"rmc {layer} {b.hex()}", key=f"{layer} {lab}")
        ctx.state((layer, lab))
    ctx.sample(f"{layer}: re-encoding grid part {task['part']}")


def check15(ctx):
    """what every emitted datagram must satisfy (it has been parsed strictly, i.e. is minimal, when this is called)"""
    import os
    from .. import rmc
    m = rmc.load(ctx) if os.environ.get("MC_RMC") else None

    def check(x, q, st=None):
        if m is None:
            return None
        layer = x.cfg.ver
        r = m.reenc(layer, q.raw)
        if r != ("ok", q.raw):
            return f"the library's decoder and encoder turn the message into {r[0]} {r[1].hex()[:80] if r[0] == 'ok' else r[1].decode()}"
        ctx.traces += 1
        if q.version == 3 and q.encrypted and q.scoped:
            r = m.reenc("scoped", q.scoped)
            if r != ("ok", q.scoped):
                return f"the library's decoder and encoder turn the scoped PDU into {r[0]} {r[1][:80]!r}"
        return None

    return check


def run_wire(ctx, task):
    """every sweep of requests, judged for minimality and by the library's own decoder"""
    from . import c03
    saved = c03.check
    c03.check = check15(ctx)
    try:
        getattr(c03, "run_" + task["what"])(ctx, task)
    finally:
        c03.check = saved


def run_wint(ctx, task):
    """INTEGERs through the API: max-repetitions"""
    from .. import world, ber, values
    m = world.mods()
    cfg = world.BY_NAME[task["cfg"]]
    sock = cfg.sock(0)
    rsock = world.V2C.sock(0)
    w = world.wire()
    import vnet
    ints = values.int_samples() + list(range(-70000, 70000, 1 if task["full"] else 61)) + [v for b in bounds() for v in range(b - 260, b + 260)
                                                                                           if -(1 << 63) <= v < 1 << 63]
    if task["kind"] == "async":
        ints = ints[::3]
    o = (1, 3, 6, 1)
    for v in ints:
        ctx.case(f"{cfg.name} max-repetitions {v}")
        ctx.evals += 1
        w.clear()
        r = world.outcome(lambda: sock.send_get_bulk(m.fast.GetIter("1.3.6.1", v)))
        bad = None
        if r[0] == "exc" and world.is_documented(r[1]):
            ctx.note("refused")
            continue
        if r[0] == "exc":
            bad = f"raised {world.show(r)}"
        else:
            try:
                q = world.parse_request(w.sent[-1], cfg)
                if (q.f1, q.f2, q.oids) != (0, v, [o]):
                    bad = f"sent as {q.f2}"
            except (ValueError, ber.BerError) as e:
                bad = f"sent as a malformed or non-minimal message ({e}): {w.sent[-1].hex()[:100]}"
        ctx.nontrivial += not 0 <= v < 128
        if bad:
            ctx.violation(f"max-repetitions {v} {bad}", f"{cfg.name} GetIter('1.3.6.1', {v})", key=f"INTEGER {v}")
            continue
        # the encoding read back by the library's decoder
        w.clear()
        rsock.send_get("1.3.6.1")
        q = world.parse_request(w.sent[-1])
        vnet.inject(rsock.get_fd(), world.reply(world.V2C, q, [world.vb(o, ber.integer(v))]))
        r = world.outcome(rsock.recv_get)
        if r != ("ok", v):
            ctx.violation(f"INTEGER {v} is read back as {world.show(r)[:80]}", f"value {ber.integer(v).hex()}", key=f"INTEGER {v}")
    ctx.sample(f"{cfg.name}: max-repetitions over {len(ints)} integers")


def run_boots(ctx, task):
    """integers learnt from the agent are sent back minimally"""
    from .. import hist, world, emit
    cfg = world.BY_NAME[task["cfg"]]
    chk = check15(ctx)
    for b in emit.BOUNDARY:
        for t in emit.BOUNDARY:
            ctx.case(f"{cfg.name} {task['kind']} boots={b} time={t}")
            env = hist.Env(cfg, task["kind"])
            env.agent.boots, env.agent.time = b, t
            hist.run_history(ctx, env, ("get", "next"), chk)
            ctx.evals += 1
            ctx.state((task["cfg"], task["kind"], b, t))
