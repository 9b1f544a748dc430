"""C16 - decoding an element reads exactly its declared extent."""
LEVEL = "exploration"
RULE = ("one execution = one (element, following octets) comparison or one message with one tampered length; nontrivial = the "
        "element decodes alone (comparisons) / every tampered message")
BOUNDS = {
    "quick": "every element of every supported type with <= 2 content octets, and with 3..4 octets over 24 octet values, followed by "
             "12 kinds of octets; every value and REAL of the C02 grid alone and in front of / behind 8 kinds of varbinds; every "
             "node of every message of the corpus (v1, v2c, 7 x v3, encrypted and plain) x 40+ declared lengths running past the "
             "enclosing element in 8 length forms; every truncation with the missing octets still in memory; every message "
             "followed by all single octets, all pairs over 12 values and whole messages; datagrams around the buffer size",
    "thorough": "as quick with all 3-octet contents for every type, 4..5 octets over 24 values, every position of 40 varbinds",
}
ASSUMPTIONS = [
    "octets behind an encrypted scoped PDU are privacy padding and ignored (RFC 3414 8.1.1.2)",
    "the variable bindings of a Report are not decoded by the library",
    "rejection = SnmpDecodeError, or the datagram is dropped and the wait continues",
]
V3N = ["v3", "v3-md5l", "v3-shal", "v3-md5l-desl", "v3-shal-desl", "v3-md5l-aesl", "v3-shal-aesl"]
CFGS = ["v1", "v2c"] + V3N
TAILS = (b"\x00", b"\x01", b"\x7f", b"\x80", b"\xff", b"1", b"E", b".", b"\x02\x01\x05", b"\xff" * 12, b"\x00" * 9, b"\x30\x80", b"2e5")


def tasks(tier, info):
    from .. import rmc_targets
    full = tier == "thorough"
    t = []
    if info.get("rmc_ok"):
        for el in rmc_targets.ELEMENTS:
            if el not in ("header", "option"):
                parts = 8 if full else 1
                for p in range(parts):
                    t.append(dict(k="elem", el=el, part=p, parts=parts, full=full))
        for p in range(4):
            t.append(dict(k="values", part=p, parts=4, full=full))
        t.append(dict(k="layers"))
    for c in CFGS:
        for op in ("get", "get_many", "get_next", "get_bulk"):
            if c == "v1" and op == "get_bulk":
                continue
            rich = full or c in ("v2c", "v3-shal-aesl", "v3")
            t.append(dict(k="tamper", cfg=c, op=op, rich=rich))
            t.append(dict(k="trunc", cfg=c, op=op))
            t.append(dict(k="trail", cfg=c, op=op))
        t.append(dict(k="big", cfg=c, op="get"))
    for c in ("v2c", "v3-shal-aesl", "v3-md5l-desl", "v1"):
        for op in ("get_many", "get_bulk", "get_next"):
            if c == "v1" and op == "get_bulk":
                continue
            t.append(dict(k="suffix", cfg=c, op=op, full=full))
    for c in V3N:
        if c.count("-") == 2:
            for op in ("get", "get_bulk"):
                t.append(dict(k="pad", cfg=c, op=op))
    for c in CFGS:
        for kind in ("sync", "async"):
            t.append(dict(k="session", cfg=c, kind=kind))
    return t


def run(ctx, task):
    globals()["run_" + task["k"]](ctx, task)


# ---- library decoders -------------------------------------------------------------
def run_elem(ctx, task):
    from .. import rmc
    m = rmc.load(ctx)
    el = task["el"]
    tags = [rmc.TAG[el]] if el in rmc.TAG else sorted(set(rmc.TAG.values()) | {0x80, 0x81, 0x82})
    small = b"\x00\x01\x02\x03\x05\x20\x2b\x2d\x2e\x30\x31\x39\x40\x41\x43\x45\x7f\x80\x81\x83\x87\xbf\xc0\xff"
    tails = [bytes(t) for t in TAILS]
    for tag in tags:
        plan = [(n, rmc.ALL) for n in (0, 1, 2)] + [(3, small)]
        if task["full"]:
            plan = [(n, rmc.ALL) for n in ((0, 1, 2, 3) if el != "value" else (0, 1, 2))] + [(3, small), (4, small)]
        elif tag in (9, 13, 6):
            plan.append((4, small))
        for n, al in plan:
            els, oks, cmps, bad = m.suffix_contents(el, bytes((tag, n)), al, n, tails, task["part"], task["parts"])
            ctx.evals += els + cmps
            ctx.nontrivial += cmps
            ctx.note("elements", els)
            ctx.note("decodable", oks)
            ctx.state((el, tag, n, len(al)))
            if bad:
                d, tail, e = bad
                ctx.violation(f"{el} {bytes(d).hex()} followed by {bytes(tail).hex()}: {e}", f"rmc {el} {bytes(d).hex()} {bytes(tail).hex()}",
                              key=f"{el} {bytes(d).hex()}")
        # long contents and long length forms
        from .. import ber
        for n in list(range(5, 40)) + [126, 127, 128, 129, 255, 256, 257, 1000]:
            for f in (0x00, 0x01, 0x31, 0x7F, 0x80, 0x81, 0x83, 0xFF):
                for form in (0, 1, 2, 4, 8):
                    d = ber.tlv(tag, bytes((f,)) * (n - 1) + b"\x01", form)
                    c, bad = m.suffixes(el, d, tails)
                    ctx.evals += c + 1
                    ctx.nontrivial += c
                    if bad:
                        ctx.violation(f"{el} {d.hex()[:80]} followed by {bytes(bad[0]).hex()}: {bad[1]}", f"rmc {el} {d.hex()}",
                                      key=f"{el} {d.hex()[:80]}")
    ctx.sample(f"{el}: all contents of 0..2 octets x {len(tails)} kinds of following octets")


def run_values(ctx, task):
    """well-formed values, with every length form, followed by anything"""
    from .. import rmc, values, ber
    m = rmc.load(ctx)
    tails = [bytes(t) for t in TAILS]
    for i, (typ, lab, t, v) in enumerate(values.cases(True)):
        if i % task["parts"] != task["part"]:
            continue
        for form in (0, 1, 2, 3, 4, 8):
            d = ber.tlv(t[0], ber.rd(t, 0, len(t), False) and t[ber.rd(t, 0, len(t), False)[1]:], form)
            for el in ("value", {"ip": "ip"}.get(typ, typ)):
                c, bad = m.suffixes(el, d, tails)
                ctx.evals += c
                ctx.nontrivial += c
                if bad or not c:
                    ctx.violation(f"{typ} {lab} followed by {bytes(bad[0]).hex() if bad else ''}: {bad[1] if bad else 'refused'}",
                                  f"rmc {el} {d.hex()}", key=f"{el} {typ} {lab}")
    ctx.sample("every well-formed value x length form x following octets")


def run_layers(ctx, task):
    from .. import rmc, ber
    m = rmc.load(ctx)
    for layer in rmc.LAYERS:
        for lab, b in rmc.seeds(layer):
            st0, _, txt0 = m.dec(layer, b, b"")
            if st0 != "ok":
                continue
            for tail in [bytes((x,)) for x in range(256)] + [bytes(t) for t in TAILS] + [b, bytes(300)]:
                st, _, txt = m.dec(layer, b, tail)
                ctx.evals += 1
                ctx.nontrivial += 1
                if layer in ("pdu", "scoped"):
                    bad = st != "err" and (st, txt) != (st0, txt0)
                else:
                    bad = st != "err"
                if bad:
                    ctx.violation(f"{layer} {lab} followed by {tail.hex()[:40]}: {st} {txt[:80]}", f"rmc {layer} {b.hex()} {tail.hex()}",
                                  key=f"{layer} {lab} tail")
            if "/a8" in lab:
                continue
            for plab, x in tampered(ber.tree(b)):
                st, _, txt = m.dec(layer, x, b"")
                # with more octets in memory; the root of these two is an element of a longer message, where they may belong to it
                st2 = "err" if layer in ("pdu", "scoped") and plab.startswith(":") else m.dec(layer, x, b"\x00" * 300)[0]
                ctx.evals += 2
                ctx.nontrivial += 2
                if st != "err" or st2 != "err":
                    ctx.violation(f"{layer} {lab} {plab}: a length past the enclosing element is accepted: {st} {txt[:80]}",
                                  f"rmc {layer} {x.hex()}", key=f"{layer} {lab} {plab}")
    ctx.sample("every message layer x corpus x following octets and tampered lengths")


# ---- tampered lengths ---------------------------------------------------------------
def past(room, hdr=2):
    """declared lengths which run past the enclosing element"""
    out = []
    for d in list(range(1, 12)) + [15, 16, 17, 31, 32, 63, 64, 100, 127, 128, 200, 255, 256, 1000, 4000, 65535]:
        v = room + d
        if v < 128:
            out.append(bytes((v,)))
        for f in (1, 2, 3, 4, 8, 9, 16):
            if v < 1 << (8 * f):
                out.append(bytes((0x80 | f,)) + v.to_bytes(f, "big"))
    for v in (0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 1 << 32, 1 << 63, (1 << 63) - 1):
        out.append(b"\x88" + v.to_bytes(8, "big"))
        out.append(b"\x8a" + v.to_bytes(10, "big"))
    for k in range(0, 24):
        out.append(b"\x88" + ((1 << 64) - 1 - k).to_bytes(8, "big"))
    # 2^64 + something and 2^32 + something: wrap around to an acceptable length
    for k in range(0, min(room, 6) + 1):
        out.append(b"\x89\x01" + k.to_bytes(8, "big"))
        out.append(b"\x85\x01" + k.to_bytes(4, "big"))
        out.append(b"\x90" + ((1 << 64) + k).to_bytes(16, "big"))
        out.append(b"\x83\x01" + k.to_bytes(2, "big"))
        out.append(b"\x82\x40" + bytes((k,)))
    return out


def tampered(tree, skip_below=(), slack=0):
    """(label, encoding) for every node with a length past its parent; `slack`: allowance for the root"""
    nodes = [(p, n) for p, n in tree.walk() if n.raw is None]
    for path, n in nodes:
        if any(path[:len(s)] == s and len(path) > len(s) for s in skip_below):
            continue
        c = n.content if n.kids is None else b"".join(k.enc() for k in n.kids)
        room = len(c)
        if path:
            par = tree.at(path[:-1])
            room += sum(len(k.enc()) for k in par.kids[path[-1] + 1:])
        else:
            room += slack
        for l in past(room):
            n.fake_len = l
            yield f"{'.'.join(map(str, path))}:len {l.hex()}", tree.enc()
        n.fake_len = None


class Run:
    def __init__(self, ctx, task):
        from .. import probe, ber, values, world
        self.ber, self.values, self.world, self.probe = ber, values, world, probe
        self.ctx, self.task = ctx, task
        self.cfg = world.BY_NAME[task["cfg"]]
        self.p = probe.Probe(self.cfg, task["op"])
        self.b = probe.Builder(self.p)
        self.id = f"{task['cfg']}/{task['op']}"

    def rejected(self, lab, data, poison=0, tail=b"", what=""):
        ctx = self.ctx
        ctx.case(self.id.encode() + b" " + data)
        r = self.p.feed(data, poison, tail)
        ctx.evals += 1
        ctx.nontrivial += 1
        m = self.world.mods()
        ok = r[0] == "exc" and isinstance(r[1], (m.g.SnmpDecodeError, BlockingIOError))
        ctx.note("dropped" if r[0] == "exc" and isinstance(r[1], BlockingIOError) else "refused" if ok else "accepted")
        if not ok:
            ctx.violation(f"{what}: {self.world.show(r)[:140]}", f"{self.id} {lab} datagram={data.hex()[:8400]} then={tail.hex()[:200]}",
                          key=f"{self.id} {lab}")
            self.p.reset_hard()
            self.b = self.probe.Builder(self.p)
        ctx.state((self.id, lab.split(" ")[0]))

    def same(self, lab, data, want, tail=b"", what=""):
        ctx = self.ctx
        if len(data) > 4080:
            return
        ctx.case(self.id.encode() + b" " + data)
        r = self.p.feed(data, 0, tail)
        ctx.evals += 1
        ctx.nontrivial += 1
        if not (r[0] == "ok" and repr(r[1]) == repr(want)):
            ctx.violation(f"{what}: {self.world.show(r)[:120]} instead of {want!r:.120}", f"{self.id} {lab} datagram={data.hex()[:8400]}",
                          key=f"{self.id} {lab}")
        ctx.state((self.id, lab.split(" ")[0]))


WHAT = "a message with an element running past the enclosing element is accepted"


def run_tamper(ctx, task):
    R = Run(ctx, task)
    ber = R.ber
    corp = dict(R.probe.vbs_corpus())
    labs = ["int", "two", "octets", "real-dec1", "rel2", "mixed", "longform"]
    if task["rich"]:
        labs = [l for l in corp if l not in ("octets200", "bigoid", "outside")]
    v3 = R.cfg.ver == "v3"
    for lab in labs:
        inner = R.b.inner(corp[lab])
        # inside the PDU / scoped PDU
        tr = ber.tree(inner)
        for ml, x in tampered(tr, slack=32 if R.b.priv else 0):
            if ml.startswith(":len") and not v3:
                continue  # the PDU itself: covered with the message around it
            R.rejected(f"{lab} {ml}", R.b.outer(x), what=WHAT)
        if lab not in ("int", "two"):
            continue
        # the message around it
        tr = R.b.outer_tree(inner)
        if not R.b.priv:
            tr.kids[-1] = ber.tree(inner)
        for ml, x in tampered(tr):
            R.rejected(f"outer {lab} {ml}", R.b.finish(x), what=WHAT)
            R.rejected(f"outer {lab} {ml}", R.b.finish(x), 0xFF, bytes(300), what=WHAT)
    ctx.sample(f"{R.id}: every node x {len(past(20))} lengths past the enclosing element")


def run_trunc(ctx, task):
    """the octets which are missing are still in memory, behind the datagram"""
    R = Run(ctx, task)
    corp = dict(R.probe.vbs_corpus())
    for lab in ("int", "two", "octets", "octets200", "real-dec2", "rel2", "c64"):
        inner = R.b.inner(corp[lab])
        raw = R.b.outer(inner)
        for k in range(len(raw)):
            R.rejected(f"{lab} cut {k}", raw[:k], 0, raw[k:], what="a truncated datagram is accepted")
        if R.b.priv:
            for k in range(len(inner)):
                R.rejected(f"{lab} inner cut {k}", R.b.outer(inner[:k]), 0, inner[k:], what="a truncated scoped PDU is accepted") \
                    if len(inner) - k > 16 else None
    ctx.sample(f"{R.id}: every truncation of {len(raw)} octets")


def run_trail(ctx, task):
    R = Run(ctx, task)
    corp = dict(R.probe.vbs_corpus())
    few = (0, 1, 2, 4, 5, 0x30, 0x7F, 0x80, 0x82, 0xA2, 0xFE, 0xFF)
    for lab in ("int", "two", "empty", "octets", "endmib", "real0"):
        inner = R.b.inner(corp[lab])
        raw = R.b.outer(inner)
        base = R.p.feed(raw)
        tails = [bytes((a,)) for a in range(256)] + [bytes((a, b)) for a in few for b in few] + \
            [raw, b"\x30\x00", bytes(8), bytes(16), b"\xff" * 100, bytes(1000), inner]
        for t in tails:
            R.rejected(f"{lab} trailing {t[:20].hex()}/{len(t)}", raw + t, what="octets after the message are accepted")
            if R.b.auth:
                # covered by the digest
                x = R.b.outer_tree(inner).enc() + t
                R.rejected(f"{lab} signed trailing {t[:20].hex()}/{len(t)}", R.b.finish(x), what="octets after the message are accepted")
    ctx.sample(f"{R.id}: all single octets, pairs and messages after the message")


def run_big(ctx, task):
    """datagrams around and beyond the receive buffer"""
    R = Run(ctx, task)
    ber = R.ber
    name = ber.oid((1, 3, 6, 1, 2, 1, 1, 0))
    seen = set()
    for n in range(3700, 4090):
        v = b"x" * n
        raw = R.b.seed(ber.tlv(0x30, name + ber.tlv(4, v)))
        if len(raw) > 4080 or len(raw) < 4060:
            continue
        seen.add(len(raw))
        R.same(f"size {len(raw)}", raw, v, what="a message which fits is not delivered")
        for t in (b"\x00", b"\x01", b"\xff", b"\x05\x00", b"\x30\x00", bytes(4080 - len(raw)), bytes(4081 - len(raw)), bytes(20), bytes(5000), raw):
            if t:
                R.rejected(f"size {len(raw)} trailing {len(t)}", raw + t, what="octets after the message are accepted")
    ctx.sample(f"{R.id}: sizes {min(seen, default=0)}..{max(seen, default=0)}")


def run_pad(ctx, task):
    """what follows the scoped PDU in the plaintext never changes the result"""
    R = Run(ctx, task)
    corp = dict(R.probe.vbs_corpus())
    for lab in ("int", "two", "octets", "real-dec1", "real-dec3", "real-bin", "oid", "c64"):
        inner = R.b.inner(corp[lab])
        base = R.p.feed(R.b.outer(inner))
        for n in range(0, 34):
            for f in (0x00, 0x01, 0x30, 0x31, 0x7F, 0x80, 0xFF):
                d = R.b.outer(inner + bytes((f,)) * n)
                r = R.p.feed(d)
                ctx.evals += 1
                ctx.nontrivial += 1
                # the library may refuse more padding than a block needs, but must not read it
                if not R.probe.same(r, base) and not (n >= 8 and r[0] == "exc" and R.world.is_documented(r[1])):
                    ctx.violation(f"{n} octets {f:02x} behind the scoped PDU change the result: {R.world.show(r)[:100]}",
                                  f"{R.id} {lab} datagram={d.hex()}", key=f"{R.id} {lab} pad {n} {f}")
        ctx.state((R.id, lab))


def run_suffix(ctx, task):
    """each value in front of / behind other varbinds"""
    R = Run(ctx, task)
    ber, W = R.ber, R.world
    op = task["op"]
    base = (1, 3, 6, 1, 2, 1)
    others = [(b"\x02\x01\x05", 5), (b"\x04\x04E5.5", b"E5.5"), (b"\x04\x0c" + b"\xff" * 12, b"\xff" * 12), (b"\x09\x02\x011", 1.0),
              (b"\x06\x01\x2b", "1.3"), (b"\x04\x00", b""), (b"\x01\x01\xff", True), (b"\x40\x04\x39\x39\x39\x39", "57.57.57.57")]

    def expect(items):
        t = ber.oid_text
        if op == "get_many":
            return {t(o): v for o, v in items}
        if op == "get_next":
            return (t(items[0][0]), items[0][1])
        return [(t(o), v) for o, v in items]

    n = 0
    for typ, lab, t, v in R.values.cases(task["full"]):
        n += 1
        for j, (ot, ov) in enumerate(others):
            if not task["full"] and typ == "int" and (n + j) % 3:
                continue
            a, b = (base + (1,), t, v), (base + (2,), ot, ov)
            if op == "get_next":
                # a single varbind; other octets follow inside it and behind it in the datagram buffer
                d = R.b.seed(W.vb(a[0], t))
                R.same(f"{typ} {lab}", d, expect([(a[0], v)]), tail=ot, what=f"{typ} {lab} in front of {ot.hex()}")
                continue
            for items in ((a, b), (a, b, (base + (3,), t, v)), ((base + (0,), ot, ov), a)):
                d = R.b.seed(b"".join(W.vb(o, x) for o, x, _ in items))
                R.same(f"{typ} {lab}", d, expect([(o, y) for o, _, y in items]), what=f"{typ} {lab} next to {ot.hex()}")
    ctx.sample(f"{R.id}: {n} values x {len(others)} neighbours")


def run_session(ctx, task):
    """through the public API: the reply with trailing octets is not delivered, the clean one behind it is"""
    import vnet
    from .. import world, ber
    cfg = world.BY_NAME[task["cfg"]]
    m = world.mods()
    w = world.wire()
    name = (1, 3, 6, 1, 2, 1, 1, 0)
    for i, t in enumerate((b"\x00", b"\xff", b"\x05\x00", bytes(100))):
        def responder(fd, data):
            q = world.parse_request(data, cfg)
            vnet.inject(fd, world.reply(cfg, q, [world.vb(name, ber.integer(5))]) + t)
        w.responder = responder
        s = cfg.session(task["kind"], timeout=0.5)
        r = world.call(s, task["kind"], "get")
        ctx.evals += 1
        ctx.nontrivial += 1
        if not (r[0] == "exc" and isinstance(r[1], (m.g.SnmpDecodeError, TimeoutError))):
            ctx.violation(f"octets after the message are accepted: {world.show(r)[:100]}", f"{cfg.name} {task['kind']} tail {t.hex()}",
                          key=f"{cfg.name} {task['kind']} session tail")
        ctx.state((cfg.name, task["kind"], i))
    w.responder = None
