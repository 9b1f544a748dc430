"""C01 - the receive path is total."""
from mc import fds
LEVEL = "exploration"
RULE = ("one execution = one datagram (or datagram pair) fed to one pending operation of one configuration; "
        "nontrivial = the datagram starts with a SEQUENCE tag, i.e. gets past the first header check")
BOUNDS = {
    "quick": "all byte strings <= 2 octets; all single TLV-structural mutations (reduced tag set), all truncations, all "
             "single-octet substitutions of the seed corpus; value TLVs: all tags x length forms x patterns; all "
             "names/relative names <= 2 octets; REAL first octets x lengths; pairs of datagrams in blocking sessions",
    "thorough": "quick bounds with all byte strings <= 3 octets, all 256 tags per node, all pairs of reduced structural "
                "mutations, substitutions in every configuration",
}
ASSUMPTIONS = [
    "datagrams longer than the library's receive buffer are truncated by the kernel (recv semantics)",
    "a documented exception is SnmpError or a subclass, TimeoutError, BlockingIOError, OSError, ValueError, "
    "StopIteration, StopAsyncIteration",
    "octets behind the received datagram are modelled by two different fill patterns",
]

VAL_TAGS_Q = (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0xA, 0xC, 0xD, 0x1F, 0x30, 0x40, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48,
              0x80, 0x81, 0x82, 0x83, 0xA0, 0xA8, 0xC0, 0xFF)


def cfg_names():
    return ["v1", "v2c", "v3", "v3-md5l", "v3-shal", "v3-md5l-desl", "v3-shal-desl", "v3-md5l-aesl", "v3-shal-aesl",
            "v3-disc"]


def tasks(tier, info):
    full = tier == "thorough"
    t = []
    v3n = [c for c in cfg_names() if c.startswith("v3")]
    for c in cfg_names():
        for op in ("get", "get_bulk") + (("refresh",) if c in v3n else ()):
            t.append(dict(k="short", cfg=c, op=op, n=2))
    if full:
        for c in ("v1", "v2c", "v3", "v3-shal-aesl"):
            for p in range(32):
                t.append(dict(k="short3", cfg=c, op="get", part=p, parts=32))
    for c in cfg_names():
        for op in ("get", "get_many", "get_next", "get_bulk") + (("refresh",) if c in v3n else ()):
            rich = c in ("v2c", "v3-md5l-aesl") or full
            parts = 4 if full else (2 if rich else 1)
            for p in range(parts):
                t.append(dict(k="outer", cfg=c, op=op, part=p, parts=parts, rich=rich))
                t.append(dict(k="inner", cfg=c, op=op, part=p, parts=parts, rich=rich))
            t.append(dict(k="trunc", cfg=c, op=op))
            t.append(dict(k="sub", cfg=c, op=op, rich=rich))
    for c in ("v2c", "v3-shal-desl"):
        for op in ("get", "get_next", "get_bulk"):
            parts = 8 if full else 2
            for p in range(parts):
                t.append(dict(k="pairs", cfg=c, op=op, part=p, parts=parts, n=None if full else 2))
    for op in ("get", "get_many", "get_next", "get_bulk"):
        t.append(dict(k="value", cfg="v2c", op=op))
        t.append(dict(k="real", cfg="v2c", op=op))
        for p in range(4):
            t.append(dict(k="name", cfg="v2c", op=op, part=p, parts=4))
        for p in range(4):
            t.append(dict(k="rel", cfg="v2c", op=op, part=p, parts=4))
    for c in ("v3-md5l-desl", "v3-shal-desl", "v3-md5l-aesl", "v3-shal-aesl"):
        for op in ("get", "get_bulk", "refresh"):
            t.append(dict(k="priv", cfg=c, op=op))
    for c in cfg_names():
        t.append(dict(k="size", cfg=c, op="get"))
    for c in ("v1", "v2c", "v3", "v3-shal-aesl"):
        for kind in ("sync", "async"):
            for op in ("get", "get_many", "getnext", "getbulk", "fetch") + (("refresh",) if c in v3n else ()):
                t.append(dict(k="seq", cfg=c, op=op, kind=kind))
    if info.get("rmc_ok"):
        from .. import rmc_targets
        parts = 16 if full else 2
        for target in rmc_targets.ALL:
            for p in range(parts):
                t.append(dict(k="rmc", target=target, part=p, parts=parts))
    return t


def get_cfg(name):
    from ..world import BY_NAME, v3
    if name == "v3-disc":
        return v3("sha", "aes", given=False)
    return BY_NAME[name]


class Run:
    def __init__(self, ctx, task):
        from .. import probe
        self.pm = probe
        self.ctx, self.task = ctx, task
        self.cfg = get_cfg(task["cfg"])
        self.p = probe.Probe(self.cfg, task["op"])
        self.b = probe.Builder(self.p)
        self.id = f"{task['cfg']}/{task['op']}"
        self.idb = self.id.encode() + b" "

    def go(self, lab, data, tail=None):
        ctx = self.ctx
        ctx.case(self.idb + data)
        r = self.p.feed(data, 0, b"")
        ctx.evals += 1
        if data[:1] == b"0":
            ctx.nontrivial += 1
        bad = self.pm.classify(r)
        nm = "value" if r[0] == "ok" else type(r[1]).__name__
        ctx.note(nm)
        if bad is None and tail is not None:
            r2 = self.p.feed(data, 0xFF, tail)
            ctx.evals += 1
            if not self.pm.same(r, r2):
                from ..world import show
                bad = f"result depends on octets beyond the datagram: {show(r)[:120]} vs {show(r2)[:120]}"
        if bad:
            ctx.violation(f"{bad}", f"{self.id} {lab} datagram={data.hex()}")
            self.p.reset_hard()
            self.b = self.pm.Builder(self.p)
        else:
            ctx.state((self.id, nm))
        return r


def run(ctx, task):
    globals()["run_" + task["k"]](ctx, task)


def run_short(ctx, task):
    R = Run(ctx, task)
    R.go("empty", b"", b"\x30\x03\x02\x01\x00")
    for i in range(256):
        R.go("short", bytes((i,)), b"\x03\x02\x01\x01")
        for j in range(256):
            R.go("short", bytes((i, j)))


def run_short3(ctx, task):
    R = Run(ctx, task)
    for i in range(task["part"], 256, task["parts"]):
        for j in range(256):
            for k in range(256):
                R.go("short3", bytes((i, j, k)))


def corpus(R, n=None):
    out = [(l, v, t) for l, v in R.pm.vbs_corpus() for t in (0xA2,)]
    d = dict(R.pm.vbs_corpus())
    out += [("two", d["two"], t) for t in (0xA8, 0xA0, 0xA1, 0xA5)] + [("int", d["int"], 0xA7)]
    return out if n is None else out[:n]


def run_outer(ctx, task):
    """structural mutations of the message around an intact PDU"""
    from .. import mutate
    R = Run(ctx, task)
    d = dict(R.pm.vbs_corpus())
    for lab, tag in (("int", 0xA2), ("two", 0xA8), ("empty", 0xA2)):
        inner = R.b.inner(d[lab], tag)
        for i, (ml, raw) in enumerate(mutate.singles(R.b.outer_tree(inner), task["rich"])):
            if i % task["parts"] == task["part"]:
                R.go(f"outer:{lab}:{ml}", R.b.finish(raw), b"\x02\x01\x05\x30\x03\x04\x01\x00")


def run_inner(ctx, task):
    """structural mutations inside the (re-encrypted, re-signed) PDU"""
    from .. import mutate, ber
    R = Run(ctx, task)
    for lab, v, tag in corpus(R):
        if not task["rich"] and lab not in ("int", "octets", "oid", "real-bin", "two", "rel2", "mixed", "empty", "c64",
                                            "noinst", "endmib", "relfull"):
            continue
        tr = ber.tree(R.b.inner(v, tag))
        for i, (ml, raw) in enumerate(mutate.singles(tr, ctx.full)):
            if i % task["parts"] == task["part"]:
                R.go(f"inner:{lab}/{tag:02x}:{ml}", R.b.outer(raw), b"\x02\x01\x05\x30\x03\x04\x01\x00")


def run_trunc(ctx, task):
    from .. import mutate
    R = Run(ctx, task)
    for lab, v, tag in corpus(R):
        inner = R.b.inner(v, tag)
        raw = R.b.outer(inner)
        R.go(f"seed:{lab}", raw, b"")
        for ml, x in mutate.truncations(raw):
            R.go(f"{ml}:{lab}", x, raw[len(x):])
        # truncated inner unit in an intact message
        for ml, x in mutate.truncations(inner):
            R.go(f"inner-{ml}:{lab}", R.b.outer(x), inner[len(x):])
        for x in (b"\x00", b"\xff", raw, inner, b"\x05\x00"):
            R.go(f"append:{lab}", raw + x, b"")
            R.go(f"inner-append:{lab}", R.b.outer(inner + x), b"")


def run_sub(ctx, task):
    from .. import mutate
    R = Run(ctx, task)
    few = (0, 1, 2, 3, 4, 5, 6, 9, 0x0D, 0x1F, 0x20, 0x30, 0x3F, 0x40, 0x7F, 0x80, 0x81, 0x82, 0x84, 0x88, 0x89, 0xA2, 0xBF,
           0xFE, 0xFF)
    vals = range(256) if task["rich"] else few
    d = dict(R.pm.vbs_corpus())
    for lab in ("int", "rel2") + (("mixed", "real-bin", "empty") if task["rich"] else ()):
        inner = R.b.inner(d[lab])
        for ml, x in mutate.bytes_subst(R.b.outer_tree(inner).enc(), vals):
            R.go(f"outer-{ml}:{lab}", R.b.finish(x))
        if R.b.priv:
            for ml, x in mutate.bytes_subst(R.b.outer(inner), (0, 0x30, 0x80, 0xFF)):
                R.go(f"signed-{ml}:{lab}", x)
        for ml, x in mutate.bytes_insdel(R.b.outer_tree(inner).enc()):
            R.go(f"outer-{ml}:{lab}", R.b.finish(x), b"")
    for lab, v, tag in corpus(R):
        inner = R.b.inner(v, tag)
        if R.b.priv or (R.b.auth and task["rich"]):
            for ml, x in mutate.bytes_subst(inner, few):
                R.go(f"inner-{ml}:{lab}", R.b.outer(x))
        elif task["rich"] or len(inner) < 60:
            for ml, x in mutate.bytes_subst(inner, vals):
                R.go(f"inner-{ml}:{lab}", R.b.outer(x))
        for ml, x in mutate.bytes_insdel(inner, (0, 0x30, 0x80)):
            R.go(f"inner-{ml}:{lab}", R.b.outer(x))


def run_pairs(ctx, task):
    from .. import mutate, ber
    R = Run(ctx, task)
    d = dict(R.pm.vbs_corpus())
    for lab in ("int", "rel1", "two", "mixed")[:task["n"]]:
        tr = ber.tree(R.b.inner(d[lab]))
        for ml, raw in mutate.pairs(tr, task["part"], task["parts"]):
            R.go(f"pair:{lab}:{ml}", R.b.outer(raw))


def run_value(ctx, task):
    from .. import ber, mutate
    R = Run(ctx, task)
    name = ber.oid((1, 3, 6, 1, 2, 1, 1, 0))
    pats = list(mutate.CONTENTS)
    for tag in range(256):
        for c in pats:
            for l in mutate.length_octets(len(c)):
                if not ctx.full and tag not in VAL_TAGS_Q and l[:1] not in (b"\x00", b"\x80", bytes((len(c),))):
                    continue
                v = bytes((tag,)) + l + c
                R.go(f"value {v.hex()}", R.b.outer(R.b.inner(ber.tlv(0x30, name + v))), b"")
    # every content length for every supported type, several fills
    for tag in (1, 2, 4, 5, 6, 7, 9, 0x40, 0x41, 0x42, 0x43, 0x44, 0x46, 0x47, 0x80, 0x81, 0x82):
        for n in list(range(0, 40)) + [126, 127, 128, 129, 255, 256, 257, 1000]:
            for f in (0, 1, 0x30, 0x7F, 0x80, 0x81, 0xFF):
                v = ber.tlv(tag, bytes((f,)) * n)
                R.go(f"value {tag:02x} {n}x{f:02x}", R.b.outer(R.b.inner(ber.tlv(0x30, name + v))), b"\x00")
    # several varbinds: one broken in each position
    good = ber.tlv(0x30, name + ber.tlv(2, b"\x01"))
    for bad in (b"", b"\x30", b"\x30\x00", b"\x30\x01\x06", b"\x30\x02\x06\x00", b"\x30\x02\x0d\x00", b"\x05\x00",
                b"\x30\x04\x06\x00\x05\x00", b"\x30\x05\x0d\x01\x01\x05\x00", b"\x30\x80", b"\x30\x81", b"\x06\x01\x2b",
                b"\x30\x03\x05\x01\x00", b"\x30\x03\x06\x01\x2b", b"\x30\x05\x06\x01\x2b\x02\x00", b"\x00", b"\xff" * 3):
        for k in range(3):
            for n in range(3):
                R.go(f"vb {bad.hex()} at {k}", R.b.outer(R.b.inner(good * k + bad + good * n)), b"")


def run_real(ctx, task):
    from .. import ber
    from itertools import product
    R = Run(ctx, task)
    name = ber.oid((1, 3, 6, 1, 2, 1, 1, 0))

    def one(c):
        R.go(f"real {c.hex()}", R.b.outer(R.b.inner(ber.tlv(0x30, name + ber.tlv(9, c)))), b"\x31\x32")

    for f in range(256):
        for n in range(0, 14):
            for fill in (b"\x00", b"\x01", b"\x7f", b"\x80", b"\xff", b"1", b".", b"-"):
                one(bytes((f,)) + fill * n)
        for e in (0, 1, 2, 3, 4, 8, 0x7F, 0x80, 0xFF):
            for n in (0, 1, 2, 3, 8, 9):
                one(bytes((f, e)) + b"\x7f" * n)
        if ctx.full:
            for a in range(256):
                for b in (0, 1, 0x7F, 0x80, 0xFF):
                    one(bytes((f, a, b)))
                    one(bytes((f, a, b, 5)))
    for nr in (1, 2, 3):
        al = b"019+-.,eE \x00\xff"
        for n in range(0, 5 if ctx.full else 4):
            for s in product(al, repeat=n):
                one(bytes((nr,)) + bytes(s))
        for s in (b"1" * 400, b"9" * 30, b"1E" + b"9" * 30, b"-" * 20, b"1.5E308", b"1.5E309", b"1E-400", b"inf", b"nan",
                  b"NaN", b"infinity", b"0x10", b"1_0", b"\xd9\xa1"):
            one(bytes((nr,)) + s)


def run_name(ctx, task):
    """object names: every content of up to two octets, long and unterminated sub-identifiers"""
    from .. import ber
    R = Run(ctx, task)
    i5 = ber.tlv(2, b"\x05")

    def one(c, val=False):
        R.go(f"name {c.hex()}", R.b.outer(R.b.inner(ber.tlv(0x30, ber.tlv(6, c) + i5))), b"\x01")
        if val:
            R.go(f"oidvalue {c.hex()}", R.b.outer(R.b.inner(ber.tlv(0x30, ber.oid((1, 3, 6, 1, 2, 1, 1, 0)) + ber.tlv(6, c)))),
                 b"\x01")

    for a in range(task["part"], 256, task["parts"]):
        one(bytes((a,)), True)
        one(bytes((0x2B, 6, 1, 2, 1, a)), True)
        for b in range(256):
            one(bytes((a, b)), ctx.full)
            one(bytes((0x2B, 6, 1, 2, 1, a, b)), ctx.full)
    if task["part"] == 0:
        one(b"", True)
        base = b"\x2b\x06\x01\x02\x01"
        for n in range(1, 40):
            for f in (b"\x80", b"\x81", b"\xff"):
                for last in (b"", b"\x00", b"\x01", b"\x7f"):
                    one(f * n + last, True)
                    one(base + f * n + last, True)
        for n in list(range(100, 140)) + [255, 256, 1000, 3000]:
            one(base + b"\x01" * n, True)
            one(base + b"\x8f\xff\xff\xff\x7f" * (n // 5), True)


def run_rel(ctx, task):
    """relative names against every kind of preceding absolute name"""
    from .. import ber
    R = Run(ctx, task)
    i5 = ber.tlv(2, b"\x05")
    bases = [b"", b"\x2b", b"\x80", b"\xff", b"\x2b\x06", b"\x2b\x06\x01\x02\x01\x01\x00", b"\x2b\x06\x01\x02\x01\x85\x00",
             b"\x2b\x06\x01\x02\x01\x85", b"\x81\x81\x81", b"\x2b\x06\x01\x02\x01" + b"\x8f\xff\xff\xff\x7f" * 3, b"\x00",
             b"\x2b\x06\x01\x02\x01" + b"\x01" * 120]

    def one(b, *rels):
        v = ber.tlv(0x30, ber.tlv(6, b) + i5) + b"".join(ber.tlv(0x30, ber.tlv(0x0D, r) + i5) for r in rels)
        R.go(f"rel {b.hex()}+{[r.hex() for r in rels]}", R.b.outer(R.b.inner(v)), b"\x01")

    fills = (0, 1, 0x7F, 0x80, 0x81, 0xFF)
    for bi, b in enumerate(bases):
        if bi % task["parts"] != task["part"]:
            continue
        one(b, b"")
        for a in range(256):
            one(b, bytes((a,)))
            for c in (range(256) if ctx.full or bi in (5, 6) else fills):
                one(b, bytes((a, c)))
        for n in range(3, 40):
            for f in fills:
                for last in (0x01, 0x81):
                    one(b, bytes((f,)) * (n - 1) + bytes((last,)))
        for a in fills:
            for c in fills:
                one(b, bytes((a,)), bytes((c,)))
                one(b, bytes((a, 1)), bytes((c,)))
                one(b, b"", bytes((c,)), bytes((a, c)))
        # relative name only / relative first
        R.go("rel-first", R.b.outer(R.b.inner(ber.tlv(0x30, ber.tlv(0x0D, b) + i5))), b"")


def run_priv(ctx, task):
    """privacy layer: parameter lengths, ciphertext lengths, decrypted garbage"""
    from .. import ber, usm
    R = Run(ctx, task)
    B, c = R.b, R.cfg
    d = dict(R.pm.vbs_corpus())
    inner = B.inner(d["int"])
    good = usm.encrypt(c.priv, c.pkey(), 7, 1000, R.pm.SALT, inner)
    for pl in range(0, 33):
        for ct in (b"", b"\x00", good, good[:8], good[:-1], good + b"\x00", good + bytes(8)):
            R.go(f"pp{pl}", B.finish(B.outer_tree(inner, salt=bytes(range(pl)), cipher=ct).enc()), b"\x00" * 8)
    for n in list(range(0, 70)) + [127, 128, 255, 256, 1000, 3000, 3900]:
        for f in (0, 0xFF):
            R.go(f"ct{n}", B.finish(B.outer_tree(inner, cipher=bytes((f,)) * n).enc()), b"\x00" * 8)
    for boots in (-1, 0, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, -(1 << 63)):
        for time in (-1, 0, (1 << 32) - 1, 1 << 32, -(1 << 63)):
            R.go("boots", B.finish(B.outer_tree(inner, boots=boots, time=time, cipher=good).enc()), b"")
    for a in range(256):
        R.go(f"plain {a:02x}", B.outer(bytes((a,))), b"")
        for b in (range(256) if ctx.full else (0, 1, 2, 0x7F, 0x80, 0x81, 0x82, 0x84, 0xFF)):
            R.go(f"plain {a:02x}{b:02x}", B.outer(bytes((a, b))), b"")
    # plaintext data where ciphertext is expected and vice versa, every flag value
    for fl in range(256):
        for raw in (None, inner, ber.tlv(4, inner), b"", b"\x04\x00", b"\x05\x00"):
            R.go(f"flags {fl}", B.finish(B.outer_tree(inner, flags=fl, raw_data=raw).enc()), b"")


def run_size(ctx, task):
    """messages around the receive buffer size"""
    from .. import ber
    R = Run(ctx, task)
    name = ber.oid((1, 3, 6, 1, 2, 1, 1, 0))
    R.go("zeros", bytes(65507), b"")
    R.go("ff", b"\xff" * 65507, b"")
    for base in (4080, 65507) if ctx.full else (4080,):
        for n in list(range(base - 330, base + 30)):
            raw = R.b.seed(ber.tlv(0x30, name + ber.tlv(4, b"x" * n)))
            if len(raw) > 65507:
                break
            R.go(f"size {len(raw)}", raw, b"")
    for n in (100, 200, 300, 400):
        R.go("many", R.b.seed(ber.tlv(0x30, name + ber.tlv(2, b"\x01")) * n)[:65507], b"")


# ---- sequences of datagrams in blocking sessions -----------------------------------
def run_seq(ctx, task):
    import errno
    import vnet
    from .. import ber, probe
    from ..world import call, show, wire, parse_request, reply, NS, outcome
    cfg = get_cfg(task["cfg"])
    kind, op = task["kind"], task["op"]
    w = wire()
    name = (1, 3, 6, 1, 2, 1, 1, 0)
    i5 = ber.tlv(2, b"\x05")

    def menu(q):
        from .. import world
        vb = world.vb
        ok = reply(cfg, q, [vb(name, i5)])
        m = [("ok", ok), ("empty", b""), ("garbage", b"\xff\xff"), ("seq0", b"\x30\x00"), ("half", ok[:len(ok) // 2]),
             ("trail", ok + b"\x00"), ("wrongid", reply(cfg, q, [vb(name, i5)], req_id=(q.req_id + 1) & 0x7FFFFFFF)),
             ("novb", reply(cfg, q, [])), ("multi", reply(cfg, q, [vb(name, i5), vb(name[:-1] + (1,), i5)])),
             ("nosuch", reply(cfg, q, [vb(name, ber.tlv(0x80))])), ("noinst", reply(cfg, q, [vb(name, ber.tlv(0x81))])),
             ("end", reply(cfg, q, [vb(name, ber.tlv(0x82))])), ("null", reply(cfg, q, [vb(name, ber.tlv(5))])),
             ("outside", reply(cfg, q, [vb((1, 3, 7), i5)])), ("emptyvb", reply(cfg, q, [b"\x30\x00"])),
             ("emptyoid", reply(cfg, q, [vb(b"\x06\x00", i5)])), ("badutf", reply(cfg, q, [vb(name, ber.tlv(7, b"\xff\xfe"))])),
             ("relfirst", reply(cfg, q, [vb(b"\x0d\x01\x01", i5)])),
             ("request", reply(cfg, q, [vb(name, i5)], tag=0xA0)), ("getbulk", reply(cfg, q, [vb(name, i5)], tag=0xA5)),
             ("report", reply(cfg, q, [vb(name, i5)], tag=0xA8)), ("set", reply(cfg, q, [vb(name, i5)], tag=0xA3)),
             ("err", reply(cfg, q, [vb(name, ber.tlv(5))], err=2, idx=1)), ("real", reply(cfg, q, [vb(name, b"\x09\x01\x80")])),
             ("refused", errno.ECONNREFUSED), ("eio", errno.EIO), ("intr", errno.EINTR)]
        if cfg.ver == "v3":
            m += [("wrongmsg", reply(cfg, q, [vb(name, i5)], msg_id=q.msg_id ^ 1)),
                  ("wrongengine", reply(cfg, q, [vb(name, i5)], engine=b"\x80\0\0\0\x09")),
                  ("usm-report", world.report(cfg, q)), ("v2c", world.community_msg(1, b"public", world.response(q.req_id))),
                  ("badpp", reply(cfg, q, [vb(name, i5)], priv_params=b"\x01")),
                  ("noauth", reply(cfg, q, [vb(name, i5)], flags=0, encrypt=False))]
        else:
            m += [("wrongcomm", reply(cfg, q, [vb(name, i5)], community=b"x")),
                  ("wrongver", reply(cfg, q, [vb(name, i5)], version=3))]
        return m

    plan = []

    def responder(fd, data):
        q = parse_request(data, cfg, strict=False)
        m = menu(q)
        for j, lab in enumerate(plan):
            x = dict(m)[lab]
            at = vnet.now() + (j + 1) * 1_000_000
            if isinstance(x, int):
                vnet.inject_error(fd, x, at)
            else:
                vnet.inject(fd, x, at)

    w.responder = None
    s0 = cfg.session(kind, timeout=0.5)
    labs = None
    # learn the menu's labels from one request
    got = []
    w.responder = lambda fd, data: got.append(data)
    call(s0, kind, op)
    if not got:
        return  # operation sends nothing in this configuration (refresh without keys)
    labs = [l for l, _ in menu(parse_request(got[0], cfg, strict=False))]
    w.responder = responder
    import itertools
    combos = [(a,) for a in labs] + [(a, b) for a in labs for b in labs]
    if ctx.full:
        combos += [(a, b, c) for a in labs for b in labs for c in ("ok", "garbage", "wrongid", "refused")]
    for combo in combos:
        plan[:] = combo
        ctx.case(f"{task['cfg']}/{kind}/{op} {combo}")
        sess = cfg.session(kind, timeout=0.5)
        r = call(sess, kind, op, limit=3)
        ctx.evals += 1
        ctx.nontrivial += 1
        ctx.trans += len(combo)
        bad = probe.classify(r)
        ctx.state((task["cfg"], kind, op, type(r[1]).__name__ if r[0] == "exc" else "ok", combo[-1]))
        if bad:
            ctx.violation(bad, f"{task['cfg']} {kind} {op} datagrams={combo}")
        vnet.flush(fds.fd_of(sess))


def run_rmc(ctx, task):
    from .. import rmc
    rmc.run_totality(ctx, task)
