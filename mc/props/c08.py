"""C08 - the OID sent is the OID asked for; invalid OID text is refused."""
LEVEL = "exploration"
RULE = ("one execution = one string handed to one API entry point; nontrivial = strings which are not plain valid OIDs of small "
        "arcs (everything refused, every multi-octet arc)")
BOUNDS = {
    "quick": "all strings of length <= 6 over 12 characters (digits 0 1 2 3 4 9, '.', '-', '+', ' ', 'a', U+0661), 6 entry points; all "
             "first x second arcs 0..300 and boundary arcs; every arc 0..40000 and around every 7-bit / 2^32 / 2^64 boundary; "
             "pairs of boundary arcs; 2..650 arcs; echo round trip of every accepted OID; "
             "without the wire: every arc below 2^23 and around 2^28, 2^31, 2^32, and every 257th arc of the whole range, in three surroundings",
    "thorough": "length <= 7, every arc up to 2^20, first x second arcs 0..1100; without the wire: all 2^32 arcs",
}
ASSUMPTIONS = [
    "leading zeros (1.03) and a leading dot (.1.3) may be refused or sent as the OID they denote",
    "2.X with X > 39 may be refused or sent exactly",
]
import re

CHARS = ["0", "1", "2", "3", "4", "9", ".", "-", "+", " ", "a", "\u0661"]
VALID = re.compile(r"^[0-9]+(\.[0-9]+)+$", re.A)
BND = sorted({0, 1, 39, 40, 47, 48, 79, 80, 126, 127, 128, 129, 255, 256, 65535, 65536} |
             {(1 << k) + d for k in (14, 21, 28, 31, 32, 33, 63, 64) for d in (-1, 0, 1)} | {10**20, 4294967295 * 2, 1 << 35, 2**32 + 127})
OPS = ["get", "many1", "many3", "getnext", "getbulk", "fetch"]


def oracle(s):
    """-> ("must", arcs) | ("may", arcs) | ("no",)"""
    t = s
    may = False
    if t.startswith(".") and len(t) > 1:
        t, may = t[1:], True
    if not VALID.match(t) or t.endswith("\n"):
        return ("no",)
    parts = t.split(".")
    arcs = tuple(map(int, parts))
    if arcs[0] > 2 or (arcs[0] < 2 and arcs[1] > 39) or any(a > 0xFFFFFFFF for a in arcs):
        return ("no",)
    if arcs[1] > 39 or any(len(p) > 1 and p[0] == "0" for p in parts):
        may = True
    return ("may" if may else "must", arcs)


def tasks(tier, info):
    full = tier == "thorough"
    t = []
    n = len(CHARS)
    for c in CHARS:
        for d in CHARS:
            t.append(dict(k="strings", first=c, second=d, len=7 if full else 6, op="many1", cfg="v2c", kind="sync"))
    for op in OPS:
        for cfg, kind in (("v2c", "sync"), ("v1", "async"), ("v3-shal-aesl", "sync")):
            if op == "getbulk" and cfg == "v1":
                continue
            t.append(dict(k="strings", first=None, second=None, len=3, op=op, cfg=cfg, kind=kind))
            t.append(dict(k="special", op=op, cfg=cfg, kind=kind))
    for p in range(8):
        t.append(dict(k="heads", n=1100 if full else 300, part=p, parts=8))
        t.append(dict(k="arcs", n=1 << 20 if full else 40000, part=p, parts=8))
    for op in OPS:
        t.append(dict(k="pairs", op=op))
    if info.get("rmc_ok"):
        for p in range(64 if full else 8):
            t.append(dict(k="sweep", part=p, parts=64 if full else 8, full=full))
    t.append(dict(k="long", cfg="v2c", kind="sync"))
    t.append(dict(k="long", cfg="v3", kind="async"))
    t.append(dict(k="recv", cfg="v2c", kind="sync"))
    t.append(dict(k="recv", cfg="v1", kind="async"))
    return t


def run(ctx, task):
    globals()["run_" + task["k"]](ctx, task)


class Lab:
    def __init__(self, ctx, cfgn="v2c", kind="sync"):
        from .. import world, ber
        import vnet
        self.ctx, self.world, self.ber, self.vnet = ctx, world, ber, vnet
        self.cfg, self.kind = world.BY_NAME[cfgn], kind
        self.w = world.wire()
        self.w.clear()
        self.w.responder = self.respond
        self.sess = self.cfg.session(kind, timeout=0.5)
        self.ok = "1.3.6.1"
        self.sent = []

    def respond(self, fd, data):
        try:
            q = self.world.parse_request(data, self.cfg)
        except (ValueError, self.ber.BerError) as e:
            self.sent.append(("malformed", str(e)))
            return None
        self.sent.append(q.oids)
        if q.pdu_tag == self.ber.GET:
            self.vnet.inject(fd, self.world.reply(self.cfg, q, [self.world.vb(o, self.ber.oid(o)) for o in q.oids]))
        else:
            self.vnet.inject(fd, self.world.reply(self.cfg, q, [self.world.vb(q.oids[0] + (7,), self.ber.oid(q.oids[0]))]))

    def call(self, op, s):
        self.sent = []
        self.w.sent.clear()
        W = self.world
        if op == "get":
            return W.call(self.sess, self.kind, "get", oid=s)
        if op == "many1":
            return W.call(self.sess, self.kind, "get_many", oids=[s])
        if op == "many3":
            return W.call(self.sess, self.kind, "get_many", oids=[self.ok, s, "2.39.4294967295"])
        return W.call(self.sess, self.kind, op, base=s, limit=1)

    def judge(self, op, s):
        o = oracle(s)
        label = f"{self.cfg.name} {self.kind} {op} {s!a}"
        self.ctx.case(label[:3000])
        r = self.call(op, s)
        self.ctx.evals += 1
        bad = None
        if r[0] == "exc" and not isinstance(r[1], Exception):
            bad = f"raised {self.world.show(r)[:100]}"
        elif self.sent:
            if o[0] == "no":
                bad = f"invalid OID accepted and sent as {self.sent[0]}"
            else:
                want = [o[1]] if op != "many3" else [(1, 3, 6, 1), o[1], (2, 39, 4294967295)]
                txt = self.ber.oid_text(o[1])
                if len(self.sent) != 1 or self.sent[0] != want:
                    bad = f"sent as {self.sent}"
                elif r[0] != "ok":
                    bad = f"the echo of an accepted OID raised {self.world.show(r)[:100]}"
                elif op == "get" and r[1] != txt:
                    bad = f"the OID came back as {r[1]!r}"
                elif op == "many1" and r[1] != {txt: txt}:
                    bad = f"the OID came back as {r[1]!r}"
                elif op == "many3" and r[1] != {x: x for x in (self.ok, txt, "2.39.4294967295")}:
                    bad = f"the OIDs came back as {r[1]!r}"
                elif op in ("getnext", "getbulk", "fetch") and r[1] != [(txt + ".7", txt)]:
                    bad = f"the walk step came back as {r[1]!r}"
        else:
            if r[0] == "ok":
                bad = f"returned {r[1]!r} without sending anything"
            elif o[0] == "must":
                bad = f"valid OID refused: {self.world.show(r)[:100]}"
        if o[0] != "must" or max(o[1][2:] or (0,)) > 127:
            self.ctx.nontrivial += 1
        if bad:
            self.ctx.violation(f"{op}({s!a}): {bad}"[:400], label[:2000], key=label[:300])
        return bad


def run_strings(ctx, task):
    import itertools
    lab = Lab(ctx, task["cfg"], task["kind"])
    n = 0
    pre = task["first"] or ""
    if task["second"] is not None:
        pre += task["second"]
    if pre:
        lab.judge(task["op"], pre)  # strings shorter than the prefix: k="strings" with first=None
    for ln in range(1 if pre else 0, task["len"] - len(pre) + 1):
        for x in itertools.product(CHARS, repeat=ln):
            lab.judge(task["op"], pre + "".join(x))
            n += 1
        ctx.state((task["op"], pre, ln))
    lab.judge(task["op"], "1.3.6.1.4.1")
    ctx.sample(f"{task['cfg']} {task['kind']} {task['op']}: {n} strings starting with {pre!r} up to length {task['len']}")


def run_special(ctx, task):
    lab = Lab(ctx, task["cfg"], task["kind"])
    good = "1.3.6.1.2.1"
    S = ["", ".", "..", "1", "1.", ".1", "1..3", "1.3.", "1.3..6", "1.3\n", "\n1.3", "1.3\0", "1.3.6\0.1", "1,3", "1.3,6", "1_0.3", "1.3.1_0",
         "1.3.0x10", "1.3.1e1", "1.3.\u0663", "\uff11.3", "1\u30023", "1.3.\ud800", "iso.3.6", "1.3.6.1.sysDescr", "-1.3", "1.-3",
         "1.3.-6", "+1.3", "1.+3", "1.3.+6", "1.3. 6", " 1.3", "1.3 ", "1.3.6.1.2.1.1.4294967296", "1.3.99999999999999999999", "3.3.6",
         "1.40", "0.40.1", "2.40", "2.47", "2.48", "2.999.3", "3.0", "6.39", "7.0", "4.1", "9.3.6", "255.255", "256.3.6", "257.3", "1.256", "1.295.6", "1.296",
         "1.3.6." + "1." * 50, "1.3." + "9" * 400, "٣.٤", "1.3.²", "01.3", "1.03.6", "1.3.0006", ".1.3.6", "..1.3"]
    for s in S:
        lab.judge(task["op"], s)
        lab.judge(task["op"], good)  # the refusal leaves the session usable
    # every single-character corruption of a good OID
    for i in range(len(good) + 1):
        for c in CHARS + ["_", "\n", "\0", "x", "\u00b2", "/"]:
            lab.judge(task["op"], good[:i] + c + good[i:])
            if i < len(good):
                lab.judge(task["op"], good[:i] + c + good[i + 1:])
    ctx.state((task["cfg"], task["kind"], task["op"]))
    ctx.sample(f"{task['cfg']} {task['kind']} {task['op']}: special strings")


def run_heads(ctx, task):
    lab = Lab(ctx)
    n = task["n"]
    rows = list(range(n)) + [b for b in BND if b >= n]
    for a in rows[task["part"]::task["parts"]]:
        for b in (rows if a <= 8 or a % 16 == 0 or a in BND else rows[:48] + [80, 127, 128, 255, 256]):
            lab.judge("many1", f"{a}.{b}")
            if b < 64:
                lab.judge("many1", f"{a}.{b}.6.1")
        ctx.state(("heads", a))
    ctx.sample(f"first arcs {rows[task['part']::task['parts']][:4]}.. x second arcs")


def run_arcs(ctx, task):
    lab = Lab(ctx)
    near = sorted({b + d for k in (7, 14, 21, 28, 31, 32, 33, 40, 64) for b in (1 << k,) for d in range(-70, 71)})
    for v in list(range(task["part"], task["n"], task["parts"])) + near[task["part"]::task["parts"]]:
        lab.judge("many1", f"1.3.{v}")
        if v >= 128:
            lab.judge("many1", f"2.39.{v}.1.{v}")
        if v % 64 == 0:
            ctx.state(("arc", v))
    ctx.sample(f"every arc below {task['n']} and around 7-bit, 2^32, 2^64 boundaries")


def run_pairs(ctx, task):
    lab = Lab(ctx)
    for a in BND:
        for b in BND:
            for head in ("1.3", "0.0", "2.39"):
                lab.judge(task["op"], f"{head}.{a}.{b}")
        ctx.state(("pairs", task["op"], a))
    ctx.sample(f"{task['op']}: pairs of boundary arcs")


def run_long(ctx, task):
    lab = Lab(ctx, task["cfg"], task["kind"])
    for n in list(range(0, 140)) + list(range(140, 700, 7)):
        for arc in ("1", "127", "128", "4294967295", "0"):
            if n * 5 > 3500 and len(arc) > 3 or n > 650:
                continue
            s = ".".join(["1", "3"] + [arc] * n)
            for op in ("get", "many1", "getnext"):
                # the echo must fit the 4080 octets of the receive buffer
                if n * (5 if len(arc) > 3 else 1) < 1800:
                    lab.judge(op, s)
        ctx.state((task["cfg"], n))
    ctx.sample("2..650 arcs")


def run_recv(ctx, task):
    """OIDs which only the agent can produce, rendered as names and values"""
    lab = Lab(ctx, task["cfg"], task["kind"])
    W, ber = lab.world, lab.ber
    firsts = [(a, b) for a in (0, 1) for b in range(40)] + [(2, b) for b in list(range(0, 300)) + [16303, 16304, 16383, 16384, 2097071, 2097072,
                                                                                                  4294967215, 268435375, 268435376]]
    cur = [None]

    def respond(fd, data):
        q = W.parse_request(data, lab.cfg)
        lab.vnet.inject(fd, W.reply(lab.cfg, q, [W.vb(cur[0], ber.oid(cur[0]))]))

    lab.w.responder = respond
    for f in firsts:
        for tail in [(), (0,), (127,), (128, 1), (4294967295,), (268435456, 0)] + ([(b,) for b in BND if b < 1 << 32] if f[1] < 3 else []):
            o = f + tail
            cur[0] = o
            t = ber.oid_text(o)
            ctx.case(t)
            lab.w.sent.clear()
            r = W.call(lab.sess, lab.kind, "get_many", oids=["1.3"])
            ctx.evals += 1
            ctx.nontrivial += 1
            if r[0] != "ok" or r[1] != {t: t}:
                ctx.violation(f"received OID {t} rendered as {W.show(r)[:150]}", f"{task} {t}", key=f"recv {t}")
        ctx.state(f)
    ctx.sample("received OIDs: every first/second arc pair x boundary tails")


SWEEPS = [("1.3.", b"\x2b", "", b""), ("2.39.", b"\x77", ".4294967295", b"\x8f\xff\xff\xff\x7f"),
          ("0.0.128.", b"\x00\x81\x00", ".0", b"\x00")]


def run_sweep(ctx, task):
    """ranges of arcs: text -> encoding (compared) -> decoded -> text (compared)"""
    from .. import rmc
    m = rmc.load(ctx)
    part, parts, full = task["part"], task["parts"], task["full"]
    C = 1 << 20
    jobs = []
    for i, s in enumerate(SWEEPS):
        top = 1 << 32 if full and i == 0 else 1 << 28 if full else 1 << 23 if i == 0 else 1 << 21
        for lo in range(0, top, C):
            jobs.append((*s, lo, lo + C, 1))
        if top < 1 << 32:
            for lo in range(0, 1 << 32, 1 << 28):
                jobs.append((*s, lo + lo // (1 << 28), lo + (1 << 28), 65537 if full else 257))
            jobs.append((*s, (1 << 32) - C, 1 << 32, 1))
            for k in (28, 31):
                jobs.append((*s, (1 << k) - C // 2, (1 << k) + C // 2, 1))
    for j in jobs[part::parts]:
        ctx.case(f"sweep {j}")
        n, bad = m.oid_sweep(*j)
        ctx.evals += n
        ctx.nontrivial += n
        ctx.note("sweep", n)
        if bad:
            ctx.violation(f"OID {bad}", f"rmc sweep {j}: {bad}", key=f"sweep {bad[:60]}")
        ctx.state(j)
    ctx.sample(f"rmc: {len(jobs[part::parts])} ranges of arcs, e.g. {jobs[part]}")
