"""C10 - unauthenticated or forged v3 replies are never accepted."""
from mc import fds
LEVEL = "exploration"
RULE = ("one execution = one request of a keyed session answered by one forged datagram (or a sequence of them), followed by the "
        "genuine reply or silence; nontrivial = executions with at least one forged datagram")
BOUNDS = {
    "quick": "every single-bit flip of the whole datagram, one changed octet anywhere in replies of up to 3900 octets and every MAC length 0..24, ~60 forgeries (flags, MACs, keys, clear text, "
             "altered fields), all pairs of them x genuine reply or silence, x digest x cipher x given/discovered engine x key "
             "type x operation x sync/async; genuine replies in every layout (long-form lengths, sizes) must be accepted",
    "thorough": "all triples of forgeries, bit flips for every operation, all two-bit flips of the MAC",
}
ASSUMPTIONS = [
    "a datagram altered outside the MAC may be skipped or end the call with a decode error; Reports may be accepted without MAC",
    "an encrypted and correctly authenticated response whose priv flag is clear is left open",
]
LEVELS = [("md5", None), ("sha", None), ("md5", "des"), ("sha", "des"), ("md5", "aes"), ("sha", "aes")]
OPS = ("get", "get_many", "getnext", "getbulk", "fetch")


def tasks(tier, info):
    full = tier == "thorough"
    t = []
    for a, p in LEVELS:
        for g in ("1", "0"):
            for kt in ("localized", "password", "master"):
                c = f"kt:{a}:{p or ''}:{kt}:{kt}:{g}"
                for kind in ("sync", "async"):
                    ops = OPS if kt == "localized" else ("get",)
                    for op in ops:
                        d = 3 if full and op == "get" and g == "1" else 2 if op in ("get", "getbulk") and kt == "localized" else 1
                        parts = 16 if d == 3 else 1
                        for i in range(parts):
                            t.append(dict(k="menu", cfg=c, kind=kind, op=op, depth=d, part=i, parts=parts))
                    if kt == "localized":
                        for op in OPS if full else ("get", "getbulk"):
                            t.append(dict(k="flip", cfg=c, kind=kind, op=op))
                        t.append(dict(k="genuine", cfg=c, kind=kind))
                        if g == "1":
                            t.append(dict(k="contents", auth=a, priv=p, kind=kind))
                        t.append(dict(k="bigflip", cfg=c, kind=kind, full=full))
                        t.append(dict(k="refresh", cfg=c, kind=kind))
        t.append(dict(k="mac2", cfg=f"kt:{a}:{p or ''}:localized:localized:1", full=full))
    return t


def run(ctx, task):
    globals()["run_" + task["k"]](ctx, task)


O = (1, 3, 6, 1, 2, 1, 1, 1, 0)
BASE = "1.3.6.1.2.1"


class Lab:
    def __init__(self, ctx, cfg, kind):
        from .. import world, ber, agent, usm
        import vnet
        self.ctx, self.cfg, self.kind = ctx, cfg, kind
        self.world, self.ber, self.vnet, self.agent, self.usm = world, ber, vnet, agent, usm
        self.w = world.wire()
        self.fresh()

    def fresh(self):
        self.w.clear()
        ag = self.agent.Agent(self.cfg)
        self.w.responder = ag
        self.sess = self.cfg.session(self.kind, timeout=0.5)
        self.world.call(self.sess, self.kind, "refresh")
        self.w.responder = self.respond
        # one accepted exchange fixes boots/time
        self.plan = lambda q: [self.accepted(self.genuine(q, 1))]
        self.call("get")

    def respond(self, fd, data):
        q = self.world.parse_request(data, self.cfg)
        self.q = q
        self.last = self.plan(q)
        for d in self.last:
            self.vnet.inject(fd, d)

    def vbs(self, n):
        return self.world.vb(O, self.ber.integer(n))

    def accepted(self, m):
        r = self.world.parse_request(m, self.cfg)
        self.lastmac, self.lastsalt = r.auth_params, r.priv_params
        return m

    def genuine(self, q, n, **kw):
        return self.world.reply(self.cfg, q, self.vbs(n), **kw)

    def call(self, op):
        self.w.sent.clear()
        self.vnet.flush(fds.fd_of(self.sess))
        return self.world.call(self.sess, self.kind, op, oid="1.3.6.1.2.1.1.1.0", oids=["1.3.6.1.2.1.1.1.0"], base=BASE, limit=1)

    def observed(self, r, op):
        m = self.world.mods().g
        if r[0] == "ok":
            v = r[1]
            if op == "get_many":
                return ("value", v.get("1.3.6.1.2.1.1.1.0", "?")) if len(v) == 1 else ("value", v)
            if op in ("getnext", "getbulk", "fetch"):
                return ("value", v[0][1]) if len(v) == 1 else ("value", "end of walk")
            return ("value", v)
        e = r[1]
        if isinstance(e, (TimeoutError, BlockingIOError)):
            return ("timeout",)
        if isinstance(e, m.SnmpAuthError):
            return ("auth",)
        if isinstance(e, m.NoSuchInstance):
            return ("value", "NoSuchInstance")
        if isinstance(e, m.SnmpDecodeError):
            return ("decode",)
        return ("exc", self.world.show(r)[:120])


def forgeries(lab):
    """[(label, verdict, builder(q, n))]; verdict skip: must be dropped, reject: never delivered, report: Report"""
    W, cfg, ber, usm = lab.world, lab.cfg, lab.ber, lab.usm
    out = []

    def add(label, verdict, fn):
        out.append((label, verdict, fn))

    G = lab.genuine
    pf = 2 if cfg.priv else 0
    add("zero MAC", "skip", lambda q, n: G(q, n, mac=bytes(12)))
    add("no MAC", "skip", lambda q, n: G(q, n, mac=b""))
    add("ones MAC", "skip", lambda q, n: G(q, n, mac=b"\xff" * 12))
    add("echoed request MAC", "skip", lambda q, n: G(q, n, mac=q.auth_params))
    for ln in (1, 4, 11, 13, 16, 20, 24):
        add(f"zero MAC of {ln}", "skip", lambda q, n, ln=ln: G(q, n, mac=bytes(ln)))

    def resized(q, n, ln):
        """MAC of ln octets computed over the message with that many zeros"""
        m = G(q, n, mac=bytes(ln))
        r = W.parse_request(m, cfg)
        full = usm._hmac.new(cfg.akey(), m, usm.HASH[cfg.auth]).digest()
        s, e = r.auth_range
        return m[:s] + full[:ln] + m[e:]

    for ln in (1, 4, 8, 10, 11, 13, 14, 16):
        add(f"correct MAC truncated/extended to {ln}", "skip", lambda q, n, ln=ln: resized(q, n, ln))
    wrong = {
        "wrong password": usm.localize(cfg.auth, usm.master_key(cfg.auth, b"wrong-pass"), cfg.engine),
        "master key": usm.master_key(cfg.auth, cfg.apw),
        "privacy password": usm.localize(cfg.auth, usm.master_key(cfg.auth, cfg.ppw), cfg.engine),
        "other engine": usm.localize(cfg.auth, usm.master_key(cfg.auth, cfg.apw), b"\x80\x00\x00\x00other"),
        "empty engine": usm.localize(cfg.auth, usm.master_key(cfg.auth, cfg.apw), b""),
        "zero": bytes(usm.DLEN[cfg.auth]), "empty": b"",
    }
    for k, v in wrong.items():
        add(f"MAC under the {k} key", "skip", lambda q, n, v=v: G(q, n, auth_key=v))
    other = "md5" if cfg.auth == "sha" else "sha"

    def otheralg(q, n):
        m = G(q, n, mac=bytes(12))
        s, e = W.parse_request(m, cfg).auth_range
        return m[:s] + usm.mac96(other, cfg.akey(), m) + m[e:]

    add("MAC by the other digest", "skip", otheralg)

    def digest_only(q, n):
        m = G(q, n, mac=bytes(12))
        s, e = W.parse_request(m, cfg).auth_range
        return m[:s] + usm.HASH[cfg.auth](cfg.akey() + m).digest()[:12] + m[e:]

    add("keyed digest instead of HMAC", "skip", digest_only)

    def reflect(q, n):
        """MAC computed for another message of the same session"""
        a, b = G(q, n), G(q, n + 1, salt=None if not cfg.priv else b"\0\0\0\7otsl")
        ra, rb = W.parse_request(a, cfg), W.parse_request(b, cfg)
        s, e = ra.auth_range
        return a[:s] + rb.auth_params + a[e:]

    add("MAC of another message", "skip", reflect)
    add("MAC of the last accepted reply", "skip", lambda q, n: G(q, n, mac=lab.lastmac))
    add("MAC and salt of the last accepted reply", "skip",
        lambda q, n: G(q, n, mac=lab.lastmac, **(dict(salt=lab.lastsalt) if cfg.priv else {})))

    def flagclear(q, n, keep):
        m = G(q, n)
        r = W.parse_request(m, cfg)
        fl = ber.tlv(4, bytes((r.flags,)))
        i = m.index(fl + ber.integer(3))
        m = m[:i + 2] + bytes((keep,)) + m[i + 3:]
        return m

    for fl in (0, 2, 4, 6):
        add(f"flags changed to {fl}", "skip", lambda q, n, fl=fl: flagclear(q, n, fl))
    add("noAuthNoPriv, no MAC, clear", "skip", lambda q, n: G(q, n, flags=0, encrypt=False))
    add("noAuthNoPriv, zero MAC, clear", "skip", lambda q, n: G(q, n, flags=0, encrypt=False, mac=bytes(12)))
    add("reportable noAuth", "skip", lambda q, n: G(q, n, flags=4, encrypt=False))

    def noauth_signed(q, n, fl):
        """auth flag clear but a MAC which verifies over that very message"""
        m = G(q, n, flags=fl, mac=bytes(12), encrypt=bool(cfg.priv))
        s, e = W.parse_request(m, cfg).auth_range
        return m[:s] + usm.mac96(cfg.auth, cfg.akey(), m) + m[e:]

    for fl in (0, 4) + ((2, 6) if cfg.priv else ()):
        add(f"valid MAC but flags {fl}", "skip", lambda q, n, fl=fl: noauth_signed(q, n, fl))
    if cfg.priv:
        add("authenticated but in clear", "skip", lambda q, n: G(q, n, flags=1, encrypt=False))
        add("authenticated, priv flag, in clear", "skip", lambda q, n: G(q, n, flags=3, encrypt=False))
        add("encrypted, not authenticated", "skip", lambda q, n: G(q, n, flags=2))
        add("in clear, privacy parameters present", "skip", lambda q, n: G(q, n, flags=1, encrypt=False, priv_params=bytes(8)))
        add("in clear, no MAC, priv flag", "skip", lambda q, n: G(q, n, flags=3, encrypt=False, mac=b""))

        # correctly authenticated, the scoped PDU sits in clear inside of the msgData string
        def wrapped(q, n, fl, pp, wrap=1, pad=16, **kw):
            sc = W.scoped(cfg.engine, W.pdu(ber.RESPONSE, q.req_id, lab.vbs(n)), b"")
            if pad:
                sc += bytes(-len(sc) % pad)
            for _ in range(wrap):
                sc = ber.tlv(ber.OCTETS, sc)
            return G(q, n, flags=fl, encrypt=False, data_tlv=sc, priv_params=pp, **kw)

        for fl in (1, 3):
            for pp in (b"", bytes(8), b"\0\0\0\7clrt"):
                add(f"clear text in the msgData string, flags {fl}, privacy parameters {pp.hex()}", "skip",
                    lambda q, n, fl=fl, pp=pp: wrapped(q, n, fl, pp))
        add("clear text in the msgData string, no padding", "skip", lambda q, n: wrapped(q, n, 3, b"\0\0\0\7clrt", pad=0))
        add("clear text in the msgData string, no MAC", "skip", lambda q, n: wrapped(q, n, 3, b"\0\0\0\7clrt", mac=b""))
        add("clear text in a string in the msgData string", "skip", lambda q, n: wrapped(q, n, 3, b"\0\0\0\7clrt", wrap=2))
        # encrypted, but not under the session's key
        akey, pm = cfg.akey(), usm.master_key(cfg.auth, cfg.ppw)
        for k, v in (("zero", bytes(16)), ("authentication", akey[:16]), ("master", pm[:16]),
                     ("other engine's", usm.localize(cfg.auth, pm, b"\x80\x00\x00\x00other")[:16]),
                     ("undiscovered engine's", usm.localize(cfg.auth, pm, b"")[:16])):
            add(f"encrypted under the {k} key", "reject", lambda q, n, v=v: G(q, n, priv_key=v))
        if cfg.priv == "aes":
            def other_iv(q, n, boots, tm):
                sc = W.scoped(cfg.engine, W.pdu(ber.RESPONSE, q.req_id, lab.vbs(n)), b"")
                sc += bytes(-len(sc) % 16)
                return G(q, n, salt=b"\0\0\0\7salt", cipher=usm.encrypt("aes", cfg.pkey(), boots, tm, b"\0\0\0\7salt", sc))

            for b_, t_ in ((0, 0), (8, 1000), (7, 1001)):
                add(f"encrypted for boots {b_}, time {t_}", "reject", lambda q, n, b_=b_, t_=t_: other_iv(q, n, b_, t_))

    def altered(q, n, **kw):
        """field changed after signing"""
        a = W.parse_request(G(q, n, salt=b"\0\0\0\7same" if cfg.priv else None), cfg)
        return G(q, n, salt=b"\0\0\0\7same" if cfg.priv else None, mac=a.auth_params, **kw)

    add("boots altered", "skip", lambda q, n: altered(q, n, boots=8))
    add("time altered", "skip", lambda q, n: altered(q, n, time=1001))
    add("context altered", "skip", lambda q, n: altered(q, n, ctx_name=b"x"))
    add("max size altered", "skip", lambda q, n: altered(q, n, max_size=484))

    def value_altered(q, n):
        a = W.parse_request(G(q, n + 1000, salt=b"\0\0\0\7same" if cfg.priv else None), cfg)
        return G(q, n, salt=b"\0\0\0\7same" if cfg.priv else None, mac=a.auth_params)

    add("value altered", "skip", value_altered)
    for tag in (ber.GET, ber.GETNEXT, ber.GETBULK):
        add(f"unauthenticated PDU {tag:#x}", "reject",
            lambda q, n, tag=tag: W.v3_msg(cfg, W.pdu(tag, q.req_id, lab.vbs(n)), q.msg_id, flags=0, encrypt=False))
    # exceptions are deliveries, too
    for lab2, tl in (("noSuchInstance", ber.tlv(ber.NO_INSTANCE)), ("endOfMibView", ber.tlv(ber.END_OF_MIB)), ("NULL", ber.NULL_TLV)):
        add(f"forged {lab2}", "skip", lambda q, n, tl=tl: W.reply(cfg, q, W.vb(O, tl), mac=bytes(12)))
    add("forged empty reply", "skip", lambda q, n: W.reply(cfg, q, b"", mac=bytes(12)))
    add("forged empty clear reply", "skip", lambda q, n: W.reply(cfg, q, b"", flags=0, encrypt=False))
    add("forged two varbinds", "skip", lambda q, n: W.reply(cfg, q, lab.vbs(n) * 2, mac=bytes(12)))
    add("Report", "report", lambda q, n: W.report(cfg, q, req_id=q.req_id))
    return out


def run_menu(ctx, task):
    import itertools
    from .. import emit
    cfg = emit.get_cfg(task["cfg"])
    op = task["op"]
    lab = Lab(ctx, cfg, task["kind"])
    M = forgeries(lab)
    known = (lab.q.boots, lab.q.time)
    k = 0
    for depth in range(0, task["depth"] + 1):
        for seq in itertools.product(range(len(M)), repeat=depth):
            for final in (True, False):
                k += 1
                if k % task["parts"] != task["part"]:
                    continue
                items = [M[i] for i in seq]
                labs = ", ".join(x[0] for x in items) + (", genuine" if final else "")
                ctx.case(f"{task['cfg']} {task['kind']} {op}: {labs}")

                def plan(q):
                    out = []
                    for i, x in enumerate(items):
                        out.append(x[2](q, 100 + i))
                    if final:
                        out.append(lab.accepted(lab.genuine(q, 55)))
                    return out

                lab.plan = plan
                r = lab.call(op)
                got = lab.observed(r, op)
                want = {("value", 55)} if final else {("timeout",)}
                for x in items:
                    if x[1] == "report":
                        want = {("auth",)}
                        break
                    if x[1] == "reject":
                        want |= {("decode",), ("timeout",)}
                        if any(y[1] == "report" for y in items):
                            want |= {("auth",)}
                        break
                ctx.evals += 1
                ctx.nontrivial += bool(items)
                bad = None
                if got not in want:
                    bad = f"[{labs}] -> {got}, expected {want}"
                elif not any(x[1] == "report" for x in items) and (lab.q.boots, lab.q.time) != known:
                    bad = f"a dropped datagram changed boots/time to {(lab.q.boots, lab.q.time)}"
                if bad:
                    ctx.violation(f"{op}: {bad}"[:400],
                                  f"{task['cfg']} {task['kind']} {op} datagrams={[d.hex() for d in lab.last]}"[:3000],
                                  key=f"{cfg.name} {op} [{labs}]")
                    lab.fresh()
        ctx.state((task["cfg"], task["kind"], op, depth))
    ctx.sample(f"{task['cfg']} {task['kind']} {op}: {len(M)} forgeries, all sequences up to {task['depth']}")


def run_flip(ctx, task):
    """every single-bit modification of the whole genuine datagram, MAC of every length"""
    from .. import emit
    cfg = emit.get_cfg(task["cfg"])
    op = task["op"]
    lab = Lab(ctx, cfg, task["kind"])
    lab.plan = lambda q: []
    q0 = None
    size = len(lab.genuine(lab.q, 42))
    for bit in range((size + 4) * 8):
        for final in (False, True):
            ctx.case(f"{task['cfg']} {task['kind']} {op}: flip bit {bit} final={final}")
            st = {}

            def plan(q):
                g = lab.genuine(q, 42)
                st["mac"] = W_auth_range(lab, g)
                if bit >= len(g) * 8:
                    return [lab.genuine(q, 55)] if final else []
                b = bytearray(g)
                b[bit // 8] ^= 0x80 >> (bit % 8)
                st["bad"] = bytes(b)
                return [bytes(b)] + ([lab.genuine(q, 55)] if final else [])

            lab.plan = plan
            r = lab.call(op)
            got = lab.observed(r, op)
            ctx.evals += 1
            ctx.nontrivial += 1
            s, e = st["mac"]
            if "bad" not in st or s * 8 <= bit < e * 8:
                want = {("value", 55)} if final else {("timeout",)}
            else:
                want = {("timeout",), ("decode",), ("auth",)} | ({("value", 55)} if final else set())
            if got not in want:
                ctx.violation(f"{op}: flipping bit {bit} (octet {bit // 8}) of the genuine reply -> {got}, expected {want}",
                              f"{task['cfg']} {task['kind']} {op} bit={bit} final={final} datagram={st.get('bad', b'').hex()}",
                              key=f"{cfg.name} {op} flip {bit} {final}")
                lab.fresh()
    ctx.state((task["cfg"], task["kind"], op, size))
    ctx.sample(f"{task['cfg']} {task['kind']} {op}: {size * 8} single-bit modifications")


def run_bigflip(ctx, task):
    """large genuine replies with a single octet changed anywhere"""
    from .. import emit
    cfg = emit.get_cfg(task["cfg"])
    lab = Lab(ctx, cfg, task["kind"])
    W, ber = lab.world, lab.ber
    for n in (130, 300, 520, 1030, 2060, 3800):
        st = {}
        lab.plan = lambda q: st.update(size=len(W.reply(cfg, q, W.vb(O, ber.tlv(4, b"v" * n))))) or []
        lab.call("get")
        size = st["size"]
        step = 1 if task["full"] or n < 500 else max(1, n // 260)
        for i in list(range(0, size - 40, step)) + list(range(size - 40, size)):
            ctx.case(f"{task['cfg']} {task['kind']} reply of {size} octets, octet {i} changed")

            def plan(q):
                g = bytearray(W.reply(cfg, q, W.vb(O, ber.tlv(4, b"v" * n))))
                if i < len(g):
                    g[i] ^= 1 << i % 8
                else:
                    g = b""
                return [bytes(g)]

            lab.plan = plan
            r = lab.call("get")
            ctx.evals += 1
            ctx.nontrivial += 1
            got = lab.observed(r, "get")
            if got not in (("timeout",), ("decode",), ("auth",)):
                ctx.violation(f"get: a reply of {size} octets with octet {i} changed -> {str(got)[:60]}",
                              f"{task['cfg']} {task['kind']} value of {n} octets, octet {i}", key=f"{cfg.name} bigflip {n} {i}")
                lab.fresh()
        # octets appended, removed, halves swapped
        ctx.state((task["cfg"], task["kind"], n))
    ctx.sample(f"{task['cfg']} {task['kind']}: replies of up to 3900 octets with every octet changed")


def W_auth_range(lab, m):
    return lab.world.parse_request(m, lab.cfg).auth_range


def run_mac2(ctx, task):
    """all two-bit flips / every octet value of the MAC"""
    import itertools
    from .. import emit
    cfg = emit.get_cfg(task["cfg"])
    lab = Lab(ctx, cfg, "sync")
    mods = [[(i, v)] for i in range(12) for v in range(1, 256)]
    pairs = list(itertools.combinations(range(96), 2))
    if not task["full"]:
        pairs = [p for p in pairs if p[0] // 8 != p[1] // 8 and p[0] % 8 == p[1] % 8] # XOR-combining comparisons
    mods += [[(a // 8, 0x80 >> a % 8), (b // 8, 0x80 >> b % 8)] for a, b in pairs]
    # permutations of the MAC octets and its halves
    for m in mods + [None, "rev", "swap"]:
        ctx.case(f"{task['cfg']} MAC modification {m}")

        def plan(q):
            g = lab.genuine(q, 42)
            s, e = W_auth_range(lab, g)
            b = bytearray(g)
            if m == "rev":
                b[s:e] = b[s:e][::-1]
            elif m == "swap":
                b[s:e] = b[s + 6:e] + b[s:s + 6]
            else:
                for i, v in m or ():
                    b[s + i] ^= v
            return [bytes(b)]

        lab.plan = plan
        got = lab.observed(lab.call("get"), "get")
        ctx.evals += 1
        ctx.nontrivial += m is not None
        want = ("value", 42) if m is None else ("timeout",)
        if got != want:
            ctx.violation(f"MAC modified by {m} -> {got}", f"{task['cfg']}", key=f"{cfg.name} mac {m}")
            lab.fresh()
    ctx.state(task["cfg"])
    ctx.sample(f"{task['cfg']}: {len(mods)} modifications of the MAC")


def relen(ber, data, form, path_ok=lambda p: True):
    """re-encodes the outer levels of a v3 message with long-form lengths (form = number of length octets)"""
    r = ber.R(data)
    m = r.enter(ber.SEQ)
    parts = []
    while not m.empty():
        t, c = m.any()
        parts.append([t, c])
    hdr = parts[1]
    h = ber.R(ber.tlv(ber.SEQ, hdr[1])).enter(ber.SEQ)
    hb = b""
    while not h.empty():
        t, c = h.any()
        hb += ber.tlv(t, c, form)
    u = ber.R(parts[2][1]).enter(ber.SEQ)
    ub = b""
    while not u.empty():
        t, c = u.any()
        ub += ber.tlv(t, c, form)
    out = ber.tlv(parts[0][0], parts[0][1], form) + ber.tlv(ber.SEQ, hb, form)
    out += ber.tlv(4, ber.tlv(ber.SEQ, ub, form), form) + ber.tlv(parts[3][0], parts[3][1], form)
    return ber.tlv(ber.SEQ, out, form)


def resign(lab, m, alt=None):
    """MAC recomputed for a message in a non-minimal encoding"""
    W, ber, usm, cfg = lab.world, lab.ber, lab.usm, lab.cfg
    q = W.parse_request(m, None, strict=False)
    s, e = q.auth_range
    z = m[:s] + bytes(12) + m[e:]
    return z[:s] + usm.mac96(cfg.auth, cfg.akey(), z) + z[e:]


def run_genuine(ctx, task):
    """genuine replies are accepted whatever their size and length forms"""
    from .. import emit
    cfg = emit.get_cfg(task["cfg"])
    lab = Lab(ctx, cfg, task["kind"])
    W, ber = lab.world, lab.ber
    for form in (0, 1, 2, 3, 4):
        for n in list(range(0, 300)) + list(range(300, 3700, 171)):
            if form and n % 7:
                continue
            val = b"v" * n

            def plan(q):
                g = W.reply(cfg, q, W.vb(O, ber.tlv(4, val)))
                if form:
                    g = resign(lab, relen(ber, g, form))
                return [g]

            label = f"{task['cfg']} {task['kind']} genuine reply, value of {n}, length form {form}"
            ctx.case(label)
            lab.plan = plan
            r = lab.call("get")
            ctx.evals += 1
            if r != ("ok", val):
                ctx.violation(f"genuine reply not delivered: {W.show(r)[:80]}", label, key=label)
                lab.fresh()
        ctx.state((task["cfg"], task["kind"], form))
    for kw in (dict(boots=0, time=0), dict(boots=2147483647, time=2147483647), dict(max_size=484), dict(ctx_name=b"ctx" * 50),
               dict(flags=5 + (2 if cfg.priv else 0))):
        lab.plan = lambda q: [lab.genuine(q, 9, **kw)]
        r = lab.call("get")
        ctx.evals += 1
        if r != ("ok", 9):
            ctx.violation(f"genuine reply not delivered: {W.show(r)[:80]}", f"{task['cfg']} {kw}")
            lab.fresh()
    ctx.sample(f"{task['cfg']} {task['kind']}: genuine replies x sizes x length forms")


def run_refresh(ctx, task):
    """the reply to a time synchronisation request is authenticated as well (Reports may come without)"""
    from .. import emit
    cfg = emit.get_cfg(task["cfg"])
    lab = Lab(ctx, cfg, task["kind"])
    W = lab.world
    M = forgeries(lab)
    for label, verdict, fn in M:
        for k in ("forged", "forged+genuine"):
            ctx.case(f"{task['cfg']} {task['kind']} refresh: {label} {k}")

            def plan(q):
                out = [fn(q, 100)]
                # the genuine answer to the empty GET
                if k != "forged":
                    out.append(W.reply(cfg, q, b"", boots=9, time=2000))
                return out

            lab.fresh()
            lab.plan = plan
            r = lab.call("refresh")
            lab.plan = lambda q: [lab.genuine(q, 3)]
            r2 = lab.call("get")
            bt = (lab.q.boots, lab.q.time)
            ctx.evals += 1
            ctx.nontrivial += 1
            if verdict == "report":
                continue
            want = (7, 1000) if k == "forged" else (9, 2000)
            if verdict == "reject" and k != "forged":
                want = bt if bt in ((7, 1000), (9, 2000)) else want
            if bt != want or r2 != ("ok", 3):
                ctx.violation(f"refresh answered by [{label}; {k}]: boots/time {bt}, expected {want}; then get -> {W.show(r2)[:60]}",
                              f"{task['cfg']} {task['kind']}", key=f"{cfg.name} refresh {label} {k}")
    ctx.state((task["cfg"], task["kind"], "refresh"))
    ctx.sample(f"{task['cfg']} {task['kind']}: refresh answered by each forgery")


def run_contents(ctx, task):
    """names, engine ids and values which look like other parts of a message: the genuine reply is delivered, and not when a
    single octet of it differs"""
    from .. import emit, world
    n = 0
    for u in emit.PATTERNS:
        for e in emit.PATTERNS:
            cfg = world.v3(task["auth"] or None, task["priv"] or None, user=u.decode(), engine=e)
            lab = Lab(ctx, cfg, task["kind"])
            W, ber = lab.world, lab.ber
            for v in emit.PATTERNS:
                label = f"{task['auth']}/{task['priv']} {task['kind']} user {u.hex()} engine {e.hex()} value {v.hex()}"
                ctx.case(label)
                msg = lambda q: W.reply(cfg, q, W.vb(O, ber.tlv(4, v)))
                lab.plan = lambda q: [msg(q)]
                r = lab.call("get")
                ctx.evals += 2
                ctx.nontrivial += 2
                n += 1

                def forged(q):
                    m = bytearray(msg(q))
                    pos = (len(m) - 1, len(m) // 2, len(m) // 3)[n % 3]
                    m[pos] ^= 0x01
                    return [bytes(m)]

                bad = None
                if r != ("ok", v):
                    bad = f"genuine reply not delivered: {W.show(r)[:80]}"
                else:
                    lab.plan = forged
                    r = lab.call("get")
                    if r[0] == "ok":
                        bad = f"altered reply delivered: {W.show(r)[:80]}"
                if bad:
                    ctx.violation(bad, label, key=label)
                    lab.fresh()
            ctx.state((cfg.name, task["kind"], u, e))
    ctx.sample(f"{task['auth']}/{task['priv']} {task['kind']}: {n} genuine and altered replies whose contents resemble headers")
