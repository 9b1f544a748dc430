"""C11 - encrypted payloads are exactly the scoped PDU under RFC 3414/3826."""
from mc import fds
LEVEL = "model_checking"
RULE = ("one execution = one history of calls or one parameter combination; nontrivial = emitted datagrams decrypted and compared "
        "with the scoped PDU of the request, and encrypted replies whose decoded content was compared")
BOUNDS = {
    "quick": "all histories of 2 calls (3 for sha/aes and md5/des) x digest x cipher x given/discovered x sync/async; all 9 key "
             "type pairs; every request size; engine id x user; boots/time 16x16; 330 initial salts; replies: every value length "
             "0..3900, all padding lengths, 64 salts, boots/time 16x16, stamps -40..320 s and +-3 boots away from the request's, salts +-20 from the request's",
    "thorough": "histories of 3 calls everywhere; replies x every size x padding",
}
ASSUMPTIONS = ["DES/AES of the oracle (own C implementation) self-tested against FIPS vectors at build time",
               "agents pad DES plaintext to 8 octets with arbitrary octets and do not pad AES (padding there is tolerated)"]
LEVELS = [("md5", "des"), ("sha", "des"), ("md5", "aes"), ("sha", "aes")]


def tasks(tier, info):
    from .. import emit
    full = tier == "thorough"
    t = emit.tasks(tier, LEVELS, deep=[("sha", "aes"), ("md5", "des")], contents=True)
    for a, p in LEVELS:
        c = f"kt:{a}:{p}:localized:localized:1"
        for kind in ("sync", "async"):
            for i in range(4):
                t.append(dict(k="resp", cfg=c, kind=kind, part=i, parts=4, full=full))
        t.append(dict(k="respiv", cfg=c))
        t.append(dict(k="resphist", cfg=c))
        for ak in ("password", "master"):
            t.append(dict(k="resphist", cfg=f"kt:{a}:{p}:{ak}:{ak}:0"))
    return t


def check(x, q, st=None):
    from . import c03
    return c03.check(x, q, st)


def run(ctx, task):
    from .. import emit
    if task["k"].startswith("resp"):
        return globals()["run_" + task["k"]](ctx, task)
    emit.run(ctx, task, check)


class Lab:
    def __init__(self, ctx, cfg, kind):
        from .. import world, ber
        import vnet
        self.ctx, self.cfg, self.kind, self.world, self.ber, self.vnet = ctx, cfg, kind, world, ber, vnet
        self.w = world.wire()
        self.w.clear()
        self.w.responder = self.respond
        self.sess = cfg.session(kind, timeout=0.5)
        self.make = None
        self.bad = None
        if not cfg.given:
            from .. import agent
            self.w.responder = agent.Agent(cfg)
            world.call(self.sess, kind, "refresh")
            self.w.responder = self.respond

    def respond(self, fd, data):
        try:
            q = self.world.parse_request(data, self.cfg)
        except (ValueError, self.ber.BerError) as e:
            self.bad = f"malformed request {e}"
            return None
        self.vnet.inject(fd, self.make(q))

    def judge(self, label, make, want, op="get_many"):
        """the reply built by make(q) must be delivered as want"""
        self.ctx.case(label)
        self.make = make
        self.w.clear()
        self.vnet.flush(fds.fd_of(self.sess))
        r = self.world.call(self.sess, self.kind, op, oid="1.3.6.1.2.1.1.1.0", oids=["1.3.6.1.2.1.1.1.0"], base="1.3.6.1.2.1.1.1")
        self.ctx.evals += 1
        self.ctx.trans += 1
        self.ctx.nontrivial += 1
        bad, self.bad = self.bad, None
        if not bad and (r[0] != "ok" or r[1] != want):
            bad = f"encrypted reply delivered as {self.world.show(r)[:120]}"
        if bad:
            self.ctx.violation(f"{bad}", f"{self.cfg.name} {self.kind} {label}", key=f"{self.cfg.name} {label}")
        return bad


O = (1, 3, 6, 1, 2, 1, 1, 1, 0)
OT = "1.3.6.1.2.1.1.1.0"


def run_resp(ctx, task):
    """every plaintext length and padding"""
    from .. import emit
    cfg = emit.get_cfg(task["cfg"])
    lab = Lab(ctx, cfg, task["kind"])
    W, ber = lab.world, lab.ber
    des = cfg.priv == "des"
    for n in range(task["part"], 3901, task["parts"]):
        val = bytes((i * 7 + n) & 0xFF for i in range(n))
        vbs = W.vb(O, ber.tlv(4, val))
        sc = W.scoped(cfg.engine, b"")
        pads = range(0, 8) if n < 40 or task["full"] else (0, 1 + n % 7)
        for extra in pads:
            def make(q):
                # DES: pad to the block with non-zero octets; AES: no padding or a few octets
                s = W.scoped(cfg.engine, W.response(q.req_id, vbs))
                pad = bytes((0xA5 ^ i) for i in range((-len(s)) % 8)) if des else b"\x5a" * extra
                if des and not extra:
                    pad = bytes(len(pad))
                return W.v3_msg(cfg, b"", q.msg_id, scoped_bytes=s, pad=pad)
            lab.judge(f"value of {n} octets, padding {extra}", make, {OT: val})
            if des and extra > 1 and not task["full"]:
                break
        if n % 16 == 0:
            ctx.state((task["cfg"], task["kind"], n))
    ctx.sample(f"{task['cfg']} {task['kind']}: encrypted replies with values of 0..3900 octets (mod {task['parts']})")


def run_respiv(ctx, task):
    """salts, boots and time of the reply all enter its IV; the context of the reply"""
    import itertools
    from .. import emit
    cfg = emit.get_cfg(task["cfg"])
    for kind in ("sync", "async"):
        lab = Lab(ctx, cfg, kind)
        W, ber = lab.world, lab.ber
        vb = W.vb(O, ber.integer(-77))
        salts = [bytes(8), b"\xff" * 8] + [bytes((0x80 >> j if i == k else 0) for i in range(8)) for k in range(8) for j in range(8)]
        for s in salts:
            for b, t in ((0, 0), (7, 1000), (2147483647, 2147483647)):
                lab.judge(f"salt {s.hex()} boots {b} time {t}",
                          lambda q: W.reply(cfg, q, vb, salt=s, boots=b, time=t), {OT: -77})
        for b, t in itertools.product(emit.BOUNDARY, repeat=2):
            lab.judge(f"boots {b} time {t}", lambda q: W.reply(cfg, q, vb, boots=b, time=t), {OT: -77})
        # relative to the stamp and to the salt of the request
        for db, dt in [(0, d) for d in range(-40, 321)] + [(d, e) for d in (-3, -2, -1, 1, 2, 3) for e in (-1000, -7, -1, 0, 1, 7, 1000)]:
            lab.judge("back to boots 900 time 50000", lambda q: W.reply(cfg, q, vb, boots=900, time=50000), {OT: -77})
            lab.judge(f"request boots 900 time 50000, reply {db:+} {dt:+}",
                      lambda q: W.reply(cfg, q, vb, boots=900 + db, time=50000 + dt), {OT: -77})
        for d in range(-20, 21):
            def make(q, d=d):
                n = int.from_bytes(q.priv_params, "big") + d
                return W.reply(cfg, q, vb, salt=(n % (1 << 64)).to_bytes(8, "big"))
            lab.judge(f"salt of the request {d:+}", make, {OT: -77})
        for i in range(40):
            lab.judge(f"same salt again {i}", lambda q: W.reply(cfg, q, vb, salt=b"\x01same\x02\x03\x04", boots=900, time=50000), {OT: -77})
        for cn in (b"", b"x", b"context" * 20):
            lab.judge(f"context name {cn[:9]!r}", lambda q: W.reply(cfg, q, vb, ctx_name=cn), {OT: -77})
        ctx.state((task["cfg"], kind))
    ctx.sample(f"{task['cfg']}: salts and boots/time of encrypted replies")


def run_resphist(ctx, task):
    """sequences of replies: large then small, undecryptable ones in between, plaintext Reports in between"""
    import itertools
    from .. import emit
    cfg = emit.get_cfg(task["cfg"])
    W = None
    kinds = ["small", "big", "garbage", "wrongkey", "short", "report", "trunc"]
    for kind in ("sync", "async"):
        for h in itertools.product(kinds, repeat=3):
            lab = Lab(ctx, cfg, kind)
            W, ber, vnet = lab.world, lab.ber, lab.vnet
            m = W.mods().g
            for i, k in enumerate(h):
                val = bytes((i + 1,)) * (3000 if k == "big" else 5 + i)

                def make(q):
                    good = W.reply(cfg, q, W.vb(O, ber.tlv(4, val)))
                    if k in ("small", "big"):
                        return good
                    if k == "garbage":
                        bad = W.v3_msg(cfg, b"", q.msg_id, cipher=b"\x11" * 64)
                    elif k == "wrongkey":
                        bad = W.reply(cfg, q, W.vb(O, ber.integer(666)), priv_key=bytes(16))
                    elif k == "short":
                        bad = W.v3_msg(cfg, b"", q.msg_id, cipher=b"")
                    elif k == "trunc":
                        p = W.response(q.req_id, W.vb(O, ber.integer(666)))
                        bad = W.v3_msg(cfg, b"", q.msg_id, scoped_bytes=W.scoped(cfg.engine, p)[:-9])
                    else:
                        bad = W.report(cfg, q, req_id=q.req_id)
                    vnet.inject(fds.fd_of(lab.sess), bad)
                    return good

                ctx.case(f"{task['cfg']} {kind} {h} step {i}")
                lab.make = make
                vnet.flush(fds.fd_of(lab.sess))
                lab.w.clear()
                r = W.call(lab.sess, kind, "get", oid=OT)
                ctx.evals += 1
                ctx.trans += 1
                ctx.nontrivial += 1
                bad = lab.bad
                if not bad:
                    if r[0] == "ok":
                        if r[1] != val:
                            bad = f"delivered {r[1]!r:.60}"
                    elif k in ("small", "big") or not W.is_documented(r[1]):
                        bad = W.show(r)[:120]
                if bad:
                    ctx.violation(f"reply history: {bad} at {k}", f"{task['cfg']} {kind} {h} step {i}", key=f"{cfg.name} {h}")
                    break
            ctx.traces += 1
            ctx.state((task["cfg"], kind, h))
    ctx.sample(f"{task['cfg']}: all reply histories of length 3 over {kinds}")
