"""C18 - a request never outlives its timeout."""
import errno

from mc import fds
LEVEL = "model_checking"
RULE = ("one execution = one call (or one history of calls on one session) under one arrival schedule in virtual time; "
        "nontrivial = schedules with a non-matching datagram")
BOUNDS = {
    "quick": "all schedules of 0..3 (4 for five configurations) non-matching datagrams over 7 instants x the matching reply absent or at 7 instants "
             "before / after the deadline x get/get_many/getnext/getbulk/fetch/refresh x 9 configurations + discovery x sync/async; "
             "every kind of non-matching datagram; signals which interrupt the waiting at all instants, alone and with a datagram; all histories of 3 calls over 7 schedules; periodic streams of up to 400 datagrams; "
             "streams faster than the client with every receive costing time; 24 timeout values from 1 ns to 30 days and the default; sessions of 20 000 calls",
    "thorough": "4 non-matching datagrams and histories of 4 calls in every configuration, 5 datagrams in two; sessions of 200 000 calls",
}
ASSUMPTIONS = [
    "time is virtual: it passes only while the client waits (or per receive, in the stream tasks)",
    "slack: 5 % of the timeout, at least 12 ms, for the latest return; a reply has to be delivered when it arrives earlier than this before the deadline, or within 75 % of a shorter timeout (20 us at least)",
    "refresh() of a session which has to discover its engine id makes two requests, each with its own timeout",
    "waiting for a full send buffer is outside the property",
]
V3N = ["v3", "v3-md5l", "v3-shal", "v3-md5l-desl", "v3-shal-desl", "v3-md5l-aesl", "v3-shal-aesl"]
CFGS = ["v1", "v2c"] + V3N
DISC = ["disc::", "disc:md5:", "disc:sha:aes", "disc:md5:des"]
NS = 1_000_000_000
GRID = (0.0, 0.25, 0.5, 0.75, 0.94, 1.1, 1.6)
MATCH = (None, 0.0, 0.3, 0.6, 0.94, 1.06, 1.3, 2.4)
OPS = ("get", "get_many", "getnext", "getbulk", "fetch")


def ops(c):
    o = [x for x in OPS if c != "v1" or x not in ("getbulk",)]
    if c.startswith("v3-") or c.startswith("disc"):
        o.append("refresh")
    return o


def tasks(tier, info):
    full = tier == "thorough"
    t = []
    for c in CFGS:
        for kind in ("sync", "async"):
            for op in ops(c):
                deep = full or (c in ("v1", "v2c", "v3", "v3-shal", "v3-md5l-desl") and op in ("get", "getbulk", "getnext"))
                k = 4 if deep else 3
                if full and c in ("v2c", "v3-shal-aesl"):
                    k = 5
                parts = {3: 1, 4: 2, 5: 4}[k]
                for p in range(parts):
                    t.append(dict(k="sched", cfg=c, kind=kind, op=op, n=k, part=p, parts=parts))
                t.append(dict(k="stream", cfg=c, kind=kind, op=op))
            t.append(dict(k="kinds", cfg=c, kind=kind))
            t.append(dict(k="signals", cfg=c, kind=kind))
            d = 4 if full else 3
            parts = 8 if full else 1
            for p in range(parts):
                t.append(dict(k="hist", cfg=c, kind=kind, depth=d, part=p, parts=parts))
            t.append(dict(k="values", cfg=c, kind=kind))
    for c in ("v2c", "v3-shal-aesl") if not full else CFGS:
        for kind in ("sync", "async"):
            t.append(dict(k="long", cfg=c, kind=kind, n=200000 if full else 20000))
    for c in DISC:
        for kind in ("sync", "async"):
            t.append(dict(k="disc", cfg=c, kind=kind))
    return t


def run(ctx, task):
    globals()["run_" + task["k"]](ctx, task)


def slack(T):
    return max(int(T * 0.05 * NS), 12_000_000)


def early(T):
    """a reply which arrives earlier than this before the deadline must be delivered, however short the timeout is"""
    return min(slack(T), int(T * 0.25 * NS)) if T >= 2e-5 else slack(T)


class Lab:
    def __init__(self, ctx, cfg, kind, T=1.0, default=False):
        import vnet
        from .. import world, ber
        self.ctx, self.cfg, self.kind, self.T = ctx, cfg, kind, T
        self.vnet, self.world, self.ber = vnet, world, ber
        self.w = world.wire()
        self.w.clear()
        self.w.responder = None
        vnet.poison(-1)
        vnet.on_recv(None)
        self.sess = cfg.session(kind, timeout=None if default else T)
        self.w.responder = self.respond
        self.plan = ([], None)
        self.nth = 0
        self.n = 0
        self.value = 0
        self.prev = None
        self.base = (1, 3, 6, 1, 2, 1)

    # -- agent -------------------------------------------------------------------
    def kinds(self):
        k = ["rid", "old", "tag"]
        if self.cfg.ver != "v3":
            return ["rid", "comm", "comm0"]
        k = ["rid", "mid", "user", "engine", "midrep"]
        if self.cfg.auth:
            k += ["mac", "noauth"]
        if self.cfg.priv:
            k += ["key", "plain"]
        return k

    def msg(self, q, kind):
        """datagram of the given kind answering q"""
        w, cfg, ber = self.world, self.cfg, self.ber
        vbs = [w.vb(self.base + (self.value, i), ber.integer(self.value)) for i in range(1)]
        if kind == "match":
            if self.op == "refresh":
                return w.report(cfg, q, req_id=q.req_id)
            return w.reply(cfg, q, vbs)
        vbs = [w.vb(self.base + (9, 9), ber.integer(999999))]
        if kind == "rid":
            return w.reply(cfg, q, vbs, req_id=(q.req_id + 1) & 0x7FFFFFFF)
        if kind == "comm":
            return w.reply(cfg, q, vbs, community=cfg.community.encode() + b"x")
        if kind == "garbage":
            return b"\x30\x03\x02\x01"
        if kind == "nosuch":
            return w.reply(cfg, q, [w.vb(self.base + (self.value, 0), ber.tlv(ber.NO_INSTANCE))])
        if kind == "report":
            return w.report(cfg, q, req_id=q.req_id) if cfg.ver == "v3" else w.reply(cfg, q, vbs, tag=ber.REPORT)
        if kind == "comm0":
            return w.reply(cfg, q, vbs, community=b"")
        if kind == "mid":
            return w.reply(cfg, q, vbs, msg_id=(q.msg_id ^ 1))
        if kind == "user":
            return w.reply(cfg, q, vbs, user=cfg.user.encode() + b"x")
        if kind == "engine":
            return w.reply(cfg, q, vbs, engine=cfg.engine[:-1] + b"?", priv_key=cfg.pkey() if cfg.priv else None,
                           auth_key=cfg.akey() if cfg.auth else None)
        if kind == "midrep":
            return w.report(cfg, q, req_id=q.req_id, msg_id=q.msg_id ^ 1)
        if kind == "mac":
            return w.reply(cfg, q, vbs, auth_fn=lambda m: bytes((m[0] ^ 1,)) + m[1:])
        if kind == "noauth":
            return w.reply(cfg, q, vbs, flags=0, encrypt=False)
        if kind == "plain":
            return w.reply(cfg, q, vbs, flags=1, encrypt=False)
        if kind == "key":
            return w.reply(cfg, q, vbs, priv_key=bytes(16 if cfg.priv == "aes" else 16))
        raise AssertionError(kind)

    def respond(self, fd, data):
        self.q = q = self.world.parse_request(data, self.cfg if self.cfg.given or self.nth else None)
        self.nth += 1
        others, match = self.plan
        t = self.vnet.now()
        ks = self.kinds()
        cache = {}
        for f, kind in others:
            if kind is None:
                kind = ks[self.n % len(ks)]
                self.n += 1
            if kind == "sig":  # a signal interrupts the waiting
                self.vnet.inject_error(fd, errno.EINTR, t + int(f * self.T * NS))
                continue
            if kind not in cache:
                cache[kind] = self.msg(q, kind)
            self.vnet.inject(fd, cache[kind], t + int(f * self.T * NS))
        if isinstance(match, tuple):
            at = t + int(match[0] * self.T * NS)
            if match[1] == "refused":
                self.vnet.inject_error(fd, errno.ECONNREFUSED, at)
            else:
                self.vnet.inject(fd, self.msg(q, match[1]), at)
        elif match is not None:
            self.vnet.inject(fd, self.msg(q, "match"), t + int(match * self.T * NS))

    # -- one call ------------------------------------------------------------------
    def call(self, op, plan, label, budget=1, flush=True, must_answer=None):
        ctx, w, vnet = self.ctx, self.world, self.vnet
        self.plan, self.op = plan, op
        self.value += 1
        others, match = plan
        label = f"{self.cfg.name} {self.kind} {op} T={self.T} {label}"
        ctx.case(label)
        if flush:
            vnet.flush(fds.fd_of(self.sess))
        t0 = vnet.now()
        txt = self.ber.oid_text
        r = w.call(self.sess, self.kind, op, oid=txt(self.base + (self.value, 0)), oids=[txt(self.base + (self.value, 0))],
                   base=txt(self.base), limit=1)
        el = vnet.now() - t0
        hung = vnet.hang()
        T, s = int(self.T * NS), slack(self.T)
        ctx.evals += 1
        ctx.nontrivial += bool(others)
        bad = None
        ender = None
        if isinstance(match, tuple):  # the call ends in some other way
            match, ender = match
        # a non-matching datagram may never end the call; the reply wins when it is there in time
        if match is None or int(match * T) > T + s:
            want = "timeout"
        elif int(match * T) < T - early(self.T):
            want = "reply"
        else:
            want = None
        got = "reply" if self.is_reply(r) else "timeout" if r[0] == "exc" and type(r[1]) is TimeoutError else "other"
        ctx.note(got)
        if hung:
            bad = "blocks for ever"
        elif el > budget * T + s:
            bad = f"returned after {el / NS:.6f} s with a timeout of {self.T} s"
        elif ender:
            if el > int(match * T) + s and ender != "report":
                bad = f"{w.show(r)[:120]} {(el - match * T) / NS:.6f} s after the {ender} datagram"
        elif got == "other":
            bad = f"{w.show(r)[:120]} instead of {want or 'the reply or TimeoutError'}"
        elif want and got != want:
            bad = f"{w.show(r)[:120]} instead of {'TimeoutError' if want == 'timeout' else 'the reply, which arrived in time'}"
        elif got == "reply" and el > int(match * T) + s:
            bad = f"the reply was delivered {(el - match * T) / NS:.6f} s after its arrival"
        if bad:
            ctx.violation(f"{op}: {bad}", label, key=f"{label}: {bad}"[:160])
        ctx.state((self.cfg.name, self.kind, op, label))
        return bad is None, r

    def is_reply(self, r):
        t = self.ber.oid_text(self.base + (self.value, 0))
        if self.op == "refresh":
            return r[0] == "ok" and r[1] is None
        if r[0] != "ok":
            return False
        if self.op == "get":
            return r[1] == self.value
        if self.op == "get_many":
            return r[1] == {t: self.value}
        return r[1] == [(t, self.value)]


def show_plan(plan):
    return f"datagrams at {[f if k is None else (f, k) for f, k in plan[0]]} reply at {plan[1]}"


def get_cfg(name):
    from .c03 import get_cfg as g
    return g(name)


def run_sched(ctx, task):
    import itertools
    cfg = get_cfg(task["cfg"])
    L = Lab(ctx, cfg, task["kind"])
    n = 0
    for k in range(task["n"] + 1):
        for ts in itertools.combinations_with_replacement(GRID, k):
            for m in MATCH:
                n += 1
                if n % task["parts"] != task["part"]:
                    continue
                plan = ([(f, None) for f in ts], m)
                ok, _ = L.call(task["op"], plan, show_plan(plan))
                if not ok:
                    L = Lab(ctx, cfg, task["kind"])
    ctx.sample(f"{cfg.name} {task['kind']} {task['op']}: all schedules of 0..{task['n']} datagrams, {n} in all")


def run_kinds(ctx, task):
    """every kind of non-matching datagram, alone and in pairs"""
    import itertools
    cfg = get_cfg(task["cfg"])
    L = Lab(ctx, cfg, task["kind"])
    for op in ops(task["cfg"]):
        for k in (1, 2):
            for ks in itertools.product(L.kinds(), repeat=k):
                for ts in ((0.0, 0.5), (0.6, 0.9), (0.9, 1.7)):
                    for m in (None, 0.0, 0.94, 1.2):
                        plan = (list(zip(ts, ks)), m)
                        ok, _ = L.call(op, plan, show_plan(plan))
                        if not ok:
                            L = Lab(ctx, cfg, task["kind"])
    ctx.sample(f"{cfg.name} {task['kind']}: kinds {L.kinds()}")


def run_signals(ctx, task):
    """signals which interrupt the system call neither end the call nor prolong it"""
    import itertools
    cfg = get_cfg(task["cfg"])
    L = Lab(ctx, cfg, task["kind"])
    for op in ops(task["cfg"]):
        for k in (1, 2, 3) if ctx.full else (1, 2):
            for ts in itertools.combinations_with_replacement(GRID, k):
                for ks in itertools.product(("sig", None), repeat=k):
                    if "sig" not in ks:
                        continue
                    for m in (None, 0.0, 0.6, 0.94, 1.3):
                        plan = (list(zip(ts, ks)), m)
                        ok, _ = L.call(op, plan, show_plan(plan))
                        if not ok:
                            L = Lab(ctx, cfg, task["kind"])
        for gap in (0.3, 0.02, 0.999):
            for m in (None, 0.94, 1.7):
                plan = ([(gap * i, "sig") for i in range(1, min(int(3 / gap), 200) + 1)], m)
                ok, _ = L.call(op, plan, f"a signal every {gap} T, reply at {m}")
                if not ok:
                    L = Lab(ctx, cfg, task["kind"])
    ctx.sample(f"{cfg.name} {task['kind']}: signals at all instants, alone and with non-matching datagrams")


# a reply which is late for one call arrives during the next one
# a tuple: the call is ended by something else than its reply
HIST = [([(0.6, None)], (0.7, "garbage")), ([(0.2, None), (0.7, None)], (0.8, "nosuch")), ([(0.8, None)], (0.85, "report")),
        ([(0.5, None)], (0.5, "refused")), ([], None), ([], 0.5), ([(0.5, None)], None), ([(0.3, None), (0.9, None)], 0.94), ([(0.9, None)], 1.3), ([], 1.8), ([(0.0, None), (0.0, None)], 0.0)]


def run_hist(ctx, task):
    import itertools
    cfg = get_cfg(task["cfg"])
    o = ops(task["cfg"])
    n = 0
    for h in itertools.product(range(len(HIST)), repeat=task["depth"]):
        n += 1
        if n % task["parts"] != task["part"]:
            continue
        L = Lab(ctx, cfg, task["kind"])
        ctx.traces += 1
        for i, x in enumerate(h):
            ctx.trans += 1
            ok, _ = L.call(o[(n + i) % len(o)], HIST[x], f"history {h} step {i}", flush=False)
            if not ok:
                break
    ctx.sample(f"{cfg.name} {task['kind']}: all histories of {task['depth']} calls over {len(HIST)} schedules")


def run_values(ctx, task):
    """other timeouts"""
    cfg = get_cfg(task["cfg"])
    for T in (0, 1e-9, 5e-7, 1e-6, 1.5e-6, 2e-5, 5e-5, 1.5e-4, 0.0009, 0.001, 0.0015, 0.0029, 0.01, 0.0105, 0.1, 0.25, 0.9999, 1.0005, 1, 1.5, 2.000000001, 5.0, 10.0, 3600.0, 86400.0 * 30):
        if T > 4000 and task["kind"] == "async":
            continue  # asyncio's float clock loses the nanoseconds there and never fires in purely virtual time
        L = Lab(ctx, cfg, task["kind"], T)
        for op in ops(task["cfg"]):
            plans = [([], None)]
            if T >= 0.1:
                plans += [([(0.9, None), (1.7, None)], None), ([(0.9, None)], 0.94), ([(0.1 * i, None) for i in range(1, 40)], None), ([], 1.2)]
            elif T:
                plans += [([(0.9, None), (1.7, None), (2.5, None)], None)]
            if T >= 2e-5:
                plans += [([], 0.0), ([], 0.5), ([], 0.7), ([(0.3, None)], 0.7), ([(0.2, None), (0.4, None)], 0.6), ([(0.7, None)], None)]
            for plan in plans:
                ok, _ = L.call(op, plan, show_plan(plan))
                if not ok:
                    L = Lab(ctx, cfg, task["kind"], T)
    # the documented default
    for op in ops(task["cfg"]):
        for plan in (([], None), ([], 0.5), ([(0.5, None)], 0.9), ([(0.5, None), (0.9, None)], None), ([(0.9, None)], 1.2)):
            L = Lab(ctx, cfg, task["kind"], 10.0, default=True)
            L.call(op, plan, "default timeout " + show_plan(plan))
    ctx.sample(f"{cfg.name} {task['kind']}: timeouts from 0 to 30 days, and the default of 10 s")


def run_stream(ctx, task):
    cfg = get_cfg(task["cfg"])
    op = task["op"]
    L = Lab(ctx, cfg, task["kind"])
    # periodic, in virtual time
    for gap in (0.5, 0.26, 0.1, 0.03, 0.011, 0.999):
        n = min(int(4 / gap), 400)
        for m in (None, 0.5, 0.94, 1.3, 3.3):
            plan = ([(gap * i, None) for i in range(1, n + 1)], m)
            ok, _ = L.call(op, plan, f"a datagram every {gap} T for 4 T, reply at {m}")
            if not ok:
                L = Lab(ctx, cfg, task["kind"])
    # bursts at one instant
    for n in (5, 50, 300):
        for at in (0.0, 0.9):
            for m in (None, 0.94):
                plan = ([(at, None)] * n, m)
                ok, _ = L.call(op, plan, f"{n} datagrams at {at} T, reply at {m}")
                if not ok:
                    L = Lab(ctx, cfg, task["kind"])
    # faster than the client: there is always another datagram, every receive takes time
    for cost in (0.004, 0.03):
        for first in (0.0, 0.5, 0.97):
            st = {"t0": None}

            def on_recv(fd):
                if L.vnet.next_arrival(fd) < 0 or L.vnet.next_arrival(fd) > L.vnet.now():
                    return
                L.vnet.advance(int(cost * L.T * NS))
                if L.vnet.now() - st["t0"] < 5 * L.T * NS:
                    L.vnet.inject(fd, st["msg"])
            base = L.msg

            def msg(q, kind):
                st["msg"] = base(q, kind)
                return st["msg"]
            L.msg = msg
            st["t0"] = L.vnet.now()
            L.vnet.on_recv(on_recv)
            try:
                ok, _ = L.call(op, ([(first, None)], None), f"datagrams faster than they are processed ({cost} T each) from {first} T")
            finally:
                L.vnet.on_recv(None)
            L = Lab(ctx, cfg, task["kind"])
    ctx.sample(f"{cfg.name} {task['kind']} {op}: periodic streams, bursts and floods")


def run_disc(ctx, task):
    """engine discovery: two requests, each with its own timeout"""
    import itertools
    from .. import world
    cfg = get_cfg(task["cfg"])
    alpha = [([], None), ([], 0.5), ([(0.9, "stray")], None), ([(0.3, "stray"), (0.9, "stray")], 0.94), ([(0.9, "stray")], 1.3)]
    for h in itertools.product(range(len(alpha)), repeat=2):
        L = Lab(ctx, cfg, task["kind"])
        ctx.traces += 1
        base = L.msg

        def msg(q, kind):
            if kind == "match":
                return world.report(cfg, q, req_id=q.req_id)
            return world.report(cfg, q, req_id=q.req_id, msg_id=q.msg_id ^ 1)
        L.msg = msg

        def respond(fd, data):
            L.plan = alpha[h[min(L.nth, 1)]]
            Lab.respond(L, fd, data)
        L.w.responder = respond
        L.op = "refresh"
        s = slack(L.T)
        for step in range(2):
            label = f"{cfg.name} {task['kind']} discovery {h} attempt {step}"
            ctx.case(label)
            t0, n0 = L.vnet.now(), len(L.w.sent)
            r = world.call(L.sess, task["kind"], "refresh")
            el = L.vnet.now() - t0
            n = len(L.w.sent) - n0
            ctx.evals += 1
            ctx.nontrivial += 1
            ctx.trans += 1
            bad = None
            oks = [p[1] is not None and p[1] < 1 for p in (alpha[h[0]], alpha[h[1]])]
            if L.vnet.hang():
                bad = "blocks for ever"
            elif el > max(n, 1) * L.T * NS + 2 * s:
                bad = f"returned after {el / NS:.6f} s and {n} requests with a timeout of {L.T} s"
            elif r[0] == "exc" and type(r[1]) is not TimeoutError:
                bad = f"{world.show(r)[:100]} instead of TimeoutError"
            elif step == 0 and all(oks) != (r[0] == "ok"):
                bad = f"{world.show(r)[:100]}, the replies arrived in time: {oks}"
            if bad:
                ctx.violation(f"refresh: {bad}", label, key=label)
                break
        ctx.state((cfg.name, task["kind"], h))
    ctx.sample(f"{cfg.name} {task['kind']}: {len(alpha)}^2 schedules of the two discovery exchanges, two attempts")


def run_long(ctx, task):
    """a long-lived session: nothing adds up from call to call"""
    cfg = get_cfg(task["cfg"])
    L = Lab(ctx, cfg, task["kind"])
    ops_ = ops(task["cfg"])
    plans = [([(0.3, None)], 0.94), ([(0.5, None), (0.9, None)], None), ([], 0.9), ([(0.9, None)], 1.3), ([], None)]
    i = 0
    while i < task["n"]:
        # phases dominated by one schedule, 1000 calls each
        p = plans[(i // 1000) % len(plans)] if i % 50 else plans[i // 50 % len(plans)]
        ok, _ = L.call(ops_[i % len(ops_)], p, f"call {i} of one session, {show_plan(p)}", flush=False)
        i += 1
        ctx.trans += 1
        if not ok:
            break
    ctx.traces += 1
    ctx.sample(f"{cfg.name} {task['kind']}: {i} calls of one session")
