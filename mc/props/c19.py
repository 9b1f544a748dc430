"""C19 - the rate limiter never lets the request rate exceed rps."""
from mc import fds
LEVEL = "model_checking"
RULE = ("transition = one get_timeout() of the real policer (graph, histories) or one API call of a rate-limited session in "
        "virtual time; nontrivial = delayed requests")
BOUNDS = {
    "quick": "per interval of 1..160 ns the complete state graph of the real policer under all idle gaps of 0..3 intervals "
             "(+ long ones), all windows by shortest path; 24 rates from 1e-4 to 1e9 rps x 7 clock origins x all histories of 5 gaps "
             "out of 14 (3 ns .. 10^6 intervals); periodic histories of 400 requests; sessions: all histories of 3 calls over "
             "7 calls x 4 gaps in 7 configurations, sync/async; 30 invalid rates",
    "thorough": "intervals up to 600 ns, histories of 6 gaps, sessions: histories of 4 calls",
}
ASSUMPTIONS = [
    "times are integer nanoseconds: a delay may be rounded up to the next, an interval down to the previous nanosecond",
    "every request is released before the next one is asked for and the clock is monotonic (as the property says)",
    "sleeping never ends early; a session without or with a zero limit_rps is not rate-limited",
]
NS = 1_000_000_000
RATES = [0.0001, 0.1, 1 / 3, 0.7, 1, 1.5, 2, 3, 7, 9.99, 10, 33.3, 99.9, 128, 1000, 1024.5, 12345.678, 1e5, 333333.0, 1e6, 3e6,
         123456789.0, 4e8, 1e9]
ORIGINS = [0, 1, 5, 10**9, 123456789012345, 2**53 + 1, 2**60 + 12345]
SCFG = ["v1", "v2c", "v3", "v3-shal", "v3-md5l-desl", "v3-shal-aesl"]
DISC = ["disc::", "disc:md5:", "disc:sha:aes"]
SESSION_RATES = (10, 3.0)


def tasks(tier, info):
    full = tier == "thorough"
    t = [dict(k="ctor")]
    top = 600 if full else 160
    for p in range(16):
        t.append(dict(k="graph", top=top, part=p, parts=16))
    for r in RATES:
        for p in range(4 if full else 1):
            t.append(dict(k="hist", rps=r, depth=6 if full else 5, part=p, parts=4 if full else 1))
        t.append(dict(k="periodic", rps=r))
    for c in SCFG:
        for kind in ("sync", "async"):
            parts = 8 if full else 1
            for p in range(parts):
                t.append(dict(k="session", cfg=c, kind=kind, depth=4 if full else 3, part=p, parts=parts))
            t.append(dict(k="custom", cfg=c, kind=kind))
    for c in DISC:
        for kind in ("sync", "async"):
            t.append(dict(k="disc", cfg=c, kind=kind, depth=4 if full else 3))
    return t


def run(ctx, task):
    globals()["run_" + task["k"]](ctx, task)


# ---- specification -------------------------------------------------------------------
def interval(rps):
    """(lo, hi): the interval in whole nanoseconds, rounded down and up"""
    from fractions import Fraction
    import math
    f = Fraction(NS) / Fraction(rps)
    n = round(f)
    e = Fraction(1, 10**6)
    if f != n and abs(f - n) < e:
        return math.floor(f - e), math.ceil(f + e)  # the quotient is not exact in floating point
    return math.floor(f), math.ceil(f)


def bad_window(rel, lo):
    """None | (k, span) of a window ending at the latest release which is too short"""
    last = rel[-1]
    for k in range(1, len(rel)):
        span = last - rel[-1 - k]
        if span <= (k - 1) * lo:
            return k, span
    return None


# ---- the real policer as a transition function ------------------------------------------
def immutable(v):
    return v is None or isinstance(v, (int, float, str, bytes, bool))


class Machine:
    """snapshot/restore of a real RPSPolicer (falls back to deepcopy)"""

    def __init__(self, rps):
        from gufo.snmp.policer import RPSPolicer
        self.p = RPSPolicer(rps)
        d = getattr(self.p, "__dict__", None)
        self.fast = d is not None and all(map(immutable, d.values())) and not any(
            getattr(c, "__slots__", ()) for c in type(self.p).__mro__)

    def save(self):
        import copy
        if self.fast:
            d = self.p.__dict__
            if all(map(immutable, d.values())):
                return dict(d)
            self.fast = False
        return copy.deepcopy(self.p)

    def restore(self, s):
        import copy
        if isinstance(s, dict):
            d = self.p.__dict__
            d.clear()
            d.update(s)
        else:
            self.p = copy.deepcopy(s)

    def key(self, now, t0):
        """state relative to the latest release"""
        d = getattr(self.p, "__dict__", None)
        items = sorted(d.items()) if d is not None else sorted(
            (a, getattr(self.p, a, None)) for c in type(self.p).__mro__ for a in getattr(c, "__slots__", ()))

        def rel(v):
            if isinstance(v, bool) or v is None:
                return v
            if isinstance(v, (int, float)) and v > t0 // 2:
                return ("t", v - now)
            if isinstance(v, (list, tuple)):
                return tuple(map(rel, v))
            if hasattr(v, "__iter__") and not isinstance(v, (str, bytes)):
                return tuple(map(rel, v))
            return v
        return tuple((a, rel(v)) for a, v in items)

    def ask(self, ts):
        r = self.p.get_timeout(ts)
        if r is None or r <= 0:
            return 0
        return r


def run_graph(ctx, task):
    """all reachable states of the policer for one interval; windows of any length by shortest paths"""
    T0 = 10**15
    wild = nviol = 0
    for delta in range(1 + task["part"], task["top"] + 1, task["parts"]):
        if nviol >= 3:
            return
        limit = 40 * delta + 400
        if wild >= 2:
            limit = 300  # the graphs do not close: do not spend the time on all of them
        rps = NS / delta
        lo, hi = interval(rps)
        try:
            m = Machine(rps)
        except ValueError:
            continue
        gaps = list(range(0, 3 * delta + 3)) + [x for k in (4, 5, 10, 1000) for x in (k * delta - 1, k * delta, k * delta + 1, k * delta + delta // 2)]
        gaps = sorted(set(g for g in gaps if g >= 0))
        # the first request
        label = f"interval {delta} ns"
        ctx.case(label)
        d = m.ask(T0)
        if d > hi:
            ctx.violation(f"the first request is delayed by {d} ns with an interval of {delta} ns", label, key=f"{label}: first")
            nviol += 1
            continue
        now = T0 + d
        start = m.key(now, T0)
        seen = {start: (m.save(), now)}
        order = [start]
        parent = {start: None}
        edges = {}
        over = False
        i = 0
        while i < len(order):
            s = order[i]
            i += 1
            snap, now = seen[s]
            for g in gaps:
                m.restore(snap)
                d = m.ask(now + g)
                ctx.trans += 1
                if d:
                    ctx.nontrivial += 1
                if d > hi:
                    ctx.violation(f"a request is delayed by {d} ns with an interval of {delta} ns",
                                  label + " " + path(parent, s) + f" then a gap of {g}", key=f"{label}: delay")
                    nviol += 1
                    over = True
                    break
                nxt = now + g + d
                k = m.key(nxt, T0)
                w = g + d - lo
                e = edges.get((s, k))
                if e is None or w < e[0]:
                    edges[(s, k)] = (w, g, d)
                if k not in seen:
                    if len(seen) > limit or len(edges) > 600_000:
                        over = True
                        wild += 1
                        ctx.note("state graph not closed: windows of bounded length only")
                        break
                    seen[k] = (m.save(), nxt)
                    parent[k] = (s, g)
                    order.append(k)
            if over:
                break
        ctx.evals += 1
        for k in seen:
            ctx.state((delta, k))
        # min over all paths of sum(w): must stay above -lo (k releases later: span > (k-1) interval)
        dist = dict.fromkeys(seen, 0)
        how = {}
        first = True
        bad = None
        el = [(a, b, x) for (a, b), x in edges.items()]
        for rnd in range(12 if over else len(seen) + 2):
            ch = False
            for a, b, x in el:
                v = dist[a] + x[0]
                if v < dist[b] or (first and v <= -lo):
                    dist[b] = min(dist[b], v)
                    how[b] = (a, x)
                    ch = True
                    if v <= -lo:
                        bad = (b, v)
                        break
            first = False
            if bad or not ch:
                break
        if bad:
            nviol += 1
            seq, x, n = [], bad[0], 0
            while x in how and n < 12:
                a, e = how[x]
                seq.append((e[1], e[2]))
                x, n = a, n + 1
                if x == bad[0]:
                    break
            seq.reverse()
            ctx.violation(f"interval {delta} ns: releases are too dense after the gaps/delays {seq}",
                          f"{label} state {x} gaps/delays {seq}", key=f"{label}: window")
        ctx.traces += 1
    ctx.sample(f"intervals {1 + task['part']}, {1 + task['part'] + task['parts']}, ... ns: the last one has {len(seen)} states, {len(el)} edges, "
               f"tightest window {min(dist.values()) + lo} ns above its bound")


def path(parent, s):
    out = []
    while parent[s] is not None and len(out) < 20:
        s, g = parent[s]
        out.append(g)
    return f"gaps {out[::-1]}"


def gap_menu(d):
    m = [0, 1, d // 4, d // 2, d - 1, d, d + 1, d + d // 2, 2 * d - 1, 2 * d, 2 * d + 1, 7 * d + d // 3, 1000 * d - 1, 10**6 * d + d // 5]
    return sorted(set(x for x in m if x >= 0))


def run_hist(ctx, task):
    rps = task["rps"]
    lo, hi = interval(rps)
    menu = gap_menu(lo)
    for t0 in ORIGINS:
        m = Machine(rps)
        d0 = m.ask(t0)
        if d0 > hi:
            ctx.violation(f"rps {rps}: the first request is delayed by {d0} ns", f"rps={rps} t0={t0}", key=f"rps {rps}: first")
        ctx.case(f"rps={rps} t0={t0}")
        rel = [t0 + d0]
        hist = []
        stop = [False]

        def go(depth, snap):
            for i, g in enumerate(menu):
                if not hist and i % task["parts"] != task["part"]:
                    continue
                m.restore(snap)
                d = m.ask(rel[-1] + g)
                ctx.trans += 1
                ctx.evals += 1
                if d:
                    ctx.nontrivial += 1
                hist.append(g)
                rel.append(rel[-1] + g + d)
                bad = None
                if d > hi:
                    bad = f"a request is delayed by {d} ns, the interval is {hi} ns"
                else:
                    w = bad_window(rel, lo)
                    if w:
                        bad = f"{w[0] + 1} consecutive releases within {w[1]} ns, the interval is {lo} ns"
                if bad:
                    ctx.violation(f"rps {rps}: {bad}", f"rps={rps} first request at {t0}, gaps after each release {hist}, releases {rel}",
                                  key=f"rps {rps} t0 {t0} {hist}")
                    stop[0] = True
                elif depth > 1:
                    go(depth - 1, m.save())
                hist.pop()
                rel.pop()
                if stop[0]:
                    return

        go(task["depth"], m.save())
        ctx.state((rps, t0))
        ctx.traces += 1
    ctx.sample(f"rps {rps}: all histories of {task['depth']} gaps out of {menu}")


def run_periodic(ctx, task):
    """long runs: drift"""
    import itertools
    rps = task["rps"]
    lo, hi = interval(rps)
    menu = sorted({0, 1, lo // 2, max(lo - 1, 0), lo + 1, 2 * lo + lo // 3})
    N = 400
    for per in (1, 2, 3):
        for pat in itertools.product(menu, repeat=per):
            m = Machine(rps)
            t = 10**12
            low = None  # max over i of rel_i - i*lo
            label = f"rps={rps} {N} requests with the gaps {pat} repeated"
            ctx.case(label)
            for n in range(N):
                ts = t + (pat[n % per] if n else 0)
                d = m.ask(ts)
                ctx.trans += 1
                ctx.nontrivial += d > 0
                t = ts + d
                x = t - n * lo
                # for all earlier i: t - rel_i > (n-i-1)*lo
                if d > hi or (low is not None and x - low <= -lo):
                    ctx.violation(f"rps {rps}: " + (f"delay of {d} ns" if d > hi else "too many releases in a window")
                                  + f" at request {n}", label, key=label[:150])
                    break
                low = x if low is None else max(low, x)
            ctx.evals += 1
    ctx.sample(f"rps {rps}: {N} requests with every gap pattern of period <= 3 over {menu}")


def run_ctor(ctx, task):
    from gufo.snmp.policer import RPSPolicer
    from .. import world
    bad = [0, 0.0, -0.0, -1, -1.0, -0.5, -1e-9, -5e-324, -1e300, float("-inf"), -10, -10**30,
           1.0001e9, 1.1e9, 1.5e9, 2e9, 3e9, 10_000_000_000, 1e10, 1e12, 1e18, 1e100, 1.7e308, float("inf"), 10**20, 1_000_000_001.5, 2**31, 2**63, 2**64, 9e15]
    for r in bad:
        ctx.case(f"RPSPolicer({r})")
        o = world.outcome(RPSPolicer, r)
        ctx.evals += 1
        ctx.nontrivial += 1
        if o[0] == "ok":
            ctx.violation(f"RPSPolicer({r}) is accepted", f"RPSPolicer({r})", key=f"ctor {r}")
        if r == 0:
            continue  # limit_rps=0 means no limit
        for kind in ("sync", "async"):
            for c in ("v1", "v2c", "v3-shal"):
                o = world.outcome(lambda: world.BY_NAME[c].session(kind, limit_rps=r))
                ctx.evals += 1
                if o[0] == "ok":
                    ctx.violation(f"{kind} SnmpSession(limit_rps={r}) is accepted", f"{c} {kind} limit_rps={r}", key=f"session {r}")
    ctx.sample(f"{len(bad)} rates, policer and sessions")


# ---- sessions in virtual time -----------------------------------------------------------
class Lab:
    """records when each datagram leaves and when the request could have left at the earliest"""

    def __init__(self, ctx, cfg, kind, **kw):
        import vnet
        from .. import world, ber, agent
        self.ctx, self.cfg, self.kind, self.vnet, self.world, self.ber = ctx, cfg, kind, vnet, world, ber
        self.w = world.wire()
        self.w.clear()
        vnet.poison(-1)
        vnet.on_recv(None)
        self.sent = []
        self.ready = 0
        self.latency = 0
        self.lost = False
        B = self.B = (1, 3, 6, 1, 2)
        self.agent = agent.Agent(cfg, {B + (i, 0): ber.integer(i) for i in range(60)}, cap=3)
        self.w.responder = self.respond
        self.sess = cfg.session(kind, timeout=1.0, **kw)
        self.its = {}

    def respond(self, fd, data):
        now = self.vnet.now()
        self.sent.append((now, now - self.ready))
        r = self.agent.handle(data)
        if r and not self.lost:
            self.vnet.inject(fd, r, now + self.latency)
        self.ready = now + self.latency

    def call(self, op):
        world, sess, txt = self.world, self.sess, self.ber.oid_text
        self.lost = op == "lost"
        self.ready = self.vnet.now()
        self.vnet.flush(fds.fd_of(sess))
        o = txt(self.B + (3, 0))
        if op in ("getnext", "getbulk", "fetch"):
            r = world.call(sess, self.kind, op, base=txt(self.B), limit=1, it=self.its.setdefault(op, []))
        elif op == "newwalk":
            r = world.call(sess, self.kind, "fetch", base=txt(self.B), limit=1)
        elif op == "walk":
            r = world.call(sess, self.kind, "getnext", base=txt(self.B + (57,)), limit=9)
        elif op == "bad":
            r = world.call(sess, self.kind, "get", oid="1.x")
        elif op == "lost":
            r = world.call(sess, self.kind, "get", oid=o)
        else:
            r = world.call(sess, self.kind, op, oid=o, oids=[o])
        return r


def judge(ctx, L, lo, hi, label):
    tol = 3
    rel = [x[0] for x in L.sent]
    for i, (t, dl) in enumerate(L.sent):
        if dl > hi + tol:
            ctx.violation(f"a request is delayed by {dl} ns, the interval is {lo} ns", label, key=label[:150] + " delay")
            return False
        for k in range(1, i + 1):
            if t - rel[i - k] <= (k - 1) * lo - tol * (k + 1):
                ctx.violation(f"{k + 1} consecutive requests leave within {t - rel[i - k]} ns, the interval is {lo} ns",
                              f"{label} sent at {[x - rel[0] for x in rel]}", key=label[:150] + " window")
                return False
    return True


OPS = ["get", "get_many", "getnext", "getbulk", "newwalk", "walk", "lost", "bad", "refresh"]


def session_ops(cfg):
    o = [x for x in OPS if not (cfg.ver == "v1" and x == "getbulk")]
    if cfg.ver != "v3" or not cfg.auth:
        o.remove("refresh")
    return o


def get_cfg(name):
    from .c03 import get_cfg as g
    return g(name)


def run_session(ctx, task):
    import itertools
    cfg = get_cfg(task["cfg"])
    ops = session_ops(cfg)
    n = 0
    for rps in SESSION_RATES:
        lo, hi = interval(rps)
        gaps = (0, lo // 2, lo + 1, 5 * lo // 2)
        for h in itertools.product(ops, repeat=task["depth"]):
            n += 1
            if n % task["parts"] != task["part"]:
                continue
            # gaps and latencies: all of them after the first two calls
            for gs in itertools.product(gaps, repeat=2) if n % 7 == 0 or task["depth"] > 3 else ((0, 0), (gaps[1], 0), (0, gaps[2]), (gaps[3], 0)):
                lat = (0, lo // 3, lo + lo // 5)[(n + gs[0] + gs[1]) % 3] if n % 2 else 0
                label = f"{cfg.name} {task['kind']} limit_rps={rps} calls {h} gaps {gs} latency {lat}"
                ctx.case(label)
                L = Lab(ctx, cfg, task["kind"], limit_rps=rps)
                L.latency = lat
                for i, op in enumerate(h):
                    if i:
                        g = gs[min(i, 2) - 1]
                        if g:
                            L.vnet.advance(g)
                    L.call(op)
                    ctx.trans += 1
                ctx.evals += 1
                ctx.traces += 1
                ctx.nontrivial += len(L.sent) > 1
                if not judge(ctx, L, lo, hi, label):
                    break
        ctx.state((cfg.name, task["kind"], rps))
    ctx.sample(f"{cfg.name} {task['kind']}: all histories of {task['depth']} calls over {ops}")


def run_custom(ctx, task):
    """every datagram of a session is released by its policer, and not before"""
    import itertools
    from gufo.snmp.policer import BasePolicer, RPSPolicer
    cfg = get_cfg(task["cfg"])
    lo, hi = interval(10)
    for op in session_ops(cfg):
        label = f"{cfg.name} {task['kind']} policer=RPSPolicer(10), {op}, get, {op}, {op}, get"
        ctx.case(label)
        L = Lab(ctx, cfg, task["kind"], policer=RPSPolicer(10), limit_rps=10**6)
        for x in (op, "get", op, op, "get"):
            L.call(x)
        ctx.evals += 1
        judge(ctx, L, lo, hi, label)

        for script in itertools.product((None, 0, 1, 999, 123_456_789, 2 * NS), repeat=3):
            class P(BasePolicer):
                def __init__(self):
                    self.grants, self.n = [], 0

                def get_timeout(self, ts):
                    r = script[self.n % 3]
                    self.n += 1
                    self.grants.append(ts + (r or 0))
                    return r
            p = P()
            label = f"{cfg.name} {task['kind']} custom policer {script}, {op}, get, {op}"
            ctx.case(label)
            L = Lab(ctx, cfg, task["kind"], policer=p)
            for x in (op, "get", op):
                L.call(x)
            ctx.evals += 1
            ctx.nontrivial += 1
            ctx.trans += 3
            bad = None
            if len(p.grants) < len(L.sent):
                bad = f"{len(L.sent)} datagrams sent, the policer was asked {len(p.grants)} times"
            g = list(p.grants)
            for t, _ in L.sent:
                # the latest unused grant which is due
                due = [x for x in g if x <= t + 3]
                if not due:
                    bad = bad or f"a datagram was sent at {t}, before the policer allowed it ({g})"
                    break
                g.remove(due[0])
                if t > due[0] + 3 and op not in ("bad",):
                    bad = bad or f"a datagram was sent {t - due[0]} ns after its release"
            if bad:
                ctx.violation(bad, label, key=label[:150])
                break
    ctx.sample(f"{cfg.name} {task['kind']}: scripted policers")


def run_disc(ctx, task):
    import itertools
    cfg = get_cfg(task["cfg"])
    for rps in SESSION_RATES:
        lo, hi = interval(rps)
        for h in itertools.product(("get", "refresh", "newwalk", "walk"), repeat=task["depth"] - 1):
            for g in (0, lo // 2, 5 * lo // 2):
                for lat in (0, lo // 3):
                    label = f"{cfg.name} {task['kind']} limit_rps={rps} discovery, then {h} gap {g} latency {lat}"
                    ctx.case(label)
                    L = Lab(ctx, cfg, task["kind"], limit_rps=rps)
                    L.latency = lat
                    for op in ("refresh",) + h:
                        L.call(op)
                        L.vnet.advance(g)
                        ctx.trans += 1
                    ctx.evals += 1
                    ctx.traces += 1
                    ctx.nontrivial += 1
                    if not judge(ctx, L, lo, hi, label):
                        break
        ctx.state((cfg.name, task["kind"], rps))
    ctx.sample(f"{cfg.name} {task['kind']}: discovery followed by all histories of {task['depth'] - 1} calls")
