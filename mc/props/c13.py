"""C13 - engine discovery and time synchronization follow the agent."""
from mc import fds
LEVEL = "model_checking"
RULE = ("one execution = one history of calls x one agent reaction per emitted datagram; nontrivial = emitted requests whose "
        "engine id, boots, time, user, security level, MAC and encryption were compared with the model of the session")
BOUNDS = {
    "quick": "all histories of 2 calls over 5 operations x 15 reactions per request and (sync, half of async) of 3 calls over 2 operations x 9 reactions, "
             "x digest x cipher x given/discovered engine id x sync/async (all key type pairs at the shorter bound); two "
             "sessions interleaved; strict time window agent with restarts; engine ids of 1..64 octets; 16x16 boots/time; clock movements of -330..330 s "
             "and -20..20 boots between two messages",
    "thorough": "histories of 3 calls over everything and of 4 (5) calls over the reduced alphabet",
}
ASSUMPTIONS = [
    "a session without an engine id is refreshed first (the context manager does so); calls made before are not judged",
    "boots and time sent by the agent are within 0..2^31-1",
    "a Report that matches the outstanding message is accepted, as is any authentic reply; whether a matching message whose "
    "contents cannot be converted counts as accepted is not judged",
    "refresh() is a no-op once the engine id is known and the user needs no authentication",
]
LEVELS = [(None, None), ("md5", None), ("sha", None), ("md5", "des"), ("sha", "des"), ("md5", "aes"), ("sha", "aes")]
KT = ("password", "master", "localized")
OPS = ("get", "refresh", "getnext", "get_many", "getbulk")
RE_FULL = ("ok", "tick", "restart", "silent", "report", "signed", "noinst", "error", "msgid+ok", "reqid+ok", "user+ok", "engine+ok",
           "mac+ok", "old+ok", "msgid")
RE_RED = ("ok", "restart", "silent", "report", "signed", "reqid+ok", "engine+ok", "mac", "old")


def tasks(tier, info):
    full = tier == "thorough"
    t = []
    for a, p in LEVELS:
        for given in (1, 0):
            for kind in ("sync", "async"):
                b = dict(auth=a or "", priv=p or "", given=given, kind=kind, akt="localized", pkt="localized")
                d = 3 if full else 2
                for i in range(8 if full else 1):
                    t.append(dict(b, k="hist", depth=d, ops="full", part=i, parts=8 if full else 1))
                d = 4 if full else 3 if kind == "sync" or (a, p) in ((None, None), ("sha", "des"), ("md5", "aes")) else 2
                if full and (a, p) in (("sha", "aes"), ("md5", "des")) and kind == "sync":
                    d = 5
                n = {2: 1, 3: 1, 4: 4, 5: 16}[d]
                for i in range(n):
                    t.append(dict(b, k="hist", depth=d, ops="red", part=i, parts=n))
                t.append(dict(b, k="strict"))
                t.append(dict(b, k="boots"))
                t.append(dict(b, k="deltas", full=full))
                t.append(dict(b, k="engines"))
        if a:
            for ak in KT:
                for pk in KT if p else ("localized",):
                    for given in (1, 0):
                        t.append(dict(k="hist", depth=2, ops="red", auth=a, priv=p or "", given=given, kind="sync" if given else "async",
                                      akt=ak, pkt=pk, part=0, parts=1))
                        t.append(dict(k="strict", auth=a, priv=p or "", given=given, kind="async" if given else "sync", akt=ak, pkt=pk))
    for kind in ("sync", "async"):
        for i, pair in enumerate((((None, None), ("md5", "des")), (("sha", "aes"), ("sha", "aes")), (("md5", None), ("sha", "des")))):
            for g in (0, 1):
                t.append(dict(k="two", kind=kind, pair=pair, given=g, depth=5 if full else 4))
    return t


def run(ctx, task):
    globals()["run_" + task["k"]](ctx, task)


class Sess:
    """the session under test together with the model of what it knows"""

    def __init__(self, ctx, cfg, kind, react):
        from .. import world
        self.ctx, self.cfg, self.kind, self.react = ctx, cfg, kind, react
        self.known = not not cfg.given
        self.boots = self.time = 0
        self.keyed = self.known  # the user's credentials are in use
        self.clock = 0
        self.prev = None
        self.bad = None
        self.expect = None
        self.fate = None
        self.reported = 0
        self.n = 0
        self.log = []
        self.sess = cfg.session(kind, timeout=0.5)
        self.fd = fds.fd_of(self.sess)

    def stamp(self):
        """agent clock for the next message: distinct for every message"""
        self.clock += 1
        return dict(engine=self.cfg.engine, boots=3 + self.clock % 5 * 1000, time=100 + 17 * self.clock)

    # ---- datagram emitted by the client -------------------------------------------------
    def judge(self, q):
        from .. import world
        c = self.cfg
        disc = not self.known
        if disc:
            if q.engine:
                return f"the discovery request carries engine id {q.engine.hex()}"
            if q.flags & 3 or q.user:
                return "the discovery request is not an anonymous noAuthNoPriv one"
            if not q.flags & 4:
                return "the discovery request is not reportable, no agent will answer it"
            return None
        if q.engine != c.engine:
            return f"engine id {q.engine.hex()} instead of {c.engine.hex()}"
        if (q.boots, q.time) != (self.boots, self.time):
            return f"boots/time {(q.boots, q.time)} instead of {(self.boots, self.time)}"
        if q.ctx_engine != c.engine:
            return f"context engine id {q.ctx_engine.hex()}"
        if q.user != c.user.encode():
            return f"user {q.user!r}"
        if q.flags & 3 != (1 if c.auth else 0) + (2 if c.priv else 0):
            return f"security level {q.flags & 3}"
        if c.auth and not world.mac_ok(q, c.auth, c.akey()):
            return "not signed under the key localized to the engine id"
        if bool(c.priv) != q.encrypted:
            return "not encrypted"
        return None

    def on_send(self, data):
        """-> datagrams delivered in response"""
        from .. import world, ber
        c = self.cfg
        self.n += 1
        disc = not self.known
        try:
            q = world.parse_request(data, None if disc else c)
        except ber.BerError as e:
            self.bad = self.bad or f"malformed or wrongly encrypted request: {e}"
            return []
        self.ctx.nontrivial += 1
        self.ctx.trans += 1
        self.bad = self.bad or self.judge(q)
        if self.bad:
            return []
        r = self.react(self, disc)
        self.log.append(r)
        kind, _, then = r.partition("+")
        out = []
        base = world.v3() if disc else c
        user = b"" if disc else c.user.encode()

        def reply(st, **kw):
            kw = dict(st, **kw)
            if disc:
                return world.report(base, q, req_id=q.req_id, **kw)
            vbs = []
            if q.oids:
                vbs = [world.vb(o if q.pdu_tag == ber.GET else o + (1,), ber.integer(self.n)) for o in q.oids]
            return world.reply(c, q, vbs, **kw)

        def accept(st):
            self.boots, self.time = st["boots"], st["time"]
            if disc:
                self.known = self.keyed = True

        self.fate = "timeout"
        if kind in ("msgid", "reqid", "user", "engine", "mac", "old"):
            st = dict(self.stamp(), boots=77777, time=88888)
            if kind == "msgid":
                out.append(reply(st, msg_id=q.msg_id ^ 1))
            elif kind == "reqid" and not disc:
                out.append(reply(st, req_id=q.req_id ^ 1))
            elif kind == "user":
                out.append(reply(st, user=b"nobody"))
            elif kind == "engine":
                if not disc:
                    st["engine"] = c.engine[:-1] + bytes((c.engine[-1] ^ 1,))
                    out.append(reply(st))
                else:
                    st["engine"] = b"\x80evil-engine"
                    out.append(reply(st, msg_id=q.msg_id ^ 1))
            elif kind == "mac":
                if c.auth and not disc:
                    out.append(reply(st, mac=bytes(12)))
            elif kind == "old" and self.prev is not None and not disc:
                out.append(reply(st, msg_id=self.prev[0], req_id=self.prev[1]))
            kind = then
        if kind in ("ok", "tick", "restart", "noinst", "error"):
            st = self.stamp()
            if kind == "tick":
                st["time"] += 50
            elif kind == "restart":
                st["boots"] += 1
                st["time"] = 0
            if kind == "noinst" and not disc and q.oids:
                out.append(world.reply(c, q, [world.vb(o, ber.tlv(ber.NO_INSTANCE)) for o in q.oids], **st))
                self.fate = "noinst"
            elif kind == "error" and not disc and q.oids:
                out.append(world.reply(c, q, [world.vb(o, ber.NULL_TLV) for o in q.oids], err=5, idx=1, **st))
                self.fate = "any"
            else:
                out.append(reply(st))
                self.fate = "ok"
            accept(st)
        elif kind in ("report", "signed") and (q.flags & 4 or not disc):
            st = self.stamp()
            out.append(world.report(base, q, counter=(1, 3, 6, 1, 6, 3, 15, 1, 1, 2, 0), req_id=q.req_id, user=user,
                                    signed=bool(kind == "signed" and c.auth and not disc), flags=1 if kind == "signed" and c.auth and not disc else 0,
                                    encrypt=False, **st))
            self.fate = "report"
            accept(st)
        self.prev = (q.msg_id, q.req_id)
        return out

    # ---- one call ----------------------------------------------------------------------------
    def call(self, op):
        from .. import world
        import vnet
        vnet.flush(self.fd)
        n0, was = self.n, self.known
        self.fate = None
        r = world.call(self.sess, self.kind, op, oid="1.3.6.1.4.1.5", oids=["1.3.6.1.4.1.5", "1.3.6.1.4.1.6"], base="1.3.6.1.4.1", maxrep=2)
        n = self.n - n0
        if self.bad:
            return self.bad
        m = world.mods().g
        timeout = r[0] == "exc" and isinstance(r[1], (TimeoutError, BlockingIOError))
        if op == "refresh":
            if was and not self.cfg.auth:
                if n or r[0] != "ok":
                    return f"refresh() of a known engine without authentication: {n} requests, {world.show(r)[:80]}"
            elif was and n != 1:
                return f"refresh() sent {n} requests"
            elif not was and n != (2 if self.known else 1):
                return f"discovery sent {n} requests"
            if self.fate in ("ok", "report", "noinst", "any") and r[0] != "ok":
                return f"refresh() failed although the agent answered: {world.show(r)[:100]}"
            if self.fate == "timeout" and not timeout:
                return f"refresh() without an answer: {world.show(r)[:100]}"
        else:
            if n != 1:
                return f"{op} sent {n} requests ({world.show(r)[:100]})"
            if self.fate == "ok" and r[0] != "ok":
                return f"{op}: the agent's reply was not accepted: {world.show(r)[:100]}"
            if self.fate == "timeout" and not timeout:
                return f"{op} without an answer: {world.show(r)[:100]}"
            if self.fate == "report" and not (r[0] == "exc" and isinstance(r[1], m.SnmpAuthError)):
                return f"{op} answered by a Report: {world.show(r)[:100]}"
        if self.known:
            e = self.sess.get_engine_id()
            if e != self.cfg.engine:
                return f"get_engine_id() is {e.hex()} instead of {self.cfg.engine.hex()}"
        return None


def get_cfg(task, **kw):
    from .. import world
    return world.v3(task["auth"] or None, task["priv"] or None, given=bool(task["given"]), akt=task["akt"], pkt=task["pkt"], **kw)


def run_hist(ctx, task):
    from .. import world
    from ..choose import explore
    import vnet
    cfg, kind, depth = get_cfg(task), task["kind"], task["depth"]
    w = world.wire()
    full = task["ops"] == "full"
    ops = OPS if full else OPS[:2]
    res = RE_FULL if full else RE_RED

    def body(ch):
        w.clear()
        s = Sess(ctx, cfg, kind, lambda s, disc: res[ch.choose(len(res))])

        def responder(fd, data):
            for d in s.on_send(data):
                vnet.inject(fd, d)
        w.responder = responder
        hist = []
        for _ in range(depth):
            # a session which does not know its engine id yet has to be refreshed
            op = "refresh" if not s.known else ops[ch.choose(len(ops))]
            hist.append(op)
            ctx.case(f"{cfg.name} {kind} {' '.join(hist)} path={ch.path[:ch.pos]}")
            bad = s.call(op)
            if bad:
                ctx.violation(f"{bad} [{cfg.name} {kind}]", f"calls {hist} reactions {s.log}", key=f"{cfg.name} {kind} {hist} {s.log}")
                break
            ctx.state((cfg.name, kind, s.known, s.boots, s.time, s.clock, s.fate, len(hist)))
        w.responder = None
        ctx.evals += 1
        ctx.traces += 1

    n = explore(body, task["part"], task["parts"])
    ctx.sample(f"{cfg.name} {kind}: {n} histories of {depth} calls, {len(ops)} operations, {len(res)} reactions")


def run_strict(ctx, task):
    """an RFC 3414 agent enforcing the time window, with restarts and clock jumps between the calls"""
    from .. import world, agent, ber
    from ..choose import explore
    cfg, kind = get_cfg(task), task["kind"]
    w = world.wire()
    mib = {(1, 3, 6, 1, 4, 1, 5): ber.integer(42)}

    def body(ch):
        w.clear()
        a = agent.Agent(cfg, mib, boots=7, time=5000, window=True)
        w.responder = a
        s = cfg.session(kind, timeout=0.5)
        hist = []
        synced = False
        r = world.call(s, kind, "refresh")
        if r[0] != "ok":
            ctx.violation(f"refresh() against an agent: {world.show(r)[:100]}", f"{cfg.name} {kind}")
            return
        synced = True
        for _ in range(4):
            act = ("get", "refresh", "restart", "jump", "tick")[ch.choose(5)]
            hist.append(act)
            ctx.case(f"{cfg.name} {kind} strict {hist}")
            if act == "restart":
                a.boots += 1
                a.time = 1
                synced = False
            elif act == "jump":
                a.time += 1000
                synced = False
            elif act == "tick":
                a.time += 20
            elif act == "refresh":
                r = world.call(s, kind, "refresh")
                if r[0] != "ok":
                    ctx.violation(f"refresh() against an agent: {world.show(r)[:100]}", f"{cfg.name} {kind} {hist}")
                    return
                synced = True
            else:
                r = world.call(s, kind, "get", oid="1.3.6.1.4.1.5")
                if synced or not cfg.auth:
                    if r != ("ok", 42):
                        ctx.violation(f"a synchronized session is not answered: {world.show(r)[:100]} {a.bad}", f"{cfg.name} {kind} {hist}")
                        return
                elif r[0] == "ok":
                    ctx.violation("the model expects the agent to drop this request", f"{cfg.name} {kind} {hist}")
                    return
            ctx.trans += 1
        # synchronization is only judged through the agent's own window check
        for q in a.requests[-1:]:
            ctx.nontrivial += 1
        ctx.evals += 1
        ctx.traces += 1
        ctx.state((cfg.name, kind, tuple(hist)))

    n = explore(body)
    w.responder = None
    ctx.sample(f"{cfg.name} {kind}: {n} histories of 4 events against a strict agent")


def run_boots(ctx, task):
    from .. import world
    from ..emit import BOUNDARY
    import vnet
    cfg, kind = get_cfg(task), task["kind"]
    w = world.wire()
    for b in BOUNDARY:
        for t in BOUNDARY:
            w.clear()
            s = Sess(ctx, cfg, kind, lambda s, disc: "ok")
            s.stamp = lambda: dict(engine=cfg.engine, boots=b, time=t)
            w.responder = lambda fd, data: [vnet.inject(fd, d) for d in s.on_send(data)] and None
            ctx.case(f"{cfg.name} {kind} boots={b} time={t}")
            for op in ("refresh", "get", "getnext", "get"):
                bad = s.call(op)
                if bad:
                    ctx.violation(f"{bad} [{cfg.name} {kind} boots={b} time={t}]", op)
                    break
            ctx.evals += 1
            ctx.state((cfg.name, kind, b, t))
    w.responder = None
    ctx.sample(f"{cfg.name} {kind}: 16x16 boots and time values")


def run_deltas(ctx, task):
    """the agent's clock moves by every small amount, forth and back, between two messages"""
    from .. import world
    import vnet
    cfg, kind = get_cfg(task), task["kind"]
    w = world.wire()
    w.clear()
    far = 5000 if task["full"] else 330
    ops = ("get", "getnext", "get_many", "getbulk")
    steps = [(0, d) for d in range(-far, far + 1)] + [(d, e) for d in list(range(-20, 21)) for e in (-40000, -1000, -151, -150, -1, 0, 1, 150, 151, 1000)]
    steps += [(0, s << k) for k in range(9, 30) for s in (1, -1) if 0 <= 50000 + (s << k) < 1 << 31]
    s = Sess(ctx, cfg, kind, lambda s, disc: "ok")
    w.responder = lambda fd, data: [vnet.inject(fd, d) for d in s.on_send(data)] and None
    cur = [900, 50000]
    s.stamp = lambda: dict(engine=cfg.engine, boots=cur[0], time=cur[1])
    bad = s.call("refresh")
    for i, (db, dt) in enumerate(steps):
        if bad:
            break
        if i % 64 == 0:
            ctx.case(f"{cfg.name} {kind} boots 900 {db:+}, time 50000 {dt:+}")
        for st in ((900, 50000), (900 + db, 50000 + dt)):
            cur[:] = st
            bad = bad or s.call(ops[i % 4])
        bad = bad or s.call("get")
        ctx.evals += 1
        if bad:
            ctx.violation(f"{bad} [{cfg.name} {kind} boots/time 900/50000, then {db:+} {dt:+}]", ops[i % 4],
                          key=f"deltas {cfg.name} {kind} {db} {dt}")
    ctx.state((cfg.name, kind, len(steps)))
    ctx.traces += 1
    # a long session: the clock creeps by one second per message
    s = Sess(ctx, cfg, kind, lambda s, disc: "ok")
    s.stamp = lambda: (cur.__setitem__(1, cur[1] + 1), dict(engine=cfg.engine, boots=cur[0], time=cur[1]))[1]
    cur[:] = (3, 10)
    bad = s.call("refresh")
    for i in range(5000 if task["full"] else 700):
        if i % 100 == 0:
            ctx.case(f"{cfg.name} {kind} creeping clock, call {i}")
        bad = bad or s.call(ops[i % 4])
        ctx.evals += 1
        if bad:
            ctx.violation(f"{bad} [{cfg.name} {kind} call {i} with a clock which advances by one second per message]", ops[i % 4],
                          key=f"creep {cfg.name} {kind}")
            break
    w.responder = None
    ctx.sample(f"{cfg.name} {kind}: {len(steps)} clock movements between two messages; 700 messages of one session")


def run_engines(ctx, task):
    """engine ids of every size"""
    from .. import world
    import vnet
    kind = task["kind"]
    w = world.wire()
    for n in range(1, 65):
        for pat in (lambda i: 0x80 | i, lambda i: 0, lambda i: 255, lambda i: 0x30 + i):
            cfg = get_cfg(task, engine=bytes(pat(i) & 255 for i in range(n)))
            w.clear()
            s = Sess(ctx, cfg, kind, lambda s, disc: "engine+ok" if n % 2 else "ok")
            w.responder = lambda fd, data: [vnet.inject(fd, d) for d in s.on_send(data)] and None
            ctx.case(f"{cfg.name} {kind} engine id {cfg.engine.hex()}")
            for op in ("refresh", "get", "get_many"):
                bad = s.call(op)
                if bad:
                    ctx.violation(f"{bad} [{cfg.name} {kind} engine id of {n} octets]", op)
                    break
            ctx.evals += 1
            ctx.state((cfg.name, kind, cfg.engine))
    w.responder = None
    ctx.sample(f"{get_cfg(task).name} {kind}: engine ids of 1..64 octets")


def run_two(ctx, task):
    """two sessions with different agents, calls interleaved in every order: nothing is shared"""
    from .. import world
    from ..choose import explore
    import vnet
    kind = task["kind"]
    w = world.wire()
    cfgs = [world.v3(a, p, given=bool(task["given"]), user=f"user{i}", engine=b"\x80\x00engine-%d" % i, apw=b"authpass%d" % i,
                     ppw=b"privpass%d" % i) for i, (a, p) in enumerate(task["pair"])]

    def body(ch):
        w.clear()
        ss = [Sess(ctx, c, kind, lambda s, disc: "ok" if disc else ("ok", "restart", "reqid+ok")[ch.choose(3)]) for c in cfgs]
        ss[1].clock = 500
        by = {s.fd: s for s in ss}
        w.responder = lambda fd, data: [vnet.inject(fd, d) for d in by[fd].on_send(data)] and None
        hist = []
        for _ in range(task["depth"]):
            s = ss[ch.choose(2)]
            op = "refresh" if not s.known else "get"
            hist.append((ss.index(s), op))
            ctx.case(f"two {kind} {hist}")
            bad = s.call(op)
            if bad:
                ctx.violation(f"{bad} [two sessions, {s.cfg.name} {kind}]", f"{hist} {[x.log for x in ss]}")
                break
        ctx.evals += 1
        ctx.traces += 1
        ctx.state((kind, tuple(hist), tuple(ss[0].log), tuple(ss[1].log)))

    n = explore(body)
    w.responder = None
    ctx.sample(f"two sessions {task['pair']} {kind}: {n} interleavings")
