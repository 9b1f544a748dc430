"""C06 - a walk never leaves its subtree, never goes backwards, always ends."""
from mc import fds
LEVEL = "model_checking"
RULE = ("one execution = one walk against one agent strategy (a choice of reply for every request), explored depth first over "
        "all choices; nontrivial = executions in which the agent misbehaved (reply not allowed by RFC 3416)")
BOUNDS = {
    "quick": "all reply histories of depth 4 (getnext) over 24 replies: 11 OIDs inside/at/outside the subtree, 4 exception "
             "values, empty and double replies, silence, mismatching replies; getbulk: depth 3 over all replies of <= 2 "
             "varbinds, all single replies of 3 varbinds; all memoryless agents over 7 OIDs (loop detection)",
    "thorough": "getnext depth 6; getbulk depth 3 over replies of <= 3 varbinds (reduced alphabet), 4 varbinds",
}
ASSUMPTIONS = [
    "on an OID which is not greater than the last accepted one the walk may skip it, end, or raise SnmpError, but a reply "
    "consisting only of such OIDs must not be followed by another request",
    "trailing exception values may end the walk at once or after one more request",
]
P = (1, 3, 6, 1)
B = P + (2,)
INSIDE = [B + (1,), B + (2,), B + (2, 1), B + (16383,), B + (16384,), B + (4294967295, 0)]
OUT = [P + (20, 1), P + (1, 9), P, P + (3,)]
EXC = ["null", "nso", "nsi", "eom"]
DATA = [(o, "int") for o in INSIDE + [B] + OUT]
EXCV = [(o, e) for e in EXC for o in (INSIDE[1], OUT[3])]
ALPHA = DATA + EXCV
SMALL = [(INSIDE[0], "int"), (INSIDE[1], "int"), (INSIDE[3], "int"), (INSIDE[4], "int"), (OUT[0], "int"), (B, "int"),
         (INSIDE[1], "null"), (OUT[3], "eom")]


def tasks(tier, info):
    full = tier == "thorough"
    t = []
    for c in ("v1", "v2c", "v3", "v3-shal-aesl"):
        for kind in ("sync", "async"):
            t.append(dict(k="hist", cfg=c, kind=kind, op="getnext", depth=5 if full else 4 if c in ("v1", "v2c") else 3))
            t.append(dict(k="hist", cfg=c, kind=kind, op="fetch" if c == "v1" else "getnext", depth=3))
            t.append(dict(k="loop", cfg=c, kind=kind, op="getnext"))
            if c == "v1":
                continue
            parts = 8 if c == "v2c" and (kind == "sync" or full) else 1
            for p in range(parts):
                t.append(dict(k="hist", cfg=c, kind=kind, op="getbulk", depth=3 if parts > 1 else 2, part=p, parts=parts,
                              small=c != "v2c" or kind == "async"))
            t.append(dict(k="hist", cfg=c, kind=kind, op="fetch", depth=2, small=True))
            for p in range(4 if c == "v2c" else 1):
                t.append(dict(k="wide", cfg=c, kind=kind, n=3, small=c != "v2c", part=p, parts=4 if c == "v2c" else 1))
            for p in range(2):
                t.append(dict(k="wide", cfg=c, kind=kind, n=4 if c == "v2c" or full else 3, small=True, part=p, parts=2))
            t.append(dict(k="loop", cfg=c, kind=kind, op="getbulk"))
            t.append(dict(k="odd", cfg=c, kind=kind, op="getbulk"))
        t.append(dict(k="odd", cfg=c, kind="sync", op="getnext"))
    if full:
        for p in range(32):
            t.append(dict(k="hist", cfg="v2c", kind="sync", op="getbulk", depth=4, part=p, parts=32, small=True))
            t.append(dict(k="wide", cfg="v2c", kind="sync", n=5, small=True, part=p, parts=32))
    return t


def run(ctx, task):
    globals()["run_" + task["k"]](ctx, task)


def inside(o):
    return o[:len(B)] == B


def segment(L, R, getnext, fresh):
    """admissible results of one reply: set of (yields, status, new last); status in open/end/err"""
    out = set()
    if getnext and len(R) > 1:
        out.add(((), "err", L))
        out.add(((), "end", L))
        R = R[:1]

    def go(i, L, ys, skipped):
        if i == len(R):
            if ys:
                out.add((tuple(ys), "open", L))
                if R[-1][1] != "int":
                    out.add((tuple(ys), "end", L))
            else:
                out.add(((), "end", L))
                if skipped:
                    out.add(((), "err", L))
            return
        o, v = R[i]
        if v != "int":
            if not inside(o):
                out.add((tuple(ys), "end", L))
            go(i + 1, L, ys, skipped)
            return
        if not inside(o):
            out.add((tuple(ys), "end", L))
            return
        if o > L or (o == B and fresh and L == B and not ys):
            go(i + 1, o, ys + [o], skipped)
        if not o > L:
            out.add((tuple(ys), "end", L))
            for n in range(len(ys) + 1):
                out.add((tuple(ys[:n]), "err", L))
            go(i + 1, L, ys, True)

    go(0, L, [], False)
    return out


class Lab:
    def __init__(self, ctx, cfgn, kind):
        from .. import world, ber
        import vnet
        self.world, self.ber, self.vnet, self.ctx, self.kind = world, ber, vnet, ctx, kind
        self.cfg = world.BY_NAME[cfgn]
        self.w = world.wire()
        self.w.clear()
        self.w.responder = self.respond
        self.tl = {"int": ber.integer(42), "null": ber.NULL_TLV, "nso": ber.tlv(ber.NO_OBJECT), "nsi": ber.tlv(ber.NO_INSTANCE),
                   "eom": ber.tlv(ber.END_OF_MIB)}
        self.vbc = {(o, v): world.vb(o, self.tl[v]) for o, v in ALPHA}
        self.odd = False
        self.fresh()

    def fresh(self):
        self.sess = self.cfg.session(self.kind, timeout=0.5)
        self.fd = fds.fd_of(self.sess)

    def vb(self, x):
        r = self.vbc.get(x)
        if r is None:
            r = self.vbc[x] = x[0] if isinstance(x[0], bytes) and len(x) == 1 else self.world.vb(x[0], self.tl[x[1]])
        return r

    def respond(self, fd, data):
        ev = self.events
        try:
            q = self.world.parse_request(data, self.cfg)
        except (ValueError, self.ber.BerError):
            if not self.odd:
                raise
            ev.append(("rep", None))  # echo of an agent's malformed name: keep silent
            return None
        ev.append(("req", q.oids[0], q.pdu_tag, q.f2, len(q.oids)))
        if len(ev) > 400:
            return None
        R = self.policy(q.oids[0])
        ev.append(("rep", R))
        if R is None:
            return None
        if R and R[0] == "mismatch":
            R = R[1]
            ev[-1] = ("rep", R)
            w = self.world.reply(self.cfg, q, [self.vb((B + (4294967295, 0), "int"))], req_id=q.req_id ^ 3)
            self.vnet.inject(fd, w)
        self.vnet.inject(fd, self.world.reply(self.cfg, q, [self.vb(x) for x in R]))
        return None

    def walk(self, op, policy, maxrep=3, limit=40, retries=2):
        """-> events"""
        self.policy = policy
        self.events = ev = []
        self.w.clear()
        self.vnet.flush(self.fd)
        s, world = self.sess, self.world
        base = self.ber.oid_text(B)
        args = (base, maxrep) if op == "getbulk" else (base,)

        def note(r):
            """-> True: go on"""
            if r[0] == "ok":
                ev.append(("yield", self.ber.parse_text(r[1][0]), r[1][1]))
                return True
            e = r[1]
            if isinstance(e, (StopIteration, StopAsyncIteration)):
                ev.append(("end",))
                return False
            ev.append(("exc", e))
            return isinstance(e, TimeoutError)

        if self.kind == "sync":
            it = getattr(s, op)(*args)
            t = 0
            for _ in range(limit):
                try:
                    r = ("ok", next(it))
                except BaseException as e:
                    r = ("exc", e)
                if not note(r):
                    break
                if r[0] != "ok":
                    t += 1
                    if t > retries:
                        break
            else:
                ev.append(("limit",))
            return ev

        async def g():
            it = getattr(s, op)(*args)
            t = 0
            for _ in range(limit):
                try:
                    r = ("ok", await it.__anext__())
                except BaseException as e:
                    r = ("exc", e)
                if not note(r):
                    break
                if r[0] != "ok":
                    t += 1
                    if t > retries:
                        break
            else:
                ev.append(("limit",))

        r = world.outcome(lambda: world.arun(g()))
        if r[0] != "ok":
            ev.append(("exc", r[1]))
        return ev

    def judge(self, op, ev, maxrep=3, exact=True):
        """None or what is wrong with the event sequence"""
        ber, m = self.ber, self.world.mods().g
        getnext = op == "getnext" or (op == "fetch" and self.cfg.ver == "v1")
        L, first = B, True
        last = None
        i, n = 0, len(ev)
        for e in ev:
            if e[0] == "yield":
                if not inside(e[1]):
                    return f"yielded {ber.oid_text(e[1])} which is outside {ber.oid_text(B)}"
                if last is not None and not e[1] > last:
                    return f"yielded {ber.oid_text(e[1])} after {ber.oid_text(last)}"
                last = e[1]
            elif e[0] == "limit":
                return "the walk does not end"
            elif e[0] == "exc" and (not self.world.is_documented(e[1])):
                return f"raised {self.world.show(('exc', e[1]))[:100]}"
        if not exact:
            return None
        while i < n:
            e = ev[i]
            if e[0] != "req":
                return f"{e[0]} without a request"
            want_tag = ber.GETNEXT if getnext else ber.GETBULK
            if e[1] != L or e[4] != 1:
                return f"follow-up request for {ber.oid_text(e[1])}, last accepted was {ber.oid_text(L)}"
            if e[2] != want_tag or (not getnext and e[3] != (maxrep if op == "getbulk" else 20)):
                return f"follow-up request of the wrong type or max-repetitions {e[2:]}"
            R = ev[i + 1][1]
            j = i + 2
            ys = []
            while j < n and ev[j][0] == "yield":
                if ev[j][2] != 42:
                    return f"value {ev[j][2]!r}"
                ys.append(ev[j][1])
                j += 1
            if R is None:
                if ys or j >= n or ev[j][0] != "exc" or not isinstance(ev[j][1], TimeoutError):
                    return "no timeout although the agent kept silent"
                i = j + 1
                continue
            if j >= n:
                return "the walk stopped without a verdict"
            t = ev[j][0]
            st = {"req": "open", "end": "end", "exc": "err"}[t]
            if st == "err" and not isinstance(ev[j][1], m.SnmpError):
                return f"raised {self.world.show(('exc', ev[j][1]))[:100]}"
            adm = segment(L, R, getnext, first)
            hit = [x for x in adm if x[0] == tuple(ys) and x[1] == st]
            if not hit:
                return (f"after {ber.oid_text(L)} the reply {show(R, ber)} led to yields {[ber.oid_text(y) for y in ys]} then "
                        f"{st}; admissible: {sorted((tuple(map(ber.oid_text, x[0])), x[1]) for x in adm)}")
            if st != "open":
                return None
            L, first = hit[0][2], False
            i = j
        return None

    def bad_report(self, op, ev, bad, maxrep=3):
        trace = []
        for e in ev[:40]:
            if e[0] == "req":
                trace.append(f"request {self.ber.oid_text(e[1])}")
            elif e[0] == "rep":
                trace.append("silence" if e[1] is None else "reply " + show(e[1], self.ber))
            elif e[0] == "yield":
                trace.append(f"yield {self.ber.oid_text(e[1])}")
            elif e[0] == "exc":
                trace.append(self.world.show(("exc", e[1]))[:60])
            else:
                trace.append(e[0])
        tr = "; ".join(trace)
        self.ctx.violation(f"{op}: {bad}"[:400], f"{self.cfg.name} {self.kind} {op}: {tr}"[:2500],
                           key=f"{self.cfg.name} {self.kind} {op}: {tr}"[:400])


def show(R, ber):
    return "[" + ", ".join((ber.oid_text(x[0]) if isinstance(x[0], tuple) else x[0].hex()) + "=" + (x[1] if len(x) > 1 else "?")
                           for x in R) + "]"


def rfc_ok(L, R):
    return all(o > L for o, v in R) and [o for o, _ in R] == sorted(set(o for o, _ in R)) and all(v == "int" for _, v in R)


def run_hist(ctx, task):
    from .. import choose
    op, depth = task["op"], task["depth"]
    lab = Lab(ctx, task["cfg"], task["kind"])
    gn = op == "getnext" or (op == "fetch" and lab.cfg.ver == "v1")
    if gn:
        menu = [[]] + [[x] for x in ALPHA] + [[DATA[0], DATA[1]], [DATA[1], EXCV[0]], None, ("mismatch", [DATA[0]]),
                                               ("mismatch", [DATA[4]])]
    else:
        al = SMALL if task.get("small") else ALPHA
        menu = [[]] + [[x] for x in al] + [[x, y] for x in al for y in al] + [None, ("mismatch", [DATA[0], DATA[2]])]
    tail = [[], [DATA[0]], [DATA[4]], [DATA[3], DATA[4]] if not gn else [DATA[3]]] + ([None] if gn else [])

    def body(c):
        d = [0, False]

        def policy(oid):
            d[0] += 1
            ms = menu if d[0] < depth else tail if d[0] == depth else [[]]
            R = ms[c.choose(len(ms))]
            if R is None:
                d[1] = True
            elif not (R and R[0] == "mismatch") and not rfc_ok(oid, R):
                d[1] = True
            return R

        ctx.case(f"{task} {c.path[:]}")
        ev = lab.walk(op, policy)
        bad = lab.judge(op, ev)
        ctx.evals += 1
        ctx.traces += 1
        ctx.nontrivial += d[1]
        ctx.trans += d[0]
        if c.runs % 16 == 0:
            ctx.state((task["cfg"], task["kind"], op, tuple(c.path)))
        if bad:
            lab.bad_report(op, ev, bad)
            lab.fresh()

    n = choose.explore(body, task.get("part", 0), task.get("parts", 1))
    ctx.sample(f"{task['cfg']} {task['kind']} {op}: {n} reply histories of depth {depth} over {len(menu)} replies")


def run_wide(ctx, task):
    """one getbulk reply with n varbinds, every combination, followed by an empty or a short reply"""
    import itertools
    lab = Lab(ctx, task["cfg"], task["kind"])
    al = SMALL if task["small"] else ALPHA
    k = 0
    for R in itertools.product(al, repeat=task["n"]):
        k += 1
        if k % task["parts"] != task["part"]:
            continue
        for second in ([], [DATA[4]]):
            if second and k % 5 and task["n"] > 3:
                continue
            reps = [list(R), second]

            def policy(oid):
                return reps.pop(0) if reps else []

            ctx.case(f"{task} {R} {second}")
            ev = lab.walk("getbulk", policy)
            bad = lab.judge("getbulk", ev)
            ctx.evals += 1
            ctx.traces += 1
            ctx.trans += len(ev)
            ctx.nontrivial += not rfc_ok(B, R)
            if bad:
                lab.bad_report("getbulk", ev, bad)
                lab.fresh()
        if k % 16 == 0:
            ctx.state((task["cfg"], task["kind"], R))
    ctx.sample(f"{task['cfg']} {task['kind']} getbulk: replies with {task['n']} varbinds over {len(al)}")


def run_loop(ctx, task):
    """all memoryless agents: the reply is a function of the requested OID"""
    from .. import choose
    op = task["op"]
    lab = Lab(ctx, task["cfg"], task["kind"])
    O = [(o, "int") for o in (INSIDE[0], INSIDE[1], INSIDE[3], INSIDE[4], B, OUT[0])]
    if op == "getnext":
        menu = [[x] for x in O]
    else:
        menu = [[x] for x in O] + [[x, y] for x in O[:5] for y in O]

    def body(c):
        table = {}

        def policy(oid):
            if oid not in table:
                table[oid] = menu[c.choose(len(menu))]
            return table[oid]

        ctx.case(f"{task} {c.path[:]}")
        ev = lab.walk(op, policy, maxrep=2, limit=24)
        bad = lab.judge(op, ev, maxrep=2)
        ctx.evals += 1
        ctx.traces += 1
        ctx.trans += len(ev)
        ctx.nontrivial += 1
        if c.runs % 16 == 0:
            ctx.state((task["cfg"], task["kind"], op, "loop", tuple(c.path)))
        if bad:
            lab.bad_report(op, ev, bad, 2)
            lab.fresh()

    n = choose.explore(body)
    ctx.sample(f"{task['cfg']} {task['kind']} {op}: {n} memoryless agents")


def run_odd(ctx, task):
    """names which are not canonical OIDs: only containment, order, termination"""
    lab = Lab(ctx, task["cfg"], task["kind"])
    lab.odd = True
    ber = lab.ber
    op = task["op"]
    b = ber.oid_content(B)
    names = [b"", b"\x80", b + b"\x80\x01", b + b"\x80\x80\x02", b + b"\x81", b[:-1], b + b"\x01\x81", b + b"\x90\x80\x80\x80\x00",
             b + b"\xff\xff\xff\xff\xff\x7f", b"\x80" + b, b + b"\x01", b + b"\x02", b"\x2b"]
    odd = []
    for n in names:
        odd.append((ber.tlv(ber.SEQ, ber.tlv(6, n) + ber.integer(42)),))
    for n in (b"", b"\x01", b"\x01\x01", b"\x02"):
        odd.append((ber.tlv(ber.SEQ, ber.tlv(13, n) + ber.integer(42)),))
    reps = [[x] for x in odd] + ([[x, y] for x in odd for y in odd] if op == "getbulk" else [])
    for R1 in reps:
        for R2 in [[x] for x in odd] + [[DATA[0]], [DATA[4]]]:
            todo = [R1, R2, R1, R2]

            def policy(oid):
                return todo.pop(0) if todo else []

            ctx.case(f"{task} {R1} {R2}")
            ev = lab.walk(op, policy)
            bad = lab.judge(op, ev, exact=False)
            ctx.evals += 1
            ctx.traces += 1
            ctx.nontrivial += 1
            ctx.trans += len(ev)
            if bad:
                lab.bad_report(op, ev, bad)
                lab.fresh()
        ctx.state((task["cfg"], task["kind"], op, repr(R1)))
    ctx.sample(f"{task['cfg']} {task['kind']} {op}: {len(reps)} replies with unusual names")
