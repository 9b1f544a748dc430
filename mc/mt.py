"""Real threads under a controlled scheduler: several sessions, one per thread, of which exactly one runs at a time.

The scheduling points are the socket operations (after a datagram has been handed over, before one is read), i.e. the places where the client works without the interpreter lock and where message buffers are held. All
interleavings of these points are explored depth first."""
import _thread
import threading

import vnet
from . import agent, ber, choose, fds, world

SYS = (1, 3, 6, 1, 2, 1, 1)
BULKY = [SYS + (i, 4294967295 - i) for i in range(1, 110)]


class Team:
    """n persistent threads and the baton"""

    def __init__(self, n):
        self.back = _thread.allocate_lock()
        self.back.acquire()
        self.go = [_thread.allocate_lock() for _ in range(n)]
        self.prog = [None] * n
        self.done = [True] * n
        self.ident = {}
        self.on = False
        for i, g in enumerate(self.go):
            g.acquire()
            threading.Thread(target=self._loop, args=(i,), daemon=True).start()

    def _loop(self, i):
        self.ident[_thread.get_ident()] = i
        while True:
            self.go[i].acquire()
            try:
                self.prog[i]()
            finally:
                self.done[i] = True
                self.back.release()

    def point(self):
        """called by a running thread: somebody else may continue from here"""
        if not self.on:
            return
        i = self.ident.get(_thread.get_ident())
        if i is not None:
            self.back.release()
            self.go[i].acquire()

    def run(self, progs, ch):
        n = len(progs)
        self.prog[:n] = progs
        self.done = [i >= n for i in range(len(self.go))]
        trace = []
        self.on = True
        while True:
            en = [i for i in range(n) if not self.done[i]]
            if not en:
                break
            k = en[ch.choose(len(en))] if len(en) > 1 else en[0]
            trace.append(k)
            self.go[k].release()
            self.back.acquire()
        self.on = False
        return trace


_team = {}


def team(n):
    if n not in _team:
        _team[n] = Team(n)
    return _team[n]


class Member:
    """one session, its agent and what its calls must do"""

    def __init__(self, i, cfg, prog):
        self.i, self.cfg, self.prog = i, cfg, prog
        m = {SYS + (k, 0): ber.tlv(4, b"thread %d value %d" % (i, k)) for k in range(1, 4)}
        m[SYS + (8, 0)] = ber.tlv(4, b"%d" % i * 3000)
        for k, o in enumerate(BULKY):
            m[o] = ber.integer(1000 * i + k)
        self.agent = agent.Agent(cfg, m)
        self.sess = cfg.session("sync")
        self.fd = fds.fd_of(self.sess)
        self.reset()

    def reset(self):
        self.want = None  # (pdu tag, oids) of the call in progress
        self.sent = []  # (datagram, expectation)
        self.results = []
        self.mismatch = False
        vnet.flush(self.fd)

    def on_send(self, data):
        self.sent.append((data, self.want))
        if self.want is None:
            return
        if self.want[0] == "none":
            return
        r = self.agent.handle(data)
        if self.mismatch and self.agent.requests:
            q = self.agent.requests[-1]
            vbs, er, ix = self.agent.process(q)
            kw = dict(boots=self.agent.boots, time=self.agent.time) if self.cfg.ver == "v3" else {}
            vnet.inject(self.fd, world.reply(self.cfg, q, [world.vb((1, 3), ber.tlv(4, b"W" * 900))] + vbs,
                                             req_id=(q.req_id + 1) & 0x7FFFFFFF, **kw))
        del self.agent.requests[:]
        if r:
            vnet.inject(self.fd, r)

    def run(self):
        i, s, t = self.i, self.sess, ber.oid_text
        for op in self.prog:
            self.mismatch = op.endswith("*")
            name = op.rstrip("*")
            if name == "get":
                o = SYS + (1, 0)
                self.want = (ber.GET, [o], 0, 0)
                r, e = world.outcome(s.get, t(o)), b"thread %d value 1" % i
            elif name == "big":
                o = SYS + (8, 0)
                self.want = (ber.GET, [o], 0, 0)
                r, e = world.outcome(s.get, t(o)), b"%d" % i * 3000
            elif name == "many":
                self.want = (ber.GET, BULKY, 0, 0)
                r = world.outcome(s.get_many, [t(o) for o in BULKY])
                e = {t(o): 1000 * i + k for k, o in enumerate(BULKY)}
            elif name == "over":
                self.want = ("none",)
                r, e = world.outcome(s.get_many, [t(SYS + (k, 4294967295, 4294967295)) for k in range(220)]), "raise"
            elif name == "next":
                self.want = (ber.GETNEXT, [SYS], 0, 0)
                r = world.outcome(lambda: next(iter(s.getnext(t(SYS)))))
                e = (t(BULKY[0]) if BULKY[0] < SYS + (1, 0) else t(SYS + (1, 0)), b"thread %d value 1" % i)
            else:
                raise ValueError(op)
            self.want = None
            self.results.append((op, r, e))


def explore(ctx, cfgs, progs, judge, what, part=0, parts=1):
    """judge(member, datagram, want) -> None or text; what: 'sent' or 'results'"""
    n = len(cfgs)
    tm = team(n)
    ms = [Member(i, c, p) for i, (c, p) in enumerate(zip(cfgs, progs))]
    by = {m.fd: m for m in ms}
    w = world.wire()
    lab = " | ".join(f"{c.name} {'+'.join(p)}" for c, p in zip(cfgs, progs))

    def respond(fd, data):
        by[fd].on_send(data)
        tm.point()

    def on_recv(fd):
        tm.point()

    w.clear()
    w.responder = respond
    vnet.on_recv(on_recv)
    bad = [0]

    def body(ch):
        ctx.case(f"threads {lab}")
        for m in ms:
            m.reset()
        trace = tm.run([m.run for m in ms], ch)
        w.clear()
        ctx.evals += 1
        ctx.traces += 1
        ctx.trans += len(trace)
        ctx.state((lab, tuple(trace)))
        switches = sum(a != b for a, b in zip(trace, trace[1:]))
        ctx.nontrivial += switches >= n
        for m in ms:
            p = None
            if what == "sent":
                for data, want in m.sent:
                    p = p or judge(m, data, want)
                need = sum(not o.startswith("over") for o in m.prog)
                if not p and len(m.sent) != need:
                    p = f"{len(m.sent)} datagrams instead of {need}"
            for op, r, e in m.results:
                if p:
                    break
                if e == "raise":
                    if r[0] == "ok" or world.is_panic(r[1]) or not world.is_documented(r[1]):
                        p = f"{op}: {world.show(r)[:100]}"
                elif what == "results" or r[0] != "ok":
                    if r != ("ok", e):
                        p = f"{op}: {world.show(r)[:100]}"
            if p and bad[0] < 3:
                bad[0] += 1
                ctx.violation(f"with several threads: {p} [{m.cfg.name}]",
                              f"threads {lab} schedule={''.join(map(str, trace))} thread {m.i}: {p} "
                              f"sent={[d.hex()[:200] for d, _ in m.sent]}", key=f"threads {lab} {p}"[:150])

    try:
        choose.explore(body, part, parts)
    finally:
        vnet.on_recv(None)
        w.responder = None
    ctx.sample(f"threads {lab}: all interleavings of the socket operations")
