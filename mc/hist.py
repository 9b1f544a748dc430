"""Histories of API calls on one session (plus neighbours sharing the process-wide buffer pool).

Every property about emitted messages is checked on every datagram of every history."""
import errno
import itertools

import vnet
from . import fds, ber, world, agent
from .world import Cfg

SYS = (1, 3, 6, 1, 2, 1, 1)


def mib():
    m = {SYS + (i, 0): ber.tlv(4, b"value-%d" % i) for i in range(1, 8)}
    m[SYS + (8, 0)] = ber.tlv(4, b"B" * 3300)
    m[(1, 3, 6, 1, 2, 1, 2, 1, 0)] = ber.integer(77)
    return m


def t(o):
    return ber.oid_text(o)


# OIDs whose encodings cover short and long forms
OID_S = SYS + (1, 0)
OID_L = (1, 3, 6, 1, 4, 1) + tuple(4294967295 - i for i in range(100))  # > 500 octets
FIT = [SYS + (i, 4294967295) for i in range(1, 160)]  # ~3.5 kB request
OVER = [SYS + (i, 4294967295, 4294967295) for i in range(1, 220)]  # certainly more than the buffer


class Rec:
    """one emitted datagram and what the caller asked for"""

    __slots__ = ("cfg", "data", "tag", "oids", "f1", "f2", "disc", "env", "act", "sess", "callno")

    def __init__(self, **k):
        self.callno = 0
        for a, v in k.items():
            setattr(self, a, v)


class Env:
    def __init__(self, cfg, kind):
        self.cfg, self.kind = cfg, kind
        self.agent = agent.Agent(cfg, mib())
        self.mode = "ok"
        self.nested = None
        self.recs = []
        self.problems = []
        self.by_fd = {}
        w = world.wire()
        w.clear()
        w.responder = self.respond
        self.sess = cfg.session(kind)
        self.discovered = cfg.ver != "v3" or cfg.given
        self.by_fd[fds.fd_of(self.sess)] = (self.sess, self.agent, cfg)
        self.neigh = {}
        self.calls = 0
        self.expect = None  # current expectation for emitted datagrams, per fd

    def other(self, c):
        if c.name not in self.neigh:
            s = c.session("sync")
            a = agent.Agent(c, mib())
            self.by_fd[fds.fd_of(s)] = (s, a, c)
            self.neigh[c.name] = s
        return self.neigh[c.name]

    # -- agent side ------------------------------------------------------------------
    def respond(self, fd, data):
        s, ag, cfg = self.by_fd[fd]
        e = self.expect.get(fd) if self.expect else None
        if e is None:
            self.problems.append(("unexpected datagram", data))
            return None
        mode = self.mode if s is self.sess else "ok"
        if mode == "senderr":
            return errno.ENOBUFS
        if mode == "sendrefused":
            return errno.ECONNREFUSED
        if mode == "nosend":
            self.problems.append(("a datagram was sent by a call which must fail before sending", data))
            return None
        self.recs.append(Rec(cfg=cfg, data=data, disc=(s is self.sess and not self.discovered), env=self,
                             sess=s, callno=self.calls, **e))
        if mode == "timeout":
            return None
        if mode == "refused":
            vnet.inject_error(fd, errno.ECONNREFUSED)
            return None
        if mode == "nested":
            self.mode = "ok"
            self.do_other(NB[0])
            self.do_other(NB[2])
        if mode == "garbage":
            vnet.inject(fd, b"\x30\x05\x02\x01\x01\x04\x7f")
            return None
        r = ag.handle(data)
        if mode == "report" and cfg.ver == "v3":
            q = ag.requests[-1]
            vnet.inject(fd, world.report(cfg, q, engine=ag.engine, boots=ag.boots, time=ag.time,
                                         req_id=getattr(q, "req_id", 0) or 0))
            return None
        if mode == "mismatch":
            q = ag.requests[-1]
            vbs, er, ix = ag.process(q)
            kw = dict(boots=ag.boots, time=ag.time, engine=ag.engine) if cfg.ver == "v3" else {}
            vnet.inject(fd, world.reply(cfg, q, vbs, err=er, idx=ix, req_id=(q.req_id + 1) & 0x7FFFFFFF, **kw))
        if r:
            vnet.inject(fd, r)
        return None

    # -- client side -----------------------------------------------------------------
    def with_expect(self, sess, act, tag, oids, f1=0, f2=0):
        self.expect = self.expect or {}
        self.expect[fds.fd_of(sess)] = dict(tag=tag, oids=[tuple(o) for o in oids], f1=f1, f2=f2, act=act)

    def do_other(self, c):
        s = self.other(c)
        self.with_expect(s, "other", ber.GET, [OID_S])
        return world.call(s, "sync", "get", oid=t(OID_S))

    def do(self, act):
        """-> outcome of the action"""
        s, kind = self.sess, self.kind
        self.calls += 1
        vnet.flush(fds.fd_of(s))
        self.mode = "ok"
        name, _, mode = act.partition(":")
        if mode:
            self.mode = mode
        if name.startswith("other"):
            return self.do_other(NB[int(name[5:])])
        if name == "tick":
            self.agent.time += 50
            self.agent.boots += 1
            self.agent.time %= 1 << 31
            return ("ok", None)
        if name == "get":
            self.with_expect(s, act, ber.GET, [OID_S])
            return world.call(s, kind, "get", oid=t(OID_S))
        if name == "getlong":
            self.with_expect(s, act, ber.GET, [OID_L])
            return world.call(s, kind, "get", oid=t(OID_L))
        if name == "getbig":
            self.with_expect(s, act, ber.GET, [SYS + (8, 0)])
            return world.call(s, kind, "get", oid=t(SYS + (8, 0)))
        if name == "many":
            o = [SYS + (3, 0), SYS + (1, 0), (1, 3, 6, 1, 2, 1, 2, 1, 0), SYS + (3, 0), (2, 39, 4294967295)]
            self.with_expect(s, act, ber.GET, o)
            return world.call(s, kind, "get_many", oids=[t(x) for x in o])
        if name == "fit":
            self.with_expect(s, act, ber.GET, FIT)
            return world.call(s, kind, "get_many", oids=[t(x) for x in FIT])
        if name == "over":
            self.mode = "nosend"
            self.with_expect(s, act, ber.GET, OVER)
            r = world.call(s, kind, "get_many", oids=[t(x) for x in OVER])
            self.mode = "ok"
            return r
        if name == "badoid":
            self.mode = "nosend"
            self.with_expect(s, act, ber.GET, [])
            r = world.call(s, kind, "get", oid="1.3.6.x")
            self.mode = "ok"
            return r
        if name == "next":
            self.with_expect(s, act, ber.GETNEXT, [SYS])
            return world.call(s, kind, "getnext", base=t(SYS))
        if name == "bulk":
            self.with_expect(s, act, ber.GETBULK, [SYS], 0, 3)
            return world.call(s, kind, "getbulk", base=t(SYS), maxrep=3)
        if name == "fetch":
            if self.cfg.ver == "v1":
                self.with_expect(s, act, ber.GETNEXT, [SYS])
            else:
                self.with_expect(s, act, ber.GETBULK, [SYS], 0, 20)
            return world.call(s, kind, "fetch", base=t(SYS))
        if name == "refresh":
            if self.cfg.ver != "v3":
                return world.call(s, kind, "refresh")
            self.with_expect(s, act, ber.GET, [])
            if self.discovered:
                return world.call(s, kind, "refresh")
            return self._discover()
        raise ValueError(act)

    def _discover(self):
        """first datagram: engine id probe; everything later under the user's keys"""
        s = self.sess
        n0 = len(self.recs)
        r = world.call(s, self.kind, "refresh")
        for x in self.recs[n0:]:
            if x.sess is s and x.act == "refresh":
                x.disc = x is self.recs[n0]
        if r[0] == "ok":
            self.discovered = True
        return r


NB = [Cfg("v1", community="nbr"), Cfg("v2c", community="n" * 200),
      world.v3("sha", "aes", user="nbruser", apw=b"neighbour-auth", ppw=b"neighbour-priv"),
      world.v3("md5", "des", user="nbr2", apw=b"neighbour2-auth", ppw=b"neighbour2-priv")]

ACTIONS = ["get", "get:timeout", "get:garbage", "get:mismatch", "get:senderr", "get:refused", "get:nested", "getlong", "getbig", "many",
           "fit", "over", "badoid", "next", "bulk", "fetch", "other1", "other2", "other3"]
V3_ACTIONS = ACTIONS + ["refresh", "get:report", "tick", "refresh:timeout"]


def actions(cfg):
    return V3_ACTIONS if cfg.ver == "v3" else ACTIONS


def histories(cfg, depth, part=0, parts=1):
    acts = actions(cfg)
    n = 0
    for h in itertools.product(acts, repeat=depth):
        n += 1
        if n % parts == part:
            yield h


def explore(ctx, cfg, kind, depth, check, part=0, parts=1, acts=None, hs=None, max_bad=3):
    """check(rec, q) -> None or description; q is the strictly parsed request"""
    for h in (hs if hs is not None else histories(cfg, depth, part, parts)):
        ctx.case(f"{cfg.name} {kind} {' '.join(h)}")
        env = Env(cfg, kind)
        run_history(ctx, env, h, check)
        ctx.evals += 1
        ctx.traces += 1
        ctx.state((cfg.name, kind, h))


def run_history(ctx, env, h, check, ref=None):
    cfg, kind = env.cfg, env.kind
    if cfg.ver == "v3" and not cfg.given:
        h = ("refresh",) + tuple(h)
    seen = 0
    st = {}
    for i, act in enumerate(h):
        r = env.do(act)
        ctx.trans += 1
        bad = None
        if r[0] == "exc" and (world.is_panic(r[1]) or not world.is_documented(r[1])):
            bad = f"{act} raised {world.show(r)[:120]}"
        for p in env.problems:
            bad = bad or p[0]
        env.problems.clear()
        # the number of datagrams each call emits
        mine = [x for x in env.recs[seen:] if x.sess is env.sess]
        n = len(mine)
        name, _, mode = act.partition(":")
        if not bad:
            if name in ("over", "badoid", "tick") or mode == "senderr" or name.startswith("other"):
                if n:
                    bad = f"{act} emitted {n} datagrams"
            elif name == "refresh":
                if n > 2:
                    bad = f"refresh emitted {n} datagrams"
            elif n != 1:
                bad = f"{act} emitted {n} datagrams ({world.show(r)[:100]})"
        if not bad and name in ("over", "badoid") and r[0] == "ok":
            bad = f"{act} returned {r[1]!r:.60} instead of raising"
        if not bad and mode == "" and name not in ("over", "badoid", "tick") and r[0] != "ok":
            if not (name == "getlong" or (name == "many")) or not isinstance(r[1], world.mods().g.NoSuchInstance):
                bad = f"{act} failed against a healthy agent: {world.show(r)[:120]}"
        if not bad:
            for x in env.recs[seen:]:
                ctx.nontrivial += 1
                bad = judge(x, check, st)
                if bad:
                    break
        seen = len(env.recs)
        if bad:
            key = f"{cfg.name} {kind} {act}: {bad}"
            ctx.violation(f"{bad} [{cfg.name} {kind} {act}]",
                          f"{cfg.name} {kind} history={' '.join(h)} step={i} datagram="
                          f"{env.recs[-1].data.hex()[:400] if env.recs else ''}", key=key[:150])
            return


def judge(x, check, st=None):
    try:
        q = world.parse_request(x.data, None if x.disc else x.cfg)
    except ber.BerError as e:
        return f"malformed request: {e}"
    return check(x, q, st)
