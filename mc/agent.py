"""RFC 3416/3414 reference agent used as the environment model."""
import bisect

import vnet
from . import ber, world, usm

UNSUPPORTED_SEC = (1, 3, 6, 1, 6, 3, 15, 1, 1, 1, 0)
NOT_IN_WINDOW = (1, 3, 6, 1, 6, 3, 15, 1, 1, 2, 0)
UNKNOWN_USER = (1, 3, 6, 1, 6, 3, 15, 1, 1, 3, 0)
UNKNOWN_ENGINE = (1, 3, 6, 1, 6, 3, 15, 1, 1, 4, 0)
WRONG_DIGEST = (1, 3, 6, 1, 6, 3, 15, 1, 1, 5, 0)
DECRYPT_ERR = (1, 3, 6, 1, 6, 3, 15, 1, 1, 6, 0)


class Agent:
    """mib: {arcs: value TLV}; cap: maximal number of repetitions returned by GetBulk

    boots/time: snmpEngineBoots and the engine time (fixed unless changed from outside)"""

    def __init__(self, cfg, mib=None, cap=None, boots=7, time=1000, engine=None, max_msg=4000, window=False):
        self.cfg = cfg
        self.set_mib(mib or {})
        self.cap, self.boots, self.time, self.max_msg = cap, boots, time, max_msg
        self.engine = cfg.engine if engine is None else engine
        self.window = window  # enforce the time window (RFC 3414 3.2 7)
        self.requests = []  # parsed requests, in order
        self.reports = 0
        self.bad = None  # first malformed request
        self.v3kw = {}

    def set_mib(self, mib):
        self.mib = dict(mib)
        self.keys = sorted(self.mib)

    def next_of(self, oid):
        i = bisect.bisect_right(self.keys, oid)
        return self.keys[i] if i < len(self.keys) else None

    # -- PDU processing ------------------------------------------------------
    def process(self, q):
        """-> (varbinds, error-status, error-index)"""
        v1 = q.version == 0
        if q.pdu_tag == ber.GET:
            out = []
            for i, o in enumerate(q.oids):
                t = self.mib.get(o)
                if t is None:
                    if v1:
                        return [world.vb(x, ber.NULL_TLV) for x in q.oids], 2, i + 1
                    t = ber.tlv(ber.NO_INSTANCE)
                out.append(world.vb(o, t))
            return out, 0, 0
        if q.pdu_tag == ber.GETNEXT:
            out = []
            for i, o in enumerate(q.oids):
                n = self.next_of(o)
                if n is None:
                    if v1:
                        return [world.vb(x, ber.NULL_TLV) for x in q.oids], 2, i + 1
                    out.append(world.vb(o, ber.tlv(ber.END_OF_MIB)))
                else:
                    out.append(world.vb(n, self.mib[n]))
            return out, 0, 0
        if q.pdu_tag == ber.GETBULK and not v1:
            out, size = [], 0
            nr = max(q.f1, 0)
            reps = max(q.f2, 0)
            if self.cap is not None:
                reps = min(reps, self.cap)
            for o in q.oids[:nr]:
                n = self.next_of(o)
                out.append(world.vb(n, self.mib[n]) if n else world.vb(o, ber.tlv(ber.END_OF_MIB)))
            cur = list(q.oids[nr:])
            for _ in range(reps):
                row, ended = [], True
                for i, o in enumerate(cur):
                    n = self.next_of(o)
                    if n is None:
                        row.append(world.vb(o, ber.tlv(ber.END_OF_MIB)))
                    else:
                        ended = False
                        cur[i] = n
                        row.append(world.vb(n, self.mib[n]))
                size += sum(map(len, row))
                if size > self.max_msg - 400:
                    break
                out += row
                if ended:
                    break  # RFC 3416 4.2.3: may stop once all are endOfMibView
            return out, 0, 0
        return [], 5, 0

    # -- message processing ----------------------------------------------------
    def handle(self, data):
        """reply datagram or None"""
        cfg = self.cfg
        try:
            q = world.parse_request(data, cfg, self._pkey())
        except ber.BerError as e:
            if self.bad is None:
                self.bad = (str(e), data)
            return None
        self.requests.append(q)
        if cfg.ver != "v3":
            if q.version != cfg.mver or q.community != cfg.community.encode():
                return None
            vbs, e, i = self.process(q)
            return world.reply(cfg, q, vbs, err=e, idx=i)
        if q.version != 3:
            return None
        c = self.check_v3(q)
        if c is not None:
            return c
        vbs, e, i = self.process(q)
        return world.reply(cfg, q, vbs, err=e, idx=i, engine=self.engine, boots=self.boots, time=self.time,
                           auth_key=cfg.akey(self.engine), priv_key=cfg.pkey(self.engine), **self.v3kw)

    def _pkey(self):
        return self.cfg.pkey(self.engine) if self.cfg.priv else None

    def report(self, q, counter, signed=False, rid=0):
        if not q.flags & 4:
            return None  # not reportable
        self.reports += 1
        cfg = self.cfg
        kw = dict(engine=self.engine, boots=self.boots, time=self.time, req_id=rid)
        if signed:
            return world.report(cfg, q, counter=counter, signed=True, flags=1, encrypt=False,
                                auth_key=cfg.akey(self.engine), **kw)
        return world.report(cfg, q, counter=counter, **kw)

    def check_v3(self, q):
        cfg = self.cfg
        rid = q.req_id if getattr(q, "req_id", None) is not None else 0
        if q.engine != self.engine:
            return self.report(q, UNKNOWN_ENGINE, rid=rid) or b""
        if q.user != cfg.user.encode():
            return self.report(q, UNKNOWN_USER, rid=rid) or b""
        lvl = q.flags & 3
        want = (1 if cfg.auth else 0) | (2 if cfg.priv else 0)
        if lvl & ~want:
            return self.report(q, UNSUPPORTED_SEC, rid=rid) or b""
        if lvl & 1 and not world.mac_ok(q, cfg.auth, cfg.akey(self.engine)):
            return self.report(q, WRONG_DIGEST, rid=rid) or b""
        if self.window and lvl & 1 and (q.boots != self.boots or abs(q.time - self.time) > 150):
            return self.report(q, NOT_IN_WINDOW, signed=True, rid=rid) or b""
        return None

    def __call__(self, fd, data):
        """vnet responder: answers immediately"""
        r = self.handle(data)
        if r:
            vnet.inject(fd, r)
        return None


def expected_walk(mib, base):
    """entries strictly below base, in order"""
    return [k for k in sorted(mib) if len(k) > len(base) and k[:len(base)] == base]
