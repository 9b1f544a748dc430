"""The explored world: configurations, request parser, reply builder, session factories.

Runs only inside a worker process (vnet preloaded)."""
import asyncio
import errno
import math
import selectors
from types import SimpleNamespace

import vnet
from . import ber, fds, usm

NS = 1_000_000_000
ENGINE = b"\x80\x00\x1f\x88\x04vmc-engine"  # 15 octets
_mods = {}


def mods():
    """late import: the extension must be imported after vnet"""
    if not _mods:
        import gufo.snmp as g
        from gufo.snmp import _fast, user, policer
        from gufo.snmp import SnmpVersion
        from gufo.snmp.sync_client import SnmpSession as S
        from gufo.snmp.async_client import SnmpSession as A
        _mods.update(g=g, fast=_fast, user=user, policer=policer, S=S, A=A, V=SnmpVersion)
    return SimpleNamespace(**_mods)


class Cfg:
    """one session configuration + the agent's view of it"""

    def __init__(self, ver, community="public", user="mcuser", auth=None, priv=None, akt="localized",
                 pkt="localized", apw=b"auth-pass-1", ppw=b"priv-pass-22", engine=ENGINE, given=True, name=None):
        self.ver, self.community, self.user = ver, community, user
        self.auth, self.priv, self.akt, self.pkt = auth, priv, akt, pkt
        self.apw, self.ppw, self.engine, self.given = apw, ppw, engine, given
        self.name = name or self._name()

    def _name(self):
        if self.ver != "v3":
            return self.ver
        s = "v3"
        if self.auth:
            s += "-" + self.auth + self.akt[0]
        if self.priv:
            s += "-" + self.priv + self.pkt[0]
        return s + ("" if self.given else "-disc")

    def with_(self, **kw):
        d = dict(self.__dict__)
        d.pop("name")
        d.update(kw)
        return Cfg(**d)

    @property
    def mver(self):
        return {"v1": 0, "v2c": 1, "v3": 3}[self.ver]

    def akey(self, engine=None):
        """agent side localized auth key"""
        if not self.auth:
            return b""
        e = self.engine if engine is None else engine
        return usm.localize(self.auth, usm.master_key(self.auth, self.apw), e)

    def pkey(self, engine=None):
        if not self.priv:
            return b""
        e = self.engine if engine is None else engine
        return usm.localize(self.auth, usm.master_key(self.auth, self.ppw), e)

    def _material(self, kt, pw):
        if kt == "password":
            return pw
        m = usm.master_key(self.auth, pw)
        return m if kt == "master" else usm.localize(self.auth, m, self.engine)

    def user_obj(self):
        u = mods().user
        ak = pk = None
        if self.auth:
            cls = {"md5": u.Md5Key, "sha": u.Sha1Key}[self.auth]
            ak = cls(self._material(self.akt, self.apw), key_type=getattr(u.KeyType, self.akt.capitalize()))
        if self.priv:
            cls = {"des": u.DesKey, "aes": u.Aes128Key}[self.priv]
            pk = cls(self._material(self.pkt, self.ppw), key_type=getattr(u.KeyType, self.pkt.capitalize()))
        return u.User(self.user, auth_key=ak, priv_key=pk)

    def session(self, kind="sync", timeout=1.0, **kw):
        m = mods()
        cls = m.S if kind == "sync" else m.A
        args = dict(addr="127.0.0.1", port=161, timeout=timeout, version=getattr(m.V, self.ver))
        if timeout is None:
            del args["timeout"]
        if self.ver == "v3":
            args["user"] = self.user_obj()
            if self.given:
                args["engine_id"] = self.engine
        else:
            args["community"] = self.community
        args.update(kw)
        sess = cls(**{k: v for k, v in args.items() if v is not ...})
        fds.register(sess, vnet.last_fd())
        return sess

    def sock(self, timeout_ns=0, engine=None):
        """raw `_fast` socket"""
        m = mods()
        if self.ver == "v1":
            return m.fast.SnmpV1ClientSocket("127.0.0.1:161", self.community, 0, 0, 0, timeout_ns)
        if self.ver == "v2c":
            return m.fast.SnmpV2cClientSocket("127.0.0.1:161", self.community, 0, 0, 0, timeout_ns)
        u = self.user_obj()
        return m.fast.SnmpV3ClientSocket(
            "127.0.0.1:161", (self.engine if self.given else b"") if engine is None else engine, u.name,
            u.get_auth_alg(), u.get_auth_key(), u.get_priv_alg(), u.get_priv_key(), 0, 0, 0, timeout_ns)


V1, V2C = Cfg("v1"), Cfg("v2c")


def v3(auth=None, priv=None, **kw):
    return Cfg("v3", auth=auth, priv=priv, **kw)


V3_ALL = [v3(), v3("md5"), v3("sha"), v3("md5", "des"), v3("sha", "des"), v3("md5", "aes"), v3("sha", "aes")]
ALL = [V1, V2C] + V3_ALL
BASIC = [V1, V2C, v3(), v3("md5"), v3("sha", "des"), v3("md5", "aes")]
BY_NAME = {c.name: c for c in ALL}


# ---- requests -----------------------------------------------------------------
class Req(SimpleNamespace):
    pass


def parse_pdu(r, q):
    """r: reader positioned at the PDU; fills q"""
    tag, s, e = ber.rd(r.d, r.p, r.e, r.strict)
    q.pdu_tag = tag
    p = ber.R(r.d, s, e, r.strict)
    q.pdu_bytes = r.d[r.p:e]
    r.p = e
    q.req_id = p.int()
    q.f1 = p.int()
    q.f2 = p.int()
    vbl = p.enter(ber.SEQ)
    p.done()
    q.oids, q.values = [], []
    while not vbl.empty():
        vb = vbl.enter(ber.SEQ)
        t, c = vb.any()
        if t != ber.OID:
            raise ber.BerError("OID expected")
        q.oids.append(ber.oid_arcs(c))
        q.values.append(vb.rest())
        vb.any()
        vb.done()


def parse_request(data, cfg=None, pkey=None, strict=True):
    """strictly decode a client datagram; BerError when it is not a well-formed, minimally encoded message"""
    q = Req(raw=data)
    top = ber.R(data, strict=strict)
    m = top.enter(ber.SEQ)
    top.done()
    q.version = m.int()
    if q.version in (0, 1):
        q.community = m.octets()
        parse_pdu(m, q)
        m.done()
        return q
    if q.version != 3:
        raise ber.BerError(f"version {q.version}")
    h = m.enter(ber.SEQ)
    q.msg_id = h.int()
    q.max_size = h.int()
    f = h.octets()
    if len(f) != 1:
        raise ber.BerError("flags size")
    q.flags = f[0]
    q.sec_model = h.int()
    h.done()
    t, s, e = ber.rd(data, m.p, m.e, strict)
    if t != ber.OCTETS:
        raise ber.BerError("security parameters")
    m.p = e
    q.sp_range = (s, e)
    w = ber.R(data, s, e, strict)
    u = w.enter(ber.SEQ)
    w.done()
    q.engine = u.octets()
    q.boots = u.int()
    q.time = u.int()
    q.user = u.octets()
    t, s, e = ber.rd(data, u.p, u.e, strict)
    if t != ber.OCTETS:
        raise ber.BerError("auth params")
    q.auth_range = (s, e)
    q.auth_params = data[s:e]
    u.p = e
    q.priv_params = u.octets()
    u.done()
    q.encrypted = m.peek() == ber.OCTETS
    q.pad = None
    if q.encrypted:
        t, s, e = ber.rd(data, m.p, m.e, strict)
        m.p = e
        q.enc_range = (s, e)
        q.cipher = data[s:e]
        if cfg is None or not cfg.priv:
            q.scoped = None
            m.done()
            return q
        if len(q.priv_params) != 8:
            raise ber.BerError("privacy parameters must be 8 octets")
        if cfg.priv == "des" and len(q.cipher) % 8:
            raise ber.BerError("DES ciphertext not a multiple of 8")
        plain = usm.decrypt(cfg.priv, pkey if pkey is not None else cfg.pkey(), q.boots, q.time, q.priv_params,
                            q.cipher)
        q.plain = plain
        sr = ber.R(plain, strict=strict)
        t, s, e = ber.rd(plain, 0, len(plain), strict)
        q.pad = len(plain) - e
        q.scoped = plain[:e]
        sr = ber.R(q.scoped, strict=strict)
    else:
        t, s, e = ber.rd(data, m.p, m.e, strict)
        q.scoped = data[m.p:e]
        sr = ber.R(data, m.p, e, strict)
        m.p = e
    m.done()
    sc = sr.enter(ber.SEQ)
    sr.done()
    q.ctx_engine = sc.octets()
    q.ctx_name = sc.octets()
    parse_pdu(sc, q)
    sc.done()
    return q


def mac_ok(q, alg, key):
    s, e = q.auth_range
    if e - s != 12:
        return False
    z = q.raw[:s] + bytes(12) + q.raw[e:]
    return usm.mac96(alg, key, z) == q.auth_params


# ---- replies --------------------------------------------------------------------
def vb(oid, value_tlv):
    """oid: arcs tuple, or bytes = complete name TLV"""
    n = oid if isinstance(oid, (bytes, bytearray)) else ber.oid(tuple(oid))
    return ber.tlv(ber.SEQ, n + value_tlv)


def pdu(tag, req_id, vbs=b"", err=0, idx=0):
    if not isinstance(vbs, bytes):
        vbs = b"".join(vbs)
    return ber.tlv(tag, ber.integer(req_id) + ber.integer(err) + ber.integer(idx) + ber.tlv(ber.SEQ, vbs))


def response(req_id, vbs=b"", err=0, idx=0):
    return pdu(ber.RESPONSE, req_id, vbs, err, idx)


def community_msg(ver, community, p):
    return ber.tlv(ber.SEQ, ber.integer(ver) + ber.tlv(ber.OCTETS, community) + p)


_salt = [0]


def next_salt():
    _salt[0] += 1
    return b"SALT" + (_salt[0] & 0xFFFFFFFF).to_bytes(4, "big")


def scoped(engine, p, ctx=b""):
    return ber.tlv(ber.SEQ, ber.tlv(ber.OCTETS, engine) + ber.tlv(ber.OCTETS, ctx) + p)


def v3_msg(cfg, p, msg_id, *, engine=None, boots=7, time=1000, user=None, flags=None, sec_model=3, version=3,
           auth_key=None, priv_key=None, mac=None, salt=None, ctx_engine=None, ctx_name=b"", encrypt=None,
           max_size=65507, auth_len=12, scoped_bytes=None, data_tlv=None, priv_params=None, cipher=None,
           pad=b"", auth_fn=None):
    """complete v3 message as an RFC 3414 agent would build it, with every part overridable.

    mac: None -> computed (when cfg.auth), bytes -> used verbatim.
    flags: None -> auth/priv bits per cfg."""
    engine = cfg.engine if engine is None else engine
    user = cfg.user.encode() if user is None else user
    do_enc = bool(cfg.priv) if encrypt is None else encrypt
    if flags is None:
        flags = (1 if cfg.auth else 0) | (2 if do_enc else 0)
    sc = scoped_bytes if scoped_bytes is not None else scoped(engine if ctx_engine is None else ctx_engine, p,
                                                               ctx_name)
    pp = b""
    if do_enc:
        pp = next_salt() if salt is None else salt
        if cfg.priv == "des":
            pp = boots.to_bytes(8, "big", signed=True)[4:] + pp[4:] if salt is None else pp
        body = cipher if cipher is not None else usm.encrypt(
            cfg.priv, priv_key if priv_key is not None else cfg.pkey(), boots, time, pp, sc + pad)
        d = ber.tlv(ber.OCTETS, body)
    else:
        d = sc
    if data_tlv is not None:
        d = data_tlv
    if priv_params is not None:
        pp = priv_params
    signing = mac is None and cfg.auth and (flags & 1)
    ap = bytes(12) if signing else (mac or b"")
    head = ber.integer(version) + ber.tlv(
        ber.SEQ, ber.integer(msg_id) + ber.integer(max_size) + ber.tlv(ber.OCTETS, bytes((flags,))) +
        ber.integer(sec_model))
    pre = ber.tlv(ber.OCTETS, engine) + ber.integer(boots) + ber.integer(time) + ber.tlv(ber.OCTETS, user)
    post = ber.tlv(ber.OCTETS, pp)
    sp = ber.tlv(ber.OCTETS, ber.tlv(ber.SEQ, pre + ber.tlv(ber.OCTETS, ap) + post))
    msg = ber.tlv(ber.SEQ, head + sp + d)
    if signing:
        # offset of the 12 octets, counted from the end
        off = len(msg) - len(d) - len(post) - 12
        k = auth_key if auth_key is not None else cfg.akey()
        m = usm.mac96(cfg.auth, k, msg)
        if auth_fn:
            m = auth_fn(m)
        msg = msg[:off] + m + msg[off + 12:]
    return msg


def reply(cfg, q, vbs, *, tag=ber.RESPONSE, err=0, idx=0, req_id=None, **kw):
    """the agent's answer to the parsed request q"""
    p = pdu(tag, q.req_id if req_id is None else req_id, vbs, err, idx)
    if cfg.ver != "v3":
        return community_msg(kw.get("version", cfg.mver), kw.get("community", cfg.community.encode()), p)
    kw.setdefault("msg_id", q.msg_id)
    return v3_msg(cfg, p, **kw)


def report_pdu(req_id, counter=(1, 3, 6, 1, 6, 3, 15, 1, 1, 4, 0), value=1):
    return pdu(ber.REPORT, req_id, vb(counter, ber.tlv(ber.COUNTER32, ber.unsigned_content(value))))


def report(cfg, q, *, counter=(1, 3, 6, 1, 6, 3, 15, 1, 1, 4, 0), signed=False, **kw):
    """USM Report (unauthenticated unless signed)"""
    kw.setdefault("msg_id", q.msg_id)
    kw.setdefault("user", q.user)
    if not signed:
        kw.setdefault("flags", 0)
        kw.setdefault("encrypt", False)
    kw.setdefault("engine", cfg.engine)
    return v3_msg(cfg, report_pdu(kw.pop("req_id", 0), counter), **kw)


# ---- fast synchronous probing ------------------------------------------------------
def guess_key(cfg):
    """privacy key matching what the client can know (engine id empty before discovery)"""
    return cfg.pkey()


class Wire:
    """collects everything the client sends; optional automatic responder"""

    def __init__(self):
        self.sent = []
        self.responder = None
        vnet.on_send(self._on_send)

    def _on_send(self, fd, data):
        self.sent.append(data)
        if self.responder is not None:
            return self.responder(fd, data)
        return None

    def clear(self):
        self.sent.clear()


_wire = None


def wire():
    global _wire
    if _wire is None:
        _wire = Wire()
    return _wire


# ---- asyncio on virtual time ---------------------------------------------------------
class VSelector(selectors.BaseSelector):
    def __init__(self):
        self._m = {}
        self._busy = 0
        self._seen = -1

    def register(self, fileobj, events, data=None):
        fd = fileobj if isinstance(fileobj, int) else fileobj.fileno()
        k = selectors.SelectorKey(fileobj, fd, events, data)
        self._m[fd] = k
        return k

    def unregister(self, fileobj):
        fd = fileobj if isinstance(fileobj, int) else fileobj.fileno()
        return self._m.pop(fd)

    def modify(self, fileobj, events, data=None):
        self.unregister(fileobj)
        return self.register(fileobj, events, data)

    def get_map(self):
        return self._m

    def get_key(self, fileobj):
        fd = fileobj if isinstance(fileobj, int) else fileobj.fileno()
        return self._m[fd]

    def close(self):
        self._m.clear()

    def select(self, timeout=None):
        now = vnet.now()
        dl = None if timeout is None else now + math.ceil(max(timeout, 0) * 1e9)  # timers never fire early
        while True:
            ready, nxt = [], None
            for fd, k in self._m.items():
                if not vnet.is_virtual(fd):
                    continue
                ev = 0
                if k.events & selectors.EVENT_READ:
                    a = vnet.next_arrival(fd)
                    if a >= 0:
                        if a <= now:
                            ev |= selectors.EVENT_READ
                        elif nxt is None or a < nxt:
                            nxt = a
                if k.events & selectors.EVENT_WRITE and vnet.is_writable():
                    ev |= selectors.EVENT_WRITE
                if ev:
                    ready.append((k, ev))
            if ready:
                # ready again and again but never read: time must pass in this case, too
                n = vnet.recv_calls()
                self._busy = self._busy + 1 if n == self._seen else 0
                self._seen = n
                if self._busy > 64:
                    vnet.advance(1_000_000)
                return ready
            if nxt is not None and (dl is None or nxt <= dl):
                vnet.set_time(nxt)
                now = nxt
                continue
            if dl is None:
                raise Deadlock("asyncio loop would block for ever")
            if dl > now:
                vnet.set_time(dl)
            return []


class Deadlock(BaseException):
    pass


_loop = None


def loop():
    global _loop
    if _loop is None or _loop.is_closed():
        _loop = asyncio.SelectorEventLoop(VSelector())
    return _loop


def arun(coro):
    lp = loop()
    try:
        return lp.run_until_complete(coro)
    except Deadlock:
        # the loop is unusable now
        global _loop
        _loop = None
        raise


async def _anext_all(it, limit):
    out = []
    n = 0
    async for x in it:
        out.append(x)
        n += 1
        if n >= limit:
            break
    return out


# ---- one API call on a session ------------------------------------------------------------
def call(sess, kind, op, oid="1.3.6.1.2.1.1.0", oids=("1.3.6.1.2.1.1.0", "1.3.6.1.2.1.1.1"), base="1.3.6.1.2.1",
         limit=1, maxrep=None, it=None):
    """performs op and returns its outcome; walks stop after `limit` items (list of items is returned).

    it: one-element list holding a walk iterator to continue (filled when empty)"""

    def mkiter():
        if it:
            return it[0]
        if op == "getnext":
            x = sess.getnext(base)
        elif op == "getbulk":
            x = sess.getbulk(base, maxrep) if maxrep else sess.getbulk(base)
        else:
            x = sess.fetch(base)
        if it is not None:
            it.append(x)
        return x

    if kind == "sync":

        def f():
            if op == "get":
                return sess.get(oid)
            if op == "get_many":
                return sess.get_many(list(oids))
            if op == "refresh":
                return sess.refresh()
            out = []
            for x in mkiter():
                out.append(x)
                if len(out) >= limit:
                    break
            return out

        return outcome(f)

    async def g():
        if op == "get":
            return await sess.get(oid)
        if op == "get_many":
            return await sess.get_many(list(oids))
        if op == "refresh":
            return await sess.refresh()
        out = []
        async for x in mkiter():
            out.append(x)
            if len(out) >= limit:
                break
        return out

    return outcome(lambda: arun(g()))


# ---- outcomes --------------------------------------------------------------------------
ALLOWED_BASE = (TimeoutError, BlockingIOError, OSError, ValueError, StopIteration, StopAsyncIteration)


def outcome(fn, *a):
    """-> ("ok", value) | ("exc", exception)"""
    try:
        return ("ok", fn(*a))
    except Deadlock as e:
        return ("exc", e)
    except BaseException as e:  # PanicException derives from BaseException
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        return ("exc", e)


def is_documented(e):
    m = mods()
    return isinstance(e, (m.g.SnmpError,) + ALLOWED_BASE) and not isinstance(e, RuntimeError)


def is_panic(e):
    return not isinstance(e, Exception)


def show(o):
    if o[0] == "ok":
        return f"ok {o[1]!r}"
    e = o[1]
    return f"{type(e).__name__}({e})"


def key_of(o):
    """hashable digest of an outcome"""
    if o[0] == "ok":
        return ("ok", repr(o[1]))
    return ("exc", type(o[1]).__name__)
