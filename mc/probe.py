"""A pending operation on a raw socket into which arbitrary datagrams are fed."""
import vnet
from . import ber, usm
from .world import (mods, parse_request, wire, outcome, is_documented, is_panic, Cfg, BY_NAME, v3, V1, V2C, NS)

BASE = (1, 3, 6, 1, 2, 1)
BASE_TXT = "1.3.6.1.2.1"
OPS = ("get", "get_many", "get_next", "get_bulk")


class Probe:
    """send_<op> once, then feed datagrams to recv_<op>; non-blocking socket.

    cfg.given False (v3): the socket has no engine id and no keys yet (discovery pending)."""

    def __init__(self, cfg, op, auto_reset=True):
        self.cfg, self.op = cfg, op
        self.auto_reset = auto_reset
        self.reset()

    def reset(self):
        self.rng = vnet.rng_get()
        m = mods()
        c = self.cfg
        if c.ver == "v3" and not c.given:
            # what SnmpSession does before discovery: default user, no keys
            self.sock = m.fast.SnmpV3ClientSocket("127.0.0.1:161", b"", "", 0, b"", 0, b"", 0, 0, 0, 0)
        else:
            self.sock = c.sock(0)
        self.fd = self.sock.get_fd()
        s, op = self.sock, self.op
        self.iter = None
        w = wire()
        w.clear()
        if op == "get":
            s.send_get(BASE_TXT + ".1.0")
            self.recv = s.recv_get
        elif op == "get_many":
            s.send_get_many([BASE_TXT + ".1.0", BASE_TXT + ".1.1"])
            self.recv = s.recv_get_many
        elif op == "refresh":
            s.send_refresh()
            self.recv = s.recv_refresh
        else:
            it = m.fast.GetIter(BASE_TXT, 10 if op == "get_bulk" else None)
            if op == "get_next":
                s.send_get_next(it)
            else:
                s.send_get_bulk(it)
        self.req_raw = w.sent[-1]
        kc = c if (c.given or c.ver != "v3") else None
        self.req = parse_request(self.req_raw, kc)
        self._dirty = False

    def reset_hard(self):
        """fresh socket with the same outstanding ids, so that prepared datagrams keep matching"""
        ids = [self.req.req_id] + ([self.req.msg_id] if self.cfg.ver == "v3" else [])
        # the random source yields the same again, however the library draws from it
        now = vnet.rng_get()
        vnet.rng_set(self.rng)
        self.reset()
        vnet.rng_set(now)
        got = [self.req.req_id] + ([self.req.msg_id] if self.cfg.ver == "v3" else [])
        assert got == ids, (got, ids)

    def feed(self, data, poison=0, tail=b""):
        """outcome of one receive attempt with `data` as the only datagram"""
        if self._dirty and self.auto_reset:
            self.reset_state()
        vnet.poison(poison)
        fd = self.fd
        vnet.inject(fd, data, -1, tail)
        op = self.op
        try:
            if op == "get_next":
                r = ("ok", self.sock.recv_get_next(mods().fast.GetIter(BASE_TXT)))
            elif op == "get_bulk":
                r = ("ok", self.sock.recv_get_bulk(mods().fast.GetIter(BASE_TXT, 10)))
            else:
                r = ("ok", self.recv())
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            r = ("exc", e)
        if vnet.pending(fd):
            vnet.flush(fd)
        if self.cfg.ver == "v3" and not (r[0] == "exc" and isinstance(r[1], BlockingIOError)):
            self._dirty = True  # engine id / boots / time may have been adopted
        return r

    def reset_state(self):
        # only the discovery socket adopts an engine id, which changes what is accepted later
        if not self.cfg.given:
            self.reset_hard()
        self._dirty = False


def classify(r):
    """None when the outcome is allowed, else a description"""
    if vnet.hang():
        return "blocks for ever"
    if r[0] == "ok":
        return None
    e = r[1]
    if is_documented(e):
        return None
    if is_panic(e):
        return f"{type(e).__name__}: {str(e)[:160]}"
    return f"undocumented exception {type(e).__name__}: {str(e)[:160]}"


def same(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "ok":
        return repr(a[1]) == repr(b[1])
    return type(a[1]) is type(b[1]) and str(a[1]) == str(b[1])


# ---- a seed corpus of valid reply varbind lists -------------------------------
def value_corpus():
    """(name, value TLV)"""
    t = ber.tlv
    return [
        ("int", t(2, b"\x05")), ("int-neg", t(2, b"\xff\x7f")), ("int8", t(2, b"\x7f" + b"\xff" * 7)),
        ("int-min", t(2, b"\x80" + b"\x00" * 7)),
        ("bool", t(1, b"\x01")), ("null", t(5)), ("octets", t(4, b"hello")), ("octets0", t(4)),
        ("octets200", t(4, bytes(range(200)))), ("oid", ber.oid((1, 3, 6, 1, 4, 1, 9999, 4294967295))),
        ("odesc", t(7, b"desc")), ("real-dec1", t(9, b"\x01" + b"12")), ("real-dec2", t(9, b"\x02" + b"1.5")),
        ("real-dec3", t(9, b"\x03" + b"15E-1")), ("real-bin", t(9, b"\x84\x00\x05")),
        ("real-bin2", t(9, b"\x80\xff\x05")), ("real-inf", t(9, b"\x40")), ("real-ninf", t(9, b"\x41")),
        ("real-nan", t(9, b"\x42")), ("real-mz", t(9, b"\x43")), ("real0", t(9)),
        ("real-long-exp", t(9, b"\x87\x02\x00\x01\x05")), ("ip", t(0x40, b"\x0a\x00\x00\x01")),
        ("c32", t(0x41, b"\x00\xff\xff\xff\xff")), ("g32", t(0x42, b"\x7f")), ("tt", t(0x43, b"\x01\x00")),
        ("opaque", t(0x44, b"\x9f\x78\x04\x42\xf6\x00\x00")), ("nsap", t(0x45, b"\x00\x01\x02\x03\x04\x05")),
        ("c64", t(0x46, b"\x00" + b"\xff" * 8)), ("u32", t(0x47, b"\x01")),
        ("noobj", t(0x80)), ("noinst", t(0x81)), ("endmib", t(0x82)),
    ]


def vb(name_tlv, value_tlv):
    return ber.tlv(ber.SEQ, name_tlv + value_tlv)


def vbs_corpus():
    """(label, concatenated varbinds)"""
    n = lambda *a: ber.oid(BASE + a)
    out = []
    for name, v in value_corpus():
        out.append((name, vb(n(1, 0), v)))
    i5 = ber.tlv(2, b"\x05")
    out += [
        ("empty", b""),
        ("two", vb(n(1, 0), i5) + vb(n(1, 1), ber.tlv(4, b"x"))),
        ("rel1", vb(n(1, 0), i5) + vb(ber.tlv(0x0D, b"\x01"), i5)),
        ("rel2", vb(n(1, 0), i5) + vb(ber.tlv(0x0D, b"\x02\x81\x00"), i5) + vb(ber.tlv(0x0D, b"\x07"), i5)),
        ("relfull", vb(n(1, 0), i5) + vb(ber.tlv(0x0D, b"\x01\x03\x06\x01\x02\x01\x05\x05\x05"), i5)),
        ("mixed", vb(n(1, 0), ber.tlv(0x80)) + vb(n(1, 1), i5) + vb(n(1, 2), ber.tlv(0x82))),
        ("longform", ber.tlv(ber.SEQ, ber.tlv(6, ber.oid_content(BASE + (1, 0)), 3) + ber.tlv(2, b"\x01", 1), 4)),
        ("outside", vb(ber.oid((1, 3, 7)), i5)),
        ("bigoid", vb(ber.oid(BASE + tuple(4294967295 - i for i in range(60))), i5)),
    ]
    return out


def resp_pdu(req, vbs, tag=ber.RESPONSE, err=0, idx=0):
    return ber.tlv(tag, ber.integer(req.req_id) + ber.integer(err) + ber.integer(idx) + ber.tlv(ber.SEQ, vbs))


def sign_raw(cfg, msg_with_marker):
    """sign a raw message containing the 12 marker octets exactly once (else returned with zeroes)"""
    i = msg_with_marker.find(MARK)
    if i < 0:
        return msg_with_marker
    z = msg_with_marker[:i] + bytes(12) + msg_with_marker[i + 12:]
    m = usm.mac96(cfg.auth, cfg.akey(), z)
    return msg_with_marker[:i] + m + msg_with_marker[i + 12:]


MARK = b"\xf5MACMACMAC\xf6\xf7"
assert len(MARK) == 12
SALT = b"\x00\x00\x00\x07mcmc"


class Builder:
    """datagrams for one probe; keeps the layering (inner scoped PDU / outer message) available"""

    def __init__(self, probe):
        self.p = probe
        self.cfg, self.req = probe.cfg, probe.req
        c = self.cfg
        self.disc = c.ver == "v3" and not c.given
        self.auth = c.auth if (c.ver == "v3" and not self.disc) else None
        self.priv = c.priv if (c.ver == "v3" and not self.disc) else None

    def inner(self, vbs, tag=ber.RESPONSE, err=0, idx=0):
        """innermost unit that carries the PDU: PDU for v1/v2c, scoped PDU for v3"""
        p = resp_pdu(self.req, vbs, tag, err, idx)
        if self.cfg.ver != "v3":
            return p
        return ber.tlv(ber.SEQ, ber.tlv(4, self.cfg.engine) + ber.tlv(4, b"") + p)

    def outer(self, inner):
        """wrap raw bytes `inner` (not necessarily well formed) into a complete, valid, signed message"""
        return self.finish(self.outer_tree(inner).enc())

    def outer_tree(self, inner, salt=SALT, boots=7, time=1000, cipher=None, flags=None, raw_data=None):
        """Node tree of the message around inner"""
        N = ber.Node
        c = self.cfg
        if c.ver != "v3":
            raw = N(0xA2)
            raw.raw = inner
            return N(0x30, kids=[N(2, bytes([c.mver])), N(4, c.community.encode()), raw])
        q = self.req
        data = N(0)
        if self.priv:
            ct = cipher if cipher is not None else usm.encrypt(self.priv, c.pkey(), boots, time, salt, inner)
            data = N(4, ct)
            pp = salt
        else:
            data.raw = inner
            pp = b""
        if raw_data is not None:
            data = N(0)
            data.raw = raw_data
        if flags is None:
            flags = (1 if self.auth else 0) | (2 if self.priv else 0)
        user = b"" if self.disc else c.user.encode()
        usm_n = N(0x30, kids=[N(4, c.engine), N(2, ber.int_content(boots)), N(2, ber.int_content(time)), N(4, user),
                              N(4, MARK if self.auth else b""), N(4, pp)])
        return N(0x30, kids=[
            N(2, b"\x03"),
            N(0x30, kids=[N(2, ber.int_content(q.msg_id)), N(2, b"\x00\xff\xe3"), N(4, bytes([flags])), N(2, b"\x03")]),
            N(4, kids=[usm_n]), data])

    def finish(self, raw):
        return sign_raw(self.cfg, raw) if self.auth else raw

    def seed(self, vbs, tag=ber.RESPONSE):
        return self.outer(self.inner(vbs, tag))
