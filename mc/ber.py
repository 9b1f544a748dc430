"""Independent BER encoder / strict decoder (X.690 definite form). Shares no code with /repo."""
from functools import lru_cache

INT, BITS, OCTETS, NULL, OID, ODESC, REAL, RELOID, SEQ = 2, 3, 4, 5, 6, 7, 9, 13, 0x30
BOOL, UTF8 = 1, 12
IPADDR, COUNTER32, GAUGE32, TIMETICKS, OPAQUE, NSAP, COUNTER64, UINT32 = (
    0x40, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47)
NO_OBJECT, NO_INSTANCE, END_OF_MIB = 0x80, 0x81, 0x82
GET, GETNEXT, RESPONSE, SET, TRAPV1, GETBULK, INFORM, TRAPV2, REPORT = (
    0xA0, 0xA1, 0xA2, 0xA3, 0xA4, 0xA5, 0xA6, 0xA7, 0xA8)


def length(n, form=0):
    """form 0: minimal; k>0: long form with (at least) k octets."""
    if form == 0:
        if n < 128:
            return bytes((n,))
        k = (n.bit_length() + 7) // 8
        return bytes((0x80 | k,)) + n.to_bytes(k, "big")
    form = max(form, (n.bit_length() + 7) // 8)
    return bytes((0x80 | form,)) + n.to_bytes(form, "big")


def tlv(tag, content=b"", form=0):
    n = len(content)
    if form == 0 and n < 128:
        return bytes((tag, n)) + content
    return bytes((tag,)) + length(n, form) + content


def int_content(v):
    n = 1
    while not -(1 << (8 * n - 1)) <= v < (1 << (8 * n - 1)):
        n += 1
    return v.to_bytes(n, "big", signed=True)


def integer(v, tag=INT):
    return tlv(tag, int_content(v))


def unsigned_content(v):
    """minimal INTEGER-style content of a non-negative number (leading zero when the top bit is set)"""
    return int_content(v)


def b128(v):
    out = [v & 0x7F]
    v >>= 7
    while v:
        out.append(0x80 | (v & 0x7F))
        v >>= 7
    return bytes(reversed(out))


@lru_cache(maxsize=200000)
def oid_content(arcs):
    """arcs: tuple of ints, at least two"""
    out = b128(arcs[0] * 40 + arcs[1])
    for a in arcs[2:]:
        out += b128(a)
    return out


@lru_cache(maxsize=200000)
def oid(arcs):
    return tlv(OID, oid_content(arcs))


def oid_text(arcs):
    return ".".join(map(str, arcs))


@lru_cache(maxsize=200000)
def parse_text(s):
    return tuple(int(x) for x in s.split("."))


def oid_arcs(content):
    """content octets -> arcs (X.690 8.19); raises ValueError"""
    subs, v, more = [], 0, False
    for b in content:
        if not more and b == 0x80:
            raise ValueError("non-minimal sub-identifier")
        v = (v << 7) | (b & 0x7F)
        more = bool(b & 0x80)
        if not more:
            subs.append(v)
            v = 0
    if more or not subs:
        raise ValueError("truncated OID")
    f = subs[0]
    first = min(f // 40, 2)
    return (first, f - 40 * first, *subs[1:])


def seq(*parts, tag=SEQ, form=0):
    return tlv(tag, b"".join(parts), form)


NULL_TLV = b"\x05\x00"


# ---- strict decoder ---------------------------------------------------------
class BerError(ValueError):
    pass


def rd(data, pos, end, strict=True):
    """-> (tag, content_start, content_end); strict = minimal definite lengths, low tag numbers"""
    if pos + 2 > end:
        raise BerError("short header")
    tag = data[pos]
    if tag & 0x1F == 0x1F:
        raise BerError("high tag")
    ln = data[pos + 1]
    p = pos + 2
    if ln & 0x80:
        k = ln & 0x7F
        if k == 0 or p + k > end:
            raise BerError("bad length")
        n = int.from_bytes(data[p:p + k], "big")
        if strict and (n < 128 or data[p] == 0):
            raise BerError("non-minimal length")
        p += k
        ln = n
    if p + ln > end:
        raise BerError("content runs past the end")
    return tag, p, p + ln


def rd_int(data, s, e, strict=True):
    if e <= s:
        raise BerError("empty INTEGER")
    if strict and e - s > 1 and ((data[s] == 0 and data[s + 1] < 0x80) or (data[s] == 0xFF and data[s + 1] >= 0x80)):
        raise BerError("non-minimal INTEGER")
    return int.from_bytes(data[s:e], "big", signed=True)


class R:
    """strict sequential reader"""

    __slots__ = ("d", "p", "e", "strict")

    def __init__(self, d, p=0, e=None, strict=True):
        self.d, self.p, self.e, self.strict = d, p, len(d) if e is None else e, strict

    def enter(self, tag):
        t, s, e = rd(self.d, self.p, self.e, self.strict)
        if t != tag:
            raise BerError(f"expected tag {tag:#x}, found {t:#x}")
        self.p = e
        return R(self.d, s, e, self.strict)

    def any(self):
        t, s, e = rd(self.d, self.p, self.e, self.strict)
        self.p = e
        return t, self.d[s:e]

    def peek(self):
        return self.d[self.p] if self.p < self.e else None

    def int(self):
        t, s, e = rd(self.d, self.p, self.e, self.strict)
        if t != INT:
            raise BerError("INTEGER expected")
        self.p = e
        return rd_int(self.d, s, e, self.strict)

    def octets(self):
        t, c = self.any()
        if t != OCTETS:
            raise BerError("OCTET STRING expected")
        return c

    def rest(self):
        return self.d[self.p:self.e]

    def done(self):
        if self.p != self.e:
            raise BerError("trailing octets")

    def empty(self):
        return self.p == self.e


# ---- TLV trees for structural mutation --------------------------------------
class Node:
    """TLV node; constructed nodes (and OCTET STRINGs given explicit children) have kids"""

    __slots__ = ("tag", "content", "kids", "form", "fake_len", "raw")

    def __init__(self, tag, content=b"", kids=None, form=0):
        self.tag, self.content, self.kids, self.form = tag, content, kids, form
        self.fake_len = None  # bytes replacing the length octets
        self.raw = None  # bytes replacing the whole node

    def enc(self):
        if self.raw is not None:
            return self.raw
        c = self.content if self.kids is None else b"".join(k.enc() for k in self.kids)
        if self.fake_len is not None:
            return bytes((self.tag,)) + self.fake_len + c
        return tlv(self.tag, c, self.form)

    def walk(self, path=()):
        yield path, self
        if self.kids is not None:
            for i, k in enumerate(self.kids):
                yield from k.walk(path + (i,))

    def at(self, path):
        n = self
        for i in path:
            n = n.kids[i]
        return n

    def copy(self):
        n = Node(self.tag, self.content, None if self.kids is None else [k.copy() for k in self.kids], self.form)
        n.fake_len, n.raw = self.fake_len, self.raw
        return n


def tree(data, dig_octets=False):
    """parse exactly one TLV into a Node tree (constructed tags are descended into)"""
    n, p = _tree(data, 0, len(data), dig_octets)
    if p != len(data):
        raise BerError("trailing octets")
    return n


def _tree(d, p, e, dig):
    t, s, ce = rd(d, p, e, False)
    if t & 0x20:
        kids, q = [], s
        while q < ce:
            k, q = _tree(d, q, ce, dig)
            kids.append(k)
        return Node(t, b"", kids), ce
    if dig and t == OCTETS and ce > s and d[s] == 0x30:
        try:
            return Node(t, b"", [tree(d[s:ce], dig)]), ce
        except BerError:
            pass
    return Node(t, d[s:ce]), ce
