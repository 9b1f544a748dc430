"""Exhaustive single / paired TLV-structural mutations of a Node tree."""
from . import ber

TAGS_SMALL = (0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x09, 0x0C, 0x0D, 0x1F, 0x24, 0x30, 0x31, 0x40, 0x41,
              0x42, 0x43, 0x44, 0x46, 0x47, 0x80, 0x81, 0x82, 0xA0, 0xA1, 0xA2, 0xA3, 0xA5, 0xA8, 0xC2, 0xDF, 0xFF)


def length_octets(n):
    """replacement length fields for a node whose content has n octets"""
    out = [bytes((x,)) for x in sorted({0, 1, 2, min(max(n - 1, 0), 127), min(n + 1, 127), min(n + 2, 127), 0x7F, 0x80})]
    out += [b"\x81", b"\x82\x00", b"\x81\x00", b"\x81" + bytes((n & 0xFF,)), b"\x81\xff", b"\x82\xff\xff",
            b"\x82" + n.to_bytes(2, "big"), b"\x82" + (n + 1).to_bytes(2, "big"), b"\x84" + n.to_bytes(4, "big"),
            b"\x84\xff\xff\xff\xff", b"\x84\x80\x00\x00\x00", b"\x88" + n.to_bytes(8, "big"), b"\x88" + b"\xff" * 8,
            b"\x88\x7f" + b"\xff" * 7, b"\x88\x80" + bytes(7), b"\x88" + b"\xff" * 7 + b"\xf0",
            b"\x89\x01" + n.to_bytes(8, "big"), b"\x89\x01" + bytes(8), b"\x89" + n.to_bytes(9, "big"),
            b"\x89\xff" + n.to_bytes(8, "big"), b"\x90" + (1 << 64 | n).to_bytes(16, "big"),
            b"\x8a\x01\x00" + n.to_bytes(8, "big"), b"\xfe" + b"\x00" * 3, b"\xff" + b"\xff" * 6,
            b"\xff" + bytes(119) + n.to_bytes(8, "big"), b"\x88" + ((1 << 64) - 2).to_bytes(8, "big"),
            b"\x88" + ((1 << 63) + n).to_bytes(8, "big")]
    return out


CONTENTS = (b"", b"\x00", b"\x01", b"\x7f", b"\x80", b"\xff", b"\x80\x00", b"\x00\xff", b"\xff" * 4, b"\x00" * 5,
            b"\xff" * 8, b"\x80" + b"\x00" * 7, b"\x00" + b"\xff" * 8, b"\xff" * 9, b"\x00" * 9, b"\x01" * 12,
            b"\x80" * 16, b"\xff" * 20, b"\x30\x00", b"\x30\x80", b"\x05\x00", b"\x06\x00", b"\x0d\x00",
            b"\x02\x01", b"\x04\x7f", b"\x1f", b"\x1f\x81", b"\x30\x02\x05\x00", b"\x1f\xff\xff\xff\xff\xff\x7f\x00")


def content_of(n):
    return n.content if n.kids is None else b"".join(k.enc() for k in n.kids)


def replacements(n, full=True):
    """(label, bytes replacing the encoded node)"""
    c = content_of(n)
    e = n.enc()
    yield "del", b""
    yield "dup", e + e
    for t in (range(256) if full else TAGS_SMALL):
        if t != n.tag:
            yield f"tag{t:02x}", bytes((t,)) + e[1:]
    for l in length_octets(len(c)):
        yield "len" + l[:12].hex(), bytes((n.tag,)) + l + c
    for x in CONTENTS:
        yield "con" + x.hex(), ber.tlv(n.tag, x)
    for k in range(len(c)):
        yield f"cut{k}", ber.tlv(n.tag, c[:k])
    for x in (b"\x00", b"\xff", b"\x05\x00", b"\x30", b"\x02\x01\x01"):
        yield "ext" + x.hex(), ber.tlv(n.tag, c + x)
    yield "hdr1", e[:1]
    yield "hdr2", e[:2]
    for t in (b"\x1f\x81\x00", b"\xbf\xff\x7f\x00", b"\x3f\x02\x00", b"\x1f\x81\x80\x80\x80\x80\x80\x80\x80\x80\x80\x01\x00"):
        yield "hi" + t.hex(), t + c


def few(n):
    """reduced set used for pairs"""
    c = content_of(n)
    e = n.enc()
    yield "del", b""
    yield "dup", e + e
    for t in (0x02, 0x05, 0x0D, 0x30, 0x82):
        if t != n.tag:
            yield f"tag{t:02x}", bytes((t,)) + e[1:]
    for l in (b"\x00", b"\x80", b"\x7f", b"\x88" + b"\xff" * 8, b"\x89\x01" + len(c).to_bytes(8, "big")):
        yield "len" + l.hex(), bytes((n.tag,)) + l + c
    for x in (b"", b"\x80", b"\xff" * 9):
        yield "con" + x.hex(), ber.tlv(n.tag, x)
    if c:
        yield "cut", ber.tlv(n.tag, c[:-1])
    yield "hdr1", e[:1]


def singles(tree, full=True, reps=replacements):
    """(label, encoded message) for every mutation of every node; outer lengths stay consistent"""
    for path, n in list(tree.walk()):
        if n.raw is not None:
            continue
        saved = n.raw
        for lab, b in (reps(n, full) if reps is replacements else reps(n)):
            n.raw = b
            yield f"{'.'.join(map(str, path))}:{lab}", tree.enc()
        n.raw = saved
        if n.kids and len(n.kids) > 1:
            for i in range(len(n.kids) - 1):
                k = n.kids
                k[i], k[i + 1] = k[i + 1], k[i]
                yield f"{'.'.join(map(str, path))}:swap{i}", tree.enc()
                k[i], k[i + 1] = k[i + 1], k[i]


def pairs(tree, part=0, parts=1, reps=few):
    """every pair of reduced mutations at two nodes neither of which contains the other"""
    nodes = [(p, n) for p, n in tree.walk() if n.raw is None]
    cnt = 0
    for i, (p, a) in enumerate(nodes):
        ra = list(reps(a))
        for q, b in nodes[i + 1:]:
            if q[:len(p)] == p:
                continue
            cnt += 1
            if cnt % parts != part:
                continue
            rb = list(reps(b))
            for la, xa in ra:
                a.raw = xa
                for lb, xb in rb:
                    b.raw = xb
                    yield f"{'.'.join(map(str, p))}:{la}+{'.'.join(map(str, q))}:{lb}", tree.enc()
                b.raw = None
            a.raw = None


def truncations(raw):
    for k in range(len(raw)):
        yield f"trunc{k}", raw[:k]


def bytes_subst(raw, values=range(256)):
    b = bytearray(raw)
    for i in range(len(b)):
        o = b[i]
        for v in values:
            if v != o:
                b[i] = v
                yield f"sub{i}={v:02x}", bytes(b)
        b[i] = o


def bytes_insdel(raw, values=(0x00, 0x02, 0x30, 0x7F, 0x80, 0x82, 0xFF)):
    for i in range(len(raw)):
        yield f"rm{i}", raw[:i] + raw[i + 1:]
    for i in range(len(raw) + 1):
        for v in values:
            yield f"ins{i}={v:02x}", raw[:i] + bytes((v,)) + raw[i:]
