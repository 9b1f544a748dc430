"""Every supported SNMP value type with boundary encodings and the Python value each denotes (X.690 / RFC 2578)."""
import struct
from fractions import Fraction

from . import ber
from .ber import tlv


def int_samples():
    """boundary INTEGERs of every content length 1..8"""
    s = set()
    for k in range(0, 64):
        for d in (-2, -1, 0, 1, 2):
            for v in ((1 << k) + d, -(1 << k) + d):
                if -(1 << 63) <= v < 1 << 63:
                    s.add(v)
    for n in range(1, 9):
        for pat in (0x55, 0xAA, 0x7F, 0x80, 0x01, 0xFE):
            s.add(int.from_bytes(bytes((pat,)) * n, "big", signed=True))
    for v in (0x0102030405060708, -0x0102030405060708, 1234567890123456789, -1234567890123456789):
        s.add(v)
    return sorted(s)


def uint_samples(bits):
    s = set()
    for k in range(0, bits + 1):
        for d in (-2, -1, 0, 1):
            v = (1 << k) + d
            if 0 <= v < 1 << bits:
                s.add(v)
    for n in range(1, bits // 8 + 1):
        for pat in (0x55, 0xAA, 0x01, 0xFE, 0x80):
            s.add(int.from_bytes(bytes((pat,)) * n, "big"))
    return sorted(v for v in s if v < 1 << bits)


def real_bin(sign, base, f, efmt, exp, mant_bytes):
    """content octets of a binary REAL; None when exp does not fit the exponent format"""
    b = {2: 0, 8: 1, 16: 2}[base]
    if efmt < 3:
        n = efmt + 1
        if not -(1 << (8 * n - 1)) <= exp < 1 << (8 * n - 1):
            return None
        e = exp.to_bytes(n, "big", signed=True)
        if n > 1 and ((e[0] == 0 and e[1] < 0x80) or (e[0] == 0xFF and e[1] >= 0x80)):
            pass  # BER permits a redundant two's complement exponent in formats 01 and 10
    else:
        e = ber.int_content(exp)
        e = bytes((len(e),)) + e
    return bytes((0x80 | (sign << 6) | (b << 4) | (f << 2) | efmt,)) + e + mant_bytes


def real_cases(full=False):
    """(label, content, float) - only values exactly representable as a double, so the answer is unambiguous"""
    inf = float("inf")
    yield "zero", b"", 0.0
    yield "inf", b"\x40", inf
    yield "ninf", b"\x41", -inf
    yield "nan", b"\x42", float("nan")
    yield "mzero", b"\x43", -0.0
    for s in ("0", "1", "456", "-456", "+456", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967296",
              "9007199254740992", "-9007199254740992", "1000000000000000000000", "007"):
        yield "NR1 " + s, b"\x01" + s.encode(), float(s)
    for s in ("0.0", "1.5", "-1.5", "+1.5", "456.7", "-456.7", "0.1", ".5", "5.", "123456789.125", "-0.25", "000.5"):
        yield "NR2 " + s, b"\x02" + s.encode(), float(s)
    for s in ("1E0", "1E+0", "15E-1", "-15E-1", "1.5E3", "1.5e3", "4567E-1", "1E308", "-1E-308", "+1.25E+2", "25.E-1",
              "1.0E+10", "0.0E0", "17E+05"):
        yield "NR3 " + s, b"\x03" + s.encode(), float(s)
    # leading spaces are part of the ISO 6093 field
    for nr, s in ((1, "  456"), (2, " 1.5"), (3, "  15E-1")):
        yield f"NR{nr} {s!r}", bytes((nr,)) + s.encode(), float(s)
    mants = [0, 1, 3, 5, 127, 128, 255, 256, 0x7FFF, 0x8000, 0xFFFFFF, 0x80000000, 0xFFFFFFFF, 0x100000000, (1 << 53) - 1]
    exps = [-1074, -1000, -129, -128, -127, -10, -2, -1, 0, 1, 2, 10, 127, 128, 200, 255, 256, 900] if full else \
        [-1000, -129, -128, -10, -1, 0, 1, 10, 127, 128, 200]
    for sign in (0, 1):
        for base, k in ((2, 1), (8, 3), (16, 4)):
            for f in (0, 1, 2, 3):
                for efmt in (0, 1, 2, 3):
                    for e in exps:
                        for m in mants:
                            v = Fraction(m) * Fraction(2) ** (f + k * e)
                            try:
                                x = float(v)
                            except OverflowError:
                                continue
                            if Fraction(x) != v or x in (inf, -inf):
                                continue
                            nb = max(1, (m.bit_length() + 7) // 8)
                            c = real_bin(sign, base, f, efmt, e, m.to_bytes(nb, "big"))
                            if c is None:
                                continue
                            if m == 0:
                                continue  # zero has its own encoding
                            yield f"bin s{sign} b{base} f{f} e{efmt}:{e} m{m}", c, (-x if sign else x)
                            if full or (m in (1, 5) and e in (-1, 0, 1)):
                                # leading zero octets of the mantissa are permitted in BER
                                c = real_bin(sign, base, f, efmt, e, b"\0" + m.to_bytes(nb, "big"))
                                yield f"bin0 s{sign} b{base} f{f} e{efmt}:{e} m{m}", c, (-x if sign else x)


SUBIDS = (0, 1, 39, 127, 128, 129, 255, 256, 16383, 16384, 16385, 2097151, 2097152, 268435455, 268435456, 2147483647,
          2147483648, 4294967294, 4294967295)


def oid_samples():
    out = []
    for a in (0, 1):
        for b in (0, 1, 3, 38, 39):
            out += [(a, b, 1), (a, b, 4294967295, 0)]
    for b in (0, 1, 39, 40, 47, 48, 79, 80, 127, 128, 175, 176, 999, 16303, 16304, 4294967215):
        out += [(2, b, 3), (2, b, 128, 5)]
    for s in SUBIDS:
        out += [(1, 3, s), (1, 3, 6, s, s), (1, 3, 6, 1, s, 0)]
    out.append((1, 3) + SUBIDS)
    out.append((1, 3) + tuple(range(100, 226)))
    out.append((1, 3, 6, 1) + (4294967295,) * 124)
    out.append((1, 3))
    return out


def cases(full=False):
    """(type, label, value TLV, python value)"""
    for b, v in ((0, False), (1, True), (0x7F, True), (0x80, True), (0xFF, True)):
        yield "bool", str(b), tlv(1, bytes((b,))), v
    for v in int_samples():
        yield "int", str(v), ber.integer(v), v
    for t, tag in (("c32", 0x41), ("g32", 0x42), ("tt", 0x43), ("u32", 0x47)):
        for v in uint_samples(32):
            yield t, str(v), tlv(tag, ber.int_content(v)), v
    for v in uint_samples(64):
        yield "c64", str(v), tlv(0x46, ber.int_content(v)), v
    for t, tag in (("octets", 4), ("opaque", 0x44)):
        for c in (b"", b"\x00", b"\xff", b"hello", b"\x30\x03\x02\x01\x05", bytes(range(256)), b"x" * 127, b"y" * 128,
                  b"z" * 255, b"w" * 256, b"\x00" * 1000, b"\xff\xfe" * 1500):
            yield t, f"{len(c)}:{c[:4].hex()}", tlv(tag, c), c
    for s in ("", "a", "desc riptor", "x" * 200, "nul\0", "\0nul", "\0", " sp ", "nl\n", "q\"q"):
        yield "odesc", s[:8], tlv(7, s.encode()), s.encode()
    for ip in ((0, 0, 0, 0), (127, 0, 0, 1), (255, 255, 255, 255), (10, 20, 30, 40), (1, 128, 0, 200)):
        yield "ip", str(ip), tlv(0x40, bytes(ip)), ".".join(map(str, ip))
    for o in oid_samples():
        yield "oid", ber.oid_text(o)[:60], ber.oid(o), ber.oid_text(o)
    for lab, c, v in real_cases(full):
        yield "real", lab, tlv(9, c), v


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        if a != a or b != b:
            return a != a and b != b
        return struct.pack(">d", a) == struct.pack(">d", b)
    return a == b
