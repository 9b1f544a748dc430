"""The crate's own decoders, encoders and buffer, reached without the wire (rust/rmc)."""
import ctypes
import importlib.machinery
import importlib.util
import os

from . import ber, probe, world
from .rmc_targets import ELEMENTS, LAYERS

_m = None


def load(ctx):
    global _m
    if _m is None:
        ld = importlib.machinery.ExtensionFileLoader("rmc", os.environ["MC_RMC"])
        _m = importlib.util.module_from_spec(importlib.util.spec_from_loader("rmc", ld))
        ld.exec_module(_m)
        _m.set_journal(ctypes.addressof(ctypes.c_char.from_buffer(ctx.mm)))
    return _m


TAG = {"bool": 1, "int": 2, "null": 5, "octets": 4, "oid": 6, "odesc": 7, "real": 9, "reloid": 13, "seq": 0x30,
       "ip": 0x40, "c32": 0x41, "g32": 0x42, "tt": 0x43, "opaque": 0x44, "c64": 0x46, "u32": 0x47}
MENU = (0x00, 0x01, 0x02, 0x04, 0x05, 0x06, 0x09, 0x0D, 0x1F, 0x30, 0x3F, 0x7F, 0x80, 0x81, 0x82, 0x84, 0x88, 0x89, 0xA2, 0xA8,
        0xFE, 0xFF)
ALL = bytes(range(256))


def replies(layer):
    """(label, message) - valid incoming units of the layer"""
    for lab, vbs in probe.vbs_corpus():
        tags = (ber.RESPONSE, ber.REPORT) if lab in ("int", "two", "empty") else (ber.RESPONSE,)
        for tag in tags:
            p = world.pdu(tag, 0x01020304, vbs)
            yield f"{lab}/{tag:02x}", wrap(layer, p)


def wrap(layer, p, cfg=None):
    if layer == "pdu":
        return p
    if layer == "scoped":
        return world.scoped(world.ENGINE, p)
    if layer == "v3":
        return world.v3_msg(cfg or world.v3("md5"), p, 0x01020304)
    return world.community_msg({"v1": 0, "v2c": 1}[layer], b"public", p)


def usm_units():
    for eng in (b"", world.ENGINE):
        for boots, t in ((0, 0), (7, 1000), (2147483647, 2147483647)):
            for user in (b"", b"u"):
                for ap in (b"", bytes(12)):
                    for pp in (b"", bytes(8)):
                        yield (f"{len(eng)}/{boots}/{len(ap)}/{len(pp)}",
                               ber.seq(ber.tlv(4, eng), ber.integer(boots), ber.integer(t), ber.tlv(4, user),
                                       ber.tlv(4, ap), ber.tlv(4, pp)))


def requests(layer):
    """(label, message): request units, built by the independent minimal encoder"""
    o = (1, 3, 6, 1, 2, 1, 1, 0)
    for lab, tag, f1, f2, oids in (("get0", ber.GET, 0, 0, []), ("get", ber.GET, 0, 0, [o]),
                                   ("next", ber.GETNEXT, 0, 0, [o]), ("bulk", ber.GETBULK, 0, 20, [o])):
        b = ber.tlv(tag, ber.integer(77) + ber.integer(f1) + ber.integer(f2) + ber.seq(*[ber.seq(ber.oid(x), ber.NULL_TLV) for x in oids]))
        yield lab, wrap(layer, b)


def seeds(target):
    from . import values
    if target == "usm":
        return list(usm_units())
    if target in LAYERS:
        return list(replies(target)) + list(requests(target))
    if target == "value":
        return [(n, v) for n, v in probe.value_corpus()]
    if target == "header":
        return [("short", b"\x02\x01\x05"), ("long", b"\x30\x82\x00\x03\x02\x01\x05"), ("hi", b"\x1f\x81\x01\x02ab")]
    if target == "option":
        return [("opt", b"\xa0\x03\x02\x01\x05")]
    out = [(n, v) for n, v in probe.value_corpus() if v[0] == TAG[target]]
    if target == "reloid":
        out = [("rel", b"\x0d\x03\x01\x81\x00")]
    if target == "seq":
        out = [("seq", b"\x30\x03\x02\x01\x05")]
    return out


def run_totality(ctx, task):
    """no decoder panics, whatever the octets are (C01)"""
    m = load(ctx)
    target, part, parts = task["target"], task["part"], task["parts"]

    def done(what, r):
        n, ok, bad = r
        ctx.evals += n
        ctx.nontrivial += ok
        ctx.note("rmc_accepted", ok)
        ctx.note("rmc_refused", n - ok)
        if bad:
            ctx.violation(f"decoder of {target}: {bad[1]}", f"rmc {target} {what}: {bytes(bad[0]).hex()}")
        ctx.state((target, what))

    pairs_max = 60 if ctx.full else 26
    for lab, s in seeds(target):
        if len(s) > 300:
            continue
        done("mutations of " + lab, m.mutations(target, s, bytes(MENU), part, parts, len(s) <= pairs_max))
    ctx.sample(f"rmc {target}: truncations, octet substitutions (all 256), insertions, deletions, octet pairs over "
               f"{len(MENU)} values of {len(list(seeds(target)))} seeds")
    if target in LAYERS:
        done("strings", m.strings(target, b"\x30", ALL, 2, part, parts))
        done("strings", m.strings(target, b"", bytes(MENU[::2]), 5, part, parts))
        if ctx.full:
            done("strings", m.strings(target, b"", ALL, 3, part, parts))
    else:
        done("strings", m.strings(target, b"", ALL, 3 if (ctx.full or target in ("value", "header")) else 2, part, parts))
        al = bytes(MENU)
        done("strings", m.strings(target, b"", al, 5 if ctx.full else 4, part, parts))
        if target in TAG:
            t = bytes((TAG[target],))
            for n in (1, 2) + ((3,) if ctx.full or target in ("real", "oid", "reloid") else ()):
                done(f"contents of {n} octets", m.strings(target, t + bytes((n,)), ALL, n, part, parts))
            for n in (4, 5):
                done(f"contents of {n} octets", m.strings(target, t + bytes((n,)), al, n if ctx.full else 4, part, parts))
        if ctx.full and target in ("header", "value"):
            done("strings of 4", m.strings(target, b"", ALL, 4, part, parts))


def run_values(ctx, task):
    """values decoded from their encoding, whatever follows (C02)"""
    from . import values
    m = load(ctx)
    tails = (b"", b"\x00", b"\xff" * 9, b"\x02\x01\x05")
    n = 0
    for typ, lab, t, v in values.cases(ctx.full):
        n += 1
        if n % task["parts"] != task["part"]:
            continue
        want = "Null" if v is None else repr(v)
        for tail in tails:
            st, rest, text = m.dec("value", t, tail)
            ctx.evals += 1
            ctx.nontrivial += 1
            if (st, rest, text) != ("ok", len(tail), want):
                ctx.violation(f"{typ} {lab}: decoded as {st} {text[:100]} ({rest} octets left of {len(tail)}) instead of {want[:100]}",
                              f"rmc value {t.hex()} tail {tail.hex()}", key=f"rmc {typ} {lab}")
    lim = 3 if not ctx.full else 4
    for k in range(1, lim + 1):
        r, bad = m.int_contents(b"", k, task["part"], task["parts"])
        ctx.evals += r
        ctx.nontrivial += r
        if bad:
            ctx.violation("INTEGER " + bad, f"rmc int_contents {k}", key="rmc INTEGER")
    for k in range(3, 8):
        for pre in (0x00, 0x01, 0x7F, 0x80, 0xFE, 0xFF):
            for fill in (0x00, 0x7F, 0x80, 0xFF):
                r, bad = m.int_contents(bytes((pre,)) + bytes((fill,)) * (k - 2), 2, task["part"], task["parts"])
                ctx.evals += r
                if bad:
                    ctx.violation("INTEGER " + bad, f"rmc int_contents {k}", key="rmc INTEGER")
    ctx.sample(f"rmc: all INTEGER contents of 1..{lim} octets and every value case with {len(tails)} kinds of following octets")
