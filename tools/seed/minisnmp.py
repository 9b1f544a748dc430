"""Stand-alone SNMP agent on the loopback, for the demonstrations."""
import hashlib
import hmac
import socket
import struct
import sys
import threading
import time

sys.dont_write_bytecode = True
sys.path.insert(0, "src")


# --- BER -------------------------------------------------------------------
def ln(n):
    if n < 128:
        return bytes([n])
    s = n.to_bytes((n.bit_length() + 7) // 8, "big")
    return bytes([0x80 | len(s)]) + s


def tlv(tag, body=b""):
    return bytes([tag]) + ln(len(body)) + body


def integer(n, tag=2):
    size = 1
    while not -(1 << (8 * size - 1)) <= n < 1 << (8 * size - 1):
        size += 1
    return tlv(tag, n.to_bytes(size, "big", signed=True))


def octets(b):
    return tlv(4, b.encode() if isinstance(b, str) else b)


def b128(n):
    out = [n & 0x7F]
    n >>= 7
    while n:
        out.insert(0, 0x80 | (n & 0x7F))
        n >>= 7
    return bytes(out)


def oid(text):
    a = [int(x) for x in text.split(".")]
    return tlv(6, b128(a[0] * 40 + a[1]) + b"".join(b128(x) for x in a[2:]))


NULL = b"\x05\x00"
NO_SUCH_OBJECT, NO_SUCH_INSTANCE, END_OF_MIB = b"\x80\x00", b"\x81\x00", b"\x82\x00"


def seq(*parts, tag=0x30):
    return tlv(tag, b"".join(parts))


def rd(d, p=0):
    """-> tag, content, position after"""
    tag, n, q = d[p], d[p + 1], p + 2
    if n & 0x80:
        k = n & 0x7F
        n = int.from_bytes(d[q:q + k], "big")
        q += k
    assert q + n <= len(d), "truncated element"
    return tag, d[q:q + n], q + n


def items(d):
    p, r = 0, []
    while p < len(d):
        t, c, p = rd(d, p)
        r.append((t, c))
    return r


def num(c):
    return int.from_bytes(c, "big", signed=True)


def oid_text(c):
    subs, acc = [], 0
    for x in c:
        acc = (acc << 7) | (x & 0x7F)
        if not x & 0x80:
            subs.append(acc)
            acc = 0
    f = min(subs[0] // 40, 2)
    return ".".join(map(str, [f, subs[0] - 40 * f] + subs[1:]))


# --- USM -------------------------------------------------------------------
def master(alg, password):
    n = 1048576
    return hashlib.new(alg, (password * (n // len(password) + 1))[:n]).digest()


def localize(alg, key, engine):
    return hashlib.new(alg, key + engine + key).digest()


def mac(alg, key, msg):
    return hmac.new(key, msg, alg).digest()[:12]


def _sbox():
    p = q = 1
    s = [0] * 256
    while True:
        p = p ^ ((p << 1) & 0xFF) ^ (0x1B if p & 0x80 else 0)
        q ^= q << 1
        q ^= q << 2
        q ^= q << 4
        q &= 0xFF
        if q & 0x80:
            q ^= 0x09
        x = q ^ ((q << 1) | (q >> 7)) ^ ((q << 2) | (q >> 6)) ^ ((q << 3) | (q >> 5)) ^ ((q << 4) | (q >> 4))
        s[p] = (x & 0xFF) ^ 0x63
        if p == 1:
            break
    s[0] = 0x63
    return s


SB = _sbox()


def aes_block(key, blk):
    w = [list(key[i:i + 4]) for i in range(0, 16, 4)]
    rc = 1
    for i in range(4, 44):
        t = list(w[i - 1])
        if i % 4 == 0:
            t = [SB[x] for x in t[1:] + t[:1]]
            t[0] ^= rc
            rc = (rc << 1) ^ (0x11B if rc & 0x80 else 0)
        w.append([a ^ b for a, b in zip(w[i - 4], t)])
    ks = [sum(w[4 * r:4 * r + 4], []) for r in range(11)]
    s = [a ^ b for a, b in zip(blk, ks[0])]
    for r in range(1, 11):
        s = [SB[x] for x in s]
        s = [s[(i + 4 * (i % 4)) % 16] for i in range(16)]
        if r < 10:
            o = []
            for c in range(0, 16, 4):
                a = s[c:c + 4]
                b = [(x << 1) ^ (0x11B if x & 0x80 else 0) for x in a]
                o += [b[i] ^ b[(i + 1) % 4] ^ a[(i + 1) % 4] ^ a[(i + 2) % 4] ^ a[(i + 3) % 4] for i in range(4)]
            s = o
        s = [a ^ b for a, b in zip(s, ks[r])]
    return bytes(s)


assert aes_block(bytes(range(16)), bytes(17 * i for i in range(16))).hex() == "69c4e0d86a7b0430d8cdb78070b4c55a"


def aes_cfb(key, iv, data, decrypt):
    out = b""
    for i in range(0, len(data), 16):
        x = bytes(a ^ b for a, b in zip(data[i:i + 16], aes_block(key, iv)))
        out += x
        iv = data[i:i + 16] if decrypt else x
    return out


_IP = [58 + 2 * r - 8 * c for r in (0, 1, 2, 3) for c in range(8)] + [57 + 2 * r - 8 * c for r in (0, 1, 2, 3) for c in range(8)]
_FP = [_IP.index(i + 1) + 1 for i in range(64)]
_E = [(4 * r + c - 1) % 32 + 1 for r in range(8) for c in range(6)]
_P = [16, 7, 20, 21, 29, 12, 28, 17, 1, 15, 23, 26, 5, 18, 31, 10, 2, 8, 24, 14, 32, 27, 3, 9, 19, 13, 30, 6, 22, 11, 4, 25]
_PC1 = [57, 49, 41, 33, 25, 17, 9, 1, 58, 50, 42, 34, 26, 18, 10, 2, 59, 51, 43, 35, 27, 19, 11, 3, 60, 52, 44, 36,
        63, 55, 47, 39, 31, 23, 15, 7, 62, 54, 46, 38, 30, 22, 14, 6, 61, 53, 45, 37, 29, 21, 13, 5, 28, 20, 12, 4]
_PC2 = [14, 17, 11, 24, 1, 5, 3, 28, 15, 6, 21, 10, 23, 19, 12, 4, 26, 8, 16, 7, 27, 20, 13, 2,
        41, 52, 31, 37, 47, 55, 30, 40, 51, 45, 33, 48, 44, 49, 39, 56, 34, 53, 46, 42, 50, 36, 29, 32]
_SBOX = [
    [14, 4, 13, 1, 2, 15, 11, 8, 3, 10, 6, 12, 5, 9, 0, 7, 0, 15, 7, 4, 14, 2, 13, 1, 10, 6, 12, 11, 9, 5, 3, 8,
     4, 1, 14, 8, 13, 6, 2, 11, 15, 12, 9, 7, 3, 10, 5, 0, 15, 12, 8, 2, 4, 9, 1, 7, 5, 11, 3, 14, 10, 0, 6, 13],
    [15, 1, 8, 14, 6, 11, 3, 4, 9, 7, 2, 13, 12, 0, 5, 10, 3, 13, 4, 7, 15, 2, 8, 14, 12, 0, 1, 10, 6, 9, 11, 5,
     0, 14, 7, 11, 10, 4, 13, 1, 5, 8, 12, 6, 9, 3, 2, 15, 13, 8, 10, 1, 3, 15, 4, 2, 11, 6, 7, 12, 0, 5, 14, 9],
    [10, 0, 9, 14, 6, 3, 15, 5, 1, 13, 12, 7, 11, 4, 2, 8, 13, 7, 0, 9, 3, 4, 6, 10, 2, 8, 5, 14, 12, 11, 15, 1,
     13, 6, 4, 9, 8, 15, 3, 0, 11, 1, 2, 12, 5, 10, 14, 7, 1, 10, 13, 0, 6, 9, 8, 7, 4, 15, 14, 3, 11, 5, 2, 12],
    [7, 13, 14, 3, 0, 6, 9, 10, 1, 2, 8, 5, 11, 12, 4, 15, 13, 8, 11, 5, 6, 15, 0, 3, 4, 7, 2, 12, 1, 10, 14, 9,
     10, 6, 9, 0, 12, 11, 7, 13, 15, 1, 3, 14, 5, 2, 8, 4, 3, 15, 0, 6, 10, 1, 13, 8, 9, 4, 5, 11, 12, 7, 2, 14],
    [2, 12, 4, 1, 7, 10, 11, 6, 8, 5, 3, 15, 13, 0, 14, 9, 14, 11, 2, 12, 4, 7, 13, 1, 5, 0, 15, 10, 3, 9, 8, 6,
     4, 2, 1, 11, 10, 13, 7, 8, 15, 9, 12, 5, 6, 3, 0, 14, 11, 8, 12, 7, 1, 14, 2, 13, 6, 15, 0, 9, 10, 4, 5, 3],
    [12, 1, 10, 15, 9, 2, 6, 8, 0, 13, 3, 4, 14, 7, 5, 11, 10, 15, 4, 2, 7, 12, 9, 5, 6, 1, 13, 14, 0, 11, 3, 8,
     9, 14, 15, 5, 2, 8, 12, 3, 7, 0, 4, 10, 1, 13, 11, 6, 4, 3, 2, 12, 9, 5, 15, 10, 11, 14, 1, 7, 6, 0, 8, 13],
    [4, 11, 2, 14, 15, 0, 8, 13, 3, 12, 9, 7, 5, 10, 6, 1, 13, 0, 11, 7, 4, 9, 1, 10, 14, 3, 5, 12, 2, 15, 8, 6,
     1, 4, 11, 13, 12, 3, 7, 14, 10, 15, 6, 8, 0, 5, 9, 2, 6, 11, 13, 8, 1, 4, 10, 7, 9, 5, 0, 15, 14, 2, 3, 12],
    [13, 2, 8, 4, 6, 15, 11, 1, 10, 9, 3, 14, 5, 0, 12, 7, 1, 15, 13, 8, 10, 3, 7, 4, 12, 5, 6, 11, 0, 14, 9, 2,
     7, 11, 4, 1, 9, 12, 14, 2, 0, 6, 10, 13, 15, 3, 5, 8, 2, 1, 14, 7, 4, 10, 8, 13, 15, 12, 9, 0, 3, 5, 6, 11],
]


def _perm(v, size, table):
    r = 0
    for t in table:
        r = (r << 1) | ((v >> (size - t)) & 1)
    return r


def des_block(key, blk, decrypt):
    k = _perm(int.from_bytes(key, "big"), 64, _PC1)
    c, d = k >> 28, k & 0xFFFFFFF
    ks = []
    for i in range(16):
        for _ in range(1 if i in (0, 1, 8, 15) else 2):
            c = ((c << 1) | (c >> 27)) & 0xFFFFFFF
            d = ((d << 1) | (d >> 27)) & 0xFFFFFFF
        ks.append(_perm((c << 28) | d, 56, _PC2))
    v = _perm(int.from_bytes(blk, "big"), 64, _IP)
    l, r = v >> 32, v & 0xFFFFFFFF
    for k in (reversed(ks) if decrypt else ks):
        x = _perm(r, 32, _E) ^ k
        f = 0
        for i in range(8):
            s = (x >> (42 - 6 * i)) & 0x3F
            f = (f << 4) | _SBOX[i][((s >> 4 & 2) | (s & 1)) * 16 + (s >> 1 & 15)]
        l, r = r, l ^ _perm(f, 32, _P)
    return _perm((r << 32) | l, 64, _FP).to_bytes(8, "big")


assert des_block(bytes.fromhex("133457799bbcdff1"), bytes.fromhex("0123456789abcdef"), False).hex() == "85e813540f0ab405"


def des_cbc(key, iv, data, decrypt):
    out = b""
    for i in range(0, len(data), 8):
        b = data[i:i + 8]
        if decrypt:
            out += bytes(x ^ y for x, y in zip(des_block(key, b, True), iv))
            iv = b
        else:
            iv = des_block(key, bytes(x ^ y for x, y in zip(b, iv)), False)
            out += iv
    return out


class Keys:
    """Credentials of an agent: passwords, master=True for master keys."""

    def __init__(self, engine=b"\x80\x00\x1f\x88\x04demo", user="user", auth=None, akey=None, priv=None, pkey=None):
        self.engine, self.user, self.auth, self.priv = engine, user, auth, priv
        self.akey = localize(auth, akey, engine) if auth else b""
        self.pkey = localize(auth, pkey, engine) if priv else b""

    def crypt(self, data, boots, tm, salt, decrypt):
        if self.priv == "des":
            iv = bytes(a ^ b for a, b in zip(self.pkey[8:16], salt))
            if not decrypt:
                data += bytes(-len(data) % 8)
            return des_cbc(self.pkey[:8], iv, data, decrypt)
        return aes_cfb(self.pkey[:16], struct.pack(">II", boots & 0xFFFFFFFF, tm & 0xFFFFFFFF) + salt, data, decrypt)


# --- messages --------------------------------------------------------------
class Msg:
    def __init__(self, d, keys=None):
        self.raw, self.keys = d, keys
        tag, c, end = rd(d)
        assert tag == 0x30 and end == len(d), "envelope"
        it = items(c)
        self.version = num(it[0][1])
        if self.version == 3:
            self.msg_id, self.max_size, flags, _ = [c for _, c in items(it[1][1])]
            self.msg_id, self.flags = num(self.msg_id), flags[0]
            eng, b, t, user, self.auth_params, self.salt = [c for _, c in items(rd(it[2][1])[1])]
            self.engine, self.boots, self.time, self.user = eng, num(b), num(t), user.decode()
            self.encrypted = it[3][0] == 4
            sc = it[3][1]
            if self.encrypted:
                sc = rd(keys.crypt(sc, self.boots, self.time, self.salt, True))[1]
            it = items(sc)
            self.ctx_engine = it[0][1]
        else:
            self.community = it[1][1]
        self.pdu = it[2][0]
        f = items(it[2][1])
        self.request_id, self.n1, self.n2 = (num(x) for _, x in f[:3])
        self.oids = [oid_text(items(v)[0][1]) for _, v in items(f[3][1])]

    def mac_ok(self):
        i = self.raw.index(b"\x04\x0c" + self.auth_params) + 2
        z = self.raw[:i] + bytes(12) + self.raw[i + 12:]
        return len(self.auth_params) == 12 and mac(self.keys.auth, self.keys.akey, z) == self.auth_params

    def reply(self, vbs, pdu=0xA2, err=0, idx=0, request_id=None, msg_id=None, community=None, user=None, engine=None,
              boots=7, tm=1000, flags=None, keys=None, sign=True, clear=False, salt=b"saltsalt", tail=b""):
        p = seq(integer(self.request_id if request_id is None else request_id), integer(err), integer(idx),
                seq(*[v if isinstance(v, bytes) else seq(oid(v[0]), v[1]) for v in vbs]), tag=pdu)
        if self.version != 3:
            return seq(integer(self.version), octets(self.community if community is None else community), p) + tail
        k = keys or self.keys or Keys()
        engine = k.engine if engine is None else engine
        user = self.user if user is None else user
        data = seq(octets(engine), octets(b""), p)
        enc = k.priv and not clear and self.encrypted
        if enc:
            data = octets(k.crypt(data, boots, tm, salt, False))
        if flags is None:
            flags = self.flags & 3
        auth = sign and flags & 1
        usm = [octets(engine), integer(boots), integer(tm), octets(user), octets(b"\xaa" * 12 if auth else b""),
               octets(salt if enc else b"")]
        m = seq(integer(3), seq(integer(self.msg_id if msg_id is None else msg_id), integer(65507), octets(bytes([flags])),
                                integer(3)), octets(seq(*usm)), data)
        if auth:
            i = m.index(b"\x04\x0c" + b"\xaa" * 12) + 2
            m = m[:i] + bytes(12) + m[i + 12:]
            m = m[:i] + mac(k.auth, k.akey, m) + m[i + 12:]
        return m + tail

    def report(self, keys, **kw):
        return self.reply([("1.3.6.1.6.3.15.1.1.4.0", integer(1, 0x41))], pdu=0xA8, engine=keys.engine, **kw)


class Agent:
    """Calls handler(datagram) -> None, bytes or a list of bytes and delays in seconds."""

    def __init__(self, handler):
        self.handler, self.log, self.times = handler, [], []
        self.sock = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        self.sock.bind(("127.0.0.1", 0))
        self.port = self.sock.getsockname()[1]
        self.error = None
        threading.Thread(target=self.run, daemon=True).start()

    def run(self):
        while True:
            d, a = self.sock.recvfrom(65535)
            self.times.append(time.perf_counter())
            self.log.append(d)
            try:
                r = self.handler(d)
            except BaseException as e:  # noqa: BLE001
                self.error = self.error or repr(e)
                continue
            for x in [r] if isinstance(r, bytes) else r or ():
                if isinstance(x, bytes):
                    self.sock.sendto(x, a)
                else:
                    time.sleep(x)


def responder(mib):
    """Conforming agent over {oid text: value TLV}."""
    key = lambda t: [int(x) for x in t.split(".")]  # noqa: E731
    names = sorted(mib, key=key)

    def nxt(o):
        return next((n for n in names if key(n) > key(o)), None)

    def handler(d, keys=None, cap=10**6):
        m = Msg(d, keys)
        vbs = []
        if m.pdu == 0xA0:
            vbs = [(o, mib.get(o, NO_SUCH_INSTANCE)) for o in m.oids]
        else:
            o = m.oids[0]
            for _ in range(1 if m.pdu == 0xA1 else min(cap, m.n2)):
                n = nxt(o)
                if n is None:
                    if m.version == 0:
                        return m.reply([(o, NULL)], err=2, idx=1)
                    vbs.append((o, END_OF_MIB))
                    break
                vbs.append((n, mib[n]))
                o = n
        return m.reply(vbs)

    return handler


def outcome(fn, *a, **kw):
    try:
        return fn(*a, **kw)
    except BaseException as e:  # noqa: BLE001
        return type(e).__name__.removeprefix("Py")


bad = []


def expect(what, got, want):
    if got != want or type(got) is not type(want):
        bad.append(what)
        print(f"FAIL {what}: got {got!r}, expected {want!r}")


def done():
    print("FAILED" if bad else "OK")
    sys.stdout.flush()
    import os
    os._exit(1 if bad else 0)
