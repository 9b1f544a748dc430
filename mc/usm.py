"""Independent USM crypto oracle (RFC 3414 / RFC 3826) on hashlib/hmac and mc_oracle (DES/AES)."""
import hashlib
import hmac as _hmac
from functools import lru_cache

import mc_oracle as _o

HASH = {"md5": hashlib.md5, "sha": hashlib.sha1}
DLEN = {"md5": 16, "sha": 20}


@lru_cache(maxsize=4096)
def master_key(alg, password):
    """RFC 3414 A.2.1/A.2.2: digest of exactly 2^20 octets of the repeated password"""
    n = 1 << 20
    buf = password * (n // len(password) + 1)
    return HASH[alg](buf[:n]).digest()


@lru_cache(maxsize=65536)
def localize(alg, master, engine_id):
    return HASH[alg](master + engine_id + master).digest()


def mac96(alg, key, msg):
    return _hmac.new(key, msg, HASH[alg]).digest()[:12]


def des_iv(key, salt):
    return bytes(a ^ b for a, b in zip(key[8:16], salt))


def encrypt(cipher, key, boots, time, salt, plain):
    if cipher == "des":
        if len(plain) % 8:
            plain = plain + bytes(8 - len(plain) % 8)
        return _o.des_cbc(key[:8], des_iv(key, salt), plain, False)
    iv = (boots & 0xFFFFFFFF).to_bytes(4, "big") + (time & 0xFFFFFFFF).to_bytes(4, "big") + salt
    return _o.aes_cfb(key[:16], iv, plain, False)


def decrypt(cipher, key, boots, time, salt, data):
    if cipher == "des":
        return _o.des_cbc(key[:8], des_iv(key, salt), data, True)
    iv = (boots & 0xFFFFFFFF).to_bytes(4, "big") + (time & 0xFFFFFFFF).to_bytes(4, "big") + salt
    return _o.aes_cfb(key[:16], iv, data, True)


# ---- second, pure Python implementation used only to validate the C one ------
def _py_aes_block(key, block):
    def xt(a):
        a <<= 1
        return (a ^ 0x11B) if a & 0x100 else a

    def mul(a, b):
        r = 0
        while b:
            if b & 1:
                r ^= a
            a = xt(a)
            b >>= 1
        return r

    sb = []
    for i in range(256):
        inv = next((j for j in range(256) if mul(i, j) == 1), 0)
        s = 0x63
        for k in range(5):
            s ^= ((inv << k) | (inv >> (8 - k))) & 0xFF
        sb.append(s)
    w = [list(key[4 * i:4 * i + 4]) for i in range(4)]
    rc = 1
    for i in range(4, 44):
        t = list(w[-1])
        if i % 4 == 0:
            t = [sb[x] for x in t[1:] + t[:1]]
            t[0] ^= rc
            rc = xt(rc)
        w.append([a ^ b for a, b in zip(w[i - 4], t)])
    st = [list(block[4 * c:4 * c + 4]) for c in range(4)]

    def ark(r):
        for c in range(4):
            for k in range(4):
                st[c][k] ^= w[4 * r + c][k]

    ark(0)
    for r in range(1, 11):
        ns = [[sb[st[(c + k) % 4][k]] for k in range(4)] for c in range(4)]
        if r < 10:
            ns = [[mul(col[k], 2) ^ mul(col[(k + 1) % 4], 3) ^ col[(k + 2) % 4] ^ col[(k + 3) % 4]
                   for k in range(4)] for col in ns]
        st[:] = ns
        ark(r)
    return bytes(x for c in st for x in c)


def self_test():
    h = bytes.fromhex
    # FIPS 197 appendix B / C.1, SP 800-38A F.3.13
    assert _o.aes_ecb(h("000102030405060708090a0b0c0d0e0f"), h("00112233445566778899aabbccddeeff")) == \
        h("69c4e0d86a7b0430d8cdb78070b4c55a")
    k = h("2b7e151628aed2a6abf7158809cf4f3c")
    p = h("6bc1bee22e409f96e93d7e117393172aae2d8a571e03ac9c9eb76fac45af8e51")
    c = _o.aes_cfb(k, bytes(range(16)), p, False)
    assert c == h("3b3fd92eb72dad20333449f8e83cfb4ac8a64537a0b3a93fcde3cdad9f1ce58b")
    assert _o.aes_cfb(k, bytes(range(16)), c, True) == p
    for i in range(8):
        kk, bb = hashlib.md5(b"k%d" % i).digest(), hashlib.md5(b"b%d" % i).digest()
        assert _o.aes_ecb(kk, bb) == _py_aes_block(kk, bb)
    # FIPS 81 CBC example; FIPS 46 / NBS SP 500-20 vectors
    d = _o.des_cbc(h("0123456789abcdef"), h("1234567890abcdef"), b"Now is the time for all ", False)
    assert d == h("e5c7cdde872bf27c43e934008c389c0f683788499a7c05f6")
    assert _o.des_cbc(h("0123456789abcdef"), h("1234567890abcdef"), d, True) == b"Now is the time for all "
    for kx, px, cx in (("0101010101010101", "8000000000000000", "95f8a5e5dd31d900"),
                       ("8001010101010101", "0000000000000000", "95a8d72813daa94d"),
                       ("7ca110454a1a6e57", "01a1d6d039776742", "690f5b0d9a26939b"),
                       ("10316e028c8f3b4a", "0000000000000000", "82dcbafbdeab6602")):
        assert _o.des_cbc(h(kx), bytes(8), h(px), False) == h(cx), kx
    # RFC 3414 A.3
    m = master_key("md5", b"maplesyrup")
    assert m == h("9faf3283884e92834ebc9847d8edd963")
    assert localize("md5", m, h("000000000000000000000002")) == h("526f5eed9fcce26f8964c2930787d82b")
    s = master_key("sha", b"maplesyrup")
    assert s == h("9fb5cc0381497b3793528939ff788d5d79145211")
    assert localize("sha", s, h("000000000000000000000002")) == h("6695febc9288e36282235fc7151f128497b38f3f")
    # RFC 2202
    assert mac96("md5", b"\x0b" * 16, b"Hi There") == h("9294727a3638bb1c13f48ef8158bfc9d")[:12]
    assert mac96("sha", b"\x0b" * 20, b"Hi There") == h("b617318655057264e28bc0b6fb378c8ef146be00")[:12]
