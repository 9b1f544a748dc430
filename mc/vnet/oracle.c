/* Independent DES-CBC and AES-128-CFB128 used as oracles.
 * Straight transcriptions of FIPS 46-3 and FIPS 197 (bit/byte level, no table tricks),
 * validated on published vectors by mc/crypto.py at start-up. */
#include <Python.h>
#include <stdint.h>
#include <string.h>

/* ---- DES (FIPS 46-3) -------------------------------------------------- */
static const uint8_t IP[64] = {58, 50, 42, 34, 26, 18, 10, 2, 60, 52, 44, 36, 28, 20, 12, 4, 62, 54, 46, 38, 30, 22,
                               14, 6,  64, 56, 48, 40, 32, 24, 16, 8, 57, 49, 41, 33, 25, 17, 9,  1,  59, 51, 43, 35,
                               27, 19, 11, 3,  61, 53, 45, 37, 29, 21, 13, 5, 63, 55, 47, 39, 31, 23, 15, 7};
static const uint8_t FP[64] = {40, 8,  48, 16, 56, 24, 64, 32, 39, 7,  47, 15, 55, 23, 63, 31, 38, 6,  46, 14, 54, 22,
                               62, 30, 37, 5,  45, 13, 53, 21, 61, 29, 36, 4,  44, 12, 52, 20, 60, 28, 35, 3,  43, 11,
                               51, 19, 59, 27, 34, 2,  42, 10, 50, 18, 58, 26, 33, 1,  41, 9,  49, 17, 57, 25};
static const uint8_t E[48] = {32, 1,  2,  3,  4,  5,  4,  5,  6,  7,  8,  9,  8,  9,  10, 11, 12, 13, 12, 13, 14, 15, 16, 17,
                              16, 17, 18, 19, 20, 21, 20, 21, 22, 23, 24, 25, 24, 25, 26, 27, 28, 29, 28, 29, 30, 31, 32, 1};
static const uint8_t P[32] = {16, 7, 20, 21, 29, 12, 28, 17, 1,  15, 23, 26, 5,  18, 31, 10,
                              2,  8, 24, 14, 32, 27, 3,  9,  19, 13, 30, 6,  22, 11, 4,  25};
static const uint8_t PC1[56] = {57, 49, 41, 33, 25, 17, 9,  1,  58, 50, 42, 34, 26, 18, 10, 2,  59, 51, 43,
                                35, 27, 19, 11, 3,  60, 52, 44, 36, 63, 55, 47, 39, 31, 23, 15, 7,  62, 54,
                                46, 38, 30, 22, 14, 6,  61, 53, 45, 37, 29, 21, 13, 5,  28, 20, 12, 4};
static const uint8_t PC2[48] = {14, 17, 11, 24, 1,  5,  3,  28, 15, 6,  21, 10, 23, 19, 12, 4,
                                26, 8,  16, 7,  27, 20, 13, 2,  41, 52, 31, 37, 47, 55, 30, 40,
                                51, 45, 33, 48, 44, 49, 39, 56, 34, 53, 46, 42, 50, 36, 29, 32};
static const uint8_t SH[16] = {1, 1, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 1};
static const uint8_t S[8][64] = {
    {14, 4, 13, 1, 2, 15, 11, 8, 3, 10, 6, 12, 5, 9, 0, 7, 0, 15, 7, 4, 14, 2, 13, 1, 10, 6, 12, 11, 9, 5, 3, 8,
     4, 1, 14, 8, 13, 6, 2, 11, 15, 12, 9, 7, 3, 10, 5, 0, 15, 12, 8, 2, 4, 9, 1, 7, 5, 11, 3, 14, 10, 0, 6, 13},
    {15, 1, 8, 14, 6, 11, 3, 4, 9, 7, 2, 13, 12, 0, 5, 10, 3, 13, 4, 7, 15, 2, 8, 14, 12, 0, 1, 10, 6, 9, 11, 5,
     0, 14, 7, 11, 10, 4, 13, 1, 5, 8, 12, 6, 9, 3, 2, 15, 13, 8, 10, 1, 3, 15, 4, 2, 11, 6, 7, 12, 0, 5, 14, 9},
    {10, 0, 9, 14, 6, 3, 15, 5, 1, 13, 12, 7, 11, 4, 2, 8, 13, 7, 0, 9, 3, 4, 6, 10, 2, 8, 5, 14, 12, 11, 15, 1,
     13, 6, 4, 9, 8, 15, 3, 0, 11, 1, 2, 12, 5, 10, 14, 7, 1, 10, 13, 0, 6, 9, 8, 7, 4, 15, 14, 3, 11, 5, 2, 12},
    {7, 13, 14, 3, 0, 6, 9, 10, 1, 2, 8, 5, 11, 12, 4, 15, 13, 8, 11, 5, 6, 15, 0, 3, 4, 7, 2, 12, 1, 10, 14, 9,
     10, 6, 9, 0, 12, 11, 7, 13, 15, 1, 3, 14, 5, 2, 8, 4, 3, 15, 0, 6, 10, 1, 13, 8, 9, 4, 5, 11, 12, 7, 2, 14},
    {2, 12, 4, 1, 7, 10, 11, 6, 8, 5, 3, 15, 13, 0, 14, 9, 14, 11, 2, 12, 4, 7, 13, 1, 5, 0, 15, 10, 3, 9, 8, 6,
     4, 2, 1, 11, 10, 13, 7, 8, 15, 9, 12, 5, 6, 3, 0, 14, 11, 8, 12, 7, 1, 14, 2, 13, 6, 15, 0, 9, 10, 4, 5, 3},
    {12, 1, 10, 15, 9, 2, 6, 8, 0, 13, 3, 4, 14, 7, 5, 11, 10, 15, 4, 2, 7, 12, 9, 5, 6, 1, 13, 14, 0, 11, 3, 8,
     9, 14, 15, 5, 2, 8, 12, 3, 7, 0, 4, 10, 1, 13, 11, 6, 4, 3, 2, 12, 9, 5, 15, 10, 11, 14, 1, 7, 6, 0, 8, 13},
    {4, 11, 2, 14, 15, 0, 8, 13, 3, 12, 9, 7, 5, 10, 6, 1, 13, 0, 11, 7, 4, 9, 1, 10, 14, 3, 5, 12, 2, 15, 8, 6,
     1, 4, 11, 13, 12, 3, 7, 14, 10, 15, 6, 8, 0, 5, 9, 2, 6, 11, 13, 8, 1, 4, 10, 7, 9, 5, 0, 15, 14, 2, 3, 12},
    {13, 2, 8, 4, 6, 15, 11, 1, 10, 9, 3, 14, 5, 0, 12, 7, 1, 15, 13, 8, 10, 3, 7, 4, 12, 5, 6, 11, 0, 14, 9, 2,
     7, 11, 4, 1, 9, 12, 14, 2, 0, 6, 10, 13, 15, 3, 5, 8, 2, 1, 14, 7, 4, 10, 8, 13, 15, 12, 9, 0, 3, 5, 6, 11}};

static uint64_t perm(uint64_t x, int inbits, const uint8_t *t, int n) {
    uint64_t r = 0;
    for (int i = 0; i < n; i++) r = (r << 1) | ((x >> (inbits - t[i])) & 1);
    return r;
}
static uint64_t ld(const uint8_t *b) {
    uint64_t r = 0;
    for (int i = 0; i < 8; i++) r = (r << 8) | b[i];
    return r;
}
static void st(uint8_t *b, uint64_t v) {
    for (int i = 7; i >= 0; i--) { b[i] = v & 0xff; v >>= 8; }
}
static void des_keys(const uint8_t *k, uint64_t ks[16]) {
    uint64_t x = perm(ld(k), 64, PC1, 56);
    uint32_t c = x >> 28, d = x & 0xfffffff;
    for (int i = 0; i < 16; i++) {
        c = ((c << SH[i]) | (c >> (28 - SH[i]))) & 0xfffffff;
        d = ((d << SH[i]) | (d >> (28 - SH[i]))) & 0xfffffff;
        ks[i] = perm(((uint64_t)c << 28) | d, 56, PC2, 48);
    }
}
static uint64_t des_block(uint64_t b, const uint64_t ks[16], int dec) {
    b = perm(b, 64, IP, 64);
    uint32_t l = b >> 32, r = (uint32_t)b;
    for (int i = 0; i < 16; i++) {
        uint64_t e = perm(r, 32, E, 48) ^ ks[dec ? 15 - i : i];
        uint32_t f = 0;
        for (int j = 0; j < 8; j++) {
            int v = (e >> (42 - 6 * j)) & 0x3f;
            int row = ((v >> 4) & 2) | (v & 1), col = (v >> 1) & 15;
            f = (f << 4) | S[j][row * 16 + col];
        }
        f = (uint32_t)perm(f, 32, P, 32);
        uint32_t t = l ^ f;
        l = r;
        r = t;
    }
    return perm(((uint64_t)r << 32) | l, 64, FP, 64);
}

/* ---- AES-128 (FIPS 197) ----------------------------------------------- */
static uint8_t sbox[256];
static uint8_t xt(uint8_t a) { return (a << 1) ^ ((a & 0x80) ? 0x1b : 0); }
static uint8_t gm(uint8_t a, uint8_t b) {
    uint8_t r = 0;
    while (b) {
        if (b & 1) r ^= a;
        a = xt(a);
        b >>= 1;
    }
    return r;
}
static void mk_sbox(void) {
    for (int i = 0; i < 256; i++) {
        uint8_t inv = 0;
        for (int j = 1; j < 256 && i; j++)
            if (gm(i, j) == 1) { inv = j; break; }
        uint8_t s = 0;
        for (int k = 0; k < 8; k++) {
            int bit = (inv >> k) ^ (inv >> ((k + 4) & 7)) ^ (inv >> ((k + 5) & 7)) ^ (inv >> ((k + 6) & 7)) ^
                      (inv >> ((k + 7) & 7)) ^ (0x63 >> k);
            s |= (bit & 1) << k;
        }
        sbox[i] = s;
    }
}
static void aes_keys(const uint8_t *k, uint8_t rk[176]) {
    memcpy(rk, k, 16);
    uint8_t rc = 1;
    for (int i = 16; i < 176; i += 4) {
        uint8_t t[4];
        memcpy(t, rk + i - 4, 4);
        if (i % 16 == 0) {
            uint8_t a = t[0];
            t[0] = sbox[t[1]] ^ rc;
            t[1] = sbox[t[2]];
            t[2] = sbox[t[3]];
            t[3] = sbox[a];
            rc = xt(rc);
        }
        for (int j = 0; j < 4; j++) rk[i + j] = rk[i + j - 16] ^ t[j];
    }
}
static void aes_block(const uint8_t in[16], uint8_t out[16], const uint8_t rk[176]) {
    uint8_t s[16], t[16];
    for (int i = 0; i < 16; i++) s[i] = in[i] ^ rk[i];
    for (int r = 1; r <= 10; r++) {
        for (int i = 0; i < 16; i++) t[i] = sbox[s[(i + 4 * (i % 4)) % 16]];
        if (r < 10)
            for (int c = 0; c < 4; c++) {
                uint8_t *a = t + 4 * c, *b = s + 4 * c;
                b[0] = xt(a[0]) ^ xt(a[1]) ^ a[1] ^ a[2] ^ a[3];
                b[1] = a[0] ^ xt(a[1]) ^ xt(a[2]) ^ a[2] ^ a[3];
                b[2] = a[0] ^ a[1] ^ xt(a[2]) ^ xt(a[3]) ^ a[3];
                b[3] = xt(a[0]) ^ a[0] ^ a[1] ^ a[2] ^ xt(a[3]);
            }
        else
            memcpy(s, t, 16);
        for (int i = 0; i < 16; i++) s[i] ^= rk[16 * r + i];
    }
    memcpy(out, s, 16);
}

static PyObject *des_cbc(PyObject *self, PyObject *args) {
    Py_buffer k, iv, d;
    int dec;
    if (!PyArg_ParseTuple(args, "y*y*y*p", &k, &iv, &d, &dec)) return NULL;
    PyObject *r = NULL;
    if (k.len != 8 || iv.len != 8 || d.len % 8)
        PyErr_SetString(PyExc_ValueError, "des: bad sizes");
    else {
        r = PyBytes_FromStringAndSize(NULL, d.len);
        uint8_t *o = (uint8_t *)PyBytes_AS_STRING(r);
        uint64_t ks[16], c = ld(iv.buf);
        des_keys(k.buf, ks);
        for (Py_ssize_t i = 0; i < d.len; i += 8) {
            uint64_t b = ld((uint8_t *)d.buf + i);
            if (dec) {
                st(o + i, des_block(b, ks, 1) ^ c);
                c = b;
            } else {
                c = des_block(b ^ c, ks, 0);
                st(o + i, c);
            }
        }
    }
    PyBuffer_Release(&k);
    PyBuffer_Release(&iv);
    PyBuffer_Release(&d);
    return r;
}
static PyObject *aes_cfb(PyObject *self, PyObject *args) {
    Py_buffer k, iv, d;
    int dec;
    if (!PyArg_ParseTuple(args, "y*y*y*p", &k, &iv, &d, &dec)) return NULL;
    PyObject *r = NULL;
    if (k.len != 16 || iv.len != 16)
        PyErr_SetString(PyExc_ValueError, "aes: bad sizes");
    else {
        r = PyBytes_FromStringAndSize(NULL, d.len);
        uint8_t *o = (uint8_t *)PyBytes_AS_STRING(r), rk[176], f[16], ks[16];
        const uint8_t *in = d.buf;
        aes_keys(k.buf, rk);
        memcpy(f, iv.buf, 16);
        for (Py_ssize_t i = 0; i < d.len; i += 16) {
            Py_ssize_t n = d.len - i < 16 ? d.len - i : 16;
            aes_block(f, ks, rk);
            for (Py_ssize_t j = 0; j < n; j++) {
                o[i + j] = in[i + j] ^ ks[j];
                f[j] = dec ? in[i + j] : o[i + j];
            }
        }
    }
    PyBuffer_Release(&k);
    PyBuffer_Release(&iv);
    PyBuffer_Release(&d);
    return r;
}
static PyObject *aes_ecb(PyObject *self, PyObject *args) {
    Py_buffer k, d;
    if (!PyArg_ParseTuple(args, "y*y*", &k, &d)) return NULL;
    PyObject *r = NULL;
    if (k.len != 16 || d.len != 16)
        PyErr_SetString(PyExc_ValueError, "aes: bad sizes");
    else {
        uint8_t rk[176];
        aes_keys(k.buf, rk);
        r = PyBytes_FromStringAndSize(NULL, 16);
        aes_block(d.buf, (uint8_t *)PyBytes_AS_STRING(r), rk);
    }
    PyBuffer_Release(&k);
    PyBuffer_Release(&d);
    return r;
}
static PyMethodDef M[] = {{"des_cbc", des_cbc, METH_VARARGS, "des_cbc(key, iv, data, decrypt)"},
                          {"aes_cfb", aes_cfb, METH_VARARGS, "aes_cfb(key, iv, data, decrypt)"},
                          {"aes_ecb", aes_ecb, METH_VARARGS, "aes_ecb(key, block)"},
                          {NULL, NULL, 0, NULL}};
static struct PyModuleDef mod = {PyModuleDef_HEAD_INIT, "mc_oracle", NULL, -1, M};
PyMODINIT_FUNC PyInit_mc_oracle(void) {
    mk_sbox();
    return PyModule_Create(&mod);
}
