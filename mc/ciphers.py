"""Reference block ciphers: OpenSSL and libgcrypt in ECB mode, Twofish from its
specification (libgcrypt has no 192-bit keys)."""

import ctypes as C

from . import oracle

# name -> (block size, admitted key lengths)
BLOCK = {
    "AES128": (16, [16]), "AES192": (16, [24]), "AES256": (16, [32]),
    "ARC2": (8, range(1, 129)), "ARC2_GUTMANN": (8, range(1, 129)),
    "ARC2_40": (8, [5]), "ARC2_64": (8, [8]), "ARC2_128": (8, [16]),
    "ARC2_128_GUTMANN": (8, [16]), "BLOWFISH": (8, range(1, 73)),
    "CAMELLIA128": (16, [16]), "CAMELLIA192": (16, [24]),
    "CAMELLIA256": (16, [32]), "CAST5": (8, [16]), "DES": (8, [8]),
    "DES_EDE": (8, [16]), "DES_EDE3": (8, [24]), "IDEA": (8, [16]),
    "SERPENT128": (16, [16]), "SERPENT192": (16, [24]),
    "SERPENT256": (16, [32]), "TWOFISH128": (16, [16]),
    "TWOFISH192": (16, [24]), "TWOFISH256": (16, [32]),
}

_EVP = {"AES128": b"AES-128-ECB", "AES192": b"AES-192-ECB",
        "AES256": b"AES-256-ECB", "BLOWFISH": b"BF-ECB",
        "CAMELLIA128": b"CAMELLIA-128-ECB", "CAMELLIA192": b"CAMELLIA-192-ECB",
        "CAMELLIA256": b"CAMELLIA-256-ECB", "CAST5": b"CAST5-ECB",
        "DES": b"DES-ECB", "DES_EDE": b"DES-EDE-ECB",
        "DES_EDE3": b"DES-EDE3-ECB"}
_GCRY = {"SERPENT128": 304, "SERPENT192": 305, "SERPENT256": 306,
         "TWOFISH128": 303, "TWOFISH256": 10, "IDEA": 1}
_fetched = {}


class Evp:
    def __init__(self, name, key, bits=None):
        c = oracle.crypto()
        if name not in _fetched:
            _fetched[name] = c.EVP_CIPHER_fetch(None, name, None)
            assert _fetched[name], name
        self.c = []
        for enc in (0, 1):
            x = c.EVP_CIPHER_CTX_new()
            assert c.EVP_CipherInit_ex(x, _fetched[name], None, None, None, enc)
            if name in (b"BF-ECB", b"RC2-ECB"):
                assert c.EVP_CIPHER_CTX_set_key_length(x, len(key)) == 1
            if bits is not None:
                assert c.EVP_CIPHER_CTX_ctrl(x, 3, bits, None) == 1
            assert c.EVP_CipherInit_ex(x, None, None, key, None, enc) == 1
            c.EVP_CIPHER_CTX_set_padding(x, 0)
            self.c.append(x)
        self.n = C.c_int()
        self.pn = C.byref(self.n)

    def run(self, enc, data):
        buf = C.create_string_buffer(len(data) + 32)
        assert oracle.crypto().EVP_CipherUpdate(self.c[enc], buf, self.pn, data,
                                                len(data)) == 1
        assert self.n.value == len(data)
        return buf.raw[:len(data)]

    def __del__(self):
        for x in self.c:
            oracle.crypto().EVP_CIPHER_CTX_free(x)


class Gcry:
    def __init__(self, algo, key):
        g = oracle.gcry()
        self.h = C.c_void_p()
        assert g.gcry_cipher_open(C.byref(self.h), algo, 1, 0) == 0
        # 43 = weak key notice, never given for these ciphers
        assert g.gcry_cipher_setkey(self.h, key, len(key)) == 0

    def run(self, enc, data):
        g = oracle.gcry()
        buf = C.create_string_buffer(len(data) + 1)
        f = g.gcry_cipher_encrypt if enc else g.gcry_cipher_decrypt
        assert f(self.h, buf, len(data), data, len(data)) == 0
        return buf.raw[:len(data)]

    def __del__(self):
        oracle.gcry().gcry_cipher_close(self.h)


# -- Twofish ---------------------------------------------------------------

_Q = [[[0x8, 0x1, 0x7, 0xD, 0x6, 0xF, 0x3, 0x2, 0x0, 0xB, 0x5, 0x9, 0xE, 0xC, 0xA, 0x4],
       [0xE, 0xC, 0xB, 0x8, 0x1, 0x2, 0x3, 0x5, 0xF, 0x4, 0xA, 0x6, 0x7, 0x0, 0x9, 0xD],
       [0xB, 0xA, 0x5, 0xE, 0x6, 0xD, 0x9, 0x0, 0xC, 0x8, 0xF, 0x3, 0x2, 0x4, 0x7, 0x1],
       [0xD, 0x7, 0xF, 0x4, 0x1, 0x2, 0x6, 0xE, 0x9, 0xB, 0x3, 0x0, 0x8, 0x5, 0xC, 0xA]],
      [[0x2, 0x8, 0xB, 0xD, 0xF, 0x7, 0x6, 0xE, 0x3, 0x1, 0x9, 0x4, 0x0, 0xA, 0xC, 0x5],
       [0x1, 0xE, 0x2, 0xB, 0x4, 0xC, 0x3, 0x7, 0x6, 0xD, 0xA, 0x5, 0xF, 0x9, 0x0, 0x8],
       [0x4, 0xC, 0x7, 0x5, 0x1, 0x6, 0x9, 0xA, 0x0, 0xE, 0xD, 0x8, 0x2, 0xB, 0x3, 0xF],
       [0xB, 0x9, 0x5, 0x1, 0xC, 0x3, 0xD, 0xE, 0x6, 0x4, 0x7, 0xF, 0x2, 0x0, 0x8, 0xA]]]


def _mkq(t):
    def ror4(x):
        return ((x >> 1) | (x << 3)) & 15
    out = []
    for x in range(256):
        a, b = x >> 4, x & 15
        a, b = a ^ b, (a ^ ror4(b) ^ (8 * a)) & 15
        a, b = t[0][a], t[1][b]
        a, b = a ^ b, (a ^ ror4(b) ^ (8 * a)) & 15
        a, b = t[2][a], t[3][b]
        out.append(16 * b + a)
    return out


_q0, _q1 = _mkq(_Q[0]), _mkq(_Q[1])


def _gm(a, b, p):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a <<= 1
        if a & 256:
            a ^= p
        b >>= 1
    return r


_MDS = [[0x01, 0xEF, 0x5B, 0x5B], [0x5B, 0xEF, 0xEF, 0x01],
        [0xEF, 0x5B, 0x01, 0xEF], [0xEF, 0x01, 0xEF, 0x5B]]
_RS = [[0x01, 0xA4, 0x55, 0x87, 0x5A, 0x58, 0xDB, 0x9E],
       [0xA4, 0x56, 0x82, 0xF3, 0x1E, 0xC6, 0x68, 0xE5],
       [0x02, 0xA1, 0xFC, 0xC1, 0x47, 0xAE, 0x3D, 0x19],
       [0xA4, 0x55, 0x87, 0x5A, 0x58, 0xDB, 0x9E, 0x03]]
_MT = [[sum(_gm(_MDS[r][c], x, 0x169) << (8 * r) for r in range(4))
        for x in range(256)] for c in range(4)]


def _h(x, L):
    y = [(x >> (8 * i)) & 255 for i in range(4)]
    k = len(L)
    l = [[(w >> (8 * i)) & 255 for i in range(4)] for w in L]
    if k == 4:
        y = [_q1[y[0]] ^ l[3][0], _q0[y[1]] ^ l[3][1], _q0[y[2]] ^ l[3][2],
             _q1[y[3]] ^ l[3][3]]
    if k >= 3:
        y = [_q1[y[0]] ^ l[2][0], _q1[y[1]] ^ l[2][1], _q0[y[2]] ^ l[2][2],
             _q0[y[3]] ^ l[2][3]]
    y = [_q1[_q0[_q0[y[0]] ^ l[1][0]] ^ l[0][0]],
         _q0[_q0[_q1[y[1]] ^ l[1][1]] ^ l[0][1]],
         _q1[_q1[_q0[y[2]] ^ l[1][2]] ^ l[0][2]],
         _q0[_q1[_q1[y[3]] ^ l[1][3]] ^ l[0][3]]]
    return _MT[0][y[0]] ^ _MT[1][y[1]] ^ _MT[2][y[2]] ^ _MT[3][y[3]]


_M = 0xffffffff


def _rol(x, n):
    return ((x << n) | (x >> (32 - n))) & _M


class Twofish:
    def __init__(self, key):
        k = len(key) // 8
        m = [int.from_bytes(key[4 * i:4 * i + 4], "little") for i in range(2 * k)]
        me, mo = m[0::2], m[1::2]
        s = []
        for i in range(k):
            w = 0
            for r in range(4):
                v = 0
                for c in range(8):
                    v ^= _gm(_RS[r][c], key[8 * i + c], 0x14D)
                w |= v << (8 * r)
            s.insert(0, w)
        self.K = []
        for i in range(20):
            a = _h(2 * i * 0x01010101, me)
            b = _rol(_h((2 * i + 1) * 0x01010101, mo), 8)
            self.K += [(a + b) & _M, _rol((a + 2 * b) & _M, 9)]
        # g(X) = h(X, S) splits into one table per input byte
        self.T = []
        base = _h(0, s)
        for p in range(4):
            self.T.append([_h(x << (8 * p), s) ^ (base if p else 0)
                           for x in range(256)])
        self.memo = {}

    def g(self, x):
        T = self.T
        return (T[0][x & 255] ^ T[1][(x >> 8) & 255] ^ T[2][(x >> 16) & 255]
                ^ T[3][x >> 24])

    def block(self, enc, b):
        K, g = self.K, self.g
        R = [int.from_bytes(b[4 * i:4 * i + 4], "little") for i in range(4)]
        if enc:
            R = [R[i] ^ K[i] for i in range(4)]
            for r in range(16):
                t0, t1 = g(R[0]), g(_rol(R[1], 8))
                f0 = (t0 + t1 + K[2 * r + 8]) & _M
                f1 = (t0 + 2 * t1 + K[2 * r + 9]) & _M
                R = [_rol(R[2] ^ f0, 31), _rol(R[3], 1) ^ f1, R[0], R[1]]
            R = [R[2] ^ K[4], R[3] ^ K[5], R[0] ^ K[6], R[1] ^ K[7]]
        else:
            R = [R[2] ^ K[6], R[3] ^ K[7], R[0] ^ K[4], R[1] ^ K[5]]
            for r in reversed(range(16)):
                t0, t1 = g(R[2]), g(_rol(R[3], 8))
                f0 = (t0 + t1 + K[2 * r + 8]) & _M
                f1 = (t0 + 2 * t1 + K[2 * r + 9]) & _M
                R = [R[2], R[3], _rol(R[0], 1) ^ f0, _rol(R[1] ^ f1, 31)]
            R = [R[i] ^ K[i] for i in range(4)]
        return b"".join(w.to_bytes(4, "little") for w in R)

    def run(self, enc, data):
        out = []
        for i in range(0, len(data), 16):
            b = (enc, data[i:i + 16])
            v = self.memo.get(b)
            if v is None:
                v = self.memo[b] = self.block(*b)
            out.append(v)
        return b"".join(out)


def make(name, key):
    """Reference object with run(enc, data) over whole blocks."""
    if name == "TWOFISH192":
        return Twofish(key)
    if name in _GCRY:
        return Gcry(_GCRY[name], key)
    if name.startswith("ARC2"):
        return Evp(b"RC2-ECB", key,
                   1024 if "GUTMANN" in name else 8 * len(key))
    return Evp(_EVP[name], key)


def arc2(key, ekb):
    return Evp(b"RC2-ECB", key, ekb)


def selftest():
    k = bytes(range(200, 232))
    d = bytes(range(64))
    for n, kl in (("TWOFISH128", 16), ("TWOFISH256", 32)):
        a, b = make(n, k[:kl]), Twofish(k[:kl])
        assert a.run(1, d) == b.run(1, d) and a.run(0, d) == b.run(0, d)
    # published 192-bit vector
    t = Twofish(bytes.fromhex("0123456789ABCDEFFEDCBA98765432100011223344556677"))
    assert t.run(1, bytes(16)).hex().upper() == "CFD1D2E5A9BE9CDF501F13B892BD2248"
    assert t.run(0, t.run(1, d)) == d


if __name__ == "__main__":
    selftest()
    for n, (bs, kls) in BLOCK.items():
        for kl in (kls[0], kls[-1]):
            k = bytes(range(1, kl + 1))
            m = make(n, k)
            d = bytes(range(16))
            assert m.run(0, m.run(1, d)) == d, n
            print(n, kl, m.run(1, d).hex())
