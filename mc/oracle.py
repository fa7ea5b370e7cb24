"""Independent references: OpenSSL and libgcrypt through ctypes, and plain
Python definitions for what those lack."""

import ctypes as C
import hashlib

_crypto = None
_gcry = None


def crypto():
    global _crypto
    if _crypto is None:
        c = C.CDLL("libcrypto.so.3")
        for n, r, a in [
            ("OSSL_PROVIDER_load", C.c_void_p, [C.c_void_p, C.c_char_p]),
            ("EVP_MD_fetch", C.c_void_p, [C.c_void_p, C.c_char_p, C.c_char_p]),
            ("EVP_MD_CTX_new", C.c_void_p, []),
            ("EVP_MD_CTX_free", None, [C.c_void_p]),
            ("EVP_DigestInit_ex", C.c_int, [C.c_void_p] * 3),
            ("EVP_DigestUpdate", C.c_int, [C.c_void_p, C.c_void_p, C.c_size_t]),
            ("EVP_DigestFinal_ex", C.c_int, [C.c_void_p] * 3),
            ("EVP_CIPHER_fetch", C.c_void_p, [C.c_void_p, C.c_char_p,
                                              C.c_char_p]),
            ("EVP_CIPHER_CTX_new", C.c_void_p, []),
            ("EVP_CIPHER_CTX_free", None, [C.c_void_p]),
            ("EVP_CIPHER_CTX_set_key_length", C.c_int, [C.c_void_p, C.c_int]),
            ("EVP_CIPHER_CTX_set_padding", C.c_int, [C.c_void_p, C.c_int]),
            ("EVP_CIPHER_CTX_ctrl", C.c_int, [C.c_void_p, C.c_int, C.c_int,
                                              C.c_void_p]),
            ("EVP_CipherInit_ex", C.c_int, [C.c_void_p] * 5 + [C.c_int]),
            ("EVP_CipherUpdate", C.c_int, [C.c_void_p, C.c_void_p, C.c_void_p,
                                           C.c_void_p, C.c_int]),
            ("EVP_CipherFinal_ex", C.c_int, [C.c_void_p] * 3),
        ]:
            f = getattr(c, n)
            f.restype, f.argtypes = r, a
        for p in (b"default", b"legacy"):
            if not c.OSSL_PROVIDER_load(None, p):
                raise RuntimeError("OpenSSL provider %r" % p)
        _crypto = c
    return _crypto


def gcry():
    global _gcry
    if _gcry is None:
        g = C.CDLL("libgcrypt.so.20")
        g.gcry_check_version.restype = C.c_char_p
        g.gcry_check_version.argtypes = [C.c_char_p]
        g.gcry_check_version(None)
        g.gcry_control(37, 0)  # GCRYCTL_DISABLE_SECMEM
        g.gcry_control(38, 0)  # GCRYCTL_INITIALIZATION_FINISHED
        g.gcry_md_hash_buffer.restype = None
        g.gcry_md_hash_buffer.argtypes = [C.c_int, C.c_void_p, C.c_void_p,
                                          C.c_size_t]
        for n, r, a in [
            ("gcry_cipher_open", C.c_uint, [C.c_void_p, C.c_int, C.c_int,
                                            C.c_uint]),
            ("gcry_cipher_close", None, [C.c_void_p]),
            ("gcry_cipher_setkey", C.c_uint, [C.c_void_p, C.c_void_p,
                                              C.c_size_t]),
            ("gcry_cipher_encrypt", C.c_uint, [C.c_void_p, C.c_void_p,
                                               C.c_size_t, C.c_void_p,
                                               C.c_size_t]),
            ("gcry_cipher_decrypt", C.c_uint, [C.c_void_p, C.c_void_p,
                                               C.c_size_t, C.c_void_p,
                                               C.c_size_t]),
            ("gcry_md_open", C.c_uint, [C.c_void_p, C.c_int, C.c_uint]),
            ("gcry_md_close", None, [C.c_void_p]),
            ("gcry_md_write", None, [C.c_void_p, C.c_void_p, C.c_size_t]),
            ("gcry_md_read", C.c_void_p, [C.c_void_p, C.c_int]),
        ]:
            f = getattr(g, n)
            f.restype, f.argtypes = r, a
        _gcry = g
    return _gcry


# -- hashes ----------------------------------------------------------------

class EvpHash:
    _md = {}

    def __init__(self, name, size):
        c = crypto()
        if name not in self._md:
            self._md[name] = c.EVP_MD_fetch(None, name.encode(), None)
            assert self._md[name], name
        self.ctx = c.EVP_MD_CTX_new()
        c.EVP_DigestInit_ex(self.ctx, self._md[name], None)
        self.size = size

    def update(self, data):
        crypto().EVP_DigestUpdate(self.ctx, data, len(data))

    def digest(self):
        out = C.create_string_buffer(64)
        crypto().EVP_DigestFinal_ex(self.ctx, out, None)
        crypto().EVP_MD_CTX_free(self.ctx)
        return out.raw[:self.size]


class GcryHash:
    def __init__(self, algo, size):
        self.h = C.c_void_p()
        assert gcry().gcry_md_open(C.byref(self.h), algo, 0) == 0
        self.algo, self.size = algo, size

    def update(self, data):
        gcry().gcry_md_write(self.h, data, len(data))

    def digest(self):
        r = C.string_at(gcry().gcry_md_read(self.h, self.algo), self.size)
        gcry().gcry_md_close(self.h)
        return r


def _md2_table():
    # RFC 1319 derives the table from the digits of pi (Durstenfeld shuffle).
    def digits():  # Gibbons' spigot for pi
        q, r, t, k, n, l = 1, 0, 1, 1, 3, 3
        while True:
            if 4 * q + r - t < n * t:
                yield n
                q, r, n = (10 * q, 10 * (r - n * t),
                           (10 * (3 * q + r)) // t - 10 * n)
            else:
                q, r, t, k, n, l = (q * k, (2 * q + r) * l, t * l, k + 1,
                                    (q * (7 * k + 2) + r * l) // (t * l),
                                    l + 2)
    g = digits()

    def rnd(n):
        x, y = next(g), 10
        if n > 10:
            x, y = x * 10 + next(g), 100
        if n > 100:
            x, y = x * 10 + next(g), 1000
        if x < n * (y // n):
            return x % n
        return rnd(n)
    s = list(range(256))
    for i in range(2, 257):
        j = rnd(i)
        s[j], s[i - 1] = s[i - 1], s[j]
    return bytes(s)


_md2s = None


def md2(msg):
    global _md2s
    if _md2s is None:
        _md2s = _md2_table()
    S = _md2s
    n = 16 - len(msg) % 16
    m = msg + bytes([n]) * n
    c = [0] * 16
    last = 0
    for i in range(0, len(m), 16):
        for j in range(16):
            c[j] ^= S[m[i + j] ^ last]
            last = c[j]
    m += bytes(c)
    x = [0] * 48
    for i in range(0, len(m), 16):
        for j in range(16):
            x[16 + j] = m[i + j]
            x[32 + j] = x[16 + j] ^ x[j]
        t = 0
        for j in range(18):
            for k in range(48):
                x[k] ^= S[t]
                t = x[k]
            t = (t + j) & 255
    return bytes(x[:16])


_RC = []


def _keccak_consts():
    r = 1
    for _ in range(24):
        v = 0
        for j in range(7):
            if r & 1:
                v |= 1 << ((1 << j) - 1)
            r = (r << 1) ^ (0x171 if r & 0x80 else 0)
        _RC.append(v)


_keccak_consts()
_M64 = (1 << 64) - 1


def keccak_f(a):
    """a: list of 25 lanes, index x + 5*y"""
    for rc in _RC:
        c = [a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20]
             for x in range(5)]
        d = [c[x - 1] ^ (((c[(x + 1) % 5] << 1) | (c[(x + 1) % 5] >> 63))
                         & _M64) for x in range(5)]
        a = [a[i] ^ d[i % 5] for i in range(25)]
        x, y, cur = 1, 0, a[1]
        b = a[:]
        for t in range(24):
            x, y = y, (2 * x + 3 * y) % 5
            n = ((t + 1) * (t + 2) // 2) % 64
            b[x + 5 * y], cur = ((cur << n) | (cur >> (64 - n))) & _M64, \
                a[x + 5 * y]
        a = [b[i] ^ (~b[(i + 1) % 5 + i // 5 * 5] &
                     b[(i + 2) % 5 + i // 5 * 5]) & _M64 for i in range(25)]
        a[0] ^= rc
    return a


def keccak(msg, rate, pad, outlen):
    m = bytearray(msg)
    m.append(pad)
    m += b"\0" * (-len(m) % rate)
    m[-1] |= 0x80
    a = [0] * 25
    for i in range(0, len(m), rate):
        for j in range(rate // 8):
            a[j] ^= int.from_bytes(m[i + 8 * j:i + 8 * j + 8], "little")
        a = keccak_f(a)
    out = b"".join(v.to_bytes(8, "little") for v in a)[:rate]
    while len(out) < outlen:
        a = keccak_f(a)
        out += b"".join(v.to_bytes(8, "little") for v in a)[:rate]
    return out[:outlen]


# name -> (output size, block size, one-shot function)
def _h(n):
    return lambda m: hashlib.new(n, m).digest()


def _evp(n, size):
    def f(m):
        h = EvpHash(n, size)
        h.update(m)
        return h.digest()
    return f


def _gost(m):
    out = C.create_string_buffer(32)
    gcry().gcry_md_hash_buffer(GOST94, out, m, len(m))
    return out.raw


GOST94 = 311  # GCRY_MD_GOSTR3411_CP


def _rmd(m):
    return _evp("RIPEMD160", 20)(m)


HASHES = {
    "BLAKE2B_160": (20, 128, lambda m: hashlib.blake2b(m, digest_size=20).digest()),
    "BLAKE2B_256": (32, 128, lambda m: hashlib.blake2b(m, digest_size=32).digest()),
    "BLAKE2B_384": (48, 128, lambda m: hashlib.blake2b(m, digest_size=48).digest()),
    "BLAKE2B_512": (64, 128, lambda m: hashlib.blake2b(m).digest()),
    "BLAKE2S_128": (16, 64, lambda m: hashlib.blake2s(m, digest_size=16).digest()),
    "BLAKE2S_160": (20, 64, lambda m: hashlib.blake2s(m, digest_size=20).digest()),
    "BLAKE2S_224": (28, 64, lambda m: hashlib.blake2s(m, digest_size=28).digest()),
    "BLAKE2S_256": (32, 64, lambda m: hashlib.blake2s(m).digest()),
    "GOST94": (32, 32, _gost),
    "HASH160": (20, 64, lambda m: _rmd(hashlib.sha256(m).digest())),
    "HASH256": (32, 64, lambda m: hashlib.sha256(hashlib.sha256(m).digest()).digest()),
    "KECCAK224": (28, 144, lambda m: keccak(m, 144, 1, 28)),
    "KECCAK256": (32, 136, lambda m: keccak(m, 136, 1, 32)),
    "KECCAK384": (48, 104, lambda m: keccak(m, 104, 1, 48)),
    "KECCAK512": (64, 72, lambda m: keccak(m, 72, 1, 64)),
    "MD2": (16, 16, md2),
    "MD4": (16, 64, _evp("MD4", 16)),
    "MD5": (16, 64, _h("md5")),
    "MD5SHA1": (36, 64, lambda m: hashlib.md5(m).digest() + hashlib.sha1(m).digest()),
    "RIPEMD160": (20, 64, _rmd),
    "SHA1": (20, 64, _h("sha1")),
    "SHA224": (28, 64, _h("sha224")),
    "SHA256": (32, 64, _h("sha256")),
    "SHA384": (48, 128, _h("sha384")),
    "SHA512": (64, 128, _h("sha512")),
    "SHA3_224": (28, 144, _h("sha3_224")),
    "SHA3_256": (32, 136, _h("sha3_256")),
    "SHA3_384": (48, 104, _h("sha3_384")),
    "SHA3_512": (64, 72, _h("sha3_512")),
    "SHAKE128": (16, 168, lambda m: hashlib.shake_128(m).digest(16)),
    "SHAKE256": (32, 136, lambda m: hashlib.shake_256(m).digest(32)),
    "WHIRLPOOL": (64, 64, _evp("whirlpool", 64)),
}


def hmac(name, key, msg):
    size, bs, h = HASHES[name]
    if len(key) > bs:
        key = h(key)
    key = key + b"\0" * (bs - len(key))
    inner = h(bytes(b ^ 0x36 for b in key) + msg)
    return h(bytes(b ^ 0x5c for b in key) + inner)
