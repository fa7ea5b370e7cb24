"""ChaCha20, Salsa20, ARC4, Poly1305, SipHash and MurmurHash3 from their
definitions."""

import functools
import struct

M = 0xffffffff


def rol(x, n):
    return ((x << n) | (x >> (32 - n))) & M


def _cq(x, a, b, c, d):
    x[a] = (x[a] + x[b]) & M
    x[d] = rol(x[d] ^ x[a], 16)
    x[c] = (x[c] + x[d]) & M
    x[b] = rol(x[b] ^ x[c], 12)
    x[a] = (x[a] + x[b]) & M
    x[d] = rol(x[d] ^ x[a], 8)
    x[c] = (x[c] + x[d]) & M
    x[b] = rol(x[b] ^ x[c], 7)


def _sq(x, a, b, c, d):
    x[b] ^= rol((x[a] + x[d]) & M, 7)
    x[c] ^= rol((x[b] + x[a]) & M, 9)
    x[d] ^= rol((x[c] + x[b]) & M, 13)
    x[a] ^= rol((x[d] + x[c]) & M, 18)


def _consts(key):
    c = b"expand 32-byte k" if len(key) == 32 else b"expand 16-byte k"
    k = key if len(key) == 32 else key + key
    return struct.unpack("<4I", c), struct.unpack("<8I", k)


def chacha_rounds(s):
    x = list(s)
    for _ in range(10):
        _cq(x, 0, 4, 8, 12)
        _cq(x, 1, 5, 9, 13)
        _cq(x, 2, 6, 10, 14)
        _cq(x, 3, 7, 11, 15)
        _cq(x, 0, 5, 10, 15)
        _cq(x, 1, 6, 11, 12)
        _cq(x, 2, 7, 8, 13)
        _cq(x, 3, 4, 9, 14)
    return x


def salsa_rounds(s):
    x = list(s)
    for _ in range(10):
        _sq(x, 0, 4, 8, 12)
        _sq(x, 5, 9, 13, 1)
        _sq(x, 10, 14, 2, 6)
        _sq(x, 15, 3, 7, 11)
        _sq(x, 0, 1, 2, 3)
        _sq(x, 5, 6, 7, 4)
        _sq(x, 10, 11, 8, 9)
        _sq(x, 15, 12, 13, 14)
    return x


@functools.lru_cache(maxsize=200000)
def chacha_block(key, tail):
    """tail: the last sixteen bytes of the state (counter and nonce)"""
    c, k = _consts(key)
    s = list(c) + list(k) + list(struct.unpack("<4I", tail))
    x = chacha_rounds(s)
    return struct.pack("<16I", *((a + b) & M for a, b in zip(x, s)))


def _salsa_state(key, n16):
    c, k = _consts(key)
    n = struct.unpack("<4I", n16)
    return [c[0], k[0], k[1], k[2], k[3], c[1], n[0], n[1], n[2], n[3], c[2],
            k[4], k[5], k[6], k[7], c[3]]


@functools.lru_cache(maxsize=200000)
def salsa_block(key, n16):
    s = _salsa_state(key, n16)
    x = salsa_rounds(s)
    return struct.pack("<16I", *((a + b) & M for a, b in zip(x, s)))


def hchacha(key, n16):
    c, k = _consts(key)
    x = chacha_rounds(list(c) + list(k) + list(struct.unpack("<4I", n16)))
    return struct.pack("<8I", *(x[i] for i in (0, 1, 2, 3, 12, 13, 14, 15)))


def hsalsa(key, n16):
    x = salsa_rounds(_salsa_state(key, n16))
    return struct.pack("<8I", *(x[i] for i in (0, 5, 10, 15, 6, 7, 8, 9)))


def chacha_stream(key, nonce, counter, n):
    if len(nonce) >= 24:
        key, nonce = hchacha(key, nonce[:16]), nonce[16:]
    if len(nonce) == 8:
        ctr, rest, w = counter, nonce, 8
    elif len(nonce) == 12:
        ctr, rest, w = counter, nonce, 4
    else:
        ctr, rest, w = int.from_bytes(nonce[:8], "little"), nonce[8:], 8
    out = b""
    while len(out) < n:
        out += chacha_block(key, (ctr % (1 << (8 * w))).to_bytes(w, "little")
                            + rest)
        ctr += 1
    return out[:n]


def salsa_stream(key, nonce, counter, n):
    if len(nonce) >= 24:
        key, nonce = hsalsa(key, nonce[:16]), nonce[16:]
    if len(nonce) == 16:
        counter = int.from_bytes(nonce[8:], "little")
        nonce = nonce[:8]
    out = b""
    while len(out) < n:
        out += salsa_block(key, nonce + (counter % (1 << 64)).to_bytes(8,
                                                                       "little"))
        counter += 1
    return out[:n]


def rc4(key, n):
    s = list(range(256))
    j = 0
    for i in range(256):
        j = (j + s[i] + key[i % len(key)]) & 255
        s[i], s[j] = s[j], s[i]
    i = j = 0
    out = bytearray()
    for _ in range(n):
        i = (i + 1) & 255
        j = (j + s[i]) & 255
        s[i], s[j] = s[j], s[i]
        out.append(s[(s[i] + s[j]) & 255])
    return bytes(out)


P1305 = (1 << 130) - 5
CLAMP = 0x0ffffffc0ffffffc0ffffffc0fffffff


def poly1305(key, msg):
    r = int.from_bytes(key[:16], "little") & CLAMP
    s = int.from_bytes(key[16:], "little")
    a = 0
    for i in range(0, len(msg), 16):
        b = msg[i:i + 16]
        a = (a + int.from_bytes(b + b"\1", "little")) * r % P1305
    return ((a + s) % (1 << 128)).to_bytes(16, "little")


M64 = (1 << 64) - 1


def _rol64(x, n):
    return ((x << n) | (x >> (64 - n))) & M64


def _sipround(v):
    a, b, c, d = v
    a = (a + b) & M64
    b = _rol64(b, 13) ^ a
    a = _rol64(a, 32)
    c = (c + d) & M64
    d = _rol64(d, 16) ^ c
    a = (a + d) & M64
    d = _rol64(d, 21) ^ a
    c = (c + b) & M64
    b = _rol64(b, 17) ^ c
    c = _rol64(c, 32)
    return a, b, c, d


def _sipcore(v, words):
    for w in words:
        v = (v[0], v[1], v[2], v[3] ^ w)
        v = _sipround(_sipround(v))
        v = (v[0] ^ w, v[1], v[2], v[3])
    v = (v[0], v[1], v[2] ^ 0xff, v[3])
    for _ in range(4):
        v = _sipround(v)
    return v[0] ^ v[1] ^ v[2] ^ v[3]


def _sipinit(key):
    k0, k1 = struct.unpack("<2Q", key[:16])
    return (k0 ^ 0x736f6d6570736575, k1 ^ 0x646f72616e646f6d,
            k0 ^ 0x6c7967656e657261, k1 ^ 0x7465646279746573)


def siphash(data, key):
    n = len(data)
    d = data + bytes(7 - n % 8) + bytes([n & 255])
    return _sipcore(_sipinit(key), struct.unpack("<%dQ" % (len(d) // 8), d))


def siphash128(num, key):
    return _sipcore(_sipinit(key), (num,))


def siphash256(num, key):
    return _sipcore(struct.unpack("<4Q", key), (num,))


def murmur3(data, seed):
    h = seed

    def mix(k):
        k = k * 0xcc9e2d51 & M
        return rol(k, 15) * 0x1b873593 & M
    n = len(data) // 4
    for i in range(n):
        h ^= mix(int.from_bytes(data[4 * i:4 * i + 4], "little"))
        h = (rol(h, 13) * 5 + 0xe6546b64) & M
    if len(data) % 4:
        h ^= mix(int.from_bytes(data[4 * n:], "little"))
    h ^= len(data) & M
    h ^= h >> 16
    h = h * 0x85ebca6b & M
    h ^= h >> 13
    h = h * 0xc2b2ae35 & M
    return h ^ (h >> 16)


def selftest():
    k = bytes(range(32))
    n = bytes.fromhex("000000090000004a00000000")
    assert chacha_stream(k, n, 1, 4).hex() == "10f1e7e4"
    # libsodium/NaCl: ECRYPT set 1 vector 0 of Salsa20/20 with 256-bit keys
    assert salsa_stream(b"\x80" + bytes(31), bytes(8), 0, 8).hex().upper() == \
        "E3BE8FDD8BECA2E3"
    assert rc4(b"Key", 4).hex() == "eb9f7781"
    key = bytes.fromhex("85d6be7857556d337f4452fe42d506a8"
                        "0103808afb0db2fd4abff6af4149f51b")
    assert poly1305(key, b"Cryptographic Forum Research Group").hex() == \
        "a8061dc1305136c6c22b8baf0c0127a9"
    assert siphash(bytes(range(15)), bytes(range(16))) == 0xa129ca6149be45e5
    assert murmur3(b"hello", 0) == 0x248bfa47
