"""BIP340 and the earlier BIP-Schnorr, over any of the curves."""

import hashlib

# curve -> (hash for challenges, bytes taken)
XOF = {"P192": "sha256", "P224": "sha256", "P256": "sha256",
       "P384": "sha384", "P521": "shake_256", "SECP256K1": "sha256"}
BLOCK = {"sha256": 64, "sha384": 128, "shake_256": 136}


def _final(h, name, n):
    return h.digest(n) if name.startswith("shake") else h.digest()[:n]


def _scalar(c, b):
    """bits2int over the leading bytes, excess top bits dropped"""
    v = int.from_bytes(b, "big") & ((1 << c.bits) - 1)
    return v % c.n


def tagged(c, tag, *parts):
    name = XOF[c.name]
    half = BLOCK[name] // 2
    if hashlib.new(name).digest_size == half:
        t = hashlib.new(name, tag).digest()
    else:
        # the prefix fills one block: the tag is stretched to half of one
        t = hashlib.shake_256(tag).digest(half)
    h = hashlib.new(name, t + t)
    for p in parts:
        h.update(p)
    return _final(h, name, c.nsize)


def challenge(c, rb, ab, msg):
    return _scalar(c, tagged(c, b"BIP0340/challenge", rb, ab, msg))


def even(c, P):
    return P if P[1] & 1 == 0 else c.neg(P)


def nonce(c, d, A, msg, aux):
    """d already adjusted to an even key"""
    t = c.sb(d)
    if aux is not None:
        m = tagged(c, b"BIP0340/aux", aux)
        t = bytes(x ^ y for x, y in zip(t, m))
    return _scalar(c, tagged(c, b"BIP0340/nonce", t, c.fb(A[0]), msg))


def sign(c, d, msg, aux, k=None):
    A = c.mulg(d)
    if A[1] & 1:
        d = c.n - d
    if k is None:
        k = nonce(c, d, A, msg, aux)
    R = c.mulg(k)
    if R[1] & 1:
        k = c.n - k
    rb = c.fb(R[0])
    e = challenge(c, rb, c.fb(A[0]), msg)
    return rb + c.sb((k + e * d) % c.n)


def verify(c, d, msg, sig, pub):
    """d: discrete logarithm of the even point that pub should denote, or None
    to work it out from pub."""
    x = int.from_bytes(pub, "big")
    A = c.lift(x, 0)
    if A is None:
        return 0
    r = int.from_bytes(sig[:c.size], "big")
    s = int.from_bytes(sig[c.size:], "big")
    if r >= c.p or s >= c.n:
        return 0
    e = challenge(c, sig[:c.size], pub, msg)
    if d is not None and c.mulg(d) == A:
        R = c.mulg(s - e * d)
    else:
        R = c.add(c.mulg(s), c.neg(c.mul(e, A)))
    return int(R is not None and R[1] & 1 == 0 and R[0] == r)


# -- the 2019 draft --------------------------------------------------------

def legacy_hash(c, *parts):
    name = XOF[c.name]
    h = hashlib.new(name)
    for p in parts:
        h.update(p)
    return _scalar(c, _final(h, name, c.nsize))


def square(c, P):
    return pow(P[1], (c.p - 1) // 2, c.p) == 1


def legacy_sign(c, d, msg, k=None):
    A = c.mulg(d)
    if k is None:
        k = legacy_hash(c, c.sb(d), msg)
    R = c.mulg(k)
    if not square(c, R):
        k = c.n - k
    rb = c.fb(R[0])
    e = legacy_hash(c, rb, c.enc(A), msg)
    return rb + c.sb((k + e * d) % c.n)


def legacy_verify(c, d, msg, sig, pub):
    A = c.decode(pub)
    if A is None:
        return 0
    r = int.from_bytes(sig[:c.size], "big")
    s = int.from_bytes(sig[c.size:], "big")
    if r >= c.p or s >= c.n:
        return 0
    e = legacy_hash(c, sig[:c.size], c.enc(A), msg)
    if d is not None and c.mulg(d) == A:
        R = c.mulg(s - e * d)
    else:
        R = c.add(c.mulg(s), c.neg(c.mul(e, A)))
    return int(R is not None and square(c, R) and R[0] == r)
