"""DSA from its definition, over fixed domain parameters."""

import hashlib
import hmac
from functools import lru_cache

from .numth import der_int, der_seq, is_prime, next_prime, stream


@lru_cache(None)
def group(pbits, qbits, tag=0):
    q = next_prime(stream((pbits, qbits, tag, "q"), qbits))
    lo, hi = (1 << (pbits - 1)) // q + 1, ((1 << pbits) - 1) // q
    k = lo + stream((pbits, qbits, tag, "k"), pbits) % (hi - lo)
    while k & 1 or not is_prime(k * q + 1):
        k = k + 1 if k < hi else lo
    p = k * q + 1
    h = 2
    while pow(h, (p - 1) // q, p) == 1:
        h += 1
    return p, q, pow(h, (p - 1) // q, p)


def bits2int(msg, q):
    """Leftmost bits of the digest, as an integer."""
    n = q.bit_length()
    v = int.from_bytes(msg, "big")
    if len(msg) * 8 > n:
        v >>= len(msg) * 8 - n
    return v


def rfc6979(x, h, q, alg=hashlib.sha256):
    """Candidates for the nonce; x, h already reduced integers."""
    n = (q.bit_length() + 7) // 8
    hl = alg().digest_size

    def mac(k, d):
        return hmac.new(k, d, alg).digest()
    seed = x.to_bytes(n, "big") + h.to_bytes(n, "big")
    K, V = b"\0" * hl, b"\1" * hl
    for c in (b"\0", b"\1"):
        K = mac(K, V + c + seed)
        V = mac(K, V)
    while True:
        t = b""
        while len(t) < n:
            V = mac(K, V)
            t += V
        k = bits2int(t[:n], q)
        if 0 < k < q:
            yield k
        K = mac(K, V + b"\0")
        V = mac(K, V)


class Key:
    def __init__(self, grp, x):
        self.p, self.q, self.g = grp
        self.x = x
        self.y = pow(self.g, x, self.p)
        self.n = (self.q.bit_length() + 7) // 8

    def params(self):
        return der_seq(*map(der_int, (self.p, self.q, self.g)))

    def pub(self):
        return der_seq(*map(der_int, (self.y, self.p, self.q, self.g)))

    def priv(self):
        return der_seq(*map(der_int, (0, self.p, self.q, self.g, self.y,
                                      self.x)))

    def enc(self, r, s):
        return r.to_bytes(self.n, "big") + s.to_bytes(self.n, "big")

    def sign(self, msg):
        q = self.q
        m = bits2int(msg, q) % q
        for k in rfc6979(self.x, m, q):
            r = pow(self.g, k, self.p) % q
            s = pow(k, -1, q) * (m + r * self.x) % q
            if r and s:
                return r, s

    def with_nonce(self, m, k):
        r = pow(self.g, k, self.p) % self.q
        return r, pow(k, -1, self.q) * (m + r * self.x) % self.q

    def verify(self, msg, r, s):
        p, q = self.p, self.q
        if not (0 < r < q and 0 < s < q):
            return False
        m = bits2int(msg, q) % q
        w = pow(s, -1, q)
        return (pow(self.g, m * w % q, p) * pow(self.y, r * w % q, p) % p % q
                == r)
