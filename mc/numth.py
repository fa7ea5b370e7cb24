"""Number theory for the oracles: primality, deterministic primes, DER."""

from functools import lru_cache

SMALL = [p for p in range(2, 2000) if all(p % q for q in range(2, int(p ** .5) + 1))]


def is_prime(n):
    if n < 2:
        return False
    for p in SMALL:
        if n % p == 0:
            return n == p
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    for a in SMALL[:24]:
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def next_prime(n):
    n |= 1
    while not is_prime(n):
        n += 2
    return n


def stream(tag, bits):
    """Fixed pseudo-random integer of exactly so many bits."""
    import hashlib
    v = int.from_bytes(hashlib.shake_256(repr(tag).encode()).digest(
        bits // 8 + 1), "big") & ((1 << bits) - 1)
    return v | 1 << (bits - 1)


# -- DER -------------------------------------------------------------------

def der_len(n):
    if n < 128:
        return bytes([n])
    b = n.to_bytes((n.bit_length() + 7) // 8, "big")
    return bytes([0x80 | len(b)]) + b


def der(tag, body):
    return bytes([tag]) + der_len(len(body)) + body


def der_int(v):
    n = v.bit_length() // 8 + 1
    return der(2, v.to_bytes(n, "big"))


def der_seq(*items):
    return der(0x30, b"".join(items))


def der_oid(*arcs):
    out = bytes([arcs[0] * 40 + arcs[1]])
    for a in arcs[2:]:
        b = [a & 127]
        while a > 127:
            a >>= 7
            b.append(0x80 | a & 127)
        out += bytes(b[::-1])
    return der(6, out)


# -- RSA -------------------------------------------------------------------

class RsaKey:
    def __init__(self, p, q, e, d=None):
        if p < q:
            p, q = q, p
        from math import gcd
        self.p, self.q, self.e = p, q, e
        self.n = n = p * q
        lam = (p - 1) * (q - 1) // gcd(p - 1, q - 1)
        self.lam = lam
        self.d = pow(e, -1, lam) if d is None else d
        self.dp, self.dq = self.d % (p - 1), self.d % (q - 1)
        self.qi = pow(q, -1, p)
        self.bits = n.bit_length()
        self.k = (self.bits + 7) // 8

    def parts(self):
        return [self.n, self.e, self.d, self.p, self.q, self.dp, self.dq,
                self.qi]

    def priv(self):
        return rsa_priv_der(self.parts())

    def pub(self):
        return der_seq(der_int(self.n), der_int(self.e))

    def op(self, m):
        """m^d mod n"""
        a, b = pow(m, self.dp, self.p), pow(m, self.dq, self.q)
        return b + (a - b) * self.qi % self.p * self.q

    def sig(self, em):
        return self.op(int.from_bytes(em, "big")).to_bytes(self.k, "big")

    def enc(self, em):
        return pow(int.from_bytes(em, "big"), self.e, self.n).to_bytes(
            self.k, "big")


def rsa_priv_der(parts, version=0):
    return der_seq(der_int(version), *[der_int(v) for v in parts])


@lru_cache(None)
def rsa_key(bits, e=65537, tag=0):
    """A fixed key with a modulus of exactly so many bits."""
    i = 0
    while True:
        pb = (bits + 1) // 2
        p = next_prime(stream((bits, e, tag, i, "p"), pb))
        q = next_prime(stream((bits, e, tag, i, "q"), bits - pb))
        i += 1
        if (p * q).bit_length() != bits or p == q:
            continue
        if p.bit_length() != pb or q.bit_length() != bits - pb:
            continue
        try:
            return RsaKey(p, q, e)
        except ValueError:
            continue
