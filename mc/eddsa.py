"""EdDSA as RFC 8032 defines it, over any of the Edwards curves."""

import hashlib


def H(c, n, *parts):
    if c.hash == "shake256":
        h = hashlib.shake_256()
    else:
        h = hashlib.new(c.hash)
    for p in parts:
        h.update(p)
    return h.digest(n) if c.hash == "shake256" else h.digest()[:n]


def dom(c, ph, ctx):
    """ph: None for the pure scheme, else 0 or 1"""
    if ph is None and not ctx and not c.always:
        return b""
    return c.prefix + bytes([int(bool(ph)), len(ctx)]) + ctx


def expand(c, priv):
    """(scalar, prefix)"""
    b = H(c, 2 * c.adj, priv)
    return c.clamp(b[:c.nsize]), b[c.adj:]


def hs(c, ph, ctx, *parts):
    b = H(c, 2 * c.adj, dom(c, ph, ctx), *parts)
    return int.from_bytes(b, "little") % c.n


def scal(c, s):
    return s.to_bytes(c.adj, "little")


def sign_with(c, a, prefix, msg, ph, ctx):
    k = hs(c, ph, ctx, prefix, msg)
    rb, ab = c.enc(c.mulg(k)), c.enc(c.mulg(a))
    e = hs(c, ph, ctx, rb, ab, msg)
    return rb + scal(c, (k + e * a) % c.n)


def sign(c, priv, msg, ph, ctx):
    a, prefix = expand(c, priv)
    return sign_with(c, a, prefix, msg, ph, ctx)


def verify(c, msg, sig, pub, ph, ctx, cof=False, log=None):
    """log: (a, T) with pub = aG + T, to spare a multiplication"""
    R = c.decode(sig[:c.adj])
    A = c.decode(pub)
    s = int.from_bytes(sig[c.adj:], "little")
    if R is None or A is None or s >= c.n:
        return 0
    e = hs(c, ph, ctx, sig[:c.adj], pub, msg)
    if log is not None:
        a, T = log
        D = c.add(c.mulg(s - e * a), c.neg(c.mul(e % c.h, T)))
    else:
        D = c.add(c.mulg(s), c.neg(c.mul(e, A)))
    D = c.add(D, c.neg(R))
    if cof:
        D = c.mul(c.h, D)
    return int(D == c.zero)
