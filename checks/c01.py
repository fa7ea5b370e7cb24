"""C01: ECDSA.

Signatures are compared with RFC 6979 over plain-integer group arithmetic.
Verification and recovery are driven with constructed signatures: since the
digest is free, any (r, s), any pair of multipliers and nonce points with
x >= n can be hit exactly."""

import ctypes as C
import hashlib
from itertools import product

from mc.core import Task
from mc.curves import WEI, edge_scalars, few_scalars
from mc.ffc import bits2int, rfc6979
from mc.lib import Out

BOUNDS = ("6 curves; 12 private keys x (digests of 0..n+9 bytes in 2 patterns "
          "and 16 digests at 0, n, 2^bits); nonce candidates rejected 0..4 "
          "times; 12 x 11 (r, s) range ends with solved digests; all pairs of "
          "~60 boundary multipliers; nonce points with x in [n, p) and their "
          "aliases; every bit of a signature and key flipped; recovery "
          "parameters 0..3 everywhere; 4 builds")
ASSUMPTIONS = ["digest reduction takes the leftmost bits (SEC 1, 4.1.3)"]

_n = C.c_size_t()
_pn = C.byref(_n)
_par = C.c_uint()
_pp = C.byref(_par)
REDEFINE = C.CFUNCTYPE(None, C.c_void_p, C.c_size_t)


class Dut:
    """The library's side, one curve."""

    def __init__(self, ctx, name):
        self.ctx, self.L = ctx, ctx.lib
        self.c = WEI[name]
        self.ec = self.L.wei_curve_create(getattr(self.L, "WEI_CURVE_" + name))
        self.pub_ = Out(1 + 2 * self.c.size)
        self.sig_ = Out(2 * self.c.nsize)

    def close(self):
        self.L.wei_curve_destroy(self.ec)

    def sig(self, r, s):
        return self.c.sb(r) + self.c.sb(s)

    def verify(self, msg, sig, pub):
        return self.L.ecdsa_verify(self.ec, msg, len(msg), sig, pub, len(pub))

    def recover(self, msg, sig, par, compact=1):
        """encoded key or None"""
        r = self.L.ecdsa_recover(self.ec, self.pub_, _pn, msg, len(msg), sig,
                                 par, compact)
        return self.pub_.get(_n.value) if r else None

    def sign(self, msg, priv, cb=None):
        if cb is None:
            r = self.L.ecdsa_sign(self.ec, self.sig_, _pp, msg, len(msg), priv)
            sig = self.sig_.get()
            q = self.L.ecdsa_sign(self.ec, self.sig_, None, msg, len(msg),
                                  priv)
            if q != r or self.sig_.get() != sig:
                return -1, sig, None    # depends on the parameter asked for
        else:
            r = self.L.ecdsa_sign_internal(self.ec, self.sig_, _pp, msg,
                                           len(msg), priv, cb)
        return r, self.sig_.get(), _par.value


def digest_for(c, m):
    """A digest that reduces to m."""
    return (m << (8 * c.nsize - c.bits)).to_bytes(c.nsize, "big")


def spec_sign(c, d, msg, skip=0):
    n = c.n
    m = bits2int(msg[:c.nsize], n) % n
    for k in rfc6979(d, m, n, getattr(hashlib, c.hash)):
        R = c.mulg(k)
        r = R[0] % n
        if r == 0:
            continue
        if skip:
            skip -= 1
            continue
        s = (r * d + m) * pow(k, -1, n) % n
        par = (R[1] & 1) | (R[0] >= n) << 1
        if s > n // 2:
            s, par = n - s, par ^ 1
        return r, s, par


def spec_verify(c, d, m, r, s):
    """d is the discrete logarithm of the key"""
    n = c.n
    if not (0 < r < n and 0 < s <= n // 2):
        return 0
    w = pow(s, -1, n)
    R = c.mulg((m + r * d) * w % n)
    return int(R is not None and R[0] % n == r)


def spec_recover(c, m, r, s, par):
    n = c.n
    if not (0 < r < n and 0 < s <= n // 2):
        return None
    x = r
    if par >> 1:
        x += n
    if x >= c.p:
        return None
    R = c.lift(x, par & 1)
    if R is None:
        return None
    w = pow(r, -1, n)
    A = c.add(c.mul(s * w % n, R), c.mulg(-m * w % n))
    return A


def digests(c):
    n, b = c.n, c.bits
    out = []
    for ln in range(0, c.nsize + 10):
        out.append(b"\xff" * ln)
        out.append(bytes(range(1, ln + 1)))
    for v in (0, 1, n - 1, n, n + 1, (1 << b) - 1, 1 << b - 1, n // 2, n >> 1):
        if v < 1 << b:
            out.append(digest_for(c, v))
            out.append(v.to_bytes(c.nsize, "big"))
            out.append(digest_for(c, v) + b"\xff" * 7)
    for ln in (64, 65, 66, 67, 100, 200, 1000):
        out.append(bytes((5 * i + 1) & 255 for i in range(ln)))
    return list(dict.fromkeys(out))


def sign(ctx, name, part, parts):
    D = Dut(ctx, name)
    c = D.c
    n = c.n
    keys = few_scalars(n)[part::parts]
    for d in keys:
        priv = c.sb(d)
        A = c.mulg(d)
        pub, full = c.enc(A), c.enc(A, 4)
        for msg in digests(c):
            ctx.case("sign", name, hex(d), msg)
            ctx.state(name, d, msg)
            r, s, par = spec_sign(c, d, msg)
            got = D.sign(msg, priv)
            ctx.eq(got, (1, D.sig(r, s), par), "signature")
            ctx.check(D.sig_.intact(), "output size")
            sig = D.sig(r, s)
            ctx.eq(D.verify(msg, sig, pub), 1, "verification")
            ctx.eq(D.verify(msg, sig, full), 1, "verification, full key")
            ctx.eq(D.recover(msg, sig, par), pub, "recovery")
            ctx.eq(D.recover(msg, sig, par, 0), full, "recovery, full key")
            ctx.eq(D.recover(msg, sig, par ^ 1) == pub, False,
                   "recovery with the other sign")
            ctx.eq(D.L.ecdsa_is_low_s(D.ec, sig), 1, "low S")
            hi = D.sig(r, n - s)
            ctx.eq(D.L.ecdsa_is_low_s(D.ec, hi), 0, "high S")
            ctx.eq(D.verify(msg, hi, pub), 0, "high S accepted")
            ctx.eq(D.recover(msg, hi, par ^ 1), None, "high S recovered")
            o = Out(2 * c.nsize)
            ctx.eq((D.L.ecdsa_sig_normalize(D.ec, o, hi), o.get()), (1, sig),
                   "normalization")
            ctx.eq((D.L.ecdsa_sig_normalize(D.ec, o, sig), o.get()), (1, sig),
                   "normalization of a low S")
    for bad in (0, n, n + 1, (1 << 8 * c.nsize) - 1):
        ctx.case("bad key", name, hex(bad))
        ctx.eq(D.sign(b"\1" * 32, c.sb(bad))[0], 0, "invalid private key")
    D.close()


def retry(ctx, name):
    """Nonce candidates turned down from outside."""
    D = Dut(ctx, name)
    c = D.c
    for d in (1, c.n - 1, c.n // 3):
        for skip in range(5):
            for msg in (b"", b"\xff" * c.nsize, b"abc" * 20):
                left = [skip]

                def cb(ok, size):
                    if left[0]:
                        left[0] -= 1
                        C.memset(ok, 0, size)
                ctx.case("retry", name, hex(d), skip, msg)
                ctx.state(name, d, skip, msg)
                r, s, par = spec_sign(c, d, msg, skip)
                got = D.sign(msg, c.sb(d), REDEFINE(cb))
                ctx.eq(got, (1, D.sig(r, s), par), "signature")
    D.close()


def ranges(ctx, name):
    """Any r and s: the digest is solved for."""
    D = Dut(ctx, name)
    c = D.c
    n = c.n
    top = (1 << 8 * c.nsize) - 1
    half = n // 2
    for d in (1, n - 1, n // 3):
        pub = c.enc(c.mulg(d))
        for k in (1, 2, n - 1, half, n // 5):
            R = c.mulg(k)
            r0 = R[0] % n
            for s in (0, 1, 2, half - 1, half, half + 1, half + 2, n - 2,
                      n - 1, n, n + 1, top):
                m = (s * k - r0 * d) % n
                msg = digest_for(c, m)
                for r in {r0, 0, r0 + n, n - r0, (r0 + 1) % n, (r0 - 1) % n, n,
                          n - 1, 1, top, (c.p - R[0]) % n}:
                    if not 0 <= r <= top or s > top:
                        continue
                    ctx.case("range", name, hex(d), hex(k), hex(r), hex(s))
                    ctx.state(name, d, k, r, s)
                    sig = D.sig(r, s)
                    ctx.eq(D.verify(msg, sig, pub),
                           spec_verify(c, d, m, r, s), "verification")
                    ctx.eq(D.L.ecdsa_is_low_s(D.ec, sig),
                           int(r < n and s < n and s <= half), "low S")
                    o = Out(2 * c.nsize)
                    ok = D.L.ecdsa_sig_normalize(D.ec, o, sig)
                    ctx.eq(ok, int(r < n and s < n), "normalization")
                    if ok:
                        ctx.eq(o.get(), D.sig(r, min(s, n - s)),
                               "normalized value")
                    if d == 1 and k in (1, half):
                        for par in range(4):
                            A = spec_recover(c, m, r, s, par)
                            want = None if A is None else c.enc(A)
                            ctx.eq(D.recover(msg, sig, par), want, "recovery")
    D.close()


def pairs(ctx, name, part, parts):
    """Multipliers u1, u2 from a boundary set: R = u1 G + u2 A."""
    D = Dut(ctx, name)
    c = D.c
    n = c.n
    E = edge_scalars(n, 1 if ctx.quick else 2)
    for d in (n // 3, 1, n - 1):
        A = c.mulg(d)
        pub = c.enc(A)
        for j, (u1, u2) in enumerate(product(E, E)):
            if j % parts != part:
                continue
            if d != n // 3 and (j // parts) % 7:
                continue
            if u2 == 0:
                continue
            t = (u1 + u2 * d) % n
            R = c.mulg(t)
            if R is None:
                # the sum is infinity: whatever r, it is not a signature
                for r in (1, u2, n - 1):
                    s = r * pow(u2, -1, n) % n
                    if s > n // 2:
                        s = n - s
                        r = n - r
                    ctx.case("infinity", name, hex(d), hex(u1), hex(u2))
                    ctx.state(name, d, u1, u2, r)
                    m = u1 * s % n
                    ctx.eq(D.verify(digest_for(c, m), D.sig(r, s), pub), 0,
                           "nonce point at infinity")
                continue
            r = R[0] % n
            s = r * pow(u2, -1, n) % n
            key = pub
            if s > n // 2:
                # s -> -s turns u2 into -u2: negate the key with it
                s = n - s
                key = c.enc(c.neg(A))
            m = u1 * s % n
            msg = digest_for(c, m)
            par = R[1] & 1 | (R[0] >= n) << 1
            ctx.case("pair", name, hex(d), hex(u1), hex(u2))
            ctx.state(name, d, u1, u2)
            ctx.eq(D.verify(msg, D.sig(r, s), key), 1, "verification")
            ctx.eq(D.recover(msg, D.sig(r, s), par), key, "recovery")
            other = digest_for(c, (m + 1) % n)
            ctx.eq(D.verify(other, D.sig(r, s), key), 0, "other digest")
    D.close()


def high(ctx, name):
    """Nonce points with n <= x < p, and values that only look like it."""
    D = Dut(ctx, name)
    c = D.c
    n, p = c.n, c.p
    if p <= n:
        D.close()
        ctx.state(name)
        return
    gap = p - n
    xs = []
    for start, step in ((n, 1), (p - 1, -1), (n + gap // 2, 1),
                        (n + (1 << 32), 1), (n + (1 << 64), 1)):
        x = start
        got = 0
        while got < 3:
            if n < x < p and c.lift(x) and x not in xs:
                xs.append(x)
                got += 1
            x += step
    half = n // 2
    for x in xs:
        for odd in (0, 1):
            R = c.lift(x, odd)
            r = x - n
            w = pow(r, -1, n)
            for s, m in ((1, 0), (1, 1), (half, n - 1), (n // 3, n // 5),
                         (2, n // 2)):
                A = c.add(c.mul(s * w % n, R), c.mulg(-m * w % n))
                if A is None:
                    continue
                msg = digest_for(c, m)
                sig = D.sig(r, s)
                pub = c.enc(A)
                ctx.case("high", name, hex(x), odd, hex(s), hex(m))
                ctx.state(name, x, odd, s, m)
                ctx.eq(D.verify(msg, sig, pub), 1, "verification")
                ctx.eq(D.recover(msg, sig, 2 | odd), pub, "recovery")
                for par in (odd, 1 ^ odd, 3 ^ odd):
                    B = spec_recover(c, m, r, s, par)
                    ctx.eq(D.recover(msg, sig, par),
                           None if B is None else c.enc(B), "recovery")
                for r2 in ((r + 1) % n, n - 1, (r - 1) % n):
                    if r2 and r2 != r:
                        ctx.eq(D.verify(msg, D.sig(r2, s), pub), 0,
                               "verification of another r")
                ctx.eq(D.verify(digest_for(c, (m + 1) % n), sig, pub), 0,
                       "verification of another digest")
    # r + n wraps past p: x(R) = r + n - p must not pass for r
    xs = []
    x = 0
    while len(xs) < 6:
        if c.lift(x) and 0 < x + p - n < n:
            xs.append(x)
        x += 1
    for x in xs:
        r = x + p - n
        for odd in (0, 1):
            R = c.lift(x, odd)
            w = pow(r, -1, n)
            for s, m in ((1, 1), (half, 5), (n // 3, n // 5)):
                A = c.add(c.mul(s * w % n, R), c.mulg(-m * w % n))
                ctx.case("wrap", name, x, odd, hex(s), hex(m))
                ctx.state(name, x, odd, s, m)
                ctx.eq(D.verify(digest_for(c, m), D.sig(r, s), c.enc(A)), 0,
                       "verification")
                for par in range(4):
                    B = spec_recover(c, m, r, s, par)
                    ctx.eq(D.recover(digest_for(c, m), D.sig(r, s), par),
                           None if B is None else c.enc(B), "recovery")
    # r on either side of p - n, recovered with the high bit
    for r in range(gap - 12, gap + 12):
        if not 0 < r < n:
            continue
        for par in range(4):
            for s in (1, half):
                ctx.case("gap", name, hex(r), par, hex(s))
                ctx.state(name, r, par, s)
                B = spec_recover(c, 7, r, s, par)
                ctx.eq(D.recover(digest_for(c, 7), D.sig(r, s), par),
                       None if B is None else c.enc(B), "recovery")
    D.close()


def small_r(ctx, name):
    """r and s from 1 up: recovery, then verification under that key."""
    D = Dut(ctx, name)
    c = D.c
    n = c.n
    rs = list(range(1, 40)) + [n - i for i in range(1, 12)]
    for r in rs:
        for s, m in ((1, 0), (2, 1), (n // 2, n - 1), (n // 3, n // 7)):
            for par in range(4):
                ctx.case("small", name, hex(r), hex(s), hex(m), par)
                ctx.state(name, r, s, m, par)
                A = spec_recover(c, m, r, s, par)
                msg, sig = digest_for(c, m), D.sig(r, s)
                want = None if A is None else c.enc(A)
                ctx.eq(D.recover(msg, sig, par), want, "recovery")
                if A is not None:
                    ctx.eq(D.verify(msg, sig, want), 1, "verification")
                    ctx.eq(D.verify(msg, sig, c.enc(A, 4)), 1,
                           "verification, full key")
                    ctx.eq(D.verify(msg, sig, c.enc(A, 6)), 1,
                           "verification, hybrid key")
                    ctx.eq(D.verify(msg, sig, c.enc(c.neg(A))),
                           int(m == 0), "verification, negated key")
    D.close()


def flips(ctx, name):
    D = Dut(ctx, name)
    c = D.c
    n = c.n
    d = n // 7 * 5
    A = c.mulg(d)
    msg = bytes(range(c.nsize))
    m = bits2int(msg, n) % n
    r, s, par = spec_sign(c, d, msg)
    sig = D.sig(r, s)
    pub = c.enc(A)
    for i in range(8 * len(sig)):
        b = bytearray(sig)
        b[i >> 3] ^= 1 << (i & 7)
        b = bytes(b)
        ctx.case("sig bit", name, i)
        ctx.state(name, "s", i)
        r2 = int.from_bytes(b[:c.nsize], "big")
        s2 = int.from_bytes(b[c.nsize:], "big")
        ctx.eq(D.verify(msg, b, pub), spec_verify(c, d, m, r2, s2), "verdict")
    for form in (2, 4, 6):
        k = c.enc(A, form)
        for i in range(8 * len(k)):
            b = bytearray(k)
            b[i >> 3] ^= 1 << (i & 7)
            b = bytes(b)
            ctx.case("key bit", name, form, i)
            ctx.state(name, form, i)
            ctx.eq(D.verify(msg, sig, b), int(c.decode(b) == A), "verdict")
        for v in range(256):
            b = bytes([v]) + k[1:]
            ctx.case("key prefix", name, form, v)
            ctx.state(name, form, "v", v)
            ctx.eq(D.verify(msg, sig, b), int(c.decode(b) == A), "verdict")
        for ln in range(len(k) + 3):
            b = (k + b"\0" * 3)[:ln]
            ctx.case("key length", name, form, ln)
            ctx.state(name, form, "l", ln)
            ctx.eq(D.verify(msg, sig, b), int(c.decode(b) == A), "verdict")
    # bits of the digest count exactly when they are among the leftmost
    for i in range(8 * c.nsize + 16):
        b = bytearray(msg + b"\0\0")
        b[i >> 3] ^= 0x80 >> (i & 7)
        ctx.case("digest bit", name, i)
        ctx.state(name, "d", i)
        ctx.eq(D.verify(bytes(b), sig, pub), int(i >= c.bits), "verdict")
    D.close()


def tasks(tier):
    q = tier == "quick"
    t = []
    big = {"P384": 2, "P521": 4}
    for v in ("n64", "i128", "p32", "l32"):
        for nm in WEI:
            k = big.get(nm, 1)
            if v == "n64" or not q:
                for i in range(2 * k):
                    t.append(Task("sign-%s-%d-%s" % (nm, i, v), sign,
                                  (nm, i, 2 * k), v))
                    t.append(Task("pairs-%s-%d-%s" % (nm, i, v), pairs,
                                  (nm, i, 2 * k), v))
            else:
                t.append(Task("sign-%s-%s" % (nm, v), sign, (nm, 1, 6), v))
                t.append(Task("pairs-%s-%s" % (nm, v), pairs,
                              (nm, 1, 4 * k), v))
            for fn in (retry, ranges, high, small_r, flips):
                if v == "n64" or not q or fn in (high, flips):
                    t.append(Task("%s-%s-%s" % (fn.__name__, nm, v), fn,
                                  (nm,), v))
    return t
