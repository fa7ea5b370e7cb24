"""C04: Diffie-Hellman.

Shared secrets are compared with plain-integer groups for every combination of
boundary private keys with boundary peers: all small and near-prime
coordinates, non-canonical strings, both curve and twist, small-order points,
limb patterns; malformed peers must be refused."""

import ctypes as C
from itertools import product

from mc import eddsa as E
from mc.core import Task
from mc.curves import ED, MONT, WEI, edge_scalars, few_scalars
from mc.lib import Out

BOUNDS = ("x-only: ~900 coordinates per curve (0..39, p-40..p+18, all strings "
          "from p up for X25519, 2^k and 2^k+-1 and their complements for "
          "every k, with and without the unused bit) x 4 scalars; 9 "
          "coordinates x every single-bit and single-zero scalar; all pairs "
          "of 12 private keys; Weierstrass: ~70 boundary scalars x 12 keys x "
          "2 output and 3 input forms, patterned points, every malformed "
          "form; Edwards: 12 keys x all torsion components x 16 peers")
ASSUMPTIONS = []

_n = C.c_size_t()
_pn = C.byref(_n)


def patterns(p, every=1):
    """Values with runs of ones and zeros ending at every bit."""
    b = p.bit_length()
    s = set()
    for k in range(0, b, every):
        s |= {1 << k, (1 << k) - 1, (1 << k) + 1, p - (1 << k),
              p - (1 << k) - 1, (1 << b) - (1 << k)}
    full = (1 << b) - 1
    for w in (26, 28, 29, 30, 32, 51, 52, 56, 58, 60, 64):
        for pat in (1, 2, (1 << w) - 1, (1 << w) - 2, 1 << w - 1):
            # every second limb
            v = 0
            for i in range(0, b, 2 * w):
                v |= pat << i
            s |= {v & full, v << w & full, ~v & full}
    return sorted(v for v in s if v >= 0)


def privs(c):
    n = c.size
    return [bytes(n), b"\xff" * n, bytes(range(n)), b"\x55" * n, b"\xaa" * n,
            b"\x01" + bytes(n - 1), bytes(n - 1) + b"\x80",
            b"\x07" * n, b"\xf8" * n, bytes((i * 13) & 255 for i in range(n)),
            b"\x80" * n, bytes(n - 1) + b"\x40"]


LIBS = ("n64", "i128", "p32", "l32")


class Mo:
    def __init__(self, ctx, name):
        self.ctx, self.c = ctx, MONT[name]
        self.L = [(v, L, L.mont_curve_create(getattr(L, "MONT_CURVE_" + name)))
                  for v, L in ctx.each]
        self.o = Out(self.c.size)

    def pub(self, k, want):
        for v, L, ec in self.L:
            self.ctx.case("create", v, self.c.name, k)
            self.ctx.state(v, self.c.name, k)
            L.ecdh_pubkey_create(ec, self.o, k)
            self.ctx.eq(self.o.get(), want, "public key")

    def want(self, pub, k):
        c = self.c
        x = c.ladder(c.clamp(k), c.load(pub))
        return (0, bytes(c.size)) if not x else (1, c.fb(x))

    def try_(self, pub, k, want=None):
        want = want or self.want(pub, k)
        for v, L, ec in self.L:
            self.ctx.case("derive", v, self.c.name, pub, k)
            self.ctx.state(v, self.c.name, pub, k)
            r = L.ecdh_derive(ec, self.o, pub, k)
            self.ctx.eq((r, self.o.get()), want, "shared secret")

    def close(self):
        for v, L, ec in self.L:
            L.mont_curve_destroy(ec)


def coords(c):
    """Strings: small, near p, beyond p, patterned, with the unused bits."""
    top = 1 << 8 * c.size
    vals = set(range(40)) | {c.p + i for i in range(-40, 60)}
    vals |= {2 * c.p + i for i in range(-3, 4)} | {top - i for i in range(1, 25)}
    # small-order points of curve and twist
    for T in c.ed.torsion:
        if T[1] != 1:
            u = (1 + T[1]) * pow(1 - T[1], -1, c.p) % c.p
            for j in (-1, 0, 1):
                vals |= {u + j, u + j + c.p}
    vals |= {c.p - 1, 1, 0}
    vals |= set(patterns(c.p))
    vals |= {v ^ 1 << 8 * c.size - 1 for v in list(vals)
             if v < top and v < c.p + 20 and (v < 64 or v > c.p - 64)}
    return [c.fb(v) for v in sorted(vals) if 0 <= v < top]


def mont_coords(ctx, name, part, of):
    M = Mo(ctx, name)
    ks = privs(M.c)
    for i, u in enumerate(coords(M.c)):
        if i % of != part:
            continue
        for k in (ks[0], ks[1], ks[2], ks[9]):
            M.try_(u, k)
    M.close()


def mont_scalars(ctx, name):
    M = Mo(ctx, name)
    c = M.c
    us = [c.fb(v) for v in (c.u, 2, 3, c.p - 1, c.p - 2, 1 << 64,
                            c.p // 3, (1 << 200) - 1, c.p // 2)]
    for i in range(8 * c.size):
        for k in (1 << i, (1 << 8 * c.size) - 1 ^ 1 << i):
            kb = k.to_bytes(c.size, "little")
            M.pub(kb, M.want(c.fb(c.u), kb)[1])
            for u in us if i % 8 == 0 or i > c.bits - 10 else us[:2]:
                M.try_(u, kb)
    M.close()


def mont_pairs(ctx, name):
    M = Mo(ctx, name)
    ks = privs(M.c)
    pubs = [M.want(M.c.fb(M.c.u), k)[1] for k in ks]
    for k, pub in zip(ks, pubs):
        M.pub(k, pub)
    for (i, a), (j, b) in product(enumerate(ks), repeat=2):
        if i <= j:
            want = M.want(pubs[j], a)
            M.try_(pubs[j], a, want)
            M.try_(pubs[i], b, want)
    M.close()


def wei(ctx, name, part, of):
    c = WEI[name]
    cur = [(v, L, L.wei_curve_create(getattr(L, "WEI_CURVE_" + name)))
           for v, L in ctx.each]
    o = Out(1 + 2 * c.size)

    def derive(pub, k, compact, want):
        for v, L, ec in cur:
            ctx.case("derive", v, name, pub, hex(k), compact)
            ctx.state(v, name, pub, k, compact)
            o.reset()
            r = L.ecdsa_derive(ec, o, _pn, pub, len(pub), c.sb(k), compact)
            ctx.eq(o.get()[:_n.value] if r else None, want, "shared secret")
            ctx.check(o.intact(), "output size")
    n = c.n
    S = [k for k in edge_scalars(n) if k]
    D = few_scalars(n)
    for i, a in enumerate(S):
        if i % of != part:
            continue
        for b in D:
            A = c.mulg(b)
            T = c.mulg(a * b)
            for form, comp in ((2, 1), (4, 0), (6, 1)):
                derive(c.enc(A, form), a, comp, c.enc(T, 2 if comp else 4))
            derive(c.enc(c.mulg(a)), b, 1, c.enc(T))
    # patterned coordinates
    xs = [x for x in patterns(c.p, 8) + list(range(12)) if x < c.p]
    pts = [P for P in (c.lift(x, x >> 3 & 1) for x in xs) if P]
    for i, P in enumerate(pts):
        if i % of != part:
            continue
        for k in (1, 2, 3, n - 1, n // 3, (1 << 128) - 1):
            derive(c.enc(P), k, 0, c.enc(c.mul(k, P), 4))
    if part == 0:
        refusals(c, derive, ctx)
    for v, L, ec in cur:
        L.wei_curve_destroy(ec)


def refusals(c, derive, ctx):
    n = c.n
    A = c.mulg(n // 3)
    good = c.enc(A, 4)
    top = (1 << 8 * c.nsize) - 1
    for k in (0, n, n + 1, top):
        derive(good, k, 1, None)
    bad = [b"", b"\0", b"\2", b"\4", good[:-1], good + b"\0", good[1:],
           b"\0" + good[1:], b"\5" + good[1:], b"\xff" + good[1:],
           b"\2" + good[1:], b"\0" * len(good), b"\4" + b"\0" * (len(good) - 1),
           c.enc(A)[:-1], c.enc(A) + b"\0", b"\4" + c.enc(A)[1:],
           b"\1" + c.enc(A)[1:],
           bytes([6 | 1 ^ A[1] & 1]) + good[1:]]
    for x in list(range(20)) + [c.p - i for i in range(1, 20)] + \
            [A[0] + 1, A[0] - 1]:
        P = c.lift(x)
        if P is None:
            for f in (2, 3):
                bad.append(bytes([f]) + c.fb(x))
            bad.append(b"\4" + c.fb(x) + c.fb(1))
            # the point lies on the twist or another curve
            bad.append(b"\4" + c.fb(x) + c.fb(A[1]))
        else:
            bad.append(b"\4" + c.fb(x) + c.fb((P[1] + 1) % c.p))
    for x in (c.p, c.p + 1, c.p + A[0], (1 << 8 * c.size) - 1):
        if x < 1 << 8 * c.size:
            for f in (2, 3):
                bad.append(bytes([f]) + c.fb(x))
            bad.append(b"\4" + c.fb(x) + c.fb(A[1]))
            bad.append(b"\4" + c.fb(A[0]) + c.fb(x))
    # values past the prime that would be right once reduced
    for x in range(1, 200):
        P = c.lift(x)
        if P and x + c.p < 1 << 8 * c.size:
            bad.append(bytes([2 | P[1] & 1]) + c.fb(x + c.p))
            bad.append(b"\4" + c.fb(x + c.p) + c.fb(P[1]))
    for b in bad:
        assert c.decode(b) is None
        for k in (1, n // 3):
            derive(b, k, 1, None)
            derive(b, k, 0, None)


def edw(ctx, name):
    c = ED[name]
    cur = [(v, L, L.edwards_curve_create(getattr(L, "EDWARDS_CURVE_" + name)))
           for v, L in ctx.each]
    o = Out(c.adj)
    n = c.n
    ks = [bytes(c.adj), b"\xff" * c.adj, bytes(range(c.adj)), b"\x55" * c.adj,
          b"\x80" * c.adj, b"\x07" * c.adj]
    sc = [bytes(c.nsize), b"\xff" * c.nsize, bytes(range(c.nsize)),
          c.sb(n), c.sb(c.h), c.sb(n - 1)]

    def derive(pub, k, scalar, P):
        for v, L, ec in cur:
            ctx.case("derive", v, name, pub, k, scalar)
            ctx.state(v, name, pub, k, scalar)
            f = L.eddsa_derive_with_scalar if scalar else L.eddsa_derive
            r = f(ec, o, pub, k)
            ctx.eq(r, int(P is not None and P != c.zero), "derive")
            if r:
                ctx.eq(o.get(), c.enc(P), "shared secret")
    for b in few_scalars(n) + [0, 4, 5, 7]:
        for T in c.torsion:
            pub = c.enc(c.add(c.mulg(b), T))
            for k in ks:
                derive(pub, k, 0, c.mulg(E.expand(c, k)[0] * b))
            for k in sc:
                derive(pub, k, 1, c.mulg(c.clamp(k) * b))
    # agreement
    pubs = [c.enc(c.mulg(E.expand(c, k)[0])) for k in ks]
    for (i, x), (j, y) in product(enumerate(ks), repeat=2):
        derive(pubs[j], x, 0,
               c.mulg(E.expand(c, x)[0] * E.expand(c, y)[0]))
    # patterned peers: every decodable one, and refusals for the rest
    top = 1 << 8 * c.adj - 1
    ys = set(patterns(c.p, 4)) | set(range(24)) | \
        {c.p + i for i in range(-24, 24)} | {top - i for i in range(1, 20)}
    for y in sorted(ys):
        for sgn in (0, 1):
            if not 0 <= y < top:
                continue
            pub = (y | sgn << 8 * c.adj - 1).to_bytes(c.adj, "little")
            A = c.decode(pub)
            derive(pub, sc[2], 1, A and c.mul(c.clamp(sc[2]), A))
    for v, L, ec in cur:
        L.edwards_curve_destroy(ec)


def tasks(tier):
    t = []
    for nm in MONT:
        of = 6 if nm == "X448" else 3
        for i in range(of):
            t.append(Task("coords-%s-%d" % (nm, i), mont_coords, (nm, i, of)))
        t.append(Task("scalars-" + nm, mont_scalars, (nm,)))
        t.append(Task("pairs-" + nm, mont_pairs, (nm,)))
    for nm in ED:
        t.append(Task("edwards-" + nm, edw, (nm,)))
    for nm in WEI:
        of = 4 if nm in ("P384", "P521") else 2
        for i in range(of):
            t.append(Task("wei-%s-%d" % (nm, i), wei, (nm, i, of)))
    return t
