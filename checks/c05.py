"""C05: Weierstrass key arithmetic.

Private and public key operations are compared with plain-integer arithmetic
over all pairs of boundary operands; decoding is compared with the definition
over every form byte, length, single-bit change and out-of-range coordinate."""

import ctypes as C
from itertools import product

from checks.c04 import patterns
from mc.core import Task
from mc.curves import LAMBDA, WEI, edge_scalars, few_scalars, sqrt
from mc.lib import Out

BOUNDS = ("6 curves, 4 builds; private: all pairs of ~70 boundary scalars "
          "(plus pairs with products next to multiples of the order) for "
          "tweaks, all for negate/invert; public: 12 keys x ~70 tweaks, all "
          "pairs of ~45 keys and of ~30 patterned points for addition, sums "
          "of up to 4 of {+-1, +-2, 3}G, points that share a y; "
          "decoding: 256 form bytes, 0..140 lengths, every bit flipped, coordinates around 0 and p; curve identifiers that do not exist")
ASSUMPTIONS = []
LIBS = ("n64", "i128", "p32", "l32")

_n = C.c_size_t()
_pn = C.byref(_n)
CHECK = C.CFUNCTYPE(C.c_int, C.c_void_p, C.c_size_t, C.c_void_p)


class Dut:
    """The same call on every back end."""

    def __init__(self, ctx, name):
        self.ctx, self.c = ctx, WEI[name]
        self.L = [(v, L, L.wei_curve_create(getattr(L, "WEI_CURVE_" + name)))
                  for v, L in ctx.each]
        self.o = Out(1 + 2 * self.c.size)
        self.s = Out(self.c.nsize)
        self.x, self.y = Out(self.c.size), Out(self.c.size)

    def scalar(self, fn, want, *args):
        """fn(ec, out, *args); want: integer or None"""
        for v, L, ec in self.L:
            self.ctx.case(fn, v, self.c.name, args)
            self.ctx.state(fn, v, self.c.name, args)
            r = getattr(L, fn)(ec, self.s, *args)
            self.ctx.eq(r, int(want is not None), fn)
            if want is not None:
                self.ctx.eq(self.s.get(), self.c.sb(want), fn + ": result")

    def point(self, fn, want, *args):
        """fn(ec, out, &len, *args, compact); want: point or None"""
        for v, L, ec in self.L:
            for comp in (1, 0):
                self.ctx.case(fn, v, self.c.name, comp, args)
                self.ctx.state(fn, v, self.c.name, comp, args)
                self.o.reset()
                r = getattr(L, fn)(ec, self.o, _pn, *args, comp)
                self.ctx.eq(r, int(want is not None), fn)
                if want is not None:
                    self.ctx.eq(self.o.get()[:_n.value],
                                self.c.enc(want, 2 if comp else 4),
                                fn + ": result")
                self.ctx.check(self.o.intact(), fn + ": output size")

    def flag(self, fn, want, *args):
        for v, L, ec in self.L:
            self.ctx.case(fn, v, self.c.name, args)
            self.ctx.state(fn, v, self.c.name, args)
            self.ctx.eq(getattr(L, fn)(ec, *args), want, fn)

    def close(self):
        for v, L, ec in self.L:
            L.wei_curve_destroy(ec)


def near(n, S):
    """Pairs whose product lies next to a multiple of n."""
    out = []
    b = n.bit_length()
    for a in S[::2]:
        if a < 2:
            continue
        for q in (1, 2, 3, (1 << 32) - 1, (1 << 64) - 1, 1 << 64, a // 2,
                  a - 1, (1 << b // 2) + 1):
            for d in (0, 1):
                v = q * n // a + d
                if 0 < v < n:
                    out.append((a, v))
    return out


def private(ctx, name):
    D = Dut(ctx, name)
    c, n = D.c, D.c.n
    top = (1 << 8 * c.nsize) - 1
    S = edge_scalars(n, 1 if ctx.quick else 2)
    out = [v for v in (n, n + 1, n + 2, 2 * n - 1, top - 1, top) if v <= top]
    pairs = list(product(S + out, repeat=2)) + near(n, S)
    for a, t in pairs:
        ok = 0 < a < n and t < n
        v = (a + t) % n if ok else 0
        D.scalar("ecdsa_privkey_tweak_add", v or None, c.sb(a), c.sb(t))
        v = a * t % n if ok else 0
        D.scalar("ecdsa_privkey_tweak_mul", v or None, c.sb(a), c.sb(t))
    every = sorted(set(edge_scalars(n, 2) + [1 << k for k in range(c.bits)
                                             if 1 << k < n]))
    for a in every + out:
        ok = 0 < a < n
        D.scalar("ecdsa_privkey_negate", n - a if ok else None, c.sb(a))
        D.scalar("ecdsa_privkey_invert", pow(a, -1, n) if ok else None, c.sb(a))
        D.scalar("ecdsa_privkey_export", a if ok else None, c.sb(a))
        D.flag("ecdsa_privkey_verify", int(ok), c.sb(a))
    # import: shorter, longer, padded
    for a in (0, 1, 255, 256, n - 1, n, n // 3, 1 << 8 * (c.nsize - 1)):
        b = a.to_bytes((a.bit_length() + 7) // 8, "big")
        for pad in (0, 1, 2, 40):
            x = b"\0" * pad + b
            D.scalar("ecdsa_privkey_import", a if 0 < a < n else None, x,
                     len(x))
        for x in (b"\1" + c.sb(a), c.sb(a) + b"\0", c.sb(a) + b"\1"):
            v = int.from_bytes(x, "big")
            D.scalar("ecdsa_privkey_import", v if 0 < v < n else None, x,
                     len(x))
            D.scalar("bip340_privkey_import", v if 0 < v < n else None, x,
                     len(x))
    for what, v in (("wei_curve_scalar_size", c.nsize),
                    ("wei_curve_scalar_bits", n.bit_length()),
                    ("wei_curve_field_size", c.size),
                    ("wei_curve_field_bits", c.p.bit_length()),
                    ("ecdsa_privkey_size", c.nsize),
                    ("ecdsa_sig_size", 2 * c.nsize),
                    ("bip340_privkey_size", c.nsize),
                    ("bip340_pubkey_size", c.size),
                    ("bip340_sig_size", c.size + c.nsize),
                    ("bipschnorr_sig_size", c.size + c.nsize)):
        D.flag(what, v)
    D.flag("ecdsa_pubkey_size", 1 + c.size, 1)
    D.flag("ecdsa_pubkey_size", 1 + 2 * c.size, 0)
    # generated keys: in range, a function of the entropy alone
    for i in range(64):
        ent = bytes([i]) * 32
        got = []
        for v, L, ec in D.L:
            ctx.case("generate", v, name, i)
            ctx.state("generate", v, name, i)
            L.ecdsa_privkey_generate(ec, D.s, ent)
            k = int.from_bytes(D.s.get(), "big")
            ctx.check(0 < k < n, "generated key in range")
            got.append(k)
            L.bip340_privkey_generate(ec, D.s, ent)
            got.append(int.from_bytes(D.s.get(), "big"))
        ctx.check(len(set(got)) == 1, "generated key depends on the back end")
    D.close()


def create(ctx, name):
    D = Dut(ctx, name)
    c, n = D.c, D.c.n
    top = (1 << 8 * c.nsize) - 1
    S = set(edge_scalars(n, 2))
    S |= {1 << k for k in range(c.bits)} | {n - (1 << k) for k in range(c.bits)}
    for a in sorted(k for k in S if 0 < k < n):
        D.point("ecdsa_pubkey_create", c.mulg(a), c.sb(a))
    for a in (0, n, n + 1, top):
        D.point("ecdsa_pubkey_create", None, c.sb(a))
    D.close()


def tweaks(ctx, name, part, of):
    D = Dut(ctx, name)
    c, n = D.c, D.c.n
    top = (1 << 8 * c.nsize) - 1
    for i, d in enumerate(few_scalars(n)):
        if i % of != part:
            continue
        A = c.mulg(d)
        T = set(edge_scalars(n)) | {d, n - d, d + 1, n - d + 1, n - d - 1,
                                    n - 2 * d, pow(d, -1, n)}
        bad = {n, n + 1, n + d, top}
        for t in sorted({v % n for v in T} | {v for v in bad if v <= top}):
            pub = c.enc(A, (2, 4, 6)[t % 3])
            ok = t < n
            D.point("ecdsa_pubkey_tweak_add", c.mulg(d + t) if ok else None,
                    pub, len(pub), c.sb(t))
            D.point("ecdsa_pubkey_tweak_mul", c.mulg(d * t) if ok else None,
                    pub, len(pub), c.sb(t))
        for f in (2, 4, 6):
            pub = c.enc(A, f)
            D.point("ecdsa_pubkey_negate", c.neg(A), pub, len(pub))
            D.point("ecdsa_pubkey_convert", A, pub, len(pub))
    D.close()


def same_y(c, A):
    """Other points with the y of A: roots of x^2 + x1 x + x1^2 + a."""
    r = sqrt(-3 * A[0] * A[0] - 4 * c.a, c.p)
    if r is None:
        return []
    h = pow(2, -1, c.p)
    out = [((-A[0] + r) * h % c.p, A[1]), ((-A[0] - r) * h % c.p, A[1])]
    return [B for B in out if c.on(B) and B != A]


def combine(D, pts, enc=None):
    c, ctx, ln = D.c, D.ctx, len(pts)
    enc = enc or [c.enc(P) for P in pts]
    keep = (C.c_char_p * max(ln, 1))(*enc)
    lens = (C.c_size_t * max(ln, 1))(*[len(e) for e in enc])
    T = None
    for P in pts:
        T = c.add(T, P)
    for v, L, ec in D.L:
        ctx.case("combine", v, c.name, enc)
        ctx.state("combine", v, c.name, tuple(enc))
        D.o.reset()
        r = L.ecdsa_pubkey_combine(ec, D.o, _pn, keep, lens, ln, 1)
        ctx.eq(r, int(T is not None), "combine")
        if T:
            ctx.eq(D.o.get()[:_n.value], c.enc(T), "sum")


def adds(ctx, name):
    D = Dut(ctx, name)
    c, n = D.c, D.c.n
    S = [k for k in edge_scalars(n)[::2] + few_scalars(n) if k]
    S = list(dict.fromkeys(S + [n - 5, 5]))
    for i, (a, b) in enumerate(product(S, repeat=2)):
        p, q = c.enc(c.mulg(a), 2 if i & 1 else 4), c.enc(c.mulg(b))
        D.point("ecdsa_pubkey_add", c.mulg(a + b), p, len(p), q, len(q))
    # points of patterned coordinates, with themselves and each other
    xs = [x for x in patterns(c.p, 16) if x < c.p] + list(range(8))
    P = [p for p in (c.lift(x, x >> 2 & 1) for x in xs) if p]
    P = P[::max(1, len(P) // 30)]
    for A, B in product(P, repeat=2):
        p, q = c.enc(A, 4), c.enc(B)
        D.point("ecdsa_pubkey_add", c.add(A, B), p, len(p), q, len(q))
    for A in P:
        p, q = c.enc(A, 4), c.enc(c.neg(A))
        D.point("ecdsa_pubkey_add", None, p, len(p), q, len(q))
        D.point("ecdsa_pubkey_negate", c.neg(A), p, len(p))
    # points that share a y, up to sign, without sharing an x
    for k in few_scalars(n) + list(range(4, 40)):
        A = c.mulg(k)
        for B in same_y(c, A):
            for Q in (B, c.neg(B)):
                p, q = c.enc(A), c.enc(Q)
                D.point("ecdsa_pubkey_add", c.add(A, Q), p, len(p), q, len(q))
                combine(D, [A, Q])
                if A != c.g:
                    combine(D, [c.g, c.add(A, c.neg(c.g)), Q])
                combine(D, [A, A, c.neg(A), Q])
    if name == "SECP256K1":
        for d in few_scalars(n):
            pub = c.enc(c.mulg(d))
            for m in (LAMBDA, -LAMBDA, LAMBDA ** 2, -LAMBDA ** 2):
                t = m * d % n
                D.point("ecdsa_pubkey_tweak_add", c.mulg(d + t), pub, len(pub),
                        c.sb(t))
            # windows of the split scalar meeting in such points
            for j in (1, 2, 3, 5, 7, 8, 11, 13, 15, 16, 31, 1 << 64,
                      (1 << 64) - 1, 0x11111111):
                for m in (1 - LAMBDA, 1 + LAMBDA, LAMBDA - 1, -1 - LAMBDA,
                          LAMBDA - LAMBDA ** 2, 1 - LAMBDA ** 2, LAMBDA):
                    t = j * m % n
                    D.point("ecdsa_pubkey_tweak_mul", c.mulg(d * t), pub,
                            len(pub), c.sb(t))
    # sums
    base = [1, n - 1, 2, n - 2, 3]
    enc = [c.enc(c.mulg(k), 2 if k & 1 else 4) for k in base]
    for ln in range(0, 5):
        for ix in product(range(5), repeat=ln):
            combine(D, [c.mulg(base[i]) for i in ix], [enc[i] for i in ix])
    D.close()


def decoding(ctx, name):
    D = Dut(ctx, name)
    c, n = D.c, D.c.n
    cases = set()
    for a in (1, 2, n // 3):
        A = c.mulg(a)
        for f in (2, 4, 6):
            b = c.enc(A, f)
            for i in range(256):
                cases.add(bytes([i]) + b[1:])
            for i in range(8 * len(b)):
                x = bytearray(b)
                x[i >> 3] ^= 1 << (i & 7)
                cases.add(bytes(x))
            for i in range(len(b)):
                cases.add(b[:i])
            for i in range(1, 9):
                cases.add(b + bytes(i))
        for y in (A[1], c.p - A[1]):
            for f in (2, 3, 4, 5, 6, 7):
                cases.add(bytes([f]) + c.fb(A[0]) + c.fb(y))
    xs = list(range(40)) + [c.p + i for i in range(-40, 20)] + \
        [(1 << 8 * c.size) - i for i in range(1, 10)]
    for x in xs:
        if not 0 <= x < 1 << 8 * c.size:
            continue
        for f in (2, 3):
            cases.add(bytes([f]) + c.fb(x))
        P = c.lift(x % c.p)
        for y in ((P[1], c.p - P[1], P[1] + c.p) if P else (0, 1, c.p)):
            if y < 1 << 8 * c.size:
                for f in (4, 6, 7):
                    cases.add(bytes([f]) + c.fb(x) + c.fb(y))
    for ln in range(0, 2 * c.size + 5):
        for f in (0, 2, 4, 0xff):
            cases.add(bytes([f] + [1] * (ln - 1))[:ln])
    for b in sorted(cases):
        P = c.decode(b)
        D.flag("ecdsa_pubkey_verify", int(P is not None), b, len(b))
        D.point("ecdsa_pubkey_convert", P, b, len(b))
        for v, L, ec in D.L:
            r = L.ecdsa_pubkey_export(ec, D.x, D.y, b, len(b))
            ctx.eq(r, int(P is not None), "export")
            if P:
                ctx.eq((D.x.get(), D.y.get()), (c.fb(P[0]), c.fb(P[1])),
                       "exported coordinates")
    # import of coordinates
    for a in (1, 3, n // 3):
        A = c.mulg(a)
        xb, yb = c.fb(A[0]), c.fb(A[1])
        for y, want in ((yb, A), (c.fb(c.p - A[1]), c.neg(A)),
                        (c.fb(A[1] ^ 1), None), (b"\1" + yb, None)):
            for pad in (0, 1, 3):
                D.point("ecdsa_pubkey_import", want, b"\0" * pad + xb,
                        pad + len(xb), y, len(y), -1)
        for sign in (0, 1):
            D.point("ecdsa_pubkey_import", c.lift(A[0], sign), xb, len(xb),
                    None, 0, sign)
        D.point("ecdsa_pubkey_import", None, b"\1" + xb, len(xb) + 1, None, 0,
                0)
        D.point("ecdsa_pubkey_import", None, None, 0, yb, len(yb), 0)
        D.point("ecdsa_pubkey_import", None, None, 0, None, 0, 0)
        for v, L, ec in D.L:
            ctx.case("import x", v, name, hex(a))
            ctx.eq(L.ecdsa_pubkey_import(ec, D.o, _pn, xb, len(xb), None, 0,
                                         -1, 1), 1, "import of x alone")
            ctx.check(D.o.get()[1:_n.value] == xb, "import of x alone")
    for x in range(24):
        P = c.lift(x, 0)
        b = bytes([x])
        for sign in (0, 1):
            D.point("ecdsa_pubkey_import", c.lift(x, sign), b, 1, None, 0, sign)
        if P:
            for z in (P[1], P[1] ^ 1):
                D.point("ecdsa_pubkey_import",
                        (x, z) if c.on((x, z)) else None, b, 1, c.fb(z),
                        c.size, -1)
    for v in (c.p, c.p + 1):
        if v < 1 << 8 * c.size:
            D.point("ecdsa_pubkey_import", None, c.fb(v), c.size, None, 0, 0)
            D.point("ecdsa_pubkey_import", None, c.fb(c.g[0]), c.size, c.fb(v),
                    c.size, 0)
    # operations refuse malformed operands
    bad = b"\2" + c.fb(next(x for x in range(99) if c.lift(x) is None))
    g = c.enc(c.g)
    D.point("ecdsa_pubkey_add", None, bad, len(bad), g, len(g))
    D.point("ecdsa_pubkey_add", None, g, len(g), bad, len(bad))
    D.point("ecdsa_pubkey_negate", None, bad, len(bad))
    D.point("ecdsa_pubkey_tweak_add", None, bad, len(bad), c.sb(1))
    D.point("ecdsa_pubkey_tweak_mul", None, bad, len(bad), c.sb(1))
    for pos in range(3):
        e = [g] * 3
        e[pos] = bad
        for v, L, ec in D.L:
            ctx.case("combine", v, name, "malformed", pos)
            ctx.eq(L.ecdsa_pubkey_combine(
                ec, D.o, _pn, (C.c_char_p * 3)(*e),
                (C.c_size_t * 3)(*[len(x) for x in e]), 3, 1), 0, "combine")
    D.close()


def grind(ctx, name):
    D = Dut(ctx, name)
    c, n = D.c, D.c.n
    for j in range(1, 6):
        for d in (1, n // 3, n - 1, n - 2, n - 3):
            for form in (2, 4):
                pub = c.enc(c.mulg(d), form)
                for v, L, ec in D.L:
                    seen = []

                    def cb(p, ln, arg):
                        seen.append(C.string_at(p, ln))
                        return int(len(seen) == j)
                    ctx.case("grind", v, name, j, hex(d), form)
                    ctx.state("grind", v, name, j, d, form)
                    r = L.ecdsa_pubkey_grind(ec, D.s, pub, len(pub), CHECK(cb),
                                             None)
                    ctx.eq(r, 1, "grind")
                    t = int.from_bytes(D.s.get(), "big")
                    T = c.mulg(d + t)
                    ctx.check(t < n and T and c.enc(T, form) == seen[-1],
                              "ground tweak")
                    seen.clear()
                    L.ecdsa_privkey_grind(ec, D.s, bytes([j]) * 32, form == 2,
                                          CHECK(cb), None)
                    k = int.from_bytes(D.s.get(), "big")
                    ctx.check(0 < k < n and
                              c.enc(c.mulg(k), form) == seen[-1], "ground key")
    off = next(x for x in range(1, 99) if c.lift(x) is None)
    good = c.enc(c.mulg(2), 4)
    for bad in (b"", b"\2", b"\2" + c.fb(off), b"\2" + c.fb(off) + b"\0",
                b"\2" + c.fb(c.p), b"\0" + good[1:], good[:-1], good + b"\0",
                good[:-1] + bytes([good[-1] ^ 1])):
        for v, L, ec in D.L:
            ctx.case("grind", v, name, bad)
            ctx.state("grind", v, name, bad)
            ctx.eq(L.ecdsa_pubkey_grind(ec, D.s, bad, len(bad),
                                        CHECK(lambda p, ln, arg: 1), None), 0,
                   "grinding a bad key")
    D.close()


def unknown(ctx):
    """Curves that do not exist."""
    for v, L in ctx.each:
        for fam in ("wei", "mont", "edwards"):
            ids = [x for k, x in L._consts.items()
                   if k.startswith(fam.upper() + "_CURVE_")]
            for i in (-1, -2, -(1 << 31), max(ids) + 1, max(ids) + 2, 255,
                      256, 65536, (1 << 31) - 1):
                ctx.case("unknown", v, fam, i)
                ctx.state("unknown", v, fam, i)
                ctx.eq(bool(getattr(L, fam + "_curve_create")(i)), False,
                       "curve")


def tasks(tier):
    t = [Task("unknown", unknown)]
    for nm in WEI:
        t.append(Task("private-" + nm, private, (nm,)))
        t.append(Task("create-" + nm, create, (nm,)))
        for i in range(2):
            t.append(Task("tweaks-%s-%d" % (nm, i), tweaks, (nm, i, 2)))
        t.append(Task("adds-" + nm, adds, (nm,)))
        t.append(Task("decoding-" + nm, decoding, (nm,)))
        t.append(Task("grind-" + nm, grind, (nm,)))
    return t
