"""C06: Edwards and Montgomery key arithmetic.

Every operation is compared with plain-integer groups over all pairs of
boundary scalars and torsion components; conversions, decoding and the
small-order predicates over every coordinate string near 0, the prime and limb
patterns."""

import ctypes as C
from itertools import product

from checks.c04 import coords, patterns
from mc import eddsa as E
from mc.core import Task
from mc.curves import ED, MONT, edge_scalars, few_scalars, is_square
from mc.lib import Out

BOUNDS = ("3 Edwards and 2 Montgomery curves, 4 builds; scalars: all pairs "
          "of ~70 boundary values and values at or past the order; points: "
          "all pairs of 7 multiples x all torsion components for addition, 12 "
          "multiples x torsion x ~70 tweaks, sums of up to 4 of 6 points; "
          "decoding and predicates: every bit flipped, all encodings of "
          "small-order points, ~600 patterned strings; conversions over the "
          "same points and ~900 patterned strings")
ASSUMPTIONS = ["unreduced multipliers are below two to the field size, as "
               "clamped scalars are"]
LIBS = ("n64", "i128", "p32", "l32")
CHECK = C.CFUNCTYPE(C.c_int, C.c_void_p, C.c_void_p)


class Dut:
    def __init__(self, ctx, name):
        self.ctx, self.c = ctx, ED[name]
        self.L = [(v, L, L.edwards_curve_create(
            getattr(L, "EDWARDS_CURVE_" + name))) for v, L in ctx.each]
        self.o = Out(self.c.adj)
        self.s = Out(self.c.nsize)
        self.x, self.y = Out(self.c.size), Out(self.c.size)

    def _run(self, fn, out, want, args, ret):
        for v, L, ec in self.L:
            self.ctx.case(fn, v, self.c.name, args)
            self.ctx.state(fn, v, self.c.name, args)
            out.reset()
            r = getattr(L, fn)(ec, out, *args)
            if ret:
                self.ctx.eq(r, int(want is not None), fn)
            if want is not None:
                self.ctx.eq(out.get(), want, fn + ": result")
            self.ctx.check(out.intact(), fn + ": output size")

    def scalar(self, fn, want, *args):
        self._run(fn, self.s, self.c.sb(want), args, False)

    def point(self, fn, P, *args):
        self._run(fn, self.o, None if P is None else self.c.enc(P), args, True)

    def pointv(self, fn, P, *args):
        self._run(fn, self.o, self.c.enc(P), args, False)

    def flag(self, fn, want, *args):
        for v, L, ec in self.L:
            self.ctx.case(fn, v, self.c.name, args)
            self.ctx.state(fn, v, self.c.name, args)
            self.ctx.eq(getattr(L, fn)(ec, *args), int(want), fn)

    def close(self):
        for v, L, ec in self.L:
            L.edwards_curve_destroy(ec)


def scalars(ctx, name):
    D = Dut(ctx, name)
    c, n = D.c, D.c.n
    top = (1 << 8 * c.nsize) - 1
    S = edge_scalars(n, 1 if ctx.quick else 2)
    S += [v for j in range(1, 20) for v in (j * n - 1, j * n, j * n + 1)
          if n <= v <= top]
    S += [top, top - 1, 1 << 8 * c.nsize - 1]
    S = list(dict.fromkeys(S))
    for a, b in product(S, repeat=2):
        D.scalar("eddsa_scalar_tweak_add", (a + b) % n, c.sb(a), c.sb(b))
        D.scalar("eddsa_scalar_tweak_mul", a * b % n, c.sb(a), c.sb(b))
    for a in S + [1 << k for k in range(8 * c.nsize)]:
        b = c.sb(a)
        D.scalar("eddsa_scalar_reduce", a % n, b)
        D.scalar("eddsa_scalar_negate", -a % n, b)
        D.scalar("eddsa_scalar_invert", pow(a, -1, n) if a % n else 0, b)
        D.scalar("eddsa_scalar_clamp", c.clamp(b), b)
        D.flag("eddsa_scalar_verify", 1, b)
        D.flag("eddsa_scalar_is_zero", a % n == 0, b)
        D.pointv("eddsa_pubkey_from_scalar", c.mulg(a), b)
    keys = [bytes([i]) * c.adj for i in range(0, 256, 5)]
    for k in keys:
        a, prefix = E.expand(c, k)
        D.scalar("eddsa_privkey_convert", a, k)
        D.pointv("eddsa_pubkey_create", c.mulg(a), k)
        for v, L, ec in D.L:
            ctx.case("expand", v, name, k)
            L.eddsa_privkey_expand(ec, D.s, D.o, k)
            ctx.eq((D.s.get(), D.o.get()), (c.sb(a), prefix), "expansion")
            ctx.eq((L.eddsa_privkey_export(ec, D.o, k), D.o.get()), (1, k),
                   "export")
            for ln in (0, c.adj - 1, c.adj, c.adj + 1):
                b = (k + b"\1")[:ln]
                r = L.eddsa_privkey_import(ec, D.o, b, ln)
                ctx.eq(r, int(ln == c.adj), "import")
                if r:
                    ctx.eq(D.o.get(), k, "import")
        D.flag("eddsa_privkey_verify", 1, k)
    for what, v in (("edwards_curve_scalar_size", c.nsize),
                    ("edwards_curve_scalar_bits", n.bit_length()),
                    ("edwards_curve_field_size", c.size),
                    ("edwards_curve_field_bits", c.p.bit_length()),
                    ("eddsa_privkey_size", c.adj), ("eddsa_pubkey_size", c.adj),
                    ("eddsa_sig_size", 2 * c.adj),
                    ("ristretto_privkey_size", c.nsize),
                    ("ristretto_pubkey_size", c.size)):
        D.flag(what, v)
    # generated keys are a function of the entropy
    for i in range(16):
        got = set()
        for v, L, ec in D.L:
            ctx.case("generate", v, name, i)
            ctx.state("generate", v, name, i)
            L.eddsa_privkey_generate(ec, D.o, bytes([i]) * 32)
            L.eddsa_scalar_generate(ec, D.s, bytes([i]) * 32)
            got.add((D.o.get(), D.s.get()))
            k = int.from_bytes(D.s.get(), "little")
            ctx.eq(c.clamp(D.s.get()), k, "generated scalar is clamped")
        ctx.check(len(got) == 1, "generated keys depend on the back end")
    for j in range(1, 5):
        for v, L, ec in D.L:
            seen = []

            def cb(p, arg):
                seen.append(C.string_at(p, c.adj))
                return int(len(seen) == j)
            ctx.case("grind", v, name, j)
            ctx.state("grind", v, name, j)
            L.eddsa_privkey_grind(ec, D.o, bytes([j]) * 32, CHECK(cb), None)
            a = E.expand(c, D.o.get())[0]
            ctx.eq(c.enc(c.mulg(a)), seen[-1], "ground key")
            seen.clear()
            L.eddsa_scalar_grind(ec, D.s, bytes([j]) * 32, CHECK(cb), None)
            a = int.from_bytes(D.s.get(), "little")
            ctx.eq(c.enc(c.mulg(a)), seen[-1], "ground scalar")
    D.close()


def points(c, ks):
    """(k, torsion index, point)"""
    return [(k, i, c.add(c.mulg(k), T)) for k in ks
            for i, T in enumerate(c.torsion)]


def adds(ctx, name):
    D = Dut(ctx, name)
    c, n = D.c, D.c.n
    P = points(c, (0, 1, 2, n - 1, n - 2, n // 3, (n + 1) // 2))
    enc = [c.enc(p[2]) for p in P]
    for (i, a), (j, b) in product(enumerate(P), repeat=2):
        D.point("eddsa_pubkey_add", c.add(a[2], b[2]), enc[i], enc[j])
    # points of patterned coordinates
    ys = [y for y in patterns(c.p, 16) if y < c.p]
    Q = [p for p in (c.lift_y(y, y >> 3 & 1) for y in ys) if p]
    Q = Q[::max(1, len(Q) // 30)]
    for a, b in product(Q, repeat=2):
        D.point("eddsa_pubkey_add", c.add(a, b), c.enc(a), c.enc(b))
    for a in Q + [p[2] for p in P]:
        D.point("eddsa_pubkey_negate", c.neg(a), c.enc(a))
        D.point("eddsa_pubkey_add", c.zero, c.enc(a), c.enc(c.neg(a)))
    base = [c.zero, c.g, c.neg(c.g), c.torsion[1], c.torsion[c.h // 2],
            c.add(c.mulg(2), c.torsion[-1])]
    for ln in range(0, 5):
        for ix in product(range(len(base)), repeat=ln):
            T = c.zero
            for i in ix:
                T = c.add(T, base[i])
            a = (C.c_char_p * max(ln, 1))(*[c.enc(base[i]) for i in ix])
            for v, L, ec in D.L:
                ctx.case("combine", v, name, ix)
                ctx.state("combine", v, name, ix)
                r = L.eddsa_pubkey_combine(ec, D.o, a, ln)
                ctx.eq((r, D.o.get()), (1, c.enc(T)), "combine")
    bad = next(b for b in (y.to_bytes(c.adj, "little") for y in range(99))
               if c.decode(b) is None)
    g = c.enc(c.g)
    D.point("eddsa_pubkey_add", None, bad, g)
    D.point("eddsa_pubkey_add", None, g, bad)
    D.point("eddsa_pubkey_negate", None, bad)
    D.point("eddsa_pubkey_tweak_add", None, bad, c.sb(1))
    D.point("eddsa_pubkey_tweak_mul", None, bad, c.sb(1))
    for pos in range(3):
        e = [g] * 3
        e[pos] = bad
        for v, L, ec in D.L:
            ctx.case("combine", v, name, "malformed", pos)
            ctx.eq(L.eddsa_pubkey_combine(ec, D.o, (C.c_char_p * 3)(*e), 3), 0,
                   "combine")
    D.close()


def tweaks(ctx, name, part, of):
    D = Dut(ctx, name)
    c, n = D.c, D.c.n
    top = (1 << 8 * c.nsize) - 1
    S = edge_scalars(n) + [n, n + 1, c.clamp(b"\xff" * c.nsize),
                           c.clamp(bytes(c.nsize)), (1 << c.bits) - 1]
    ks = few_scalars(n) + [0]
    for x, (k, i, P) in enumerate(points(c, ks)):
        if x % of != part:
            continue
        pub = c.enc(P)
        for t in S + [n - k]:
            # torsion: only the multiplier modulo h matters
            D.point("eddsa_pubkey_tweak_add", c.add(P, c.mulg(t)), pub,
                    c.sb(t))
            if i in (0, 1, c.h // 2) or not ctx.quick:
                want = c.add(c.mulg(k * t), c.torsion[i * t % c.h])
                D.point("eddsa_pubkey_tweak_mul", want, pub, c.sb(t))
        for t in (top, top - 1):
            D.point("eddsa_pubkey_tweak_add", c.add(P, c.mulg(t)), pub,
                    c.sb(t))
    D.close()


def decoding(ctx, name):
    D = Dut(ctx, name)
    c, n = D.c, D.c.n
    from checks.c03 import encodings
    cases = set(encodings(c))
    ys = set(patterns(c.p, 2)) | set(range(64)) | \
        {c.p + i for i in range(-64, 30)}
    hi = 1 << 8 * c.adj - 1
    ys |= {hi - i for i in range(1, 10)} | {1 << k for k in
                                            range(c.bits, 8 * c.adj - 1)}
    for y in ys:
        if 0 <= y < hi:
            for s in (0, 1):
                cases.add((y | s * hi).to_bytes(c.adj, "little"))
    for k, i, P in points(c, (0, 1, n // 3, n - 1)):
        b = c.enc(P)
        cases.add(b)
        if i in (0, 1):
            for j in range(8 * c.adj):
                x = bytearray(b)
                x[j >> 3] ^= 1 << (j & 7)
                cases.add(bytes(x))
    tors = set(c.torsion)
    for b in sorted(cases):
        P = c.decode(b)
        D.flag("eddsa_pubkey_verify", P is not None, b)
        D.flag("eddsa_pubkey_is_infinity", b == c.enc(c.zero), b)
        D.flag("eddsa_pubkey_is_small", P in tors and P != c.zero, b)
        for v, L, ec in D.L:
            r = L.eddsa_pubkey_export(ec, D.x, D.y, b)
            ctx.eq(r, int(P is not None), "export")
            if P:
                ctx.eq((D.x.get(), D.y.get()), (c.fb(P[0]), c.fb(P[1])),
                       "exported coordinates")
        if P is None:
            D.flag("eddsa_pubkey_has_torsion", 0, b)
    for k, i, P in points(c, few_scalars(n) + [0]):
        D.flag("eddsa_pubkey_has_torsion", i != 0, c.enc(P))
        xb, yb = c.fb(P[0]), c.fb(P[1])
        D.point("eddsa_pubkey_import", P, xb, c.size, yb, c.size, -1)
        for z in (P[0] ^ 1, -P[0] % c.p, P[1]):
            Q = (z, P[1])
            D.point("eddsa_pubkey_import", Q if c.on(Q) else None, c.fb(z),
                    c.size, yb, c.size, -1)
        D.point("eddsa_pubkey_import", None, xb + b"\1", c.size + 1, yb,
                c.size, -1)
        D.point("eddsa_pubkey_import", P, xb + b"\0\0", c.size + 2, yb,
                c.size, -1)
        for s in (0, 1):
            def ok(Q, j):
                return Q if Q and Q[j] & 1 == s else None
            D.point("eddsa_pubkey_import", ok(c.lift_y(P[1], s), 0), None, 0,
                    yb, c.size, s)
            D.point("eddsa_pubkey_import", ok(c.lift_x(P[0], s), 1), xb,
                    c.size, None, 0, s)
    D.point("eddsa_pubkey_import", None, None, 0, None, 0, 0)
    for v in (c.p, c.p + 1):
        D.point("eddsa_pubkey_import", None, c.fb(v), c.size, None, 0, 0)
        D.point("eddsa_pubkey_import", None, None, 0, c.fb(v), c.size, 0)
    for x in range(24):
        for s in (0, 1):
            for j, Q in ((1, c.lift_x(x, s)), (0, c.lift_y(x, s))):
                if Q and Q[j] & 1 != s:
                    Q = None
                a = (bytes([x]), 1, None, 0) if j else (None, 0, bytes([x]), 1)
                D.point("eddsa_pubkey_import", Q, *a, s)
    D.close()


def to_mont(c, P):
    """Image on the Montgomery curve, its u-coordinate; None for infinity"""
    p = c.p
    if P == c.zero:
        return None
    if c.name == "ED448":
        return P[1] * P[1] * pow(P[0] * P[0], -1, p) % p if P[0] else 0
    u = (1 + P[1]) * pow(1 - P[1], -1, p) % p
    # Ed1174's Montgomery form with B = 1 is that of its twist's parameters
    return -u % p if c.name == "ED1174" else u


def convert(ctx, name):
    """Edwards to Montgomery and back."""
    D = Dut(ctx, name)
    c, n = D.c, D.c.n
    o = Out(c.size)
    pts = [P for _, _, P in points(c, few_scalars(n) + list(range(0, 24)))]
    pts += [P for P in (c.lift_y(y, y & 1) for y in patterns(c.p, 3)
                        if y < c.p) if P]
    mname = {"ED25519": "X25519", "ED448": "X448"}.get(name)
    if mname:
        ms = {v: L.mont_curve_create(getattr(L, "MONT_CURVE_" + mname))
              for v, L in ctx.each}
    for P in pts:
        u = to_mont(c, P)
        want = None if u is None else c.fb(u)
        for v, L, ec in D.L:
            ctx.case("convert", v, name, P)
            ctx.state("convert", v, name, P)
            r = L.eddsa_pubkey_convert(ec, o, c.enc(P))
            ctx.eq(r, int(want is not None), "conversion")
            if want is None:
                continue
            ctx.eq(o.get(), want, "converted key")
            if not mname:
                continue
            # back: the point itself, up to sign, or its multiple by the
            # isogeny's degree where the torsion does not survive
            if name == "ED25519":
                for s in (0, 1):
                    r = L.ecdh_pubkey_convert(ms[v], D.o, want, s)
                    Q = P if P[0] & 1 == s or P[0] == 0 else c.neg(P)
                    ctx.eq(r, 1, "conversion back")
                    ctx.eq(D.o.get(), c.enc(Q), "converted back")
                r = L.ecdh_pubkey_convert(ms[v], D.o, want, -1)
                ctx.eq(r, 1, "conversion back")
                ctx.check(D.o.get() in (c.enc(P), c.enc(c.neg(P))),
                          "converted back to either sign")
    if name == "ED448":
        # the isogeny forgets torsion: exact on the prime-order subgroup
        for k in few_scalars(n) + list(range(1, 40)):
            P = c.mulg(k)
            for i, T in enumerate(c.torsion):
                u = to_mont(c, c.add(P, T))
                if u is None:
                    continue
                for v, L, ec in D.L:
                    for s in (0, 1):
                        ctx.case("back", v, name, hex(k), i, s)
                        ctx.state("back", v, name, k, i, s)
                        r = L.ecdh_pubkey_convert(ms[v], D.o, c.fb(u), s)
                        Q = P if P[0] & 1 == s else c.neg(P)
                        ctx.eq((r, D.o.get()), (1, c.enc(Q)), "converted back")
                    r = L.ecdh_pubkey_convert(ms[v], D.o, c.fb(u), -1)
                    ctx.eq(r, 1, "conversion back")
                    ctx.check(D.o.get() in (c.enc(P), c.enc(c.neg(P))),
                              "converted back to either sign")
    if mname:
        for v, L in ctx.each:
            L.mont_curve_destroy(ms[v])
    D.close()


def mont(ctx, name):
    """Montgomery keys: validity, predicates, import and export."""
    c = MONT[name]
    ed = c.ed
    cur = [(v, L, L.mont_curve_create(getattr(L, "MONT_CURVE_" + name)))
           for v, L in ctx.each]
    o, x, y = Out(c.size), Out(c.size), Out(c.size)
    e = Out(ed.adj)

    def flag(fn, want, *a):
        for v, L, ec in cur:
            ctx.case(fn, v, name, a)
            ctx.state(fn, v, name, a)
            ctx.eq(getattr(L, fn)(ec, *a), int(want), fn)
    # torsion of the curve itself, by its u-coordinates
    small = set()
    for u in range(2, 400):
        if is_square(c.rhs(u), c.p):
            T, Q = None, None
            P = c.lift(u)
            # n P by double-and-add
            for b in bin(c.n)[2:]:
                T = c.add(T, T)
                if b == "1":
                    T = c.add(T, P)
            Q = T
            while Q is not None:
                small.add(Q[0])
                Q = c.add(Q, T)
            if len(small) >= (c.h // 2):
                break
    cs = coords(c)
    for b in cs:
        u = c.load(b)
        on = is_square(c.rhs(u), c.p)
        flag("ecdh_pubkey_verify", on, b)
        flag("ecdh_pubkey_is_small", on and u in small, b)
        tors = on and (u == 0 or c.ladder(c.n, u) is not None)
        flag("ecdh_pubkey_has_torsion", tors, b)
        for s in (0, 1):
            P = c.lift(u, s) if on else None
            if P and P[1] & 1 != s:
                P = None
            for v, L, ec in cur:
                ctx.case("export", v, name, b, s)
                ctx.state("export", v, name, b, s)
                r = L.ecdh_pubkey_export(ec, x, y, b, s)
                ctx.eq(r, int(P is not None), "export")
                if not P:
                    continue
                ctx.eq((x.get(), y.get()), (c.fb(P[0]), c.fb(P[1])),
                       "coordinates")
                for yy, ok in ((P[1], 1), (P[1] ^ 1, 0), (-P[1] % c.p, 1)):
                    r = L.ecdh_pubkey_import(ec, o, x, c.size, c.fb(yy),
                                             c.size)
                    ctx.eq(r, int(c.on((P[0], yy)) if hasattr(c, "on") else
                                  yy * yy % c.p == c.rhs(P[0])), "import")
                    if r:
                        ctx.eq(o.get(), c.fb(P[0]), "imported key")
                r = L.ecdh_pubkey_import(ec, o, x, c.size, None, 0)
                ctx.eq((r, o.get()), (1, c.fb(P[0])), "import of u")
        # conversion to Edwards
        if not on and not ctx.quick or u < 99 or u > c.p - 99 or name == "X25519":
            for v, L, ec in cur:
                ctx.case("convert", v, name, b)
                r = L.ecdh_pubkey_convert(ec, e, b, 0)
                ctx.eq(r, int(on), "conversion")
                if not on or name != "X25519":
                    continue
                w = (u - 1) * pow(u + 1, -1, c.p) % c.p
                Q = ed.lift_y(w, 0)
                ctx.check(Q is not None, "oracle")
                ctx.eq(e.get(), ed.enc(Q), "converted key")
    for v, L, ec in cur:
        ctx.case("import", v, name)
        ctx.eq(L.ecdh_pubkey_import(ec, o, None, 0, None, 0), 0, "no u")
        ctx.eq([f(ec) for f in (L.mont_curve_field_size,
                                L.mont_curve_field_bits,
                                L.mont_curve_scalar_size,
                                L.mont_curve_scalar_bits, L.ecdh_privkey_size,
                                L.ecdh_pubkey_size)],
               [c.size, c.p.bit_length(), (c.n.bit_length() + 7) // 8,
                c.n.bit_length(), c.size, c.size], "sizes")
        ctx.eq(L.ecdh_pubkey_import(ec, o, c.fb(c.u) + b"\1", c.size + 1, None,
                                    0), 0, "long u")
        ctx.eq(L.ecdh_pubkey_import(ec, o, c.fb(c.u) + b"\0", c.size + 1, None,
                                    0), 1, "padded u")
        for i in range(8):
            k = bytes([i * 31]) * c.size
            ctx.eq((L.ecdh_privkey_export(ec, o, k), o.get()), (1, k), "export")
            ctx.eq(L.ecdh_privkey_verify(ec, k), 1, "private key")
            for ln in (0, 1, c.size - 1, c.size, c.size + 1):
                b = (k + b"\0")[:ln]
                ctx.eq((L.ecdh_privkey_import(ec, o, b, ln), o.get()),
                       (1, (b + bytes(c.size))[:c.size]), "private import")
            ctx.eq(L.ecdh_privkey_import(ec, o, k + b"\1", c.size + 1), 0,
                   "private import")
            L.ecdh_privkey_generate(ec, o, bytes([i]) * 32)
            k = o.get()
            ctx.eq(c.clamp(k), int.from_bytes(k, "little"), "generated key")
            ctx.state("misc", v, name, i)
    for j in range(1, 5):
        for v, L, ec in cur:
            seen = []

            def cb(p, arg):
                seen.append(C.string_at(p, c.size))
                return int(len(seen) == j)
            ctx.case("grind", v, name, j)
            ctx.state("grind", v, name, j)
            L.ecdh_privkey_grind(ec, o, bytes([j]) * 32, CHECK(cb), None)
            k = c.clamp(o.get())
            ctx.eq(c.fb(c.ladder(k, c.u)), seen[-1], "ground key")
    for v, L, ec in cur:
        L.mont_curve_destroy(ec)


def tasks(tier):
    t = []
    for nm in ED:
        t.append(Task("scalars-" + nm, scalars, (nm,)))
        t.append(Task("adds-" + nm, adds, (nm,)))
        t.append(Task("decoding-" + nm, decoding, (nm,)))
        t.append(Task("convert-" + nm, convert, (nm,)))
        for i in range(4):
            t.append(Task("tweaks-%s-%d" % (nm, i), tweaks, (nm, i, 4)))
    for nm in MONT:
        t.append(Task("mont-" + nm, mont, (nm,)))
    return t
