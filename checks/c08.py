"""C08: the Ristretto group.

Encoding, decoding, group operations and both maps are compared with the affine
definitions over boundary and patterned strings and all small combinations."""

import ctypes as C
from itertools import product

from checks.c04 import patterns
from mc.core import Task
from mc.curves import ED, edge_scalars, few_scalars
from mc.lib import Out
from mc.rist import RIST

BOUNDS = ("3 curves, 4 builds; decoding: 0..299, p-300..p+18, ~1500 "
          "patterned strings, every bit of 6 encodings flipped; scalars: all "
          "pairs of ~60 boundary values, also at or past the order; points: "
          "all pairs of ~30 multiples, mapped and patterned elements; sums of "
          "up to 4 of 5; tweaks: 12 x ~60; maps: ~400 elements, all pairs of "
          "~25, all preimages over all 32 hints of ~90 group elements")
ASSUMPTIONS = ["which square root of ad - 1 and which non-residue the map "
               "uses is a fixed convention per curve"]
LIBS = ("n64", "i128", "p32", "l32")
CHECK = C.CFUNCTYPE(C.c_int, C.c_void_p, C.c_void_p)


class Dut:
    def __init__(self, ctx, name):
        self.ctx, self.c, self.r = ctx, ED[name], RIST[name]
        self.L = [(v, L, L.edwards_curve_create(
            getattr(L, "EDWARDS_CURVE_" + name))) for v, L in ctx.each]
        self.o = Out(self.c.size)
        self.s = Out(self.c.nsize)
        self.oo = Out(2 * self.c.size)

    def run(self, fn, out, want, *args, ret=True):
        """want: bytes, or None if the call must fail"""
        for v, L, ec in self.L:
            self.ctx.case(fn, v, self.c.name, args)
            self.ctx.state(fn, v, self.c.name, args)
            out.reset()
            r = getattr(L, fn)(ec, out, *args)
            if ret:
                self.ctx.eq(r, int(want is not None), fn)
            if want is not None:
                self.ctx.eq(out.get(), want, fn + ": result")
            self.ctx.check(out.intact(), fn + ": output size")

    def scalar(self, fn, want, *args):
        self.run(fn, self.s, None if want is None else self.c.sb(want), *args)

    def point(self, fn, P, *args, ret=True):
        self.run(fn, self.o, None if P is None else self.r.enc(P), *args,
                 ret=ret)

    def flag(self, fn, want, *args):
        for v, L, ec in self.L:
            self.ctx.case(fn, v, self.c.name, args)
            self.ctx.state(fn, v, self.c.name, args)
            self.ctx.eq(getattr(L, fn)(ec, *args), int(want), fn)


def scalars(ctx, name):
    D = Dut(ctx, name)
    c, n = D.c, D.c.n
    top = (1 << 8 * c.nsize) - 1
    S = edge_scalars(n, 1 if ctx.quick else 2)
    for a, b in product(S + [n, n + 1, top], repeat=2):
        ok = a < n and b < n
        D.scalar("ristretto_privkey_tweak_add", (a + b) % n if ok else None,
                 c.sb(a), c.sb(b))
        m = a * b % n
        D.scalar("ristretto_privkey_tweak_mul", m if ok and m else None,
                 c.sb(a), c.sb(b))
    S += [n, n + 1, n + 2, 2 * n, 2 * n - 1, top] + \
        [1 << k for k in range(8 * c.nsize)]
    for a in S:
        if a > top:
            continue
        b, ok = c.sb(a), a < n
        D.scalar("ristretto_privkey_negate", -a % n if ok else None, b)
        D.scalar("ristretto_privkey_invert",
                 (pow(a, -1, n) if a else 0) if ok else None, b)
        D.scalar("ristretto_privkey_export", a if ok else None, b)
        D.scalar("ristretto_privkey_import", a if ok else None, b, len(b))
        D.scalar("ristretto_privkey_import", a if ok else None, b + b"\0\0",
                 len(b) + 2)
        D.scalar("ristretto_privkey_import", None, b + b"\1", len(b) + 1)
        short = b.rstrip(b"\0")
        D.scalar("ristretto_privkey_import", a if ok else None, short,
                 len(short))
        D.flag("ristretto_privkey_verify", ok, b)
        D.flag("ristretto_privkey_is_zero", a == 0, b)
        D.point("ristretto_pubkey_create", c.mulg(a) if ok else None, b)
    # wide reduction
    w = 16 * c.nsize
    W = [0, 1, n - 1, n, n + 1, n * n, n * n - 1, n * (n - 1), (1 << w) - 1,
         (1 << w) - n, (1 << w) - 2, n << w // 2, (n << w // 2) - 1,
         ((1 << w) // n) * n, ((1 << w) // n) * n - 1]
    W += [1 << k for k in range(w)] + [(1 << k) - 1 for k in range(w)]
    for x in W:
        if x >> w == 0:
            D.run("ristretto_privkey_from_uniform", D.s, c.sb(x % n),
                  x.to_bytes(2 * c.nsize, "little"), ret=False)
    for i in range(16):
        got = set()
        for v, L, ec in D.L:
            ctx.case("generate", v, name, i)
            ctx.state("generate", v, name, i)
            L.ristretto_privkey_generate(ec, D.s, bytes([i]) * 32)
            got.add(D.s.get())
        ctx.check(len(got) == 1, "generated keys depend on the back end")
        k = int.from_bytes(got.pop(), "little")
        ctx.check(0 < k < n, "generated key in range")
    # grinding: the tweak is the number of steps taken
    for k, j in product((0, 1, n - 1, n // 3), range(1, 6)):
        pub = D.r.enc(c.mulg(k))
        for v, L, ec in D.L:
            seen = []

            def cb(p, arg):
                seen.append(C.string_at(p, c.size))
                return int(len(seen) == j)
            ctx.case("grind", v, name, hex(k), j)
            ctx.state("grind", v, name, k, j)
            r = L.ristretto_pubkey_grind(ec, D.s, pub, CHECK(cb), None)
            t = int.from_bytes(D.s.get(), "little")
            ctx.eq(r, 1, "grind")
            ctx.eq(seen[-1], D.r.enc(c.mulg(k + t)), "ground tweak")
            ctx.eq(len(set(seen)), j, "candidates tried")
            seen.clear()
            L.ristretto_privkey_grind(ec, D.s, bytes([k & 255]) * 32,
                                      CHECK(cb), None)
            t = int.from_bytes(D.s.get(), "little")
            ctx.eq(seen[-1], D.r.enc(c.mulg(t)), "ground key")
    for v, L, ec in D.L:
        for bad in (b"\xff" * c.size, b"\1" + bytes(c.size - 1),
                    c.fb(c.p), c.fb(c.p - 1)):
            ctx.case("grind", v, name, bad)
            ctx.state("grind", v, name, bad)
            ctx.check(D.r.dec(bad) is None, "test value")
            ctx.eq(L.ristretto_pubkey_grind(ec, D.s, bad,
                                            CHECK(lambda p, arg: 1), None), 0,
                   "grinding a bad key")


def codes(c):
    p, top = c.p, 1 << 8 * c.size
    s = set(range(300)) | set(range(p - 300, p + 19)) | set(patterns(p, 1))
    s |= {p - v for v in patterns(p, 4) if v <= p}
    s |= {top - 1 - v for v in range(20)}
    return [v.to_bytes(c.size, "little") for v in sorted(s) if 0 <= v < top]


def decoding(ctx, name):
    D = Dut(ctx, name)
    c, r = D.c, D.r
    cases = codes(c)
    for k in (0, 1, 2, 5, c.n - 1, c.n // 3):
        b = r.enc(c.mulg(k))
        ctx.check(r.enc(r.dec(b)) == b, "oracle")
        for j in range(8 * c.size):
            x = bytearray(b)
            x[j >> 3] ^= 1 << (j & 7)
            cases.append(bytes(x))
    zero = bytes(c.size)
    zs = c.sb(0)
    for b in cases:
        P = r.dec(b)
        if P:
            ctx.check(c.on(P) and r.enc(P) == b, "oracle")
        D.flag("ristretto_pubkey_verify", P is not None, b)
        D.flag("ristretto_pubkey_is_infinity", b == zero, b)
        D.point("ristretto_pubkey_tweak_add", P, b, zs)
        D.point("ristretto_pubkey_negate", c.neg(P) if P else None, b)


def group(c, r, quick):
    """Edwards points standing for group elements, some with torsion"""
    out = [c.mulg(k) for k in few_scalars(c.n) + [0]]
    out += [r.f(u) for u in (3, 5, 7, 11)]
    out += [c.add(c.mulg(9), T) for T in r.coset]
    out += [r.dec(b) for b in codes(c)[::(60 if quick else 10)] if r.dec(b)]
    return out


def points(ctx, name):
    D = Dut(ctx, name)
    c, r = D.c, D.r
    G = group(c, r, ctx.quick)
    enc = [r.enc(P) for P in G]
    ctx.check(all(r.dec(e) for e in enc), "oracle")
    for (P, a), (Q, b) in product(zip(G, enc), repeat=2):
        D.point("ristretto_pubkey_add", c.add(P, Q), a, b)
    for P, a in zip(G, enc):
        D.point("ristretto_pubkey_negate", c.neg(P), a)
    for ln in range(5):
        for ix in product(range(5), repeat=ln):
            T = c.zero
            for i in ix:
                T = c.add(T, G[(0, 3, 12, 13, 17)[i]])
            arr = (C.c_char_p * max(ln, 1))(
                *[enc[(0, 3, 12, 13, 17)[i]] for i in ix])
            for v, L, ec in D.L:
                ctx.case("combine", v, name, ix)
                ctx.state("combine", v, name, ix)
                k = L.ristretto_pubkey_combine(ec, D.o, arr, ln)
                ctx.eq((k, D.o.get()), (1, r.enc(T)), "combine")
    bad = next(b for b in codes(c) if b[0] & 1 == 0 and r.dec(b) is None)
    for b in (bad, b"\1" + bytes(c.size - 1), c.fb(c.p)):
        D.point("ristretto_pubkey_add", None, b, enc[0])
        D.point("ristretto_pubkey_add", None, enc[0], b)
        D.point("ristretto_pubkey_tweak_mul", None, b, c.sb(1))
        D.point("ristretto_derive", None, b, c.sb(1))
        for pos in range(3):
            e = [enc[0]] * 3
            e[pos] = b
            for v, L, ec in D.L:
                ctx.case("combine", v, name, "malformed", pos)
                ctx.eq(L.ristretto_pubkey_combine(
                    ec, D.o, (C.c_char_p * 3)(*e), 3), 0, "combine")


def tweaks(ctx, name, part, of):
    D = Dut(ctx, name)
    c, r, n = D.c, D.r, D.c.n
    S = edge_scalars(n)
    ks = (few_scalars(n) + [0])[part::of]
    for k in ks:
        for T in r.coset[:2]:
            b = r.enc(c.add(c.mulg(k), T))
            for t in S + [n - k if k else 0]:
                D.point("ristretto_pubkey_tweak_add", c.mulg(k + t), b,
                        c.sb(t))
                Q = c.mulg(k * t)
                D.point("ristretto_pubkey_tweak_mul",
                        Q if k * t % n else None, b, c.sb(t))
                D.point("ristretto_derive", Q, b, c.sb(t))
            for t in (n, n + 1, (1 << 8 * c.nsize) - 1):
                for fn in ("ristretto_pubkey_tweak_add",
                           "ristretto_pubkey_tweak_mul", "ristretto_derive"):
                    D.point(fn, None, b, c.sb(t))
    # elements that do not come from multiples of the generator
    if part == 0:
        for P in group(c, r, True)[13:30]:
            for t in S[::6]:
                Q = c.mul(t, P)
                z = Q[0] * Q[1] % c.p == 0 if c.h == 8 else Q[0] == 0
                D.point("ristretto_pubkey_tweak_mul", None if z else Q,
                        r.enc(P), c.sb(t))


def maps(ctx, name):
    D = Dut(ctx, name)
    c, r, p = D.c, D.r, D.c.p
    bits, top = p.bit_length(), 1 << 8 * c.size
    el = r.special_u() + list(range(40)) + list(range(p - 40, p + 19)) + \
        patterns(p, 9 if ctx.quick else 1)
    for u in dict.fromkeys(el):
        if u >> bits:
            continue
        for hi in {0, top - (1 << bits)}:
            D.point("ristretto_pubkey_from_uniform", r.f(u % p),
                    (u | hi).to_bytes(c.size, "little"), ret=False)
    el = r.special_u() + [1, 2, 3, p - 1, p - 2] + patterns(p, 40)[::9]
    el = [u for u in dict.fromkeys(el) if u < p]
    img = {u: r.f(u) for u in el}
    for a, b in product(el, repeat=2):
        D.point("ristretto_pubkey_from_hash", c.add(img[a], img[b]),
                c.fb(a) + c.fb(b), ret=False)

    def unhash(P, ent):
        got = set()
        for v, L, ec in D.L:
            ctx.case("unhash", v, name, P, ent)
            ctx.state("unhash", v, name, P, ent)
            D.oo.reset()
            k = L.ristretto_pubkey_to_hash(ec, D.oo, r.enc(P), ent)
            ctx.eq(k, 1, "inverse")
            ctx.check(D.oo.intact(), "output size")
            got.add(D.oo.get())
        ctx.eq(len(got), 1, "inverses differ between back ends")
        b = got.pop()
        u = [(int.from_bytes(x, "little") & (1 << bits) - 1) % p
             for x in (b[:c.size], b[c.size:])]
        ctx.eq(r.enc(c.add(r.f(u[0]), r.f(u[1]))), r.enc(P),
               "the strings map back to the element")
        return r.f(u[0])

    G = group(c, r, ctx.quick)
    for i, P in enumerate(G):
        for e in range(3):
            unhash(P, bytes([i, e]) * 16)
    # the first string already maps to the element, its negative or its half
    for e in range(12):
        ent = bytes([255, e]) * 16
        Q = unhash(G[-1], ent)
        for P in (Q, c.neg(Q), c.add(Q, Q)):
            unhash(P, ent)


def inverse(ctx, name):
    D = Dut(ctx, name)
    c, r, p = D.c, D.r, D.c.p
    bits = p.bit_length()
    G = group(c, r, ctx.quick)
    el = r.special_u() + list(range(20)) + patterns(p, 30)[::3]
    G += [r.f(u) for u in el if u < p]
    for P in G:
        b = r.enc(P)
        pre = r.pre(P)
        zero = b == bytes(c.size)
        for v, L, ec in D.L:
            got = [[], []]
            for sign in (0, 1, 15):
                outs = []
                for ix in range(16):
                    ctx.case("preimage", v, name, b, sign, ix)
                    ctx.state("preimage", v, name, b, sign, ix)
                    D.o.reset()
                    k = L.ristretto_pubkey_to_uniform(ec, D.o, b,
                                                      sign << 4 | ix)
                    ctx.check(D.o.intact(), "output size")
                    u = int.from_bytes(D.o.get(), "little")
                    outs.append(u if k else -1)
                    if not k:
                        continue
                    ctx.check(u < p and (u & 1 == sign & 1 or u == 0), "sign")
                    ctx.eq(r.enc(r.f(u)), b, "preimage")
                    if ix % 5 == 0:
                        ctx.eq(L.ristretto_pubkey_to_uniform(
                            ec, D.o, b, 0xff << 8 | sign << 4 | ix), 1, "bits")
                        ctx.eq(int.from_bytes(D.o.get(), "little"),
                               u | (1 << 8 * c.size) - (1 << bits),
                               "spare bits")
                ctx.case("preimage", v, name, b, sign)
                ctx.check(all(outs[i] == outs[i % c.h] for i in range(16)),
                          "index bits")
                outs = [o for o in outs[:c.h] if o >= 0]
                if not zero:
                    ctx.eq(len(set(outs)), len(outs), "preimages repeated")
                got[sign & 1] = outs
            s = set(got[0]) | set(got[1])
            ctx.case("preimages", v, name, b)
            if zero:
                ctx.check(s, "no preimage of the identity")
            else:
                ctx.eq([hex(x) for x in sorted(s)],
                       [hex(x) for x in sorted(pre)], "preimages")
    for b in codes(c)[:200]:
        if r.dec(b) is None:
            for v, L, ec in D.L:
                ctx.case("malformed", v, name, b)
                ctx.eq(L.ristretto_pubkey_to_uniform(ec, D.o, b, 0), 0,
                       "malformed element")
                ctx.eq(L.ristretto_pubkey_to_hash(ec, D.oo, b, bytes(32)), 0,
                       "malformed element")


def tasks(tier):
    t = []
    for nm in ED:
        for fn in (scalars, decoding, points, maps, inverse):
            t.append(Task("%s-%s" % (fn.__name__, nm), fn, (nm,)))
        for i in range(2):
            t.append(Task("tweaks-%s-%d" % (nm, i), tweaks, (nm, i, 2)))
    return t
