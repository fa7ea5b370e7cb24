"""C07: maps from strings to curve points and back.

Every map is compared with its definition over exceptional, boundary and
patterned field elements; the preimages found for each point over every hint
are compared with the full solution set of the defining equations."""

import ctypes as C
from itertools import product

from checks.c04 import patterns
from mc.core import Task
from mc.curves import ED, MONT, WEI, few_scalars
from mc.h2c import mapping
from mc.lib import Out

BOUNDS = ("11 curves, 4 builds; one-element map: exceptional elements, "
          "0..47, p-48..p+18 and ~250 patterned values; preimages: the images "
          "of those, exceptional points, multiples and torsion points, x all "
          "index and subgroup values and spare bits; two-element "
          "map: all pairs of ~24 elements with both cofactor choices; its "
          "inverse: ~30 points x 16 subgroups x 2 entropies")
ASSUMPTIONS = ["preimages are the solutions of the map's regular formulas; an "
               "element on which the formula divides by zero need not be "
               "found"]
LIBS = ("n64", "i128", "p32", "l32")

_n = C.c_size_t()
_pn = C.byref(_n)


class Wd:
    """Weierstrass keys, compressed"""
    end = "big"

    def __init__(self, ctx, name):
        self.c = c = WEI[name]
        self.ctx, self.name = ctx, name
        self.cur = [(v, L, L.wei_curve_create(getattr(L, "WEI_CURVE_" + name)))
                    for v, L in ctx.each]
        self.out, self.u, self.uu = Out(c.size + 1), Out(c.size), \
            Out(2 * c.size)
        self.tors, self.m = [None], mapping(c)
        self.enc, self.add, self.neg = c.enc, c.add, c.neg

    def special(self):
        out = []
        for x in self.m.special_x():
            P = self.c.lift(x)
            if P:
                out += [P, self.neg(P)]
        return out

    def key(self, P):
        return self.enc(P)

    def from_uniform(self, L, ec, b):
        L.ecdsa_pubkey_from_uniform(ec, self.out, _pn, b, 1)
        return self.out.get()

    def to_uniform(self, L, ec, k, hint):
        return L.ecdsa_pubkey_to_uniform(ec, self.u, k, len(k), hint)

    def from_hash(self, L, ec, b, pake):
        r = L.ecdsa_pubkey_from_hash(ec, self.out, _pn, b, 1)
        return self.out.get() if r else None

    def hashed(self, P, pake):
        return self.enc(P) if P else None

    def to_hash(self, L, ec, k, sub, ent):
        return L.ecdsa_pubkey_to_hash(ec, self.uu, k, len(k), sub, ent)

    bad = staticmethod(lambda c: b"\5" + bytes(c.size))

    def points(self):
        return [self.c.mulg(k) for k in few_scalars(self.c.n)]


class Bd(Wd):
    """x-only Weierstrass keys"""

    def __init__(self, ctx, name):
        super().__init__(ctx, name)
        self.out = Out(self.c.size)

    def key(self, P):
        return self.c.fb(P[0])

    def from_uniform(self, L, ec, b):
        L.bip340_pubkey_from_uniform(ec, self.out, b)
        return self.out.get()

    def to_uniform(self, L, ec, k, hint):
        return L.bip340_pubkey_to_uniform(ec, self.u, k, hint)

    def from_hash(self, L, ec, b, pake):
        r = L.bip340_pubkey_from_hash(ec, self.out, b)
        return self.out.get() if r else None

    def hashed(self, P, pake):
        return self.c.fb(P[0]) if P else None

    def to_hash(self, L, ec, k, sub, ent):
        return L.bip340_pubkey_to_hash(ec, self.uu, k, sub, ent)

    bad = staticmethod(lambda c: b"\xff" * c.size)


class Md(Wd):
    """Montgomery keys"""
    end = "little"

    def __init__(self, ctx, name):
        self.c = c = MONT[name]
        self.ctx, self.name = ctx, name
        self.cur = [(v, L, L.mont_curve_create(
            getattr(L, "MONT_CURVE_" + name))) for v, L in ctx.each]
        self.out, self.u, self.uu = Out(c.size), Out(c.size), Out(2 * c.size)
        self.m = mapping(c)
        self.add = c.add
        self.neg = lambda P: P and (P[0], -P[1] % c.p)
        self.tors = self.torsion()

    def torsion(self):
        c, u = self.c, 2
        while True:
            P = c.lift(u)
            T = None
            if P:
                for b in bin(c.n)[2:]:
                    T = c.add(T, T)
                    if b == "1":
                        T = c.add(T, P)
            out, Q = [None], T
            while Q is not None:
                out.append(Q)
                Q = c.add(Q, T)
            if len(out) == c.h:
                return out
            u += 1

    def key(self, P):
        return self.c.fb(P[0])

    def from_uniform(self, L, ec, b):
        L.ecdh_pubkey_from_uniform(ec, self.out, b)
        return self.out.get()

    def to_uniform(self, L, ec, k, hint):
        return L.ecdh_pubkey_to_uniform(ec, self.u, k, hint)

    def from_hash(self, L, ec, b, pake):
        r = L.ecdh_pubkey_from_hash(ec, self.out, b, pake)
        return self.out.get() if r else None

    def hashed(self, P, pake):
        if pake:
            k = self.c.h
            while k > 1:
                P = self.c.add(P, P)
                k >>= 1
        return self.c.fb(P[0]) if P else None

    def to_hash(self, L, ec, k, sub, ent):
        return L.ecdh_pubkey_to_hash(ec, self.uu, k, sub, ent)

    bad = staticmethod(lambda c: c.fb(next(u for u in range(2, 99)
                                           if not c.lift(u))))

    def points(self):
        out, P = [], None
        G = self.c.lift(self.c.u)
        for i in range(6):
            P = self.c.add(P, G)
            out += [self.c.add(P, T) for T in self.tors[:3]]
        return out + self.tors[1:]


class Ed(Wd):
    """Edwards keys"""
    end = "little"

    def __init__(self, ctx, name):
        self.c = c = ED[name]
        self.ctx, self.name = ctx, name
        self.cur = [(v, L, L.edwards_curve_create(
            getattr(L, "EDWARDS_CURVE_" + name))) for v, L in ctx.each]
        self.out, self.u, self.uu = Out(c.adj), Out(c.size), Out(2 * c.size)
        self.tors, self.m = c.torsion, mapping(c)
        self.enc, self.add, self.neg = c.enc, c.add, c.neg

    def special(self):
        return self.m.special()

    def from_uniform(self, L, ec, b):
        L.eddsa_pubkey_from_uniform(ec, self.out, b)
        return self.out.get()

    def to_uniform(self, L, ec, k, hint):
        return L.eddsa_pubkey_to_uniform(ec, self.u, k, hint)

    def from_hash(self, L, ec, b, pake):
        L.eddsa_pubkey_from_hash(ec, self.out, b, pake)
        return self.out.get()

    def hashed(self, P, pake):
        return self.enc(self.c.mul(self.c.h, P) if pake else P)

    def to_hash(self, L, ec, k, sub, ent):
        return L.eddsa_pubkey_to_hash(ec, self.uu, k, sub, ent)

    bad = staticmethod(lambda c: next(
        b for b in (y.to_bytes(c.adj, "little") for y in range(99))
        if c.decode(b) is None))

    def points(self):
        return [self.c.add(self.c.mulg(k), T)
                for k in few_scalars(self.c.n)[:6] + [0]
                for T in self.tors[:4]] + self.tors[4:]


KINDS = {"wei": (Wd, WEI), "x-only": (Bd, WEI), "mont": (Md, MONT),
         "ed": (Ed, ED)}


def elements(c, m, quick):
    p = c.p
    s = list(m.special_u()) + list(range(48)) + list(range(p - 48, p + 19))
    pats = patterns(p, 9 if quick else 1)
    s += pats
    return [u for u in dict.fromkeys(s) if u >> 8 * c.size == 0]


def forward(ctx, kind, name):
    D = KINDS[kind][0](ctx, name)
    c, p, bits = D.c, D.c.p, D.c.p.bit_length()
    top = (1 << 8 * c.size) - (1 << bits)
    for u in elements(c, D.m, ctx.quick):
        us = [u]
        if u < 1 << bits and top:
            us += [u | top]
        want = D.key(D.m.f(u % (1 << bits) % p)) if kind != "ed" else \
            D.enc(D.m.f(u % (1 << bits) % p))
        for x in us:
            b = x.to_bytes(c.size, D.end)
            for v, L, ec in D.cur:
                ctx.case("map", v, kind, name, b)
                ctx.state("map", v, kind, name, b)
                D.out.reset()
                ctx.eq(D.from_uniform(L, ec, b), want, "mapped point")
                ctx.check(D.out.intact(), "output size")


def targets(D, quick):
    c = D.c
    pts = D.special() + D.points()
    el = elements(c, D.m, True)
    if quick:
        el = el[:60] + el[60::7]
    pts += [D.m.f(u % c.p) for u in el if u >> c.p.bit_length() == 0]
    return list(dict.fromkeys(P for P in pts if P is not None))


def xs(D, P):
    """Set of acceptable signed points for a key"""
    return [P] if isinstance(D, Ed) or type(D) is Wd else \
        [P, D.neg(P)] if isinstance(D, Md) else \
        [P if P[1] & 1 == 0 else D.neg(P)]


def inverse(ctx, kind, name, part, of):
    D = KINDS[kind][0](ctx, name)
    c, m = D.c, D.m
    mask = (1 << c.p.bit_length()) - 1
    nsub = len(D.tors)
    table = {}
    per = 2 if kind in ("ed", "mont") else 4
    for i, P in enumerate(targets(D, ctx.quick)[part::of]):
        # all hints, or all that mean something different and the last
        full = i < 8 or not ctx.quick
        ixs = range(16) if full else [*range(per), 15]
        subs = range(16) if full else [*range(nsub), 15]
        k = D.enc(P) if kind == "ed" else D.key(P)
        cand = []
        for Q in xs(D, P):
            pre = [m.pre(D.add(Q, T)) for T in D.tors]
            cand.append((Q, pre))
        for v, L, ec in D.cur:
            got = []
            for sub in subs:
                outs = []
                for ix in ixs:
                    ctx.case("preimage", v, kind, name, k, sub, ix)
                    ctx.state("preimage", v, kind, name, k, sub, ix)
                    D.u.reset()
                    r = D.to_uniform(L, ec, k, sub << 4 | ix)
                    ctx.check(D.u.intact(), "output size")
                    outs.append(int.from_bytes(D.u.get(), D.end) if r else -1)
                    if r and ix == sub & 3:
                        # spare bits are taken from the hint
                        for hi in (1, 0x80, 0xff):
                            ctx.eq(D.to_uniform(L, ec, k, hi << 8 | sub << 4 |
                                                ix), 1, "hint bits")
                            sp = hi & ~(mask >> 8 * (c.size - 1)) & 0xff
                            ctx.eq(int.from_bytes(D.u.get(), D.end),
                                   outs[-1] | sp << 8 * (c.size - 1),
                                   "spare bits")
                ctx.case("preimages", v, kind, name, k, sub)
                ctx.check(all(o == outs[ix % per] for ix, o in zip(ixs, outs)),
                          "index bits past the last preimage")
                got.append(frozenset(o for o in outs if o >= 0))
                ctx.eq(got[-1], got[sub % nsub], "subgroup bits")
            got = got[:nsub]
            ok = False
            for Q, pre in cand:
                if sorted(map(sorted, got)) == sorted(map(sorted, pre)) and \
                        got[0] == pre[0]:
                    ok = True
                    break
            ctx.case("preimages", v, kind, name, k)
            ctx.check(ok, "the preimages are not the solutions", [
                [sorted(map(hex, s)) for s in cand[0][1]],
                [sorted(map(hex, s)) for s in got]])
            if kind == "ed":
                for sub in range(nsub):
                    for T, s in zip(D.tors, cand[0][1]):
                        if s and s == got[sub]:
                            ctx.eq(table.setdefault(sub, T), T,
                                   "subgroup index")
    bad = D.bad(c)
    for v, L, ec in D.cur:
        for h in range(4):
            ctx.case("malformed", v, kind, name, h)
            ctx.eq(D.to_uniform(L, ec, bad, h), 0, "malformed key")
        ctx.eq(D.to_hash(L, ec, bad, 0, bytes(32)), 0, "malformed key")


def pairs(ctx, kind, name):
    D = KINDS[kind][0](ctx, name)
    c, m = D.c, D.m
    el = list(m.special_u()) + [1, 2, 3, c.p - 1, c.p - 2, c.p - 3, 5, 6]
    el += patterns(c.p, 40)[:: 9 if ctx.quick else 2]
    el = list(dict.fromkeys(u % c.p for u in el))
    img = {u: m.f(u) for u in el}
    for a, b in product(el, repeat=2):
        S = D.add(img[a], img[b])
        bs = a.to_bytes(c.size, D.end) + b.to_bytes(c.size, D.end)
        for pake in ((0, 1) if kind in ("ed", "mont") else (0,)):
            want = D.hashed(S, pake)
            for v, L, ec in D.cur:
                ctx.case("hash", v, kind, name, bs, pake)
                ctx.state("hash", v, kind, name, bs, pake)
                D.out.reset()
                ctx.eq(D.from_hash(L, ec, bs, pake), want, "mapped point")
                ctx.check(D.out.intact(), "output size")
    table = {}
    mask = (1 << c.p.bit_length()) - 1

    def unhash(P, sub, ent):
        k = D.enc(P) if kind == "ed" else D.key(P)
        seen = set()
        for v, L, ec in D.cur:
            ctx.case("unhash", v, kind, name, k, sub, ent)
            ctx.state("unhash", v, kind, name, k, sub, ent)
            D.uu.reset()
            ctx.eq(D.to_hash(L, ec, k, sub, ent), 1, "inverse")
            ctx.check(D.uu.intact(), "output size")
            seen.add(D.uu.get())
        ctx.eq(len(seen), 1, "inverses differ between back ends")
        b = seen.pop()
        u = [int.from_bytes(x, D.end) & mask for x in
             (b[:c.size], b[c.size:])]
        Q = m.f(u[0] % c.p)
        S = D.add(Q, m.f(u[1] % c.p))
        T = [t for t in D.tors for R in xs(D, P) if D.add(R, t) == S]
        ctx.check(T, "the strings do not map back to the point")
        if kind == "ed":
            t = table.setdefault(sub % len(D.tors), T[0])
            ctx.eq(T[0], t, "subgroup index")
        return Q

    pts = D.special() + D.points()
    for i, P in enumerate(pts):
        for sub in range(16) if len(D.tors) > 1 else (0, 5):
            for e in range(2):
                unhash(P, sub, bytes([i, e]) * 16)
    # the first string already maps to the point, to its negative or its half
    for e in range(12 if ctx.quick else 60):
        ent = bytes([255, e]) * 16
        Q = unhash(pts[-1], 0, ent)
        if Q is None or Q == D.neg(Q):
            continue
        for P in (Q, D.neg(Q), D.add(Q, Q)):
            unhash(P, 0, ent)
    if kind == "ed":
        ctx.eq(len(set(table.values())), len(D.tors), "subgroups covered")
        ctx.eq(table[0], c.zero, "subgroup zero")


def tasks(tier):
    t = []
    for kind, (_, names) in KINDS.items():
        for nm in names:
            t.append(Task("forward-%s-%s" % (kind, nm), forward, (kind, nm)))
            t.append(Task("pairs-%s-%s" % (kind, nm), pairs, (kind, nm)))
            for i in range(2):
                t.append(Task("inverse-%s-%s-%d" % (kind, nm, i), inverse,
                              (kind, nm, i, 2)))
    return t
