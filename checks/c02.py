"""C02: Schnorr signatures and x-only keys.

Signatures are compared with the specifications over plain-integer groups;
verification is driven with constructed near-signatures (wrong parity, nonce
at infinity, values past the field prime or order); batches run through every
validity pattern and every compensating pair."""

import ctypes as C
from itertools import combinations, product

from mc import schnorr as S
from mc import weights
from mc.core import Task
from mc.curves import WEI, edge_scalars, few_scalars
from mc.lib import Out

BOUNDS = ("6 curves (5 for the legacy scheme); 8 private keys x 38 message "
          "lengths x 4 auxiliary inputs; wrong-parity, infinite and "
          "out-of-range nonces; every bit of signature, key and message "
          "flipped; batches of 0..5 entries with all 2^n validity patterns, "
          "9 kinds of bad entry at every position, +-1 errors at every pair "
          "of positions, errors that cancel under constant, power or partly "
          "covering weights, scratch sizes 2..16; tweaks over all pairs of ~20 "
          "boundary scalars; sums of up to 4 keys over {+-1, +-2, 3} G")
ASSUMPTIONS = ["the BIP340 tagged hash generalized to the other curves as the "
               "library documents (hash of the curve, tag stretched to half a "
               "block)",
               "the legacy scheme is defined for primes 3 mod 4 only"]

_neg = C.c_int()
_pneg = C.byref(_neg)
LEGACY = [n for n in WEI if n != "P224"]
CHECK2 = C.CFUNCTYPE(C.c_int, C.c_void_p, C.c_void_p)


class Dut:
    def __init__(self, ctx, name):
        self.ctx, self.L = ctx, ctx.lib
        self.c = c = WEI[name]
        self.ec = self.L.wei_curve_create(getattr(self.L, "WEI_CURVE_" + name))
        self.sig_ = Out(c.size + c.nsize)
        self.scratch_ = {}

    def close(self):
        for s in self.scratch_.values():
            self.L.wei_scratch_destroy(self.ec, s)
        self.L.wei_curve_destroy(self.ec)

    def scratch(self, n):
        if n not in self.scratch_:
            self.scratch_[n] = self.L.wei_scratch_create(self.ec, n)
        return self.scratch_[n]

    def sign(self, msg, priv, aux):
        r = self.L.bip340_sign(self.ec, self.sig_, msg, len(msg), priv, aux)
        return r, self.sig_.get()

    def verify(self, msg, sig, pub):
        return self.L.bip340_verify(self.ec, msg, len(msg), sig, pub)

    def lsign(self, msg, priv):
        r = self.L.bipschnorr_sign(self.ec, self.sig_, msg, len(msg), priv)
        return r, self.sig_.get()

    def lverify(self, msg, sig, pub):
        return self.L.bipschnorr_verify(self.ec, msg, len(msg), sig, pub,
                                        len(pub))

    def batch(self, items, size, legacy=False):
        n = len(items)
        P = C.c_char_p * max(n, 1)
        Z = C.c_size_t * max(n, 1)
        msgs = P(*[i[0] for i in items])
        ml = Z(*[len(i[0]) for i in items])
        sigs = P(*[i[1] for i in items])
        pubs = P(*[i[2] for i in items])
        if legacy:
            pl = Z(*[len(i[2]) for i in items])
            return self.L.bipschnorr_verify_batch(self.ec, msgs, ml, sigs, pubs,
                                                  pl, n, self.scratch(size))
        return self.L.bip340_verify_batch(self.ec, msgs, ml, sigs, pubs, n,
                                          self.scratch(size))


def msgs():
    return [bytes((i * 11 + n) & 255 for i in range(n))
            for n in list(range(0, 35)) + [64, 100, 300]]


def sign(ctx, name, keys):
    D = Dut(ctx, name)
    c = D.c
    aux = (None, b"\0" * 32, b"\xff" * 32, bytes(range(32)))
    for d in keys:
        A = c.mulg(d)
        pub = c.fb(A[0])
        for msg in msgs():
            for a in aux:
                ctx.case("sign", name, hex(d), msg, a)
                ctx.state(name, d, msg, a)
                want = S.sign(c, d, msg, a)
                ctx.eq(D.sign(msg, c.sb(d), a), (1, want), "signature")
                ctx.check(D.sig_.intact(), "output size")
                ctx.eq(D.verify(msg, want, pub), 1, "verification")
                ctx.eq(D.verify(msg + b"\0", want, pub), 0, "longer message")
            if name in LEGACY:
                ctx.case("legacy sign", name, hex(d), msg)
                ctx.state(name, d, msg, "legacy")
                want = S.legacy_sign(c, d, msg)
                ctx.eq(D.lsign(msg, c.sb(d)), (1, want), "legacy signature")
                for f in (2, 4, 6):
                    ctx.eq(D.lverify(msg, want, c.enc(A, f)), 1,
                           "legacy verification")
                ctx.eq(D.lverify(msg, want, c.enc(c.neg(A))), 0,
                       "legacy verification, negated key")
    for bad in (0, c.n, c.n + 1, (1 << 8 * c.nsize) - 1):
        ctx.case("bad key", name, hex(bad))
        ctx.eq(D.sign(b"abc", c.sb(bad), None)[0], 0, "invalid private key")
        ctx.eq(D.lsign(b"abc", c.sb(bad))[0], 0, "invalid private key")
    ctx.case("support", name)
    ctx.eq(D.L.bipschnorr_support(D.ec), int(name in LEGACY), "support")
    D.close()


def crafted(c, d, msg, k, legacy, kind):
    """A signature-like string; kind says what is wrong with it."""
    A = c.mulg(d)
    if legacy:
        ab, dd = c.enc(A), d
    else:
        ab, dd = c.fb(A[0]), d if A[1] & 1 == 0 else c.n - d
    R = c.mulg(k)

    def chal(rb):
        if legacy:
            return S.legacy_hash(c, rb, ab, msg)
        return S.challenge(c, rb, ab, msg)
    good = S.square(c, R) if legacy else R[1] & 1 == 0
    if kind == "good":
        k = k if good else c.n - k
    elif kind == "flip":
        k = c.n - k if good else k
    rb = c.fb(R[0])
    if kind == "infinity":
        k = 0
    if kind == "zero-r":
        k, rb = 0, c.fb(0)
    if kind == "r+p":
        if R[0] + c.p >= 1 << 8 * c.size:
            return None
        k = k if good else c.n - k
        rb = c.fb(R[0] + c.p)
    s = (k + chal(rb) * dd) % c.n
    if kind == "s+n":
        k = k if good else c.n - k
        s = (k + chal(rb) * dd) % c.n + c.n
        if s >= 1 << 8 * c.nsize:
            return None
    if kind == "s+1":
        s = (s + 1) % c.n
    if kind == "-s":
        s = -s % c.n
    return rb + c.sb(s)


KINDS = ("good", "flip", "infinity", "zero-r", "r+p", "s+n", "s+1", "-s",
         "raw")


def verify(ctx, name):
    D = Dut(ctx, name)
    c = D.c
    n = c.n
    top = (1 << 8 * c.nsize) - 1
    for d in few_scalars(n)[:8]:
        A = c.mulg(d)
        ed = d if A[1] & 1 == 0 else n - d
        for k in [1, 2, 3, 4, 5, n - 1, n // 2, n // 3]:
            for legacy in (False, True) if name in LEGACY else (False,):
                for kind in KINDS:
                    msg = b"message"
                    sig = crafted(c, d, msg, k, legacy, kind)
                    if sig is None:
                        continue
                    ctx.case("crafted", name, hex(d), hex(k), legacy, kind)
                    ctx.state(name, d, k, legacy, kind)
                    if legacy:
                        pub = c.enc(A)
                        want = S.legacy_verify(c, d, msg, sig, pub)
                        got = D.lverify(msg, sig, pub)
                    else:
                        pub = c.fb(A[0])
                        want = S.verify(c, ed, msg, sig, pub)
                        got = D.verify(msg, sig, pub)
                    ctx.eq(got, want, "verdict")
                    ctx.eq(D.batch([(msg, sig, pub)], 2, legacy), want,
                           "batch of one")
                    if kind == "good":
                        ctx.eq(want, 1, "oracle")
                    elif kind in ("infinity", "zero-r", "r+p", "s+n", "flip"):
                        ctx.eq(want, 0, "oracle")
    # r and s at the range ends; r not on the curve
    d = n // 3
    A = c.mulg(d)
    pub = c.fb(A[0])
    good = S.sign(c, d, b"m", None)
    rs = [0, 1, c.p - 1, c.p, c.p + 1, (1 << 8 * c.size) - 1] + \
        list(range(2, 12))
    ss = [0, 1, n - 1, n, n + 1, top]
    for r, s in product(rs, ss):
        if r >= 1 << 8 * c.size or s > top:
            continue
        sig = c.fb(r) + c.sb(s)
        ctx.case("range", name, hex(r), hex(s))
        ctx.state(name, r, s)
        want = S.verify(c, None, b"m", sig, pub)
        ctx.eq(D.verify(b"m", sig, pub), want, "verdict")
        ctx.eq(D.batch([(b"m", sig, pub)], 2), want, "batch")
        if name in LEGACY:
            want = S.legacy_verify(c, d, b"m", sig, c.enc(A))
            ctx.eq(D.lverify(b"m", sig, c.enc(A)), want, "legacy verdict")
            ctx.eq(D.batch([(b"m", sig, c.enc(A))], 2, True), want, "batch")
    # keys: every small x, and past the prime
    for x in list(range(0, 40)) + [c.p - i for i in range(-3, 20)]:
        if not 0 <= x < 1 << 8 * c.size:
            continue
        ctx.case("key", name, hex(x))
        ctx.state(name, "key", x)
        ok = int(c.lift(x) is not None)
        ctx.eq(D.L.bip340_pubkey_verify(D.ec, c.fb(x)), ok, "public key")
        ctx.eq(D.verify(b"m", good, c.fb(x)), 0, "verdict")
    # a key encoded past the prime, with the challenge to match
    if A[0] + c.p < 1 << 8 * c.size:
        ab = c.fb(A[0] + c.p)
        dd = d if A[1] & 1 == 0 else n - d
        R = c.mulg(5)
        k = 5 if R[1] & 1 == 0 else n - 5
        e = S.challenge(c, c.fb(R[0]), ab, b"m")
        sig = c.fb(R[0]) + c.sb((k + e * dd) % n)
        ctx.case("key past p", name)
        ctx.state(name, "past")
        ctx.eq(D.verify(b"m", sig, ab), 0, "verdict")
        ctx.eq(D.batch([(b"m", sig, ab)], 2), 0, "batch verdict")
    D.close()


def flips(ctx, name):
    D = Dut(ctx, name)
    c = D.c
    d = c.n // 7 * 3
    A = c.mulg(d)
    ed = d if A[1] & 1 == 0 else c.n - d
    msg = bytes(range(32))
    sig, pub = S.sign(c, d, msg, None), c.fb(A[0])
    lsig, lpub = S.legacy_sign(c, d, msg), c.enc(A)

    def each(b):
        for i in range(8 * len(b)):
            x = bytearray(b)
            x[i >> 3] ^= 1 << (i & 7)
            yield i, bytes(x)
    for i, b in each(sig):
        ctx.case("sig bit", name, i)
        ctx.state(name, "sig", i)
        ctx.eq(D.verify(msg, b, pub), S.verify(c, ed, msg, b, pub), "verdict")
    for i, b in each(pub):
        ctx.case("key bit", name, i)
        ctx.state(name, "pub", i)
        ctx.eq(D.verify(msg, sig, b), 0, "verdict")
    for i, b in each(msg):
        ctx.case("msg bit", name, i)
        ctx.state(name, "msg", i)
        ctx.eq(D.verify(b, sig, pub), 0, "verdict")
        if name in LEGACY:
            ctx.eq(D.lverify(b, lsig, lpub), 0, "legacy verdict")
    if name in LEGACY:
        for i, b in each(lsig):
            ctx.case("legacy sig bit", name, i)
            ctx.state(name, "lsig", i)
            ctx.eq(D.lverify(msg, b, lpub),
                   S.legacy_verify(c, d, msg, b, lpub), "legacy verdict")
        for i, b in each(lpub):
            ctx.case("legacy key bit", name, i)
            ctx.state(name, "lpub", i)
            ctx.eq(D.lverify(msg, lsig, b), 0, "legacy verdict")
    D.close()


def batches(ctx, name, legacy, maxn):
    D = Dut(ctx, name)
    c = D.c
    n = c.n
    keys = [1, n - 2, n // 3, 2, n // 5]
    items = []
    for i, d in enumerate(keys):
        msg = bytes([i]) * (7 * i)
        A = c.mulg(d)
        if legacy:
            items.append((msg, S.legacy_sign(c, d, msg),
                          c.enc(A, (2, 4, 6)[i % 3])))
        else:
            items.append((msg, S.sign(c, d, msg, None), c.fb(A[0])))

    def shift(it, delta):
        m, sig, pub = it
        s = int.from_bytes(sig[c.size:], "big")
        return m, sig[:c.size] + c.sb((s + delta) % n), pub
    sizes = (2, 3, 4, 6, 16)
    # every validity pattern
    for ln in range(maxn + 1):
        for pat in product((0, 1), repeat=ln):
            batch = [items[i] if ok else shift(items[i], 1)
                     for i, ok in enumerate(pat)]
            for size in sizes:
                ctx.case("pattern", name, legacy, pat, size)
                ctx.state(name, legacy, pat, size)
                ctx.eq(D.batch(batch, size, legacy), int(all(pat)), "verdict")
    # errors that cancel unless every entry has a weight of its own
    for ln in range(2, maxn + 1):
        for i, j in combinations(range(ln), 2):
            for delta in (1, n // 3):
                for di, dj in ((delta, -delta), (delta, delta),
                               (-delta, delta)):
                    b = list(items[:ln])
                    b[i], b[j] = shift(b[i], di), shift(b[j], dj)
                    for size in sizes:
                        ctx.case("pair", name, legacy, ln, i, j, hex(delta),
                                 di < 0, dj < 0, size)
                        ctx.state(name, legacy, ln, i, j, di, dj, size)
                        ctx.eq(D.batch(b, size, legacy), 0, "verdict")
            # exchanged parts
            b = list(items[:ln])
            si, sj = b[i][1], b[j][1]
            b[i] = (b[i][0], sj[:c.size] + si[c.size:], b[i][2])
            b[j] = (b[j][0], si[:c.size] + sj[c.size:], b[j][2])
            ctx.case("exchanged R", name, legacy, ln, i, j)
            ctx.state(name, legacy, ln, i, j, "R")
            ctx.eq(D.batch(b, 16, legacy), 0, "verdict")
            b = list(items[:ln])
            b[i] = (b[i][0], si[:c.size] + sj[c.size:], b[i][2])
            b[j] = (b[j][0], sj[:c.size] + si[c.size:], b[j][2])
            ctx.case("exchanged s", name, legacy, ln, i, j)
            ctx.state(name, legacy, ln, i, j, "s")
            ctx.eq(D.batch(b, 16, legacy), 0, "verdict")
    # errors that cancel under weights that cover less than the batch
    plain = [(m, s, c.enc(c.mulg(d)) if legacy else pub)
             for d, (m, s, pub) in zip(keys, items)]
    for ln in range(2, maxn):
        for desc, b in weights.forgeries(
                n, plain[:ln], lambda s: (s[:c.size], s[c.size:]), shift):
            ctx.case("weights", name, legacy, ln, desc)
            ctx.state(name, legacy, "w", ln, desc)
            ctx.eq(D.batch(b, 16, legacy), 0, "verdict")
    # one bad entry of each kind at each position
    for kind in KINDS:
        for pos in range(maxn):
            b = list(items[:maxn])
            d = keys[pos]
            sig = crafted(c, d, b[pos][0], 3, legacy, kind)
            if sig is None:
                continue
            b[pos] = (b[pos][0], sig, b[pos][2])
            ctx.case("kind", name, legacy, kind, pos)
            ctx.state(name, legacy, kind, pos)
            if legacy:
                want = S.legacy_verify(c, d, *b[pos])
            else:
                want = S.verify(c, None, *b[pos])
            for size in sizes:
                ctx.eq(D.batch(b, size, legacy), want, "verdict")
    # malformed key at each position; repeated entries
    for pos in range(maxn):
        b = list(items[:maxn])
        bad = c.fb(c.p) if c.p >> 8 * c.size == 0 else b"\xff" * c.size
        b[pos] = (b[pos][0], b[pos][1], b"\2" + bad if legacy else bad)
        ctx.case("bad key", name, legacy, pos)
        ctx.state(name, legacy, "bad", pos)
        ctx.eq(D.batch(b, 16, legacy), 0, "verdict")
        if legacy:
            raw = items[pos][2] + bytes(2 * c.size)
            for ln in range(2 * c.size + 3):
                if ln == len(items[pos][2]):
                    continue
                b[pos] = (b[pos][0], b[pos][1], raw[:ln])
                ctx.case("key length", name, pos, ln)
                ctx.state(name, "key length", pos, ln)
                ctx.eq(D.batch(b, 16, legacy), 0, "verdict")
        b = list(items[:maxn]) + [items[pos]] * 2
        ctx.case("repeated", name, legacy, pos)
        ctx.state(name, legacy, "rep", pos)
        for size in sizes:
            ctx.eq(D.batch(b, size, legacy), 1, "verdict")
    # sixteen entries, a bad one at each position, for chunk ends
    many = [items[i % len(items)] for i in range(16)]
    for pos in range(-1, 16):
        b = list(many)
        if pos >= 0:
            b[pos] = shift(b[pos], 1)
        for size in (2, 5, 8, 16, 32, 33):
            ctx.case("long", name, legacy, pos, size)
            ctx.state(name, legacy, "long", pos, size)
            ctx.eq(D.batch(b, size, legacy), int(pos < 0), "verdict")
    D.close()


def xonly(ctx, name):
    """Key operations against the group law and the even-y convention."""
    D = Dut(ctx, name)
    c, L, ec = D.c, D.L, D.ec
    n = c.n
    o = Out(c.size)
    so = Out(c.nsize)
    top = (1 << 8 * c.nsize) - 1
    E = edge_scalars(n)
    keys = [k for k in few_scalars(n)]
    tw = E[::3] + [n - k for k in keys] + keys
    for d in keys:
        A = c.mulg(d)
        pub = c.fb(A[0])
        ed = d if A[1] & 1 == 0 else n - d
        ctx.case("create", name, hex(d))
        ctx.state(name, d)
        ctx.eq((L.bip340_pubkey_create(ec, o, c.sb(d)), o.get()), (1, pub),
               "create")
        x, y = Out(c.size), Out(c.size)
        ctx.eq((L.bip340_privkey_export(ec, so, x, y, c.sb(d)), so.get(),
                x.get(), y.get()),
               (1, c.sb(ed), pub, c.fb(S.even(c, A)[1])), "private export")
        ctx.eq((L.bip340_pubkey_export(ec, x, y, pub), x.get(), y.get()),
               (1, pub, c.fb(S.even(c, A)[1])), "public export")
        for yy in (A[1], c.p - A[1]):
            yb = c.fb(yy)
            ctx.eq((L.bip340_pubkey_import(ec, o, pub, c.size, yb, c.size),
                    o.get()), (1, pub), "import")
        ctx.eq((L.bip340_pubkey_import(ec, o, pub, c.size, None, 0), o.get()),
               (1, pub), "import of x")
        yb = c.fb((A[1] + 1) % c.p)
        ctx.eq(L.bip340_pubkey_import(ec, o, pub, c.size, yb, c.size), 0,
               "import of a point off the curve")
        ctx.eq(L.bip340_pubkey_import(ec, o, None, 0, c.fb(A[1]), c.size), 0,
               "import without x")
        ctx.eq((L.bip340_privkey_invert(ec, so, c.sb(d)), so.get()),
               (1, c.sb(pow(d, -1, n))), "inverse")
        ctx.eq(L.bip340_privkey_verify(ec, c.sb(d)), 1, "private key")
        for t in dict.fromkeys(tw + [n, n + 1, top]):
            if t > top:
                continue
            tb = c.sb(t)
            ctx.case("tweak", name, hex(d), hex(t))
            ctx.state(name, d, t)
            for mul in (0, 1):
                if mul:
                    v = ed * t % n
                    f, chk = (L.bip340_pubkey_tweak_mul,
                              L.bip340_pubkey_tweak_mul_check)
                    g = L.bip340_privkey_tweak_mul
                else:
                    v = (ed + t) % n
                    f, chk = (L.bip340_pubkey_tweak_add,
                              L.bip340_pubkey_tweak_add_check)
                    g = L.bip340_privkey_tweak_add
                ok = int(t < n and v != 0)
                ctx.eq(f(ec, o, _pneg, pub, tb), ok, "tweak")
                ctx.eq(g(ec, so, c.sb(d), tb), ok, "private tweak")
                if not ok:
                    continue
                T = c.mulg(v)
                ctx.eq((o.get(), _neg.value), (c.fb(T[0]), T[1] & 1),
                       "tweaked key")
                o.reset()
                ctx.eq((f(ec, o, None, pub, tb), o.get()), (1, c.fb(T[0])),
                       "tweaked key, parity not asked for")
                sv = int.from_bytes(so.get(), "big")
                ctx.check(c.mulg(sv)[0] == T[0], "tweaked private key",
                          hex(v), hex(sv))
                if not mul:
                    ctx.eq(sv, v, "tweaked private key")
                for want, ng, res in (
                        (T[0], T[1] & 1, 1), (T[0], 1 ^ T[1] & 1, 0),
                        ((T[0] + 1) % c.p, T[1] & 1, 0)):
                    ctx.eq(chk(ec, pub, tb, c.fb(want), ng), res, "check")
            # shared secrets
            if 0 < t < n:
                T = c.mulg(ed * t)
                ctx.eq((L.bip340_derive(ec, o, pub, tb), o.get()),
                       (1, c.fb(T[0])), "derive")
            else:
                ctx.eq(L.bip340_derive(ec, o, pub, tb), 0,
                       "derive with a bad key")
    off = next(x for x in range(1, 99) if c.lift(x) is None)
    for f in (lambda: L.bip340_pubkey_tweak_add(ec, o, _pneg, c.fb(off),
                                                c.sb(1)),
              lambda: L.bip340_pubkey_tweak_mul(ec, o, _pneg, c.fb(off),
                                                c.sb(1)),
              lambda: L.bip340_derive(ec, o, c.fb(off), c.sb(1)),
              lambda: L.bip340_pubkey_add(ec, o, c.fb(off), c.fb(c.g[0])),
              lambda: L.bip340_pubkey_add(ec, o, c.fb(c.g[0]), c.fb(off)),
              lambda: L.bip340_pubkey_grind(ec, so, c.fb(off),
                                            CHECK2(lambda p, arg: 1), None),
              lambda: L.bip340_pubkey_export(ec, o, Out(c.size), c.fb(off))):
        ctx.case("off curve", name, off)
        ctx.eq(f(), 0, "key off the curve")
    D.close()


def sums(ctx, name):
    D = Dut(ctx, name)
    c, L, ec = D.c, D.L, D.ec
    n = c.n
    o = Out(c.size)
    ds = [1, 2, 3, 4, n // 3, n // 2]
    pts = [S.even(c, c.mulg(d)) for d in ds]
    enc = [c.fb(P[0]) for P in pts]
    # a key whose even point is the negative sum of two others
    tot = c.add(pts[0], pts[1])
    pts.append(S.even(c, tot))
    enc.append(c.fb(tot[0]))
    for i, j in product(range(len(pts)), repeat=2):
        ctx.case("add", name, i, j)
        ctx.state(name, i, j)
        T = c.add(pts[i], pts[j])
        r = L.bip340_pubkey_add(ec, o, enc[i], enc[j])
        ctx.eq(r, int(T is not None), "add")
        if T:
            ctx.eq(o.get(), c.fb(T[0]), "sum")
    for ln in range(0, 5):
        for ix in product(range(len(pts)), repeat=ln):
            if ln == 4 and ctx.quick and max(ix) > 3:
                continue
            T = None
            for i in ix:
                T = c.add(T, pts[i])
            ctx.case("combine", name, ix)
            ctx.state(name, ix)
            a = (C.c_char_p * max(ln, 1))(*[enc[i] for i in ix])
            r = L.bip340_pubkey_combine(ec, o, a, ln)
            ctx.eq(r, int(T is not None), "combine")
            if T:
                ctx.eq(o.get(), c.fb(T[0]), "combination")
    # grinding: the callback takes the j-th candidate
    so = Out(c.nsize)
    for j in range(1, 6):
        for d in (1, n // 3, n - 2, n - 1):
            A = S.even(c, c.mulg(d))
            seen = []

            def cb(p, arg):
                seen.append(C.string_at(p, c.size))
                return int(len(seen) == j)
            ctx.case("grind", name, j, hex(d))
            ctx.state(name, "grind", j, d)
            r = L.bip340_pubkey_grind(ec, so, c.fb(A[0]), CHECK2(cb), None)
            ctx.eq(r, 1, "grind")
            t = int.from_bytes(so.get(), "big")
            T = c.add(A, c.mulg(t))
            ctx.check(T is not None and c.fb(T[0]) == seen[-1], "ground key")
            seen.clear()
            L.bip340_privkey_grind(ec, so, bytes([j]) * 32, CHECK2(cb), None)
            t = int.from_bytes(so.get(), "big")
            ctx.check(0 < t < n and c.fb(c.mulg(t)[0]) == seen[-1],
                      "ground private key")
    D.close()


def tasks(tier):
    q = tier == "quick"
    t = []
    for v in ("n64", "i128", "p32", "l32"):
        for nm in WEI:
            main = v == "n64" or not q
            ks = few_scalars(WEI[nm].n)[:8] if main else \
                few_scalars(WEI[nm].n)[4:6]
            for i in range(0, len(ks), 2):
                t.append(Task("sign-%s-%d-%s" % (nm, i, v), sign,
                              (nm, ks[i:i + 2]), v))
            t.append(Task("verify-%s-%s" % (nm, v), verify, (nm,), v))
            if main:
                t.append(Task("flips-%s-%s" % (nm, v), flips, (nm,), v))
                t.append(Task("xonly-%s-%s" % (nm, v), xonly, (nm,), v))
                t.append(Task("sums-%s-%s" % (nm, v), sums, (nm,), v))
            for lg in (False, True):
                if lg and nm not in LEGACY:
                    continue
                if main or nm in ("P256", "SECP256K1"):
                    t.append(Task("batch-%s-%d-%s" % (nm, lg, v), batches,
                                  (nm, lg, 4 if q else 5), v))
    return t
