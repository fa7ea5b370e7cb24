"""C03: EdDSA.

Signatures are compared with RFC 8032 over plain-integer groups.  Verification
is driven with every combination of torsion components in key and nonce, every
encoding of the small-order points and out-of-range scalars; batches run
through every validity pattern and every compensating pair."""

import ctypes as C
from itertools import combinations, product

from mc import eddsa as E
from mc import weights
from mc.core import Task
from mc.curves import ED, edge_scalars
from mc.lib import Out

BOUNDS = ("3 curves; signing: 8 keys x 18 message lengths (thorough: 46) x 11 (prehash, "
          "context) modes; verification: all h^2 torsion pairs x 8 messages, "
          "all pairs of encodings of small-order points (canonical or not) x "
          "3 scalars x 5 messages (thorough: 16), scalars s+jn at equal torsion (thorough: all), every bit of signature, key "
          "and message; batches of 0..5 entries with all 2^n validity "
          "patterns, errors cancelling at every pair of positions or under "
          "constant, power or partly covering weights, scratch "
          "sizes 2..16; tweaked signing with ~40 boundary tweaks")
ASSUMPTIONS = ["the challenge is reduced modulo the order before it multiplies "
               "the key",
               "contexts longer than 255 bytes are outside the specification"]

MODES = [(None, b""), (None, b"c"), (0, b""), (0, b"ctx"), (1, b""),
         (1, b"\0"), (0, bytes(range(254))), (0, bytes(range(255))),
         (1, bytes(255)), (None, bytes(range(255))), (1, b"abcdef")]


class Dut:
    def __init__(self, ctx, name):
        self.ctx, self.L = ctx, ctx.lib
        self.c = c = ED[name]
        self.ec = self.L.edwards_curve_create(
            getattr(self.L, "EDWARDS_CURVE_" + name))
        self.sig_ = Out(2 * c.adj)
        self.scratch_ = {}

    def close(self):
        for s in self.scratch_.values():
            self.L.edwards_scratch_destroy(self.ec, s)
        self.L.edwards_curve_destroy(self.ec)

    def mode(self, ph, cx):
        return -1 if ph is None else ph, cx or None, len(cx)

    def sign(self, msg, priv, ph, cx):
        self.L.eddsa_sign(self.ec, self.sig_, msg, len(msg), priv,
                          *self.mode(ph, cx))
        return self.sig_.get()

    def verify(self, msg, sig, pub, ph, cx):
        return self.L.eddsa_verify(self.ec, msg, len(msg), sig, pub,
                                   *self.mode(ph, cx))

    def single(self, msg, sig, pub, ph, cx):
        return self.L.eddsa_verify_single(self.ec, msg, len(msg), sig, pub,
                                          *self.mode(ph, cx))

    def batch(self, items, size, ph=None, cx=b""):
        n = len(items)
        if size not in self.scratch_:
            self.scratch_[size] = self.L.edwards_scratch_create(self.ec, size)
        P = C.c_char_p * max(n, 1)
        ml = (C.c_size_t * max(n, 1))(*[len(i[0]) for i in items])
        return self.L.eddsa_verify_batch(
            self.ec, P(*[i[0] for i in items]), ml, P(*[i[1] for i in items]),
            P(*[i[2] for i in items]), n, *self.mode(ph, cx),
            self.scratch_[size])


def keys(c):
    return [bytes(c.adj), b"\xff" * c.adj, bytes(range(c.adj)), b"\x80" * c.adj,
            bytes(c.adj - 1) + b"\x01", b"\x55" * c.adj,
            bytes((i * 7) & 255 for i in range(c.adj)), b"\x0f" * c.adj]


def sign(ctx, name, ks):
    D = Dut(ctx, name)
    c = D.c
    lens = list(range(0, 34)) + [48, 63, 64, 65, 80, 111, 112, 128, 135, 136,
                                 200, 500]
    if ctx.quick:
        lens = lens[::3] + [64, 65]
    for priv in ks:
        a, _ = E.expand(c, priv)
        pub = c.enc(c.mulg(a))
        po = Out(c.adj)
        D.L.eddsa_pubkey_create(D.ec, po, priv)
        ctx.case("pub", name, priv)
        ctx.state(name, priv)
        ctx.eq(po.get(), pub, "public key")
        for n in lens:
            msg = bytes((i * 5 + n) & 255 for i in range(n))
            for ph, cx in MODES:
                ctx.case("sign", name, priv, n, ph, cx)
                ctx.state(name, priv, n, ph, cx)
                want = E.sign(c, priv, msg, ph, cx)
                ctx.eq(D.sign(msg, priv, ph, cx), want, "signature")
                ctx.check(D.sig_.intact(), "output size")
                ctx.eq(D.verify(msg, want, pub, ph, cx), 1, "verification")
                ctx.eq(D.single(msg, want, pub, ph, cx), 1, "verification")
    # a signature is good in its own mode alone
    priv, msg = ks[0], b"message"
    pub = c.enc(c.mulg(E.expand(c, priv)[0]))
    sigs = [E.sign(c, priv, msg, *m) for m in MODES]
    for (i, m), (j, s) in product(enumerate(MODES), enumerate(sigs)):
        ctx.case("modes", name, i, j)
        ctx.state(name, "modes", i, j)
        want = int(E.dom(c, *m) == E.dom(c, *MODES[j]))
        ctx.eq(D.verify(msg, s, pub, *m), want, "verdict")
        ctx.eq(D.single(msg, s, pub, *m), want, "verdict")
        ctx.eq(D.batch([(msg, s, pub)], 2, *m), want, "batch verdict")
    D.close()


def tweaked(ctx, name):
    D = Dut(ctx, name)
    c, L = D.c, D.L
    msg = b"a message"
    for priv in keys(c)[:3]:
        a, prefix = E.expand(c, priv)
        top = (1 << 8 * c.nsize) - 1
        tw = [t for t in edge_scalars(c.n)] + [c.n, c.n + 1, top, -a % c.n]
        for t in tw:
            tb = c.sb(t)
            p2 = E.H(c, c.adj, prefix, tb)
            for ph, cx in (MODES[0], MODES[3], MODES[4]):
                for f, v in ((L.eddsa_sign_tweak_add, a + t),
                             (L.eddsa_sign_tweak_mul, a * t)):
                    ctx.case("tweaked", name, priv, hex(t), ph, cx)
                    ctx.state(name, priv, t, ph, v)
                    v %= c.n
                    f(D.ec, D.sig_, msg, len(msg), priv, tb, *D.mode(ph, cx))
                    want = E.sign_with(c, v, p2, msg, ph, cx)
                    ctx.eq(D.sig_.get(), want, "signature")
                    ctx.eq(D.verify(msg, want, c.enc(c.mulg(v)), ph, cx), 1,
                           "verification under the tweaked key")
            L.eddsa_sign_with_scalar(D.ec, D.sig_, msg, len(msg), tb, prefix,
                                     *D.mode(None, b""))
            ctx.case("scalar", name, priv, hex(t))
            ctx.eq(D.sig_.get(), E.sign_with(c, t, prefix, msg, None, b""),
                   "signature with a scalar")
    D.close()


def torsion(ctx, name):
    """Torsion in the key and in the nonce."""
    D = Dut(ctx, name)
    c = D.c
    for a, k in ((1, 2), (c.n // 3, c.n - 5), (c.n - 1, 1)):
        for i, j in product(range(c.h), repeat=2):
            A = c.add(c.mulg(a), c.torsion[i])
            R = c.add(c.mulg(k), c.torsion[j])
            pub, rb = c.enc(A), c.enc(R)
            for m in range(8):
                msg = bytes([m]) * m
                e = E.hs(c, None, b"", rb, pub, msg)
                s = (k + e * a) % c.n
                for kind in ("good", "+1", "+n", "+2n", "high", "-"):
                    s2 = {"good": s, "+1": (s + 1) % c.n, "+n": s + c.n,
                          "+2n": s + 2 * c.n, "-": -s % c.n,
                          "high": s + (1 << 8 * c.adj - 1)}[kind]
                    if s2 >= 1 << 8 * c.adj or (kind != "good" and i != j and
                                                ctx.quick):
                        continue
                    sig = rb + E.scal(c, s2)
                    ctx.case("torsion", name, hex(a), i, j, m, kind)
                    ctx.state(name, a, i, j, m, kind)
                    log = a, c.torsion[i]
                    w1 = E.verify(c, msg, sig, pub, None, b"", False, log)
                    w2 = E.verify(c, msg, sig, pub, None, b"", True, log)
                    ctx.eq(D.verify(msg, sig, pub, None, b""), w1,
                           "cofactorless verdict")
                    ctx.eq(D.single(msg, sig, pub, None, b""), w2,
                           "cofactored verdict")
                    ctx.eq(D.batch([(msg, sig, pub)], 2), w2, "batch verdict")
                    if kind == "good":
                        ctx.eq(w2, 1, "oracle")
                        ctx.eq(w1, int(c.add(c.torsion[j],
                                             c.mul(e, c.torsion[i])) ==
                                       c.zero), "oracle")
    D.close()


def encodings(c):
    """Every string of adj bytes that denotes a small-order point if values
    are taken modulo p and the sign is ignored where it has no meaning."""
    out = {}
    unused = 8 * c.adj - 1
    for T in c.torsion:
        y = T[1]
        ys = []
        while y < 1 << min(unused, c.bits + 2):
            ys.append(y)
            y += c.p
        if unused > c.bits:
            ys.append(T[1] + (1 << c.bits))
            ys.append(T[1] + (1 << unused - 1))
        for v in ys:
            for sgn in (0, 1):
                b = bytearray(v.to_bytes(c.adj, "little"))
                b[-1] |= sgn << 7
                out[bytes(b)] = 1
    return list(out)


def small(ctx, name, part):
    D = Dut(ctx, name)
    c = D.c
    enc = encodings(c)
    for i, pub in enumerate(enc):
        if i % 4 != part:
            continue
        ctx.case("key", name, pub)
        ctx.state(name, pub)
        ctx.eq(D.L.eddsa_pubkey_verify(D.ec, pub),
               int(c.decode(pub) is not None), "decoding")
        for rb in enc + [c.enc(c.mulg(1)), c.enc(c.mulg(2))]:
            for s in (0, 1, c.n):
                for m in range(5 if ctx.quick else 16):
                    msg = bytes([m])
                    sig = rb + E.scal(c, s)
                    ctx.case("small", name, pub, rb, s, m)
                    ctx.state(name, pub, rb, s, m)
                    w1 = E_verify_small(c, msg, sig, pub, False)
                    w2 = E_verify_small(c, msg, sig, pub, True)
                    ctx.eq(D.verify(msg, sig, pub, None, b""), w1,
                           "cofactorless verdict")
                    ctx.eq(D.single(msg, sig, pub, None, b""), w2,
                           "cofactored verdict")
                    ctx.eq(D.batch([(msg, sig, pub)], 2), w2, "batch verdict")
    D.close()


def E_verify_small(c, msg, sig, pub, cof):
    A = c.decode(pub)
    if A is None:
        return 0
    return E.verify(c, msg, sig, pub, None, b"", cof, (0, A))


def flips(ctx, name):
    D = Dut(ctx, name)
    c = D.c
    priv = bytes(range(c.adj))
    a, _ = E.expand(c, priv)
    pub = c.enc(c.mulg(a))
    for ph, cx in (MODES[0], MODES[3], MODES[4]):
        msg = bytes(range(32))
        sig = E.sign(c, priv, msg, ph, cx)

        def each(b):
            for i in range(8 * len(b)):
                x = bytearray(b)
                x[i >> 3] ^= 1 << (i & 7)
                yield i, bytes(x)
        for i, b in each(sig):
            ctx.case("sig bit", name, ph, i)
            ctx.state(name, ph, "sig", i)
            for f, cof in ((D.verify, False), (D.single, True)):
                want = E.verify(c, msg, b, pub, ph, cx, cof, (a, c.zero))
                ctx.eq(f(msg, b, pub, ph, cx), want, "verdict")
        for i, b in each(pub):
            ctx.case("key bit", name, ph, i)
            ctx.state(name, ph, "pub", i)
            ctx.eq(D.verify(msg, sig, b, ph, cx), 0, "verdict")
            ctx.eq(D.single(msg, sig, b, ph, cx), 0, "verdict")
        for i, b in each(msg):
            ctx.case("msg bit", name, ph, i)
            ctx.state(name, ph, "msg", i)
            ctx.eq(D.verify(b, sig, pub, ph, cx), 0, "verdict")
            ctx.eq(D.single(b, sig, pub, ph, cx), 0, "verdict")
        for i, b in each(cx):
            ctx.case("ctx bit", name, ph, i)
            ctx.state(name, ph, "ctx", i)
            ctx.eq(D.verify(msg, sig, pub, ph, b), 0, "verdict")
    D.close()


def batches(ctx, name, maxn, ph, cx):
    D = Dut(ctx, name)
    c = D.c
    n = c.n
    items = []
    # valid entries: plain, and with torsion in nonce or key (valid cofactored)
    for i in range(5):
        msg = bytes([i]) * (9 * i)
        a, k = (n // 3, 1, n - 2, 5, n // 7)[i], (2, n - 1, 3, n // 2, 8)[i]
        A = c.add(c.mulg(a), c.torsion[(0, 0, 1, 0, 3)[i] % c.h])
        R = c.add(c.mulg(k), c.torsion[(0, 2, 0, 0, 1)[i] % c.h])
        pub, rb = c.enc(A), c.enc(R)
        e = E.hs(c, ph, cx, rb, pub, msg)
        items.append((msg, rb + E.scal(c, (k + e * a) % n), pub))
        ctx.case("item", name, i)
        ctx.eq(D.single(*items[-1], ph, cx), 1, "entry alone")

    def shift(it, d):
        m, sig, pub = it
        s = int.from_bytes(sig[c.adj:], "little")
        return m, sig[:c.adj] + E.scal(c, (s + d) % n), pub
    sizes = (2, 3, 4, 6, 16)
    for ln in range(maxn + 1):
        for pat in product((0, 1), repeat=ln):
            b = [items[i] if ok else shift(items[i], 1)
                 for i, ok in enumerate(pat)]
            for size in sizes:
                ctx.case("pattern", name, pat, size)
                ctx.state(name, pat, size, ph)
                ctx.eq(D.batch(b, size, ph, cx), int(all(pat)), "verdict")
    for ln in range(2, maxn + 1):
        for i, j in combinations(range(ln), 2):
            for d in (1, n // 3):
                for di, dj in ((d, -d), (d, d), (-d, d)):
                    b = list(items[:ln])
                    b[i], b[j] = shift(b[i], di), shift(b[j], dj)
                    for size in sizes:
                        ctx.case("pair", name, ln, i, j, di < 0, dj < 0, size)
                        ctx.state(name, ln, i, j, di, dj, size, ph)
                        ctx.eq(D.batch(b, size, ph, cx), 0, "verdict")
            b = list(items[:ln])
            si, sj = b[i][1], b[j][1]
            b[i] = (b[i][0], si[:c.adj] + sj[c.adj:], b[i][2])
            b[j] = (b[j][0], sj[:c.adj] + si[c.adj:], b[j][2])
            ctx.case("exchanged", name, ln, i, j)
            ctx.state(name, ln, i, j, "x", ph)
            ctx.eq(D.batch(b, 16, ph, cx), 0, "verdict")
    # errors that cancel under weights that cover less than the batch
    for ln in range(2, maxn):
        for desc, b in weights.forgeries(
                n, items[:ln], lambda s: (s[:c.adj], s[c.adj:]), shift):
            ctx.case("weights", name, ln, desc)
            ctx.state(name, "w", ln, desc, ph)
            ctx.eq(D.batch(b, 16, ph, cx), 0, "verdict")
    # bad encodings at each position
    for pos in range(maxn):
        m, sig, pub = items[pos]
        s = int.from_bytes(sig[c.adj:], "little")
        noncan = next(b for b in encodings(c) if c.decode(b) is None)
        for kind, it in (
                ("s+n", (m, sig[:c.adj] + E.scal(c, s + n), pub)),
                ("high", (m, sig[:-1] + bytes([sig[-1] | 0x80]), pub)),
                ("R", (m, noncan + sig[c.adj:], pub)),
                ("A", (m, sig, noncan))):
            b = list(items[:maxn])
            b[pos] = it
            for size in sizes:
                ctx.case("bad", name, pos, kind, size)
                ctx.state(name, pos, kind, size, ph)
                ctx.eq(D.batch(b, size, ph, cx), 0, "verdict")
        b = list(items[:maxn]) + [items[pos]] * 2
        ctx.case("repeated", name, pos)
        ctx.state(name, pos, "rep", ph)
        for size in sizes:
            ctx.eq(D.batch(b, size, ph, cx), 1, "verdict")
    many = [items[i % 5] for i in range(16)]
    for pos in range(-1, 16):
        b = list(many)
        if pos >= 0:
            b[pos] = shift(b[pos], 1)
        for size in (2, 5, 8, 16, 32, 33):
            ctx.case("long", name, pos, size)
            ctx.state(name, "long", pos, size, ph)
            ctx.eq(D.batch(b, size, ph, cx), int(pos < 0), "verdict")
    D.close()


def tasks(tier):
    q = tier == "quick"
    t = []
    for v in ("n64", "i128", "p32", "l32"):
        for nm in ED:
            main = v == "n64" or not q
            ks = keys(ED[nm])
            if not main:
                ks = ks[1:3]
            for i, k in enumerate(ks):
                t.append(Task("sign-%s-%d-%s" % (nm, i, v), sign, (nm, [k]), v))
            t.append(Task("torsion-%s-%s" % (nm, v), torsion, (nm,), v))
            for part in range(4):
                if main:
                    t.append(Task("small-%s-%d-%s" % (nm, part, v), small,
                                  (nm, part), v))
            if main:
                t.append(Task("flips-%s-%s" % (nm, v), flips, (nm,), v))
                t.append(Task("tweaked-%s-%s" % (nm, v), tweaked, (nm,), v))
            for i, (ph, cx) in enumerate((MODES[0], MODES[3], MODES[4])):
                if i == 0 or main:
                    t.append(Task("batch-%s-%d-%s" % (nm, i, v), batches,
                                  (nm, 4 if q else 5, ph, cx), v))
    return t
