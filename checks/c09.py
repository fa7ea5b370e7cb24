"""C09: contexts and scratch space never influence results.

Every operation has fixed inputs, hence one right result, taken from a context
which did nothing else before.  Operations then run on contexts and scratch
space shared through every history up to the bound: one walk over a de Bruijn
sequence passes through each history of that length.  Further walks
re-randomise a context again and again, with scalars related to the blinding
value, and compare with plain-integer groups."""

import ctypes as C

from mc.core import Task
from mc.curves import ED, MONT, WEI, few_scalars
from mc.lib import Out

BOUNDS = ("11 curves, 4 builds; two contexts sharing two scratch spaces; "
          "all histories of 3 operations (2 on 6 of the curves; thorough: 4 on "
          "all) over an alphabet of 22..23 (randomise either context, sign, "
          "verify, recover, batches, derive, rejected inputs), and one longer "
          "over the 7 central ones; all pairs of operations on fresh contexts; "
          "chains of 24 (thorough: 256) randomisations, each with ~24 scalars "
          "around the multiples of the blinding value and (the first 6) with "
          "all d 2^j for odd |d| < 16 and the 9 topmost j; batches of 0..9 "
          "signatures, all valid or one wrong at any place, on scratch space "
          "for 2..7 (thorough: 2..19) points")
ASSUMPTIONS = ["a freshly created context is correct (C01..C08)"]
LIBS = ("n64", "i128", "p32", "l32")


def debruijn(k, n):
    """Cyclic sequence over range(k) with every word of length n."""
    a, out = [0] * (k * n), []

    def db(t, p):
        if t > n:
            if n % p == 0:
                out.extend(a[1:p + 1])
            return
        a[t] = a[t - p]
        db(t + 1, p)
        for j in range(a[t - p] + 1, k):
            a[t] = j
            db(t + 1, t)
    db(1, 1)
    return out + out[:n - 1]


def arr(items):
    n = max(len(items), 1)
    return (C.c_char_p * n)(*items), (C.c_size_t * n)(*map(len, items))


MSGS = [b"", b"a message", bytes(range(32)), b"\xff" * 64, b"m" * 100]
ENT = [bytes(32), b"\xff" * 32, bytes(range(32))]


class World:
    """Two contexts and two scratch spaces."""

    def __init__(self, L, name, data=None):
        self.L, self.name = L, name
        self.c = self.curves[name]
        kind = getattr(L, "%s_CURVE_%s" % (self.kind.upper(), name))
        self.create = lambda: getattr(L, self.kind + "_curve_create")(kind)
        self.ec = [self.create(), self.create()]
        self.sc = []
        if self.kind != "mont":
            mk = getattr(L, self.kind + "_scratch_create")
            self.sc = [mk(self.ec[0], 4), mk(self.ec[1], 7)]
        self.b = [Out(160) for _ in range(3)]
        self.n = C.c_size_t()
        self.u = C.c_uint()
        self.d = data or self.data()
        self.ops = self.table()

    def close(self):
        for s in self.sc:
            getattr(self.L, self.kind + "_scratch_destroy")(self.ec[0], s)
        for e in self.ec:
            getattr(self.L, self.kind + "_curve_destroy")(e)

    def rnd(self, i, e):
        getattr(self.L, self.kind + "_curve_randomize")(self.ec[i], ENT[e])

    def out(self, r, n, i=0):
        b = self.b[i]
        v = b.get(n)
        ok = b.intact()
        b.reset()
        return r, v, ok

    def var(self, f, *args):
        """A call with a variable-length result."""
        o, n = self.b[0], self.n
        n.value = 160
        r = f(args[0], o, C.byref(n), *args[1:])
        return self.out(r, n.value if r else 0)


class Wei(World):
    kind, curves = "wei", WEI

    def data(self):
        c, L, ec = self.c, self.L, self.ec[0]
        ks = [c.sb(k) for k in (1, c.n - 2, 0x1234567 ** 20 % c.n,
                                c.n // 3, 7)]
        pubs = [self.var(L.ecdsa_pubkey_create, ec, k, 1)[1] for k in ks]
        xs, ds, ss, ls = [], [], [], []
        for k, m in zip(ks, MSGS):
            L.ecdsa_sign(ec, self.b[0], C.byref(self.u), m, len(m), k)
            ds.append((self.out(1, 2 * c.nsize)[1], self.u.value))
            L.bip340_pubkey_create(ec, self.b[0], k)
            xs.append(self.out(1, c.size)[1])
            L.bip340_sign(ec, self.b[0], m, len(m), k, None)
            ss.append(self.out(1, c.size + c.nsize)[1])
            if self.name != "P224":
                L.bipschnorr_sign(ec, self.b[0], m, len(m), k)
                ls.append(self.out(1, c.size + c.nsize)[1])
        return ks, pubs, xs, ds, ss, ls

    def table(self):
        L, c, e = self.L, self.c, self.ec
        ks, pubs, xs, ds, ss, ls = self.d
        o = self.b[0]
        ns, ps = 2 * c.nsize, c.size + c.nsize

        def sign(i, j):
            r = L.ecdsa_sign(e[i], o, C.byref(self.u), MSGS[j], len(MSGS[j]),
                             ks[j])
            return self.out(r, ns), self.u.value

        def verify(i, j, k):
            return L.ecdsa_verify(e[i], MSGS[j], len(MSGS[j]), ds[k][0],
                                  pubs[j], len(pubs[j]))

        def ssign(i, j, aux):
            return self.out(L.bip340_sign(e[i], o, MSGS[j], len(MSGS[j]),
                                          ks[j], aux), ps)

        def sverify(i, j, k):
            return L.bip340_verify(e[i], MSGS[j], len(MSGS[j]), ss[k], xs[j])

        def batch(i, s, idx, bad=None, key=None):
            m, ml = arr([MSGS[j] for j in idx])
            sg, _ = arr([ss[(j + 1) % 5 if j == bad else j] for j in idx])
            x, _ = arr([b"\xff" * c.size if j == key else xs[j] for j in idx])
            return L.bip340_verify_batch(e[i], m, ml, sg, x, len(idx),
                                         self.sc[s])

        def lbatch(i, s, idx, bad=None):
            m, ml = arr([MSGS[j] for j in idx])
            sg, _ = arr([ls[(j + 1) % 5 if j == bad else j] for j in idx])
            x, xl = arr([pubs[j] for j in idx])
            return L.bipschnorr_verify_batch(e[i], m, ml, sg, x, xl, len(idx),
                                             self.sc[s])

        t = [
            ("randomise A", lambda: self.rnd(0, 0)),
            ("sign A", lambda: sign(0, 1)),
            ("verify A", lambda: verify(0, 1, 1)),
            ("batch A0", lambda: batch(0, 0, range(5))),
            ("bad batch A0", lambda: batch(0, 0, range(5), bad=1)),
            ("derive A", lambda: self.var(L.ecdsa_derive, e[0], pubs[2],
                                          len(pubs[2]), ks[3], 1)),
            ("randomise B", lambda: self.rnd(1, 1)),
            # the ones before make up the alphabet of the longer histories
            ("randomise A again", lambda: self.rnd(0, 2)),
            ("key A", lambda: self.var(L.ecdsa_pubkey_create, e[0], ks[1], 0)),
            ("reject A", lambda: verify(0, 1, 2)),
            ("recover A", lambda: self.var(L.ecdsa_recover, e[0], MSGS[2],
                                           len(MSGS[2]), *ds[2], 1)),
            ("x-sign A", lambda: ssign(0, 2, ENT[2])),
            ("x-verify A", lambda: sverify(0, 3, 3)),
            ("bad key A0", lambda: batch(0, 0, range(5), key=3)),
            ("batch B1", lambda: batch(1, 1, [4, 2, 0])),
            ("batch B0", lambda: batch(1, 0, [3])),
            ("sign B", lambda: sign(1, 2)),
            ("derive bad B", lambda: self.var(
                L.ecdsa_derive, e[1], b"\2" + b"\xff" * c.size, 1 + c.size,
                ks[3], 1)),
            ("zero key A", lambda: L.ecdsa_sign(
                e[0], o, None, b"", 0, bytes(c.nsize))),
            ("generate A", lambda: self.out(L.ecdsa_privkey_generate(
                e[0], o, ENT[1]), c.nsize)),
            ("tweak A", lambda: self.var(L.ecdsa_pubkey_tweak_add, e[0],
                                         pubs[2], len(pubs[2]), ks[3], 1)),
        ]
        if ls:
            t += [("old batch A1", lambda: lbatch(0, 1, range(5))),
                  ("old bad batch B0", lambda: lbatch(1, 0, [0, 1, 2], 2))]
        return t


class Ed(World):
    kind, curves = "edwards", ED

    def data(self):
        c, L, ec = self.c, self.L, self.ec[0]
        ks = [bytes([j * 37 & 255] * c.adj) for j in range(5)]
        pubs, sigs = [], []
        for k, m in zip(ks, MSGS):
            L.eddsa_pubkey_create(ec, self.b[0], k)
            pubs.append(self.out(1, c.adj)[1])
            L.eddsa_sign(ec, self.b[0], m, len(m), k, -1, None, 0)
            sigs.append(self.out(1, 2 * c.adj)[1])
        rk = [c.sb(k) for k in (5, c.n - 1, c.n // 3)]
        rp = []
        for k in rk:
            L.ristretto_pubkey_create(ec, self.b[0], k)
            rp.append(self.out(1, c.size)[1])
        return ks, pubs, sigs, rk, rp

    def table(self):
        L, c, e = self.L, self.c, self.ec
        ks, pubs, sigs, rk, rp = self.d
        o = self.b[0]

        def sign(i, j, ph=-1, cx=b""):
            return self.out(L.eddsa_sign(e[i], o, MSGS[j], len(MSGS[j]), ks[j],
                                         ph, cx or None, len(cx)), 2 * c.adj)

        def verify(i, j, k, f):
            return f(e[i], MSGS[j], len(MSGS[j]), sigs[k], pubs[j], -1, None,
                     0)

        def batch(i, s, idx, bad=None, key=None):
            m, ml = arr([MSGS[j] for j in idx])
            sg, _ = arr([sigs[(j + 1) % 5 if j == bad else j] for j in idx])
            x, _ = arr([b"\xff" * c.adj if j == key else pubs[j]
                        for j in idx])
            return L.eddsa_verify_batch(e[i], m, ml, sg, x, len(idx), -1, None,
                                        0, self.sc[s])

        return [
            ("randomise A", lambda: self.rnd(0, 0)),
            ("sign A", lambda: sign(0, 1)),
            ("verify A", lambda: verify(0, 1, 1, L.eddsa_verify)),
            ("batch A0", lambda: batch(0, 0, range(5))),
            ("bad batch A0", lambda: batch(0, 0, range(5), bad=1)),
            ("derive A", lambda: self.out(L.eddsa_derive(
                e[0], o, pubs[2], ks[3]), c.adj)),
            ("randomise B", lambda: self.rnd(1, 1)),
            ("randomise A again", lambda: self.rnd(0, 2)),
            ("key A", lambda: self.out(L.eddsa_pubkey_create(
                e[0], o, ks[2]), c.adj)),
            ("reject A", lambda: verify(0, 1, 2, L.eddsa_verify_single)),
            ("single A", lambda: verify(0, 3, 3, L.eddsa_verify_single)),
            ("scalar A", lambda: self.out(L.eddsa_pubkey_from_scalar(
                e[0], o, rk[1]), c.adj)),
            ("context A", lambda: sign(0, 2, 1, b"context")),
            ("bad key A0", lambda: batch(0, 0, range(5), key=3)),
            ("batch B1", lambda: batch(1, 1, [4, 2, 0])),
            ("batch B0", lambda: batch(1, 0, [3])),
            ("sign B", lambda: sign(1, 2)),
            ("derive bad B", lambda: L.eddsa_derive(
                e[1], o, b"\xff" * c.adj, ks[3])),
            ("generate A", lambda: self.out(L.ristretto_privkey_generate(
                e[0], o, ENT[1]), c.nsize)),
            ("group key A", lambda: self.out(L.ristretto_pubkey_create(
                e[0], o, rk[2]), c.size)),
            ("group derive B", lambda: self.out(L.ristretto_derive(
                e[1], o, rp[0], rk[2]), c.size)),
            ("group tweak A", lambda: self.out(L.ristretto_pubkey_tweak_add(
                e[0], o, rp[1], rk[2]), c.size)),
        ]


class Mt(World):
    kind, curves = "mont", MONT

    def data(self):
        c, L, ec = self.c, self.L, self.ec[0]
        ks = [bytes([j * 37 & 255] * c.size) for j in range(4)]
        pubs = []
        for k in ks:
            L.ecdh_pubkey_create(ec, self.b[0], k)
            pubs.append(self.out(1, c.size)[1])
        return ks, pubs

    def table(self):
        L, c, e = self.L, self.c, self.ec
        ks, pubs = self.d
        o = self.b[0]

        def derive(i, j, k):
            return self.out(L.ecdh_derive(e[i], o, pubs[j], ks[k]), c.size)

        return [
            ("derive A", lambda: derive(0, 1, 2)),
            ("derive B", lambda: derive(1, 2, 1)),
            ("small A", lambda: L.ecdh_derive(e[0], o, bytes(c.size), ks[1])),
            ("key A", lambda: self.out(L.ecdh_pubkey_create(
                e[0], o, ks[3]), c.size)),
            ("generate B", lambda: self.out(L.ecdh_privkey_generate(
                e[1], o, ENT[1]), c.size)),
            ("torsion A", lambda: L.ecdh_pubkey_has_torsion(e[0], pubs[1])),
            ("map A", lambda: self.out(L.ecdh_pubkey_from_uniform(
                e[0], o, bytes(range(c.size))), c.size)),
        ]


KINDS = {n: Wei for n in WEI}
KINDS.update({n: Ed for n in ED})
KINDS.update({n: Mt for n in MONT})


def reference(ctx, name):
    """Results of every operation on a context of its own."""
    L = dict(ctx.each)["n64"]
    W = KINDS[name](L, name)
    data, k = W.d, len(W.ops)
    W.close()
    want = []
    for i in range(k):
        W = KINDS[name](L, name, data)
        want.append(W.ops[i][1]())
        W.close()
    return data, want


def history(ctx, name, variants, k, depth):
    data, want = reference(ctx, name)
    for v, L in ctx.each:
        if v not in variants:
            continue
        W = KINDS[name](L, name, data)
        names = [o[0] for o in W.ops]
        seq = debruijn(k or len(W.ops), depth)
        for pos, i in enumerate(seq):
            past = seq[max(pos - depth + 1, 0):pos]
            ctx.case("history", name, v, pos, [names[j] for j in past],
                     names[i])
            ctx.state(name, v, *past, i)
            ctx.eq(W.ops[i][1](), want[i], "result of the operation")
        W.close()


def fresh(ctx, name):
    data, want = reference(ctx, name)
    for v, L in ctx.each:
        if ctx.quick and v != "n64":
            continue
        k = len(want)
        for i in range(k):
            for j in range(k):
                W = KINDS[name](L, name, data)
                ctx.case("fresh", name, v, W.ops[i][0], W.ops[j][0])
                ctx.state(name, v, i, j)
                ctx.eq(W.ops[i][1](), want[i], "first result")
                ctx.eq(W.ops[j][1](), want[j], "second result")
                W.close()


def entropies(quick):
    es = [bytes([i]) * 32 for i in (0, 1, 0x55, 0xaa, 0xff)]
    es += [(1 << i).to_bytes(32, "little") for i in range(256)]
    return es[:24] if quick else es


def blinding(ctx, name):
    W = KINDS[name]
    c = W.curves[name]
    cache = {}
    dirs = [W(L, name) for _, L in ctx.each]
    few = [k for k in few_scalars(c.n) if k]
    size = c.size if W is Wei else c.adj

    def want(k):
        P = c.mulg(k)
        if W is Ed:
            return c.enc(P)
        return c.enc(P) if P is not None else None

    for w in dirs:
        w.gen = (w.L.ecdsa_privkey_generate if W is Wei else
                 w.L.ristretto_privkey_generate)
    o = dirs[0].b[0]
    # scalars which sums of the topmost windows of a multiplication can reach:
    # there the blinding value has just cancelled
    top = c.n.bit_length()
    sparse = {d * sg << j for d in range(1, 16 if ctx.quick else 64, 2)
              for sg in (1, -1) for j in range(top - 9, top)}
    sparse = sorted({k % c.n for k in sparse} - {0})
    sw = {k: want(k) for k in sparse}
    for ei, e in enumerate(entropies(ctx.quick)):
        # the blinding value is drawn as a private key is
        w = dirs[0]
        w.gen(w.ec[1], o, e)
        b = int.from_bytes(w.out(1, c.nsize)[1],
                           "big" if W is Wei else "little")
        ks = {(m * b + d) % c.n for m in (-2, -1, 1, 2, 3, (c.n + 1) // 2)
              for d in (-1, 0, 1)} | set(few[:6])
        ks.discard(0)
        ws = {k: want(k) for k in ks}
        if not ctx.quick or ei < 6:
            ks |= set(sparse)
            ws.update(sw)
        for w, (v, L) in zip(dirs, ctx.each):
            getattr(L, w.kind + "_curve_randomize")(w.ec[0], e)
            for k in ks:
                ctx.case("blind", name, v, ei, hex(k))
                ctx.state(name, v, ei, k)
                if W is Wei:
                    r = w.var(L.ecdsa_pubkey_create, w.ec[0], c.sb(k), 1)
                else:
                    r = w.out(L.eddsa_pubkey_from_scalar(
                        w.ec[0], w.b[0], c.sb(k)), size)
                ctx.eq(r[1], ws[k], "public key")
    for w in dirs:
        w.close()


def scratches(ctx, name, sizes):
    """Batches of valid signatures, and with one wrong anywhere in them, for
    every size of the scratch space: only the signatures may matter."""
    W = KINDS[name]
    data = None
    for v, L in ctx.each:
        w = W(L, name, data)
        data, ec = w.d, w.ec[0]
        if W is Ed:
            _, pubs, sigs = data[:3]
            schemes = [("eddsa", sigs, pubs)]
        else:
            _, pubs, xs, _, ss, ls = data
            schemes = [("bip340", ss, xs)]
            if ls:
                schemes.append(("bipschnorr", ls, pubs))
        for size in sizes:
            s = getattr(L, w.kind + "_scratch_create")(ec, size)
            for what, sg, pk in schemes:
                f = getattr(L, what + "_verify_batch")
                for n in range(10):
                    for bad in [None] + list(range(n)):
                        idx = [(3 * i + size) % 5 for i in range(n)]
                        m, ml = arr([MSGS[j] for j in idx])
                        t, _ = arr([sg[(j + (i == bad)) % 5]
                                    for i, j in enumerate(idx)])
                        x, xl = arr([pk[j] for j in idx])
                        a = (ec, m, ml, t, x)
                        if what == "bipschnorr":
                            a += (xl, n, s)
                        elif what == "eddsa":
                            a += (n, -1, None, 0, s)
                        else:
                            a += (n, s)
                        ctx.case("scratch", name, v, what, size, n, bad)
                        ctx.state(name, v, what, size, n, bad)
                        ctx.eq(f(*a), int(bad is None), "verdict on the batch")
            getattr(L, w.kind + "_scratch_destroy")(ec, s)
        w.close()


FULL = ("P256", "SECP256K1", "ED25519", "X25519", "X448")


def tasks(tier):
    t = []
    quick = tier == "quick"
    for n in KINDS:
        d = (3 if n in FULL else 2) if quick else 4
        for v in LIBS:
            t.append(Task("history-%s-%s" % (n, v), history, (n, (v,), 0, d)))
        if KINDS[n] is not Mt:
            t.append(Task("deep-" + n, history,
                          (n, LIBS, 7, d + 1 if quick else 5)))
            t.append(Task("blinding-" + n, blinding, (n,)))
            t.append(Task("scratches-" + n, scratches,
                          (n, range(2, 8 if quick else 20))))
        t.append(Task("fresh-" + n, fresh, (n,)))
    return t
