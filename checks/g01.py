"""G01: random results use all the entropy they are given.

Each operation runs with every entropy of a neighbourhood: one string, the 256
which differ from it in one bit, and the two constant ones.  The random part of
each result is taken out (with the private key where it is encrypted) and the
parts are compared with one another: all differ, no more bits are constant than
the format demands, and no byte is a copy of another."""

import ctypes as C

from mc import pkcs1
from mc.core import Task
from mc.curves import ED, MONT, WEI
from mc.ffc import Key, group
from mc.lib import Out
from mc.numth import rsa_key
from mc.oracle import HASHES
from checks.a01 import hid
from checks.a03 import split

BOUNDS = ("entropies: a string, all 256 which differ from it in one bit, all "
          "zeros and all ones (DSA parameters and complete DSA keys: one bit "
          "of every byte in quick, all bits in thorough); 11 curves x 3 back "
          "ends x every generating, grinding and inverting call, grinding to "
          "the 1st and 3rd candidate; RSA keys of 512 and 521 bits (thorough: "
          "also 768, 1024); PSS salts of 1..32 bytes and the longest; padding "
          "and seeds for messages from empty to the longest; DSA private keys "
          "for subgroups of 160, 224 and 256 bits")
ASSUMPTIONS = ["that a bit is constant is judged over at least 34 entropies"]
LIBS = ("n64", "i128", "p32")

BASE = bytes((i * 29 + 17) & 255 for i in range(32))
_n = C.c_size_t()
_pn = C.byref(_n)
CB3 = C.CFUNCTYPE(C.c_int, C.c_void_p, C.c_size_t, C.c_void_p)
CB2 = C.CFUNCTYPE(C.c_int, C.c_void_p, C.c_void_p)


def flip(i):
    b = bytearray(BASE)
    b[i >> 3] ^= 1 << (i & 7)
    return bytes(b)


def entropies(few=False):
    bits = [8 * i + i % 8 for i in range(32)] if few else range(256)
    return [BASE] + [flip(i) for i in bits] + \
        ([] if few else [bytes(32), b"\xff" * 32])


def judge(ctx, what, fn, bits, ents=None, cols=True, distinct=True):
    """fn(entropy): the random part; bits: how many of it are to vary"""
    ents = ents or entropies()
    seen, first, any_ = {}, None, 0
    rows = []
    for en in ents:
        ctx.case(*what, en)
        buf = C.create_string_buffer(en, 32)
        part = fn(buf)
        ctx.state(*what, en)
        ctx.eq(buf.raw, en, "entropy given was changed")
        if part is None:
            ctx.fail("no result")
            continue
        if distinct:
            ctx.check(part not in seen, "same result as for entropy %s"
                      % seen.get(part))
        seen[part] = en.hex()
        v = int.from_bytes(part, "big")
        if first is None:
            first = v
            ctx.eq(fn(en), part, "another result the second time")
        any_ |= v ^ first
        rows.append(part)
    ctx.case(*what)
    ctx.check(bin(any_).count("1") >= bits, "only %d bits vary, of %d"
              % (bin(any_).count("1"), bits))
    if cols and rows:
        ctx.check(len({len(r) for r in rows}) == 1, "sizes differ")
        seen = {}
        for i, col in enumerate(zip(*rows)):
            if len(set(col)) > 1:
                ctx.check(col not in seen, "byte %d is byte %s again"
                          % (i, seen.get(col)))
            seen[col] = i
        ctx.step(len(rows))


def low(n):
    """Bits of a number below n which take both values"""
    b = n.bit_length()
    return b - (n < 5 << (b - 3))


def curve(ctx, kind, name):
    c = {**WEI, **MONT, **ED}[name]
    fam = {"wei": "wei", "bip340": "wei", "mont": "mont"}.get(kind, "edwards")
    pre = {"wei": "ecdsa", "mont": "ecdh", "ed": "eddsa"}.get(kind, kind)
    for v, L in ctx.each:
        ec = getattr(L, fam + "_curve_create")(
            getattr(L, fam.upper() + "_CURVE_" + name))
        so = Out(c.nsize if hasattr(c, "nsize") else c.size)
        uu = Out(2 * c.size)

        def call(fn, out, *args):
            f = getattr(L, fn)

            def run(en):
                out.reset()
                r = f(ec, out, *[en if a is Ellipsis else a for a in args])
                ctx.check(out.intact(), "output size")
                return out.get() if r in (1, None) else None
            return run

        def grind(fn, out, cb_t, *args):
            def run(en):
                left = [j]

                def cb(*a):
                    left[0] -= 1
                    return int(left[0] == 0)
                out.reset()
                getattr(L, fn)(ec, out, en, *args, cb_t(cb), None)
                return out.get()
            return run

        clamped = c.p.bit_length() - 5
        jobs = []
        if kind == "ed":
            po = Out(c.adj)
            jobs += [("eddsa_privkey", po, 8 * c.adj),
                     ("eddsa_scalar", so, clamped)]
        elif kind == "mont":
            jobs += [("ecdh_privkey", so, clamped)]
        else:
            jobs += [(pre + "_privkey", so, low(c.n))]
        for stem, out, bits in jobs:
            judge(ctx, (v, name, stem, "generate"),
                  call(stem + "_generate", out, ...), bits)
            for j in (1, 3):
                t = CB3 if pre == "ecdsa" else CB2
                judge(ctx, (v, name, stem, "grind", j),
                      grind(stem + "_grind", out, t,
                            *([1] if pre == "ecdsa" else [])), bits)
        # inverting: a public key
        sc = Out(c.nsize if hasattr(c, "nsize") else c.size)
        pub = Out(c.size + 1)
        getattr(L, jobs[-1][0] + "_generate")(ec, sc, BASE)
        if pre == "ecdsa":
            L.ecdsa_pubkey_create(ec, pub, _pn, sc, 1)
            key = (pub, _n.value)
        else:
            if kind == "ed":
                L.eddsa_pubkey_from_scalar(ec, pub, sc)
            else:
                getattr(L, pre + "_pubkey_create")(ec, pub, sc)
            key = (pub,)
        for sub in ((None,) if kind == "ristretto" else (0, 3)):
            args = key + (() if sub is None else (sub,)) + (...,)
            judge(ctx, (v, name, kind, "to_hash", sub),
                  call(pre + "_pubkey_to_hash", uu, *args),
                  2 * low(c.p))
        getattr(L, fam + "_curve_destroy")(ec)


# -- RSA -------------------------------------------------------------------

def rsa_gen(ctx, bits, e, lo, hi):
    L = ctx.lib
    out = Out(5200)
    half = bits // 2
    bt = {}

    def run(en):
        out.reset()
        if L.rsa_privkey_generate(out, _pn, bits, e, en) != 1:
            return None
        ctx.beat()
        return out.get(_n.value)

    def part(i):
        def get(en):
            k = bytes(en[:32])
            if k not in bt:
                bt[k] = split(run(en))
            return bt[k][i].to_bytes((bits + 15) // 16, "big")
        return get

    ents = [BASE] + entropies()[1:][lo:hi]
    judge(ctx, ("key", bits, e, lo), run, 0, ents, cols=False)
    for i in (4, 5):
        judge(ctx, ("factor", i, bits, e, lo), part(i), half - 5, ents)


def rsa_use(ctx, bits):
    L = ctx.lib
    key = rsa_key(bits, 65537)
    priv, pub, k = key.priv(), key.pub(), key.k
    out = Out(k)

    def em(r):
        if r != 1:
            return None
        return pow(int.from_bytes(out.get(), "big"), key.e, key.n)

    eml = (key.bits + 6) // 8
    for name in ("SHA1", "SHA256"):
        hl = HASHES[name][0]
        msg = bytes((i * 3 + 1) & 255 for i in range(hl))
        room = eml - hl - 2
        for slen in list(range(1, min(33, room + 1))) + [room]:
            if slen > room or slen < 1:
                continue

            def salt(en):
                m = em(L.rsa_sign_pss(out.reset(), _pn, hid(L, name), msg, hl,
                                      priv, len(priv), slen, en))
                if m is None:
                    return None
                b = m.to_bytes(eml, "big")
                return pkcs1.xor(b[:eml - hl - 1], pkcs1.mgf1(
                    name, b[eml - hl - 1:-1], eml - hl - 1))[-slen:]
            judge(ctx, ("pss", bits, name, slen), salt, 8 * slen,
                  distinct=slen >= 8)
        room = k - 2 * hl - 2
        for ln in (0, 1, room // 2, room - 1, room):
            if not 0 <= ln <= room:
                continue

            def seed(en):
                r = L.rsa_encrypt_oaep(out.reset(), _pn, hid(L, name), b"\1" *
                                       ln, ln, pub, len(pub), b"", 0, en)
                return pkcs1.oaep_open(name, key.sig(out.get()), b"")[1] \
                    if r == 1 else None
            judge(ctx, ("oaep", bits, name, ln), seed, 8 * hl)
    for ln in (0, 1, 5, k // 2, k - 12, k - 11):
        def padding(en):
            r = L.rsa_encrypt(out.reset(), _pn, b"\1" * ln, ln, pub, len(pub),
                              en)
            return key.sig(out.get())[2:k - ln - 1] if r == 1 else None
        judge(ctx, ("padding", bits, ln), padding, 8 * (k - ln - 3))
    good = b"\1" * k
    for ln in (8, 16, 32, k - 11):
        o = Out(ln)

        def unwrap(en):
            r = L.rsa_decrypt_key(o.reset(), ln, good, k, priv, len(priv), en)
            return o.get() if r == 1 else None
        judge(ctx, ("unwrap", bits, ln), unwrap, 8 * ln)
    c = (key.n // 3).to_bytes(k, "big")
    for more in (64, 128, 200):
        ln = (key.bits + more + 7) // 8
        o = Out(ln)

        def veil(en):
            r = L.rsa_veil(o.reset(), _pn, c, k, key.bits + more, pub,
                           len(pub), en)
            return (int.from_bytes(o.get(), "big") // key.n).to_bytes(
                more // 8 + 1, "big") if r == 1 else None
        judge(ctx, ("veil", bits, more), veil, more - 2)


# -- DSA -------------------------------------------------------------------

def dsa_x(ctx, pbits, qbits):
    L = ctx.lib
    key = Key(group(pbits, qbits), 5)
    par, q = key.params(), key.q
    out = Out(3842)

    def run(en):
        if L.dsa_privkey_create(out.reset(), _pn, par, len(par), en) != 1:
            return None
        return split(out.get(_n.value))[5].to_bytes(qbits // 8, "big")
    judge(ctx, ("x", pbits, qbits), run, low(q))


def dsa_gen(ctx, bits, whole, lo, hi, few):
    L = ctx.lib
    out = Out(3842)

    def run(en):
        f = L.dsa_privkey_generate if whole else L.dsa_params_generate
        r = f(out.reset(), _pn, bits, en)
        ctx.beat()
        if r != 1:
            return None
        v = split(out.get(_n.value))
        return b"".join(i.to_bytes(bits // 8, "big") for i in
                        (v[1:3] + v[5:] if whole else v[:2]))
    judge(ctx, ("dsa", bits, whole, lo), run, 0, [BASE] +
          entropies(few)[1:][lo:hi], cols=False)


def tasks(tier):
    t = []
    for nm in WEI:
        t.append(Task("wei-" + nm, curve, ("wei", nm)))
    t.append(Task("bip340", curve, ("bip340", "SECP256K1")))
    for nm in MONT:
        t.append(Task("mont-" + nm, curve, ("mont", nm)))
    for nm in ED:
        t.append(Task("ed-" + nm, curve, ("ed", nm)))
        t.append(Task("ristretto-" + nm, curve, ("ristretto", nm)))
    quick = tier == "quick"
    for bits, e in [(512, 65537), (521, 3)] + \
            ([] if quick else [(768, 65537), (1024, 65537)]):
        for lo in range(0, 258, 65):
            t.append(Task("rsa-keys-%d/%d" % (bits, lo), rsa_gen,
                          (bits, e, lo, lo + 65), "n64"))
    for bits in (512, 521, 768, 1024):
        t.append(Task("rsa-use-%d" % bits, rsa_use, (bits,), "n64"))
    t.append(Task("rsa-use-512/p32", rsa_use, (512,), "p32"))
    for pb, qb in ((1024, 160), (2048, 224), (2048, 256)):
        t.append(Task("dsa-x-%d-%d" % (pb, qb), dsa_x, (pb, qb), "n64"))
    for whole in (0, 1):
        n = 32 if quick else 258
        for lo in range(0, n, 8):
            t.append(Task("dsa-gen-%d/%d" % (whole, lo), dsa_gen,
                          (1024, whole, lo, lo + 8, quick), "n64"))
    return t
