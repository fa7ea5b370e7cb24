"""A03: RSA keys.

Generated keys are taken apart and judged by the definition of a key; fixed
keys are varied component by component and pair by pair, and the library's
verdict compared with the relations; import is given every subset of the
components."""

import ctypes as C
from itertools import combinations
from math import gcd

from mc import pkcs1
from mc.core import Task
from mc.lib import Out
from mc.numth import (RsaKey, der_int, der_seq, is_prime, next_prime, rsa_key,
                      rsa_priv_der, stream)

BOUNDS = ("generation: sizes 512..527 (and 1024, 1031; 2048 thorough) x 7 "
          "exponents x seeds; refused sizes and exponents; verification: each "
          "component x ~25 variants, all pairs of components x 8 variants "
          "each, keys with small, even, equal, swapped or composite factors, "
          "moduli of 511/512/16384/16385 bits; import: all 256 subsets of the "
          "components, x each component wrong")
ASSUMPTIONS = ["primality of generated factors decided by Miller-Rabin to 24 "
               "bases"]

ENT = bytes(range(32))
_n = C.c_size_t()
_pn = C.byref(_n)
MAXE = 0x1ffffffff
NAMES = "n e d p q dp dq qi".split()


def ent(i):
    return bytes((i * 37 + j * 11 + i * i * j) & 255 for j in range(32))


def split(data):
    """Integers of a DER key (already known to be canonical)."""
    def take(b):
        ln, o = b[1], 2
        if ln & 0x80:
            c = ln & 0x7f
            ln, o = int.from_bytes(b[2:2 + c], "big"), 2 + c
        return b[0], b[o:o + ln], b[o + ln:]
    tag, body, rest = take(data)
    assert tag == 0x30 and not rest
    out = []
    while body:
        tag, v, body = take(body)
        assert tag == 2
        out.append(int.from_bytes(v, "big"))
    return out


def relations(parts):
    n, e, d, p, q, dp, dq, qi = parts
    if min(parts) <= 0 or max(v.bit_length() for v in parts) > 16384:
        return False
    if not 512 <= n.bit_length() or n % 2 == 0:
        return False
    if not 3 <= e <= MAXE or e % 2 == 0:
        return False
    if p < 3 or q < 3 or p % 2 == 0 or q % 2 == 0 or p == q or p * q != n:
        return False
    phi = (p - 1) * (q - 1)
    lam = phi // gcd(p - 1, q - 1)
    return (2 <= d < phi and e * d % lam == 1 and dp == d % (p - 1)
            and dq == d % (q - 1) and 2 <= qi < p and q * qi % p == 1)


# -- generation ------------------------------------------------------------

def generate(ctx, sizes, exps, seeds):
    L = ctx.lib
    for bits in sizes:
        for e in exps:
            for s in seeds:
                ctx.case("generate", bits, e, s)
                ctx.state("g", bits, e, s)
                out = Out(5200)
                r = L.rsa_privkey_generate(out, _pn, bits, e, ent(s))
                ctx.eq(r, 1, "generation")
                if r != 1:
                    continue
                der = out.get(_n.value)
                v = split(der)
                ctx.eq(v[0], 0, "version")
                parts = v[1:]
                ctx.eq(len(parts), 8, "number of components")
                n, ee, d, p, q, dp, dq, qi = parts
                ctx.eq(rsa_priv_der(parts), der, "encoding")
                ctx.eq(n.bit_length(), bits, "modulus size")
                ctx.eq(ee, e, "exponent")
                ctx.check(relations(parts), "relations", None, parts)
                ctx.check(is_prime(p) and is_prime(q), "factors not prime")
                ctx.check(p > q and p - q > 1 << (bits // 2 - 100),
                          "factors too close")
                ctx.check(d > 1 << (bits // 2), "small private exponent")
                ctx.check(abs(p.bit_length() - q.bit_length()) <= 1,
                          "unbalanced factors")
                ctx.eq(L.rsa_privkey_verify(der, len(der)), 1, "verification")
                ctx.eq(L.rsa_privkey_bits(der, len(der)), bits, "size")
                usable(ctx, parts, der)
                o2 = Out(5200)
                L.rsa_privkey_generate(o2, _pn, bits, e, ent(s))
                ctx.eq(o2.get(_n.value), der, "not deterministic")
                pub = Out(1200)
                ctx.eq(L.rsa_pubkey_create(pub, _pn, der, len(der)), 1, "pub")
                ctx.eq(pub.get(_n.value), der_seq(der_int(n), der_int(e)),
                       "public key")


def refused(ctx):
    L = ctx.lib
    out = Out(5200)
    for bits in (0, 1, 2, 64, 510, 511, 16385, 1 << 31, (1 << 32) - 1):
        for e in (3, 65537):
            ctx.case("size", bits, e)
            ctx.state(bits, e)
            ctx.eq(L.rsa_privkey_generate(out, _pn, bits, e, ENT), 0, "size")
    for e in (0, 1, 2, 4, 65536, MAXE - 1, MAXE + 1, MAXE + 2, MAXE + 3,
              (1 << 64) - 1, 1 << 63, (1 << 63) + 1):
        ctx.case("exponent", e)
        ctx.state(e)
        ctx.eq(L.rsa_privkey_generate(out, _pn, 512, e, ENT), 0, "exponent")
    ctx.check(out.intact(), "output size")


# -- using a key -----------------------------------------------------------

def usable(ctx, parts, der):
    """Private operations with a key that satisfies the relations: right or
    refused, and right if the factors are prime."""
    L = ctx.lib
    n, e, d, p, q = parts[:5]
    k = (n.bit_length() + 7) // 8
    prime = is_prime(p) and is_prime(q)
    h = bytes(range(20))
    em = pkcs1.type1(pkcs1.digest_info("SHA1", h), k)
    o = Out(k)
    r = L.rsa_sign(o, _pn, L.HASH_SHA1, h, 20, der, len(der), ENT)
    if prime:
        ctx.eq(r, 1, "signing")
    if r:
        ctx.eq(pow(int.from_bytes(o.get(), "big"), e, n),
               int.from_bytes(em, "big"), "signature does not verify")
    m = b"\0\2" + b"\x11" * (k - 8) + b"\0hello"
    c = pow(int.from_bytes(m, "big"), e, n).to_bytes(k, "big")
    o.reset()
    r = L.rsa_decrypt(o, _pn, c, k, der, len(der), ENT)
    if prime:
        ctx.eq(r, 1, "decryption")
    if r and prime:
        ctx.eq(o.get(_n.value), b"hello", "decryption")
    ctx.check(o.intact(), "output size")


def refuses(ctx, der, k=2100):
    """Every private operation with an inconsistent key."""
    L = ctx.lib
    o = Out(6000)
    n = len(der)
    h = bytes(range(20))
    for what, r in (
            ("verify", L.rsa_privkey_verify(der, n)),
            ("bits", L.rsa_privkey_bits(der, n)),
            ("export", L.rsa_privkey_export(o, _pn, der, n)),
            ("pubkey", L.rsa_pubkey_create(o, _pn, der, n)),
            ("sign", L.rsa_sign(o, _pn, L.HASH_SHA1, h, 20, der, n, ENT)),
            ("pss", L.rsa_sign_pss(o, _pn, L.HASH_SHA1, h, 20, der, n, 0,
                                   ENT)),
            ("decrypt", L.rsa_decrypt(o, _pn, b"\1" * 64, 64, der, n, ENT)),
            ("oaep", L.rsa_decrypt_oaep(o, _pn, L.HASH_SHA1, b"\1" * 64, 64,
                                        der, n, b"", 0, ENT)),
            ("unwrap", L.rsa_decrypt_key(o, 16, b"\1" * 64, 64, der, n,
                                         ENT))):
        ctx.eq(r, 0, "inconsistent key: " + what)


def variants(key, i):
    v = key.parts()[i]
    p, q, lam = key.p, key.q, key.lam
    phi = (p - 1) * (q - 1)
    mod = [key.n, lam, phi, p - 1, q - 1, p, q, lam // 2]
    s = [0, 1, 2, 3, v - 1, v + 1, v - 2, v + 2, v * 2, v // 2, v ^ (1 << 63),
         v ^ (1 << 64), v ^ (1 << (v.bit_length() - 1)),
         v | 1 << v.bit_length(), 1 << 510, 1 << 16383, 1 << 16384]
    s += [v + m for m in mod] + [v - m for m in mod] + [m - v for m in mod]
    s += key.parts()
    return [x for x in dict.fromkeys(s) if x >= 0 and x != v]


def judge(ctx, parts, deep):
    L = ctx.lib
    der = rsa_priv_der(parts)
    want = relations(parts)
    ctx.eq(L.rsa_privkey_verify(der, len(der)), int(want), "verification")
    if want:
        ctx.eq(L.rsa_privkey_bits(der, len(der)), parts[0].bit_length(),
               "size")
        usable(ctx, parts, der)
    elif deep:
        refuses(ctx, der)


def single(ctx, bits, e, tag):
    key = rsa_key(bits, e, tag)
    good = key.parts()
    ctx.case("good")
    judge(ctx, good, True)
    for i in range(8):
        for j, v in enumerate(variants(key, i)):
            parts = list(good)
            parts[i] = v
            ctx.case("single", bits, NAMES[i], j, hex(v))
            ctx.state("s", bits, e, i, v)
            judge(ctx, parts, True)


def pairs(ctx, bits, e, tag):
    key = rsa_key(bits, e, tag)
    good = key.parts()
    p, q, lam = key.p, key.q, key.lam
    phi = (p - 1) * (q - 1)
    alt = {}
    for i, v in enumerate(good):
        alt[i] = [x for x in dict.fromkeys(
            [1, 2, v + 1, v - 1, v + 2, v + lam, v + p - 1, v + q - 1, v + p,
             v + q, p, q, key.dp, key.dq, phi - v, p - 1, q - 1, p - 2])
            if x > 0 and x != v][:18]
    for i, j in combinations(range(8), 2):
        for a in alt[i]:
            for b in alt[j]:
                parts = list(good)
                parts[i], parts[j] = a, b
                ctx.case("pair", bits, NAMES[i], NAMES[j], hex(a), hex(b))
                ctx.state("p", bits, i, j, a, b)
                judge(ctx, parts, False)


def shaped(ctx):
    """Keys of unusual shape."""
    shapes = []
    for bits in (512, 640):
        P = next_prime(stream(("shape", bits), bits - 2))
        for q in (3, 5, 7, 11, 257, 65537):
            for e in (3, 5, 17, 65537, MAXE):
                shapes.append((P, q, e))
                shapes.append((q, P, e))
    h = bits // 2
    p = next_prime(stream(("shape2", 1), 257))
    q = next_prime(stream(("shape2", 2), 256))
    for e in (3, 5, 7, 11, 17, 257, 65537, MAXE, MAXE - 2):
        shapes += [(p, q, e), (q, p, e), (p, p, e), (p * 2, q, e),
                   (p, p + 2, e), (p * 3, q, e), (p, q * 9, e),
                   (p, next_prime(p + 2), e)]
    for a in (1, 2):
        shapes.append((p * q * a, 1, 65537))
    # size limits: the relations do not need prime factors
    for b in (255, 256, 8192, 8193):
        for s in range(2):
            x = stream(("lim", b, s), b) | 1
            y = stream(("lim2", 511 - 255 if b < 300 else 8192, s),
                       256 if b < 300 else 8192) | 1
            for e in (65537, 257, 17, 5):
                shapes.append((x, y, e))
    for i, (p, q, e) in enumerate(shapes):
        phi = (p - 1) * (q - 1)
        if phi <= 0 or gcd(p, q) != 1 and p != q:
            qi = 2
        else:
            qi = pow(q, -1, p) if p != q else 2
        lam = phi // gcd(p - 1, q - 1) if phi > 0 else 1
        try:
            d0 = pow(e, -1, lam)
        except ValueError:
            d0 = 3
        for d in dict.fromkeys((d0, d0 + lam, d0 + phi, phi - d0,
                                lam - d0)):
            if d <= 0:
                continue
            parts = [p * q, e, d, p, q, d % (p - 1) if p > 1 else 1,
                     d % (q - 1) if q > 1 else 1, qi]
            ctx.case("shape", i, p.bit_length(), q.bit_length(), e, d == d0)
            ctx.state("shape", tuple(parts))
            if max(v.bit_length() for v in parts) < 3000:
                judge(ctx, parts, True)
            else:
                der = rsa_priv_der(parts)
                ctx.eq(ctx.lib.rsa_privkey_verify(der, len(der)),
                       int(relations(parts)), "verification")


def largest(ctx):
    """Keys at and beyond the largest modulus, from factors of many sizes;
    whole and by their parts."""
    L = ctx.lib
    o = Out(20000)
    for nb in (16383, 16384, 16385, 16392):
        for qb in (2, 17, 512, 8191, 8192):
            for e in (3, 65537, MAXE):
                q = (1 << qb) - 1
                while q > 3 and gcd(e, q - 1) != 1:
                    q -= 2
                p = ((1 << nb) - 1) // q | 1
                while True:
                    p -= 2
                    if gcd(p, q) != 1:
                        continue
                    lam = (p - 1) * (q - 1) // gcd(p - 1, q - 1)
                    if gcd(e, lam) == 1:
                        break
                d = pow(e, -1, lam)
                parts = [p * q, e, d, p, q, d % (p - 1), d % (q - 1),
                         pow(q, -1, p)]
                ctx.case("largest", nb, qb, e)
                ctx.state("largest", nb, qb, e)
                ctx.eq(parts[0].bit_length(), nb, "test value")
                want = relations(parts)
                der = rsa_priv_der(parts)
                ctx.eq(L.rsa_privkey_verify(der, len(der)), int(want),
                       "verification")
                ctx.eq(L.rsa_privkey_bits(der, len(der)), nb if want else 0,
                       "size")
                if not want:
                    refuses(ctx, der)
                for mask in (255, 0b11010, 0b11100, 0b11111):
                    raw = dumb([x if mask >> k & 1 else 0 for k, x in
                                enumerate(parts)])
                    ctx.case("largest", nb, qb, e, mask)
                    ctx.state("largest", nb, qb, e, mask)
                    r = L.rsa_privkey_import(o.reset(), _pn, raw, len(raw),
                                             ENT)
                    ctx.check(o.intact(), "output size")
                    if nb > 16384:
                        ctx.eq(r, 0, "import of an oversized key")
                    elif want:
                        ctx.eq(r, 1, "import")
                    if r:
                        got = split(o.get(_n.value))[1:]
                        ctx.check(relations(got), "inconsistent key imported",
                                  None, got)
                if nb > 16384:
                    raw = dumb(parts[:3] + [0] * 5)
                    ctx.eq(L.rsa_privkey_import(o.reset(), _pn, raw, len(raw),
                                                ENT), 0,
                           "import of an oversized key")
                ctx.beat()


def public(ctx):
    L = ctx.lib
    key = rsa_key(512)
    out = Out(5000)
    ns = [key.n, key.n + 1, key.n - 1, (1 << 511) + 1, (1 << 511) - 1,
          1 << 511, (1 << 512) - 1, (1 << 16384) - 1, (1 << 16383) + 1,
          (1 << 16384) + 1, 1 << 16383, 0, 1, 3, (1 << 510) + 1]
    es = [0, 1, 2, 3, 4, 5, 65537, 65536, MAXE, MAXE - 1, MAXE + 2, MAXE + 1,
          (1 << 64) + 1, key.n]
    for i, n in enumerate(ns):
        for j, e in enumerate(es):
            ctx.case("public", i, j, n.bit_length(), e.bit_length())
            ctx.state("public", i, j)
            der = der_seq(der_int(n), der_int(e))
            ok = (512 <= n.bit_length() <= 16384 and n & 1 and e & 1
                  and 3 <= e <= MAXE)
            ok = int(bool(ok))
            ctx.eq(L.rsa_pubkey_verify(der, len(der)), ok, "verification")
            ctx.eq(L.rsa_pubkey_bits(der, len(der)),
                   n.bit_length() if ok else 0, "size")
            raw = dumb([n, e])
            r = L.rsa_pubkey_export(out, _pn, der, len(der))
            ctx.eq(r, ok, "export")
            if r:
                ctx.eq(out.get(_n.value), raw, "exported")
            r = L.rsa_pubkey_import(out, _pn, raw, len(raw))
            ctx.eq(r, ok, "import")
            if r:
                ctx.eq(out.get(_n.value), der, "imported")
            for cut in (0, 1, 2, 3, len(raw) // 2, len(raw) - 1):
                # a cut that empties the exponent makes it zero: refused too
                ctx.eq(L.rsa_pubkey_import(out, _pn, raw[:cut], cut), 0,
                       "truncated")
            if not ok and n.bit_length() < 4000:
                k = (n.bit_length() + 7) // 8
                m = b"\0" * k
                for what, r in (
                        ("verify", L.rsa_verify(L.HASH_SHA1, m[:20], 20, m, k,
                                                der, len(der))),
                        ("pss", L.rsa_verify_pss(L.HASH_SHA1, m[:20], 20, m,
                                                 k, der, len(der), 0)),
                        ("encrypt", L.rsa_encrypt(out, _pn, b"x", 1, der,
                                                  len(der), ENT)),
                        ("oaep", L.rsa_encrypt_oaep(out, _pn, L.HASH_SHA1,
                                                    b"x", 1, der, len(der),
                                                    b"", 0, ENT)),
                        ("veil", L.rsa_veil(out, _pn, m, k, 600, der,
                                            len(der), ENT)),
                        ("unveil", L.rsa_unveil(out, _pn, m, k, 600, der,
                                                len(der)))):
                    ctx.eq(r, 0, "bad public key: " + what)


# -- import ----------------------------------------------------------------

def dumb(parts):
    out = b""
    for v in parts:
        b = v.to_bytes((v.bit_length() + 7) // 8, "big")
        out += len(b).to_bytes(2, "big") + b
    return out


def recoverable(mask):
    n, e, d, p, q = [mask >> i & 1 for i in range(5)]
    return mask == 255 or (p and q and (e or d)) or (n and e and d)


def subsets(ctx, bits, e, tag, swapped):
    """Which of the components is present."""
    L = ctx.lib
    key = rsa_key(bits, e, tag)
    good = key.parts()
    der = key.priv()
    if swapped:     # smaller factor first; equivalent key
        alt = [key.n, e, key.d, key.q, key.p, key.dq, key.dp,
               pow(key.p, -1, key.q)]
    else:
        alt = good
    o = Out(5200)
    for mask in range(256):
        for en in (ENT, None):
            parts = [v if mask >> i & 1 else 0 for i, v in enumerate(alt)]
            ctx.case("subset", bits, e, mask, swapped, en is None)
            ctx.state("sub", bits, e, tag, mask, swapped, en is None)
            raw = dumb(parts)
            r = L.rsa_privkey_import(o.reset(), _pn, raw, len(raw), en)
            ctx.check(o.intact(), "output size")
            if recoverable(mask):
                ctx.eq(r, 1, "import refused")
            if r:
                want = rsa_priv_der(alt) if mask == 255 else der
                ctx.eq(o.get(_n.value), want, "rebuilt key")


def wrong(ctx, bits, e, tag):
    """One component wrong: consistent key or refusal."""
    L = ctx.lib
    key = rsa_key(bits, e, tag)
    good = key.parts()
    o = Out(20000)
    for mask in (255, 0b111, 0b11010, 0b11100, 0b11111, 0b11000111, 0b1111):
        for i in range(8):
            if not mask >> i & 1:
                continue
            for j, v in enumerate(variants(key, i)):
                if i >= 5 and j > 8:
                    break
                parts = [x if mask >> k & 1 else 0 for k, x in
                         enumerate(good)]
                parts[i] = v
                ctx.case("wrong", bits, e, mask, NAMES[i], j)
                ctx.state("w", bits, e, tag, mask, i, j)
                raw = dumb(parts)
                r = L.rsa_privkey_import(o.reset(), _pn, raw, len(raw), ENT)
                ctx.check(o.intact(), "output size")
                if r:
                    got = split(o.get(_n.value))[1:]
                    ctx.check(relations(got), "inconsistent key imported",
                              None, got)
                    if i >= 5 or i == 0 and mask & 0b11010 == 0b11010:
                        ctx.eq(got, good, "rebuilt key")
    raw = dumb(good)
    for cut in range(len(raw)):
        ctx.case("cut", bits, cut)
        ctx.state("cut", bits, cut)
        ctx.eq(L.rsa_privkey_import(o, _pn, raw[:cut], cut, ENT), 0,
               "truncated")


def export(ctx, bits, e, tag):
    L = ctx.lib
    key = rsa_key(bits, e, tag)
    der = key.priv()
    o = Out(5200)
    ctx.case("export", bits, e)
    ctx.state("export", bits, e)
    ctx.eq(L.rsa_privkey_export(o, _pn, der, len(der)), 1, "export")
    raw = o.get(_n.value)
    ctx.eq(raw, dumb(key.parts()), "exported")
    ctx.eq(L.rsa_privkey_import(o.reset(), _pn, raw, len(raw), ENT), 1,
           "import")
    ctx.eq(o.get(_n.value), der, "round trip")
    ctx.eq(L.rsa_pubkey_create(o.reset(), _pn, der, len(der)), 1, "public")
    ctx.eq(o.get(_n.value), key.pub(), "public key")


def exports(ctx):
    for bits in range(512, 560):
        for e in (3, 65537, MAXE):
            export(ctx, bits, e, 1)


def tasks(tier):
    q = tier == "quick"
    t = []
    E = [3, 5, 17, 257, 65537, (1 << 32) + 15, MAXE]
    for b in range(512, 528):
        t.append(Task("generate-%d" % b, generate,
                      ([b], E, range(2 if q else 6))))
    for b in (1024, 1031) if q else (1024, 1031, 2047, 2048):
        t.append(Task("generate-%d" % b, generate, ([b], [3, 65537],
                                                    range(2))))
    for v in ("i128", "p32", "l32"):
        t.append(Task("generate-" + v, generate, ([512, 519], E, [1]), v))
        t.append(Task("single-" + v, single, (513, 65537, 0), v))
        t.append(Task("subsets-" + v, subsets, (513, 65537, 0, False), v))
    t.append(Task("refused", refused))
    t.append(Task("public", public))
    t.append(Task("shaped", shaped))
    t.append(Task("largest", largest))
    t.append(Task("exports", exports))
    for b, e in ((512, 65537), (513, 3), (520, MAXE), (1024, 65537)):
        t.append(Task("single-%d" % b, single, (b, e, 0)))
    for b, e in ((512, 65537), (513, 3)):
        t.append(Task("pairs-%d" % b, pairs, (b, e, 0)))
    for b, e in ((512, 3), (513, 65537), (640, 17)):
        for s in (False, True):
            t.append(Task("subsets-%d-%d" % (b, s), subsets, (b, e, 0, s)))
    for b, e in ((512, 65537), (577, 3)):
        t.append(Task("wrong-%d" % b, wrong, (b, e, 0)))
    return t
