"""A04: DSA.

Signatures, verdicts, parameter and key verification and shared secrets are
compared with the definitions on Python integers over fixed domain parameters;
signatures with boundary values are constructed by solving for the digest."""

import ctypes as C
from itertools import product

from mc import ffc
from mc.core import Task
from mc.lib import Out
from mc.numth import der_int, der_seq, is_prime, next_prime

BOUNDS = ("domain sizes (512,160), (513,160), (640,224), (768,256), (1024,160),"
          " (2048,256); private keys 1, 2, 3, q-1, q-2, middle; digest lengths "
          "0..70; nonces and s in {1, 2, 3, q-1, q-2, (q+-1)/2}; all pairs of "
          "12 boundary values for (r, s); every byte of a signature changed; "
          "each domain or key value x ~25 variants; generation of 1024 (and "
          "2048, thorough 3072) bit parameters")
ASSUMPTIONS = ["nonces follow RFC 6979 with SHA-256",
               "primality of generated values decided by Miller-Rabin"]

ENT = bytes(range(32))
ENT2 = bytes(range(64, 96))
_n = C.c_size_t()
_pn = C.byref(_n)
GROUPS = [(512, 160), (513, 160), (640, 224), (768, 256), (1024, 160)]


def keys(grp):
    q = grp[1]
    return [ffc.Key(grp, x) for x in (1, 2, 3, q - 1, q - 2, q // 2,
                                      q // 3 * 2 + 1)]


def verify(L, key, msg, sig, pub=None):
    pub = pub or key.pub()
    return L.dsa_verify(msg, len(msg), sig, len(sig), pub, len(pub))


def digests(n, q):
    out = [bytes((i * 31 + n) & 255 for i in range(n)), b"\xff" * n,
           b"\0" * n]
    ql = (q.bit_length() + 7) // 8
    for v in (q - 1, q, q + 1):
        b = v.to_bytes(ql, "big")
        out.append((b + b"\x80" * n)[:n])
    return list(dict.fromkeys(out))


def sign(ctx, pb, qb, lens):
    L = ctx.lib
    grp = ffc.group(pb, qb)
    for key in keys(grp):
        priv, pub = key.priv(), key.pub()
        for n in lens:
            for i, msg in enumerate(digests(n, key.q)):
                ctx.case("sign", pb, qb, key.x, n, i)
                ctx.state("sign", pb, qb, key.x, msg)
                want = key.enc(*key.sign(msg))
                for en in (ENT, ENT2):
                    o = Out(2 * key.n)
                    _n.value = 0
                    r = L.dsa_sign(o, _pn, msg, n, priv, len(priv), en)
                    ctx.eq((r, _n.value), (1, 2 * key.n), "signing")
                    ctx.eq(o.get(), want, "signature")
                    ctx.check(o.intact(), "output size")
                ctx.eq(verify(L, key, msg, want, pub), 1, "own signature")
                # only the leading bits of a long digest count
                more = msg + b"\x5a"
                ctx.eq(verify(L, key, more, want, pub),
                       int(key.verify(more, *key.sign(msg))), "longer digest")


def crafted(ctx, pb, qb):
    """Signatures with chosen nonce and s; the digest is solved for."""
    L = ctx.lib
    grp = ffc.group(pb, qb)
    q = grp[1]
    vals = [1, 2, 3, q - 1, q - 2, q // 2, q // 2 + 1]
    for key in keys(grp):
        pub = key.pub()
        for k, s in product(vals, vals):
            r = pow(key.g, k, key.p) % q
            m = (s * k - r * key.x) % q
            for mm in (m, m + q):
                if mm.bit_length() > q.bit_length():
                    continue
                msg = mm.to_bytes(key.n, "big")
                ctx.case("crafted", pb, qb, key.x, k, s, mm >= q)
                ctx.state("crafted", pb, qb, key.x, k, s, mm >= q)
                ctx.eq(verify(L, key, msg, key.enc(r, s), pub), 1,
                       "constructed signature")
                ctx.eq(verify(L, key, msg, key.enc(r, q - s), pub),
                       int(key.verify(msg, r, q - s)), "negated s")
        # digest zero
        for k in vals:
            r, s = key.with_nonce(0, k)
            ctx.case("zero digest", pb, qb, key.x, k)
            for z in (b"", b"\0", b"\0" * key.n, b"\0" * 64):
                ctx.eq(verify(L, key, z, key.enc(r, s), pub), 1,
                       "signature over zero")


def pairs(ctx, pb, qb):
    """Boundary values for r and s."""
    L = ctx.lib
    grp = ffc.group(pb, qb)
    q = grp[1]
    for key in keys(grp)[3:]:
        pub = key.pub()
        msg = bytes(range(key.n))
        r, s = key.sign(msg)
        top = (1 << 8 * key.n) - 1
        vals = [0, 1, 2, q - 2, q - 1, q, q + 1, top, r, s, q - r, q - s]
        vals += [v for v in (r + q, s + q) if v <= top]
        for a, b in product(vals, vals):
            ctx.case("pair", pb, qb, key.x, a, b)
            ctx.state("pair", pb, qb, key.x, a, b)
            ctx.eq(verify(L, key, msg, key.enc(a, b), pub),
                   int(key.verify(msg, a, b)), "verdict")
        sig = key.enc(r, s)
        for j in range(len(sig)):
            for x in (1, 0x80, 0x10):
                bad = sig[:j] + bytes([sig[j] ^ x]) + sig[j + 1:]
                ctx.case("byte", pb, qb, key.x, j, x)
                ctx.state("byte", pb, qb, key.x, j, x)
                ctx.eq(verify(L, key, msg, bad, pub), 0, "changed signature")
        for j in range(len(msg)):
            bad = msg[:j] + bytes([msg[j] ^ 1]) + msg[j + 1:]
            ctx.case("digest", j)
            ctx.eq(verify(L, key, bad, sig, pub), 0, "another digest")
        for n in range(0, 2 * key.n + 4):
            b = (sig + b"\0\0\0\0")[:n]
            if n != len(sig):
                ctx.case("length", pb, qb, n)
                ctx.state("length", pb, qb, key.x, n)
                ctx.eq(verify(L, key, msg, b, pub), 0, "signature length")
        ctx.eq(verify(L, key, msg, b"\0" + sig[:key.n] + b"\0" +
                      sig[key.n:], pub), 0, "padded signature")


# -- verification of parameters and keys -----------------------------------

def sane_group(p, q, g):
    return (512 <= p.bit_length() <= 10000 and q.bit_length() in
            (160, 224, 256) and p & 1 and q & 1 and 2 <= g < p - 1)


def ok_group(p, q, g):
    return bool(sane_group(p, q, g) and pow(g, q, p) == 1)


def sane_pub(p, q, g, y):
    return bool(sane_group(p, q, g) and 2 <= y < p - 1)


def ok_pub(p, q, g, y):
    return bool(ok_group(p, q, g) and sane_pub(p, q, g, y)
                and pow(y, q, p) == 1)


def ok_priv(p, q, g, y, x):
    return ok_pub(p, q, g, y) and 0 < x < q and pow(g, x, p) == y


def variants(key, i):
    p, q, g, y, x = key.p, key.q, key.g, key.y, key.x
    v = (p, q, g, y, x)[i]
    s = [0, 1, 2, 3, v - 1, v + 1, v + 2, v - 2, v * 2, v // 2, p, q, g, y,
         p - 1, p - 2, p + 1, q - 1, q + 1, p - v, v + p, v + q, q - v,
         v * v, pow(g, -1, p), pow(y, -1, p), g * g % p, p - g, p - y,
         pow(2, q, p), pow(2, (p - 1) // 2, p), 1 << 159, (1 << 160) - 1,
         (1 << 160) + 1, (1 << 223) + 1, (1 << 255) + 1, (1 << 511) + 1,
         (1 << 511) - 1, (1 << 9999) + 1, (1 << 10000) + 1]
    return [w for w in dict.fromkeys(s) if w >= 0 and w != v]


def consistency(ctx, pb, qb, ki):
    L = ctx.lib
    grp = ffc.group(pb, qb)
    key = keys(grp)[ki]
    good = [key.p, key.q, key.g, key.y, key.x]
    cases = [(None, list(good))]
    for i in range(5):
        for v in variants(key, i):
            c = list(good)
            c[i] = v
            cases.append((i, c))
    # cooperating changes: still consistent, or almost
    p, q, g, y, x = good
    cases += [("neg", [p, q, g, y, q - x]), ("sq", [p, q, g * g % p,
                                                    y * y % p, x]),
              ("one", [p, q, 1, 1, x]), ("minus", [p, q, p - 1, p - 1, 1]),
              ("gy", [p, q, y, g, pow(x, -1, q)]),
              ("xq", [p, q, g, y, x + q]),
              ("qk", [p, q * 3, g, y, x])]
    for w in (1, 2, q - 1, q - 2):
        cases.append(("x", [p, q, g, pow(g, w, p), w]))
    msg = bytes(range(20))
    out = Out(9000)
    for idx, (i, (p, q, g, y, x)) in enumerate(cases):
        ctx.case("consistency", pb, qb, ki, i, idx)
        ctx.state("c", pb, qb, ki, idx)
        par = der_seq(der_int(p), der_int(q), der_int(g))
        pub = der_seq(der_int(y), der_int(p), der_int(q), der_int(g))
        prv = der_seq(*map(der_int, (0, p, q, g, y, x)))
        ctx.eq(L.dsa_params_verify(par, len(par)), int(ok_group(p, q, g)),
               "parameter verification")
        ctx.eq(L.dsa_pubkey_verify(pub, len(pub)), int(ok_pub(p, q, g, y)),
               "public key verification")
        ctx.eq(L.dsa_privkey_verify(prv, len(prv)),
               int(ok_priv(p, q, g, y, x)), "private key verification")
        sg, sp = sane_group(p, q, g), sane_pub(p, q, g, y)
        ctx.eq(L.dsa_params_bits(par, len(par)), p.bit_length() if sg else 0,
               "bits")
        ctx.eq(L.dsa_params_qbits(par, len(par)), q.bit_length() if sg else 0,
               "subgroup bits")
        ctx.eq(L.dsa_pubkey_bits(pub, len(pub)), p.bit_length() if sp else 0,
               "bits")
        ctx.eq(L.dsa_pubkey_qbits(pub, len(pub)), q.bit_length() if sp else 0,
               "subgroup bits")
        sv = sp and 0 < x < q
        ctx.eq(L.dsa_privkey_bits(prv, len(prv)), p.bit_length() if sv else 0,
               "bits")
        ctx.eq(L.dsa_privkey_qbits(prv, len(prv)),
               q.bit_length() if sv else 0, "subgroup bits")
        if not sv:
            ctx.eq(L.dsa_sign(out, _pn, msg, 20, prv, len(prv), ENT), 0,
                   "signing with an impossible key")
            ctx.eq(L.dsa_pubkey_create(out, _pn, prv, len(prv)), 0,
                   "public key of an impossible key")
            ctx.eq(L.dsa_privkey_export(out, _pn, prv, len(prv)), 0,
                   "export of an impossible key")
            own = key.pub()
            ctx.eq(L.dsa_derive(out, _pn, own, len(own), prv, len(prv)), 0,
                   "shared secret from an impossible key")
        if not sg:
            ctx.eq(L.dsa_privkey_create(out, _pn, par, len(par), ENT), 0,
                   "key for impossible parameters")
            ctx.eq(L.dsa_params_export(out, _pn, par, len(par)), 0,
                   "export of impossible parameters")
            for der in (pub, prv):
                ctx.eq(L.dsa_params_create(out, _pn, der, len(der)), 0,
                       "impossible parameters of a key")
        if not sp:
            n = (q.bit_length() + 7) // 8
            one = (1).to_bytes(max(n, 1), "big") * 2
            ctx.eq(L.dsa_verify(msg, 20, one, len(one), pub, len(pub)), 0,
                   "verification with an impossible key")
            ctx.eq(L.dsa_pubkey_export(out, _pn, pub, len(pub)), 0,
                   "export of an impossible key")
        # shared secret with the good private key
        gp = key.priv()
        r = L.dsa_derive(out, _pn, pub, len(pub), gp, len(gp))
        want = (p, q, g) == grp and ok_pub(p, q, g, y)
        ctx.eq(r, int(want), "peer key")
        if r and want:
            k = (p.bit_length() + 7) // 8
            ctx.eq(out.get(_n.value), pow(y, key.x, p).to_bytes(k, "big"),
                   "secret")
        # import of raw components
        raw = dumb([p, q, g])
        r = L.dsa_params_import(out, _pn, raw, len(raw))
        ctx.eq(r, int(bool(sg)), "parameter import")
        if r:
            ctx.eq(out.get(_n.value), par, "imported parameters")
        raw = dumb([p, q, g, y])
        r = L.dsa_pubkey_import(out, _pn, raw, len(raw))
        ctx.eq(r, int(bool(sp)), "public key import")
        if r:
            ctx.eq(out.get(_n.value), pub, "imported public key")
        raw = dumb([p, q, g, y, x])
        r = L.dsa_privkey_import(out, _pn, raw, len(raw))
        if y:
            ctx.eq(r, int(bool(sv)), "private key import")
        if r and y:
            ctx.eq(out.get(_n.value), prv, "imported private key")
        raw = dumb([p, q, g, 0, x])
        r = L.dsa_privkey_import(out, _pn, raw, len(raw))
        ctx.eq(r, int(bool(sg and 0 < x < q)), "import without public value")
        if r:
            ctx.eq(out.get(_n.value), der_seq(*map(der_int, (
                0, p, q, g, pow(g, x, p), x))), "completed key")
        if sv:
            ctx.eq(L.dsa_privkey_export(out, _pn, prv, len(prv)), 1, "export")
            ctx.eq(out.get(_n.value), dumb([p, q, g, y, x]), "exported")
            ctx.eq(L.dsa_params_create(out, _pn, prv, len(prv)), 1, "params")
            ctx.eq(out.get(_n.value), par, "parameters of the key")
            ctx.eq(L.dsa_pubkey_create(out, _pn, prv, len(prv)), 1, "public")
            ctx.eq(out.get(_n.value), pub, "public key")
        if sp:
            ctx.eq(L.dsa_pubkey_export(out, _pn, pub, len(pub)), 1, "export")
            ctx.eq(out.get(_n.value), dumb([p, q, g, y]), "exported")
            ctx.eq(L.dsa_params_create(out, _pn, pub, len(pub)), 1, "params")
            ctx.eq(out.get(_n.value), par, "parameters of the key")
        if sg:
            ctx.eq(L.dsa_params_export(out, _pn, par, len(par)), 1, "export")
            ctx.eq(out.get(_n.value), dumb([p, q, g]), "exported")


def dumb(parts):
    out = b""
    for v in parts:
        b = v.to_bytes((v.bit_length() + 7) // 8, "big")
        out += len(b).to_bytes(2, "big") + b
    return out


# -- agreement -------------------------------------------------------------

def agree(ctx, pb, qb):
    L = ctx.lib
    grp = ffc.group(pb, qb)
    k = (pb + 7) // 8
    ks = keys(grp)
    for a, b in product(ks, ks):
        ctx.case("agree", pb, qb, a.x, b.x)
        ctx.state("agree", pb, qb, a.x, b.x)
        res = []
        for s, t in ((a, b), (b, a)):
            o = Out(k)
            pub, prv = t.pub(), s.priv()
            r = L.dsa_derive(o, _pn, pub, len(pub), prv, len(prv))
            ctx.eq((r, _n.value), (1, k), "derivation")
            ctx.check(o.intact(), "output size")
            res.append(o.get())
        ctx.eq(res[0], pow(b.y, a.x, grp[0]).to_bytes(k, "big"), "secret")
        ctx.eq(res[1], res[0], "agreement")
    other = ffc.Key(ffc.group(pb, qb, 1), 5)
    pub, prv = other.pub(), ks[0].priv()
    ctx.case("other domain")
    ctx.eq(L.dsa_derive(Out(k), _pn, pub, len(pub), prv, len(prv)), 0,
           "peer of another domain")


# -- generation ------------------------------------------------------------

def generate(ctx, bits, seeds):
    L = ctx.lib
    for s in seeds:
        en = bytes((s * 41 + i * 3) & 255 for i in range(32))
        ctx.case("generate", bits, s)
        ctx.state("generate", bits, s)
        o = Out(2549)
        ctx.eq(L.dsa_params_generate(o, _pn, bits, en), 1, "generation")
        ctx.beat()
        par = o.get(_n.value)
        from checks.a03 import split
        p, q, g = split(par)
        ctx.eq(der_seq(der_int(p), der_int(q), der_int(g)), par, "encoding")
        ctx.eq(p.bit_length(), bits, "size")
        ctx.check(q.bit_length() in ((160,) if bits < 2048 else (224, 256)),
                  "subgroup size")
        ctx.check(is_prime(p) and is_prime(q), "primality")
        ctx.eq((p - 1) % q, 0, "subgroup order")
        ctx.check(ok_group(p, q, g), "generator")
        ctx.beat()
        ctx.eq(L.dsa_params_verify(par, len(par)), 1, "verification")
        for e2 in (ENT, ENT2):
            o = Out(3842)
            ctx.eq(L.dsa_privkey_create(o, _pn, par, len(par), e2), 1, "key")
            key = o.get(_n.value)
            v, p2, q2, g2, y, x = split(key)
            ctx.eq((v, p2, q2, g2), (0, p, q, g), "parameters")
            ctx.check(ok_priv(p, q, g, y, x), "generated key")
            ctx.eq(L.dsa_privkey_verify(key, len(key)), 1, "verification")
        o2 = Out(2549)
        L.dsa_params_generate(o2, _pn, bits, en)
        ctx.eq(o2.get(_n.value), par, "not deterministic")
        ctx.beat()
    ctx.case("full", bits)
    o = Out(3842)
    ctx.eq(L.dsa_privkey_generate(o, _pn, bits, ENT), 1, "generation")
    key = o.get(_n.value)
    v, p, q, g, y, x = split(key)
    ctx.check(p.bit_length() == bits and ok_priv(p, q, g, y, x)
              and is_prime(p) and is_prime(q), "generated key")


def refused(ctx):
    L = ctx.lib
    o = Out(3900)
    for bits in (0, 1, 160, 511, 512, 1023, 1025, 2047, 2049, 3071, 3073,
                 4096, 10000, 10001, 1 << 31, (1 << 32) - 1):
        ctx.case("size", bits)
        ctx.state(bits)
        ctx.eq(L.dsa_params_generate(o, _pn, bits, ENT), 0, "parameters")
        ctx.eq(L.dsa_privkey_generate(o, _pn, bits, ENT), 0, "key")
    ctx.check(o.intact(), "output size")


def create(ctx, pb, qb):
    """Private keys on given parameters."""
    L = ctx.lib
    from checks.a03 import split
    key = ffc.Key(ffc.group(pb, qb), 1)
    par = key.params()
    seen = set()
    for i in range(64):
        en = bytes((i * 29 + j * j + 5 * i * j) & 255 for j in range(32))
        ctx.case("create", pb, qb, i)
        ctx.state("create", pb, qb, i)
        o = Out(3842)
        ctx.eq(L.dsa_privkey_create(o, _pn, par, len(par), en), 1, "creation")
        v, p, q, g, y, x = split(o.get(_n.value))
        ctx.check((p, q, g) == (key.p, key.q, key.g)
                  and ok_priv(p, q, g, y, x), "created key")
        seen.add(x)
    ctx.check(len(seen) == 64, "keys repeat")


def tasks(tier):
    q = tier == "quick"
    t = []
    for pb, qb in GROUPS:
        nm = "%d-%d" % (pb, qb)
        lens = range(0, 71) if pb < 600 or not q else \
            sorted({0, 1, 19, 20, 21, 27, 28, 29, 31, 32, 33, 48, 64})
        t.append(Task("sign-" + nm, sign, (pb, qb, lens)))
        t.append(Task("crafted-" + nm, crafted, (pb, qb)))
        t.append(Task("pairs-" + nm, pairs, (pb, qb)))
        t.append(Task("agree-" + nm, agree, (pb, qb)))
        t.append(Task("create-" + nm, create, (pb, qb)))
        for ki in (0, 3, 6):
            t.append(Task("consistency-%s-%d" % (nm, ki), consistency,
                          (pb, qb, ki)))
    for v in ("i128", "p32", "l32"):
        t.append(Task("sign-" + v, sign, (512, 160, (20, 32)), v))
        t.append(Task("consistency-" + v, consistency, (576, 224, 6), v))
        t.append(Task("generate-" + v, generate, (1024, [9]), v))
    t.append(Task("refused", refused))
    for s in range(4 if q else 12):
        t.append(Task("generate-1024-%d" % s, generate, (1024, [s])))
    for s in range(1 if q else 4):
        t.append(Task("generate-2048-%d" % s, generate, (2048, [s])))
    if not q:
        t.append(Task("generate-3072", generate, (3072, [0])))
        t.append(Task("sign-2048", sign, (2048, 256, (20, 32, 33))))
        t.append(Task("crafted-2048", crafted, (2048, 256)))
    t.sort(key=lambda x: not x.name.startswith("generate-2048"))
    return t
