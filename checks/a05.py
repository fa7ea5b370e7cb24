"""A05: DER.

Inputs are canonical encodings and everything near them: every truncation and
extension, every value of every header byte, every non-minimal length or
integer form of every element, and all short strings over per-position
alphabets.  A permissive Python reader plus re-encoding decides what is
canonical."""

import ctypes as C
from itertools import product

from mc import ffc
from mc.core import Task
from mc.lib import Out
from mc.numth import der, der_int, der_len, der_seq, rsa_key
from checks.a03 import relations
from checks.a04 import dumb, ok_group, ok_priv, ok_pub

BOUNDS = ("RSA private/public, DSA parameter/public/private keys of 1024 bits "
          "and less, DSA and ECDSA (6 curves) signatures; all truncations, 4 "
          "extensions, every header byte x 255, ~20 variants of the length and "
          "integer form of each element, all pairs of 25..40 signature values "
          "at integer length boundaries, all strings of 8..10 bytes over "
          "positional alphabets (up to 1.5 million), moduli of 512..2300 bits; "
          "all 38 operations which take a key x the malformed encodings")
ASSUMPTIONS = ["X.690 DER for sequences of non-negative integers"]

_n = C.c_size_t()
_pn = C.byref(_n)
CURVES = {
    "P192": 0xffffffffffffffffffffffff99def836146bc9b1b4d22831,
    "P224": 0xffffffffffffffffffffffffffff16a2e0b8f03e13dd29455c5c2a3d,
    "P256": 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551,
    "P384": 0xffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973,
    "P521": 0x01fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409,
    "SECP256K1": 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141,
}


def tlv(b, i):
    """(tag, start, end) of the element at i, lengths in any form"""
    tag, ln = b[i], b[i + 1]
    i += 2
    if ln & 0x80:
        c = ln & 0x7f
        if c > 4 or i + c > len(b):
            raise IndexError
        ln = int.from_bytes(b[i:i + c], "big")
        i += c
    if i + ln > len(b):
        raise IndexError
    return tag, i, i + ln


def parse(b):
    """Integers of a canonical SEQUENCE OF non-negative INTEGER, or None."""
    try:
        tag, i, end = tlv(b, 0)
        if tag != 0x30 or end != len(b):
            return None
        out = []
        while i < end:
            tag, s, i = tlv(b, i)
            if tag != 2 or s == i or b[s] & 0x80:
                return None
            out.append(int.from_bytes(b[s:i], "big"))
    except IndexError:
        return None
    return out if der_seq(*map(der_int, out)) == b else None


def headers(b):
    """Positions of tag and length bytes, and of the first content byte."""
    pos = []
    _, s, end = tlv(b, 0)
    pos += range(0, s)
    i = s
    while i < end:
        _, cs, ce = tlv(b, i)
        pos += range(i, cs + 1)
        i = ce
    return pos


def lenforms(n):
    """Ways to write a length, the canonical one excluded."""
    b = n.to_bytes(max(1, (n.bit_length() + 7) // 8), "big")
    out = [b"\x80"]
    for k in range(1, 9):
        if k >= len(b):
            out.append(bytes([0x80 | k]) + n.to_bytes(k, "big"))
    # the length modulo 2^32 and 2^64
    for k in (5, 6, 8, 9, 10, 12):
        for top in (1, 0xff):
            w = (top << 8 * (k - 1)) | n
            out.append(bytes([0x80 | k]) + w.to_bytes(k, "big"))
    out.append(b"\xff" + b"\0" * 126 + bytes([n & 255]))
    for d in (-1, 1, 2, 128, 256):
        if n + d >= 0:
            out.append(der_len(n + d))
    return [x for x in out if x != der_len(n)]


def near(ints):
    """Encodings near the canonical one of these integers."""
    els = [der_int(v) for v in ints]
    good = der_seq(*els)
    out = []
    body = b"".join(els)
    for f in lenforms(len(body)):
        out.append(b"\x30" + f + body)
    for k, v in enumerate(ints):
        c = v.to_bytes(v.bit_length() // 8 + 1, "big")
        alts = [b"\2" + f + c for f in lenforms(len(c))]
        alts += [der(2, b"\0" + c), der(2, b"\0\0" + c), der(2, b"\xff" + c),
                 der(2, c[1:]), der(2, b""), der(2, bytes([c[0] | 0x80]) +
                                                c[1:]),
                 b"", els[k] * 2, der(2, c + b"\0"), der(2, c[:-1]),
                 der(3, c), der(4, c), der(0x22, c), der(0x82, c),
                 der(0x30, els[k]), els[k] + b"\5\0"]
        for a in alts:
            e2 = list(els)
            e2[k] = a
            out.append(der_seq(*e2))
            # and with the outer length left as it was
            out.append(b"\x30" + der_len(len(body)) + b"".join(e2))
    for tail in (b"\0", b"\0\0", b"\2\1\0", b"\x30\0", b"\5\0"):
        out.append(good + tail)
        out.append(der_seq(body + tail))
        out.append(der_seq(tail + body))
    for t in (0x10, 0x31, 0x70, 0xb0, 0x02):
        out.append(der(t, body))
    out.append(der_seq(good))
    for i in range(len(els)):
        for j in range(i):
            e2 = list(els)
            e2[i], e2[j] = e2[j], e2[i]
            out.append(der_seq(*e2))
    return [x for x in dict.fromkeys(out) if x != good]


def around(ints, allheaders=True):
    good = der_seq(*map(der_int, ints))
    yield "good", good
    for n in range(len(good)):
        yield "cut%d" % n, good[:n]
    for j, x in enumerate(near(ints)):
        yield "near%d" % j, x
    if allheaders:
        for p in headers(good):
            for v in range(256):
                if v != good[p]:
                    yield "byte%d=%d" % (p, v), \
                        good[:p] + bytes([v]) + good[p + 1:]


# -- keys ------------------------------------------------------------------

def rsa_priv(ctx, bits, e):
    L = ctx.lib
    key = rsa_key(bits, e)
    out = Out(3000)
    for what, b in around([0] + key.parts()):
        ctx.case("rsa priv", bits, what)
        ctx.state(bits, e, b)
        v = parse(b)
        ok = int(v is not None and len(v) == 9 and v[0] == 0
                 and relations(v[1:]))
        ctx.eq(L.rsa_privkey_verify(b, len(b)), ok, "private key")
        r = L.rsa_privkey_export(out, _pn, b, len(b))
        ctx.eq(r, ok, "export")
        if r and ok:
            raw = out.get(_n.value)
            ctx.eq(raw, dumb(v[1:]), "exported")
            L.rsa_privkey_import(out, _pn, raw, len(raw), None)
            ctx.eq(out.get(_n.value), b, "round trip")
        r = L.rsa_pubkey_create(out, _pn, b, len(b))
        ctx.eq(r, ok, "public key")


def ok_rsapub(v):
    return (v is not None and len(v) == 2 and 512 <= v[0].bit_length() <= 16384
            and v[0] & 1 and v[1] & 1 and 3 <= v[1] <= 0x1ffffffff)


def rsa_pub(ctx, bits, e):
    L = ctx.lib
    key = rsa_key(bits, e)
    out = Out(3000)
    for what, b in around([key.n, key.e]):
        ctx.case("rsa pub", bits, what)
        ctx.state(bits, e, b)
        v = parse(b)
        ok = int(bool(ok_rsapub(v)))
        ctx.eq(L.rsa_pubkey_verify(b, len(b)), ok, "public key")
        r = L.rsa_pubkey_export(out, _pn, b, len(b))
        ctx.eq(r, ok, "export")
        if r and ok:
            raw = out.get(_n.value)
            ctx.eq(raw, dumb(v), "exported")
            L.rsa_pubkey_import(out, _pn, raw, len(raw))
            ctx.eq(out.get(_n.value), b, "round trip")


def rsa_sizes(ctx, lo, hi):
    """Length fields of one, two and three bytes."""
    L = ctx.lib
    out = Out(3000)
    for bits in range(lo, hi):
        for e in (3, 127, 129, 255, 32767, 32769, 65535, 65537, (1 << 23) + 1,
                  (1 << 31) - 1, (1 << 31) + 1, (1 << 32) - 1, (1 << 33) - 1):
            n = (1 << (bits - 1)) + 1
            b = der_seq(der_int(n), der_int(e))
            ctx.case("size", bits, e)
            ctx.state(bits, e)
            ctx.eq(L.rsa_pubkey_bits(b, len(b)), bits, "public key")
            raw = dumb([n, e])
            r = L.rsa_pubkey_import(out, _pn, raw, len(raw))
            ctx.eq((r, out.get(_n.value)), (1, b), "import")
            ctx.eq(L.rsa_pubkey_verify(b + b"\0", len(b) + 1), 0, "trailing")
            ctx.eq(L.rsa_pubkey_verify(b, len(b) - 1), 0, "truncated")


def dsa_keys(ctx, kind, pb, qb, x):
    L = ctx.lib
    key = ffc.Key(ffc.group(pb, qb), x)
    out = Out(4000)
    p, q, g, y = key.p, key.q, key.g, key.y
    ints, fn, exp, imp, pred = {
        "params": ([p, q, g], L.dsa_params_verify, L.dsa_params_export,
                   L.dsa_params_import, lambda v: len(v) == 3 and
                   ok_group(*v)),
        "pub": ([y, p, q, g], L.dsa_pubkey_verify, L.dsa_pubkey_export,
                L.dsa_pubkey_import, lambda v: len(v) == 4 and
                ok_pub(*v[1:], v[0])),
        "priv": ([0, p, q, g, y, x], L.dsa_privkey_verify,
                 L.dsa_privkey_export, L.dsa_privkey_import,
                 lambda v: len(v) == 6 and v[0] == 0 and ok_priv(*v[1:])),
    }[kind]
    for what, b in around(ints):
        ctx.case("dsa " + kind, pb, qb, x, what)
        ctx.state(kind, pb, qb, x, b)
        v = parse(b)
        ok = int(bool(v is not None and pred(v)))
        ctx.eq(fn(b, len(b)), ok, "verification")
        r = exp(out, _pn, b, len(b))
        if v is None:
            ctx.eq(r, 0, "export of a malformed encoding")
        elif r:
            raw = out.get(_n.value)
            w = {"params": v, "pub": v[1:] + v[:1], "priv": v[1:]}[kind]
            ctx.eq(raw, dumb(w), "exported")
            ctx.eq(imp(out, _pn, raw, len(raw)), 1, "import")
            ctx.eq(out.get(_n.value), b, "round trip")
        if ok:
            ctx.eq(r, 1, "export refused")
    raw = dumb({"params": [p, q, g], "pub": [p, q, g, y],
                "priv": [p, q, g, y, x]}[kind])
    for cut in range(len(raw)):
        ctx.case("dsa raw " + kind, pb, qb, x, cut)
        ctx.state("raw", kind, pb, qb, x, cut)
        ctx.eq(imp(out, _pn, raw[:cut], cut), 0, "import of part of a key")


def operations(ctx, kind):
    """No operation takes a key whose encoding is not canonical."""
    L = ctx.lib
    out = Out(4000)
    ent, msg = bytes(range(32)), bytes(range(20))

    def call(name, *args):
        return lambda b: getattr(L, name)(*[
            v for a in args for v in ((b, len(b)) if a is KEY else
                                      (a, len(a)) if type(a) is bytes and
                                      a is not ent else (a,))])
    KEY = object()
    if kind[:3] == "rsa":
        key = rsa_key(512, 65537)
        priv, pub, sha = key.priv(), key.pub(), L.HASH_SHA1
    else:
        key = ffc.Key(ffc.group(512, 160), 5)
        p, q, g, y = key.p, key.q, key.g, key.y
        params, pub, priv = [der_seq(*map(der_int, v)) for v in (
            [p, q, g], [y, p, q, g], [0, p, q, g, y, key.x])]
    if kind == "rsa-priv":
        ints = [0] + key.parts()
        L.rsa_encrypt(out, _pn, msg, 20, pub, len(pub), ent)
        ct = out.get(_n.value)
        L.rsa_encrypt_oaep(out, _pn, sha, msg, 20, pub, len(pub), b"", 0, ent)
        oaep = out.get(_n.value)
        ops = [call("rsa_privkey_bits", KEY), call("rsa_privkey_verify", KEY),
               call("rsa_privkey_export", out, _pn, KEY),
               call("rsa_pubkey_create", out, _pn, KEY),
               call("rsa_sign", out, _pn, sha, msg, KEY, ent),
               call("rsa_sign_pss", out, _pn, sha, msg, KEY, 20, ent),
               call("rsa_decrypt", out, _pn, ct, KEY, ent),
               call("rsa_decrypt_key", out, 20, ct, KEY, ent),
               call("rsa_decrypt_oaep", out, _pn, sha, oaep, KEY, b"", ent)]
    elif kind == "rsa-pub":
        ints = [key.n, key.e]
        L.rsa_sign(out, _pn, sha, msg, 20, priv, len(priv), ent)
        sig = out.get(_n.value)
        L.rsa_sign_pss(out, _pn, sha, msg, 20, priv, len(priv), 20, ent)
        pss = out.get(_n.value)
        L.rsa_encrypt(out, _pn, msg, 20, pub, len(pub), ent)
        ct = out.get(_n.value)
        L.rsa_veil(out, _pn, ct, 64, 520, pub, len(pub), ent)
        veiled = out.get(_n.value)
        ops = [call("rsa_pubkey_bits", KEY), call("rsa_pubkey_verify", KEY),
               call("rsa_pubkey_export", out, _pn, KEY),
               call("rsa_verify", sha, msg, sig, KEY),
               call("rsa_verify_pss", sha, msg, pss, KEY, 20),
               call("rsa_encrypt", out, _pn, msg, KEY, ent),
               call("rsa_encrypt_oaep", out, _pn, sha, msg, KEY, b"", ent),
               call("rsa_veil", out, _pn, ct, 520, KEY, ent),
               call("rsa_unveil", out, _pn, veiled, 520, KEY)]
    elif kind == "dsa-params":
        ints = [p, q, g]
        ops = [call("dsa_params_bits", KEY), call("dsa_params_qbits", KEY),
               call("dsa_params_verify", KEY),
               call("dsa_params_export", out, _pn, KEY),
               call("dsa_privkey_create", out, _pn, KEY, ent)]
    elif kind == "dsa-pub":
        ints = [y, p, q, g]
        L.dsa_sign(out, _pn, msg, 20, priv, len(priv), ent)
        sig = out.get(_n.value)
        ops = [call("dsa_pubkey_bits", KEY), call("dsa_pubkey_qbits", KEY),
               call("dsa_pubkey_verify", KEY),
               call("dsa_pubkey_export", out, _pn, KEY),
               call("dsa_params_create", out, _pn, KEY),
               call("dsa_verify", msg, sig, KEY),
               call("dsa_derive", out, _pn, KEY, priv)]
    else:
        ints = [0, p, q, g, y, key.x]
        ops = [call("dsa_privkey_bits", KEY), call("dsa_privkey_qbits", KEY),
               call("dsa_privkey_verify", KEY),
               call("dsa_privkey_export", out, _pn, KEY),
               call("dsa_params_create", out, _pn, KEY),
               call("dsa_pubkey_create", out, _pn, KEY),
               call("dsa_sign", out, _pn, msg, KEY, ent),
               call("dsa_derive", out, _pn, pub, KEY)]
    for what, b in around(ints, False):
        if what != "good" and parse(b) is not None:
            continue
        for i, f in enumerate(ops):
            ctx.case("operation", kind, what, i)
            ctx.states(1)
            ctx.eq(f(b) != 0, what == "good", "operation with this key")


# -- signatures ------------------------------------------------------------

def edges(top, size):
    s = {0, 1, 2, 0x7f, 0x80, 0x81, 0xff, 0x100, 0x7fff, 0x8000, 0xffff,
         top - 1, top - 2, top, top + 1, top // 2}
    for k in range(1, size + 1):
        s |= {(1 << 8 * k - 1) - 1, 1 << 8 * k - 1, (1 << 8 * k) - 1}
    return sorted(v for v in s if 0 <= v < 1 << 8 * size)


def dsa_sigs(ctx, size):
    L = ctx.lib
    vals = edges((1 << 8 * size) - 1, size)
    for r, s in product(vals, vals):
        raw = r.to_bytes(size, "big") + s.to_bytes(size, "big")
        ctx.case("dsa sig", size, r, s)
        ctx.state(size, r, s)
        o = Out(73)
        want = der_seq(der_int(r), der_int(s))
        for q in (size, 0):
            ok = L.dsa_sig_export(o, _pn, raw, len(raw), q)
            ctx.eq((ok, o.get(_n.value)), (1, want), "export")
            ctx.check(o.intact(), "output size")
        o = Out(2 * size)
        ok = L.dsa_sig_import(o, _pn, want, len(want), size)
        ctx.eq((ok, _n.value, o.get()), (1, 2 * size, raw), "import")
        ctx.check(o.intact(), "output size")
        small = size - 1
        ok = L.dsa_sig_import(Out(2 * size), _pn, want, len(want), small)
        ctx.eq(ok, int(max(r, s) < 1 << 8 * small), "import to a smaller size")
    for n in range(0, 70):
        for q in (0, 1, 20, 28, 32, 33, 64):
            ctx.case("length", n, q)
            ok = n <= 64 and q <= 32 and (n == 2 * q if q else n % 2 == 0)
            ctx.eq(L.dsa_sig_export(Out(73), _pn, b"\1" * n, n, q), int(ok),
                   "export length")


def dsa_near(ctx, size):
    L = ctx.lib
    top = (1 << 8 * size) - 1
    for ints in ([top, top], [0, 0], [1, top >> 1], [0x80, 0x7f],
                 [top // 3, top // 5]):
        for what, b in around(ints):
            v = parse(b)
            ok = (v is not None and len(v) == 2 and max(v) <= top)
            ctx.case("dsa sig near", size, ints, what)
            ctx.state(size, b)
            o = Out(2 * size)
            r = L.dsa_sig_import(o, _pn, b, len(b), size)
            ctx.eq(r, int(ok), "import")
            if r and ok:
                ctx.eq(o.get(), v[0].to_bytes(size, "big") +
                       v[1].to_bytes(size, "big"), "imported")


def lax(b, size):
    """Permissive reading: (r, s) or None"""
    try:
        if b[0] != 0x30:
            return None
        i = 1
        if b[i] & 0x80:
            i += b[i] & 0x7f
        i += 1
        out = []
        for _ in range(2):
            tag, s, i = tlvlax(b, i)
            if tag != 2:
                return None
            out.append(int.from_bytes(b[s:i], "big"))
        return out
    except IndexError:
        return None


def tlvlax(b, i):
    tag, ln = b[i], b[i + 1]
    i += 2
    if ln & 0x80:
        c = ln & 0x7f
        if i + c > len(b):
            raise IndexError
        ln = int.from_bytes(b[i:i + c], "big")
        i += c
    if i + ln > len(b):
        raise IndexError
    return tag, i, i + ln


def ecdsa_one(ctx, ec, size, n, b, v):
    L = ctx.lib
    ok = v is not None and len(v) == 2 and max(v) < n
    o = Out(2 * size)
    r = L.ecdsa_sig_import(ec, o, b, len(b))
    ctx.eq(r, int(ok), "strict import")
    ctx.check(o.intact(), "output size")
    o2 = Out(2 * size)
    r2 = L.ecdsa_sig_import_lax(ec, o2, b, len(b))
    if ok:
        want = v[0].to_bytes(size, "big") + v[1].to_bytes(size, "big")
        ctx.eq(o.get(), want, "imported")
        ctx.eq((r2, o2.get()), (1, want), "lax import")
        d = Out(9 + 2 * size)
        ctx.eq(L.ecdsa_sig_export(ec, d, _pn, want), 1, "export")
        ctx.eq(d.get(_n.value), b, "round trip")
        ctx.check(d.intact(), "output size")
    elif r2:
        w = lax(b, size)
        ctx.check(w is not None and max(w) < n, "lax import of nonsense")
        if w is not None and max(w) < n:
            ctx.eq(o2.get(), w[0].to_bytes(size, "big") +
                   w[1].to_bytes(size, "big"), "lax value")
    return r2


def ecdsa_sigs(ctx, curve):
    L = ctx.lib
    n = CURVES[curve]
    size = (n.bit_length() + 7) // 8
    ec = L.wei_curve_create(getattr(L, "WEI_CURVE_" + curve))
    vals = edges(n, size)
    for r, s in product(vals, vals):
        b = der_seq(der_int(r), der_int(s))
        ctx.case("ecdsa sig", curve, r, s)
        ctx.state(curve, r, s)
        ecdsa_one(ctx, ec, size, n, b, [r, s])
        raw = r.to_bytes(size, "big") + s.to_bytes(size, "big")
        d = Out(9 + 2 * size)
        ok = L.ecdsa_sig_export(ec, d, _pn, raw)
        ctx.eq(ok, int(max(r, s) < n), "export")
    L.wei_curve_destroy(ec)


def ecdsa_near(ctx, curve):
    L = ctx.lib
    n = CURVES[curve]
    size = (n.bit_length() + 7) // 8
    ec = L.wei_curve_create(getattr(L, "WEI_CURVE_" + curve))
    tol = 0
    for ints in ([n - 1, n - 1], [0, 0], [1, n >> 1], [0x80, 0x7f],
                 [n // 3, n // 5], [n, 1], [1, n], [n >> 8, n - 2]):
        for what, b in around(ints):
            ctx.case("ecdsa near", curve, ints, what)
            ctx.state(curve, b)
            tol += ecdsa_one(ctx, ec, size, n, b, parse(b))
    # what the lax parser is for
    r, s = n // 3, n // 5
    c = [v.to_bytes(size + 1, "big") for v in (r, s)]
    want = c[0][1:] + c[1][1:]
    for ln in (0, 1, 0x7f):
        for pad in (0, 1, 5):
            for tail in (b"", b"\0", b"junk"):
                for form in (0, 1, 2):
                    def el(x):
                        x = b"\0" * pad + x
                        h = bytes([len(x)]) if len(x) < 128 else \
                            b"\x81" + bytes([len(x)])
                        if form:
                            h = bytes([0x80 | (form + 1)]) + \
                                len(x).to_bytes(form + 1, "big")
                        return b"\2" + h + x
                    b = b"\x30" + bytes([ln]) + el(c[0]) + el(c[1]) + tail
                    ctx.case("tolerated", curve, ln, pad, tail, form)
                    ctx.state("tolerated", curve, b)
                    o = Out(2 * size)
                    ctx.eq((L.ecdsa_sig_import_lax(ec, o, b, len(b)),
                            o.get()), (1, want), "lax form")
    L.wei_curve_destroy(ec)
    ctx.check(tol > 0, "nothing accepted")


def strings(ctx, length, alph, variant):
    """All strings of a length over positional alphabets."""
    L = ctx.lib
    n = CURVES["P256"]
    ec = L.wei_curve_create(L.WEI_CURVE_P256)
    o, o2 = Out(64), Out(64)
    f, g = L.ecdsa_sig_import, L.ecdsa_sig_import_lax
    h = L.dsa_sig_import
    states = 0
    good = set()
    for t in product(*alph):
        b = bytes(t)
        if b[0] == 0x30 and b[1] == length - 2 and b[2] == 2:
            if parse(b) is not None:
                good.add(b)
    for t in product(*alph):
        b = bytes(t)
        states += 1
        if states & 1023 == 0:
            ctx.case("string", b)
        r = f(ec, o, b, length)
        q = h(o2, _pn, b, length, 32)
        if (r == 1) != (b in good) or q != r:
            v = parse(b)
            ok = v is not None and len(v) == 2
            ctx.case("string", b)
            ctx.eq(r, int(ok), "strict import")
            ctx.eq(q, int(ok), "DSA import")
        if r:
            v = parse(b)
            if v is not None and len(v) == 2:
                want = v[0].to_bytes(32, "big") + v[1].to_bytes(32, "big")
                ctx.case("string", b)
                ctx.eq(o.get(), want, "imported")
                ctx.eq(o2.get(), want, "imported (DSA)")
                ctx.eq((g(ec, o, b, length), o.get()), (1, want), "lax")
    ctx.check(o.intact() and o2.intact(), "output size")
    ctx.states(states)
    ctx.step(2 * states)
    L.wei_curve_destroy(ec)


def tasks(tier):
    q = tier == "quick"
    t = []
    for b, e in ((512, 65537), (513, 3), (520, 65537), (1024, 3)):
        t.append(Task("rsa-priv-%d" % b, rsa_priv, (b, e)))
        t.append(Task("rsa-pub-%d" % b, rsa_pub, (b, e)))
    for lo in range(512, 2300, 224):
        t.append(Task("rsa-sizes-%d" % lo, rsa_sizes, (lo, lo + 224)))
    for pb, qb in ((512, 160), (640, 224), (768, 256)):
        for k in ("params", "pub", "priv"):
            t.append(Task("dsa-%s-%d" % (k, pb), dsa_keys, (k, pb, qb, 5)))
    for k in ("rsa-priv", "rsa-pub", "dsa-params", "dsa-pub", "dsa-priv"):
        t.append(Task("operations-" + k, operations, (k,)))
    for s in (20, 28, 32):
        t.append(Task("dsa-sigs-%d" % s, dsa_sigs, (s,)))
        t.append(Task("dsa-near-%d" % s, dsa_near, (s,)))
    for c in CURVES:
        t.append(Task("ecdsa-sigs-" + c, ecdsa_sigs, (c,)))
        t.append(Task("ecdsa-near-" + c, ecdsa_near, (c,)))
    T = (0x30,)
    tag = (2, 3, 0x30)
    ln = (0, 1, 2, 3, 0x80, 0x81)
    v = (0, 1, 0x7f, 0x80, 0xff)
    t.append(Task("strings-8", strings,
                  (8, (T + (0x31,), (5, 6, 7, 0x81), tag, ln, v + (2,),
                       tag + (1,), ln, v + (2,)), "n64")))
    for l1 in ln:
        t.append(Task("strings-9-%d" % l1, strings,
                      (9, (T, (6, 7, 8, 0x81), tag, (l1,), v + (2,),
                           v + (2,), tag + ln[:3], v + (2,), v), "n64")))
        t.append(Task("strings-10-%d" % l1, strings,
                      (10, (T, (7, 8, 0x81), (2, 3), (l1,), v[:4], v[:4] +
                            (2,), v[:4] + (2,), (1, 2, 3, 0x80), v + (2,),
                            v), "n64")))
        if not q:
            t.append(Task("strings-11-%d" % l1, strings,
                          (11, (T, (8, 9, 0x81), (2, 3), (l1,), v[:4],
                                v[:4] + (2,), v[:4] + (2,), (1, 2, 3, 0x80),
                                v + (2,), v, v), "n64")))
    for vv in ("i128", "p32", "l32"):
        t.append(Task("ecdsa-near-" + vv, ecdsa_near, ("P521",), vv))
        t.append(Task("ecdsa-sigs-" + vv, ecdsa_sigs, ("P384",), vv))
    return t
