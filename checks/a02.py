"""A02: RSA encryption.

Ciphertexts are made from blocks built by the standard's definition, well
formed and with every single-byte and structural deviation, using the public
exponent; the library's answer must be that of the definition.  Ciphertexts
made by the library are opened with the private exponent."""

import ctypes as C

from mc import pkcs1
from mc.core import Task
from mc.lib import Out
from mc.numth import rsa_key
from mc.oracle import HASHES
from checks.a01 import alphabet, hid, values

BOUNDS = ("moduli of 512..521, 1024, 1025 bits; message lengths 0..max+2; all "
          "hash types with backend; labels of 0, 1, 20, 200 bytes; 16 entropy "
          "strings per length; every byte of the block, masked and unmasked, x "
          "13 values (x 255 for two keys); separators at every position; "
          "key-unwrapping lengths 0..max+1; veil sizes 0..mod+40 bits; keys "
          "of 1024, 1537 and 2048 bits (thorough: 3072, 4096): every byte x "
          "2 values")
ASSUMPTIONS = ["EME-PKCS1-v1_5 and EME-OAEP transcribed from RFC 8017"]

ENT = bytes(range(32))
_n = C.c_size_t()
_pn = C.byref(_n)


def ents(n):
    return [bytes((i * 89 + j * 7 + i * j) & 255 for j in range(32))
            for i in range(n)]


def message(n):
    return bytes((i * 13 + n) & 255 for i in range(n))


def rawcts(key, c):
    k, n = key.k, key.n
    v = int.from_bytes(c, "big")
    out = [c[:-1], c + b"\0", b"\0" + c, c[1:], b""]
    for w in (v + n, n, n + 1, (1 << 8 * k) - 1):
        if w < 1 << 8 * k:
            out.append(w.to_bytes(k, "big"))
    return out


def dec(L, priv, c, out):
    _n.value = 9999
    r = L.rsa_decrypt(out, _pn, c, len(c), priv, len(priv), ENT)
    return out.get(_n.value) if r == 1 and _n.value <= out.n else \
        (None if r == 0 else r)


def dec_oaep(L, priv, name, c, label, out):
    _n.value = 9999
    r = L.rsa_decrypt_oaep(out, _pn, hid(L, name), c, len(c), priv, len(priv),
                           label, len(label), ENT)
    return out.get(_n.value) if r == 1 and _n.value <= out.n else \
        (None if r == 0 else r)


# -- PKCS#1 v1.5 -----------------------------------------------------------

def pkcs_lengths(ctx, bits, e):
    L = ctx.lib
    key = rsa_key(bits, e)
    priv, pub = key.priv(), key.pub()
    out, o2 = Out(key.k), Out(key.k)
    for n in list(range(key.k + 3)) + [1 << 16]:
        msg = message(n)
        for i, en in enumerate(ents(16 if n in (0, 1, key.k - 11) else 3)):
            ctx.case("encrypt", bits, e, n, i)
            out.reset()
            _n.value = 3
            r = L.rsa_encrypt(out, _pn, msg, n, pub, len(pub), en)
            ctx.check(out.intact(), "output size")
            ctx.state("e", bits, e, n, i)
            ctx.eq(r, int(n <= key.k - 11), "encryption")
            if r != 1 or n > key.k - 11:
                break
            ctx.eq(_n.value, key.k, "ciphertext length")
            c = out.get()
            ctx.check(int.from_bytes(c, "big") < key.n, "above the modulus")
            em = key.sig(c)
            ctx.eq(pkcs1.type2_decode(em), msg, "block")
            ctx.check(0 not in em[2:key.k - n - 1], "zero byte in padding")
            ctx.eq(dec(L, priv, c, o2), msg, "decryption")
            ctx.check(o2.intact(), "output size")
            buf = Out(key.k).set(c)
            _n.value = 0
            r = L.rsa_decrypt(buf, _pn, buf, key.k, priv, len(priv), en)
            ctx.eq((r, buf.get(n)), (1, msg), "decryption in place")
            if i == 0:
                for j, bad in enumerate(rawcts(key, c)):
                    ctx.case("raw", bits, n, j)
                    ctx.eq(dec(L, priv, bad, o2), None, "raw ciphertext")
                    ctx.state("r", bits, e, n, j)


def pkcs_dev(ctx, bits, e, lens, full):
    L = ctx.lib
    key = rsa_key(bits, e)
    priv, k = key.priv(), key.k
    out = Out(k)

    def judge(em, *desc):
        if int.from_bytes(em, "big") >= key.n:
            return
        ctx.case(bits, e, desc, em)
        c = key.enc(em)
        want = pkcs1.type2_decode(em)
        ctx.eq(dec(L, priv, c, out), want, "decryption")
        ctx.check(out.intact(), "output size")
        ctx.state(bits, e, em)

    for n in lens:
        em = b"\0\2" + bytes((i * 5 + 3) % 255 + 1 for i in range(k - n - 3)) \
            + b"\0" + message(n)
        judge(em, "good", n)
        for j in range(k):
            for v in values(em[j], full):
                judge(em[:j] + bytes([v]) + em[j + 1:], "byte", n, j, v)
    nz = b"\0\2" + b"\x55" * (k - 2)
    judge(nz, "no separator")
    for j in range(2, k):
        judge(nz[:j] + b"\0" + nz[j + 1:], "separator at", j)
        judge(nz[:j] + b"\0" * (k - j), "zeros from", j)
        for i in (2, 9, 10, k - 1):
            z = bytearray(nz)
            z[i] = z[j] = 0
            judge(bytes(z), "two separators", i, j)
    for first in (b"\0\0", b"\0\1", b"\0\3", b"\1\2", b"\0\x82", b"\2\0",
                  b"\0\xfd"):
        judge(first + em[2:], "type")
    for v in (0, 1, 2, key.n - 1):
        judge(v.to_bytes(k, "big"), "value")


def unwrap(ctx, bits, e, lens, devlens):
    L = ctx.lib
    key = rsa_key(bits, e)
    priv, k = key.priv(), key.k
    e1, e2 = ents(2)

    def run(n, c, en, fill):
        o = Out(n, fill)
        r = L.rsa_decrypt_key(o, n, c, len(c), priv, len(priv), en)
        ctx.check(o.intact(), "output size")
        return r, o.get()

    def judge(n, em, *desc):
        if int.from_bytes(em, "big") >= key.n:
            return
        ctx.case(bits, n, desc, em)
        ctx.state(bits, n, em)
        c = key.enc(em)
        m = pkcs1.type2_decode(em)
        r, got = run(n, c, e1, 0xA5)
        ctx.eq(r, 1, "failure revealed" if m is None or len(m) != n
               else "well-formed block refused")
        if m is not None and len(m) == n:
            ctx.eq(got, m, "unwrapped key")
        elif n >= 4:
            ctx.check(got != em[k - n:], "block content returned")
            ctx.check(run(n, c, e1, 0x3C)[1] == got, "key not fully written")
            if n >= 8:
                ctx.check(run(n, c, e2, 0xA5)[1] != got,
                          "replacement key does not depend on entropy")
                ctx.check(len(set(got)) > 1, "constant replacement key")

    for n in lens:
        good = b"\0\2" + bytes((i * 5 + 3) % 255 + 1
                               for i in range(k - n - 3)) + b"\0" + message(n)
        if n > k - 11:
            ctx.case("too long", bits, n)
            r, _ = run(n, key.enc(good[:k]) if len(good) == k else b"\1" * k,
                       e1, 0xA5)
            ctx.eq(r, 0, "key longer than the modulus allows")
            continue
        judge(n, good, "good")
        for m in {0, n - 1, n + 1, 2 * n, k - 11} - {n}:
            if 0 <= m <= k - 11:
                judge(n, b"\0\2" + b"\x77" * (k - m - 3) + b"\0" + message(m),
                      "other length", m)
        for j, bad in enumerate(rawcts(key, key.enc(good))):
            ctx.case("raw", bits, n, j)
            ctx.eq(run(n, bad, e1, 0xA5)[0], 0, "raw ciphertext")
        if n in devlens:
            for j in range(k):
                for v in alphabet(good[j]):
                    judge(n, good[:j] + bytes([v]) + good[j + 1:], "byte", j,
                          v)
            nz = b"\0\2" + b"\x55" * (k - 2)
            judge(n, nz, "no separator")
            for j in range(2, k):
                judge(n, nz[:j] + b"\0" + nz[j + 1:], "separator at", j)


# -- OAEP ------------------------------------------------------------------

LABELS = [b"", b"x", b"a label of 20 bytes.", b"l" * 200]


def oaep_lengths(ctx, bits, e, names):
    L = ctx.lib
    key = rsa_key(bits, e)
    priv, pub, k = key.priv(), key.pub(), key.k
    out, o2 = Out(k), Out(k)
    for name in names:
        hl = HASHES[name][0]
        room = k - 2 * hl - 2
        for n in (range(room + 3) if room >= 0 else (0, 1)):
            msg = message(n)
            for li, label in enumerate(LABELS):
                if li and n not in (0, 1, room):
                    continue
                ctx.case("encrypt", bits, name, n, li)
                out.reset()
                r = L.rsa_encrypt_oaep(out, _pn, hid(L, name), msg, n, pub,
                                       len(pub), label, len(label), ENT)
                ctx.check(out.intact(), "output size")
                ctx.state("e", bits, name, n, li)
                ctx.eq(r, int(n <= room), "encryption")
                if r != 1 or n > room:
                    o2.reset()
                    if n == 0:
                        ctx.eq(dec_oaep(L, priv, name, b"\0" * k, label, o2),
                               None, "decryption with a hash too long")
                    continue
                ctx.eq(_n.value, k, "ciphertext length")
                c = out.get()
                ctx.check(int.from_bytes(c, "big") < key.n, "above modulus")
                em = key.sig(c)
                ctx.eq(pkcs1.oaep_decode(name, em, label), msg, "block")
                # one of our own making too
                c2 = key.enc(pkcs1.oaep_encode(name, k, msg, label,
                                               bytes(range(hl))))
                for cc in (c, c2):
                    ctx.eq(dec_oaep(L, priv, name, cc, label, o2), msg,
                           "decryption")
                    ctx.check(o2.intact(), "output size")
                ctx.eq(dec_oaep(L, priv, name, c, label + b"\0", o2), None,
                       "another label")
                if n in (0, room):
                    for j, bad in enumerate(rawcts(key, c)):
                        ctx.case("raw", bits, name, n, li, j)
                        ctx.eq(dec_oaep(L, priv, name, bad, label, o2), None,
                               "raw ciphertext")
                        ctx.state("r", bits, name, n, li, j)
    for t in (L.HASH_NONE, -1, 33, 255):
        ctx.case("type", t)
        ctx.eq(L.rsa_encrypt_oaep(out, _pn, t, b"x", 1, pub, len(pub), b"", 0,
                                  ENT), 0, "unknown hash type")
        ctx.eq(L.rsa_decrypt_oaep(out, _pn, t, b"\0" * k, k, priv, len(priv),
                                  b"", 0, ENT), 0, "unknown hash type")


def oaep_dev(ctx, bits, e, name, lens, full):
    L = ctx.lib
    key = rsa_key(bits, e)
    priv, k = key.priv(), key.k
    hl = HASHES[name][0]
    room = k - 2 * hl - 2
    out = Out(k)
    label = b"lab"
    lh = HASHES[name][2](label)
    seed = bytes(range(50, 50 + hl))

    def judge(em, *desc):
        if int.from_bytes(em, "big") >= key.n:
            return
        ctx.case(bits, name, desc, em)
        want = pkcs1.oaep_decode(name, em, label)
        ctx.eq(dec_oaep(L, priv, name, key.enc(em), label, out), want,
               "decryption")
        ctx.state(bits, name, em)

    for n in lens:
        if n > room:
            continue
        db = lh + b"\0" * (room - n) + b"\1" + message(n)
        em = pkcs1.oaep_mask(name, b"\0", seed, db)
        judge(em, "good", n)
        for j in range(k):
            for v in values(em[j], full):
                judge(em[:j] + bytes([v]) + em[j + 1:], "byte", n, j, v)
        for j in range(len(db)):
            for v in values(db[j], full):
                d2 = db[:j] + bytes([v]) + db[j + 1:]
                judge(pkcs1.oaep_mask(name, b"\0", seed, d2), "db", n, j, v)
        judge(pkcs1.oaep_mask(name, b"\0", seed, lh + b"\0" * (room + 1)),
              "no separator")
        judge(pkcs1.oaep_mask(name, b"\0", seed, lh + b"\1" * (room + 1)),
              "all separators")
        judge(pkcs1.oaep_mask(name, b"\0", seed, lh + b"\2" * room + b"\1"),
              "junk then separator")
        for s2 in range(hl):      # any seed is fine
            sd = seed[:s2] + b"\xee" + seed[s2 + 1:]
            judge(pkcs1.oaep_mask(name, b"\0", sd, db), "seed", s2)
        for first in (1, 2, 0x80, 0xff):
            judge(bytes([first]) + em[1:], "first", first)


# -- veil ------------------------------------------------------------------

def veil(ctx, bits, e):
    L = ctx.lib
    key = rsa_key(bits, e)
    pub, k = key.pub(), key.k
    MAX = 16384 + 8
    vals = [0, 1, 2, key.n - 1, key.n - 2, key.n // 2, 1 << 511,
            int.from_bytes(message(k), "big") % key.n]
    for vb in list(range(0, 3)) + list(range(key.bits - 3, key.bits + 41)) + \
            [MAX - 1, MAX, MAX + 1, 1 << 31, (1 << 32) - 1]:
        for i, v in enumerate(vals):
            c = v.to_bytes(k, "big")
            for j, en in enumerate(ents(4)):
                ctx.case("veil", bits, vb, i, j)
                ctx.state(bits, vb, i, j)
                ok = key.bits <= vb <= MAX
                ln = (vb + 7) // 8
                out = Out(ln if ok else 4000)
                r = L.rsa_veil(out, _pn, c, k, vb, pub, len(pub), en)
                ctx.eq(r, int(ok), "veiling")
                ctx.check(out.intact(), "output size")
                if r != 1 or not ok:
                    break
                ctx.eq(_n.value, ln, "length")
                w = int.from_bytes(out.get(), "big")
                ctx.check(w.bit_length() <= vb, "too many bits")
                ctx.eq(w % key.n, v, "value")
                o2 = Out(k)
                x = out.get()
                for ub in {0, vb, w.bit_length(), w.bit_length() - 1, vb + 1,
                           MAX, MAX + 1}:
                    r = L.rsa_unveil(o2, _pn, x, ln, ub, pub, len(pub))
                    want = ub <= MAX and (ub == 0 or w.bit_length() <= ub)
                    ctx.eq(r, int(want), "unveiling with %d bits" % ub)
                    if r:
                        ctx.eq((_n.value, o2.get()), (k, c), "unveiled")
                    ctx.check(o2.intact(), "output size")
    for i, c in enumerate([b"\0" * (k - 1), b"\0" * (k + 1), b"",
                           key.n.to_bytes(k, "big"),
                           b"\xff" * k]):
        ctx.case("bad", bits, i)
        out = Out(4000)
        if int.from_bytes(c, "big") >= key.n or len(c) != k:
            ctx.eq(L.rsa_veil(out, _pn, c, len(c), key.bits + 8, pub,
                              len(pub), ENT), 0, "bad ciphertext veiled")
        r = L.rsa_unveil(out, _pn, c, len(c), 0, pub, len(pub))
        ctx.eq(r, int(len(c) >= k), "unveiling")
        if r:
            ctx.eq(out.get(k), (int.from_bytes(c, "big") % key.n).to_bytes(
                k, "big"), "unveiled")
    for ln in (2048, 2049, 2050, 2051, 5000):
        ctx.case("long", bits, ln)
        out = Out(k)
        r = L.rsa_unveil(out, _pn, message(ln), ln, 0, pub, len(pub))
        ctx.eq(r, int(ln <= 2049), "length limit")
        ctx.check(out.intact(), "output size")
        if r:
            ctx.eq(out.get(), (int.from_bytes(message(ln), "big") % key.n
                               ).to_bytes(k, "big"), "unveiled")


def tasks(tier):
    t = []
    q = tier == "quick"
    names = sorted(HASHES)
    S = list(range(512, 522))
    for b in S + [1024, 1025]:
        t.append(Task("pkcs-len-%d" % b, pkcs_lengths, (b, 65537)))
        t.append(Task("veil-%d" % b, veil, (b, 65537)))
        few = ["MD5", "SHA1", "SHA256", "SHAKE128"]
        t.append(Task("oaep-len-%d" % b, oaep_lengths,
                      (b, 65537, few if q and b > 513 else names)))
    for b in S[:9]:
        t.append(Task("pkcs-dev-%d" % b, pkcs_dev,
                      (b, 65537, [0, 1, 16, 53], False)))
        t.append(Task("oaep-dev-%d" % b, oaep_dev,
                      (b, 65537, "SHA1" if b & 1 else "MD5",
                       [0, 1, 21, 22, 30], False)))
    t.append(Task("oaep-dev-256", oaep_dev, (776, 65537, "SHA256", [0, 4, 31],
                                             False)))
    t.append(Task("pkcs-full", pkcs_dev, (515, 3, [16], True)))
    t.append(Task("oaep-full", oaep_dev, (514, 3, "SHA1", [4], True)))
    for b in (1024, 1537, 2048) if q else (1024, 1537, 2048, 3072, 4096):
        t.append(Task("pkcs-big-%d" % b, pkcs_dev, (b, 65537, [32], None)))
        for nm in ("SHA1", "SHA256") if q else ("SHA1", "SHA256", "SHA512"):
            t.append(Task("oaep-big-%d-%s" % (b, nm), oaep_dev,
                          (b, 65537, nm, [32], None)))
    for b in (512, 513, 519, 520):
        k = (b + 7) // 8
        t.append(Task("unwrap-%d" % b, unwrap,
                      (b, 65537, list(range(0, k + 2)) + [16384], (16, 32))))
    for v in ("i128", "p32", "l32"):
        t.append(Task("pkcs-len-%s" % v, pkcs_lengths, (518, 3), v))
        t.append(Task("oaep-len-%s" % v, oaep_lengths, (518, 3, names), v))
        t.append(Task("veil-%s" % v, veil, (518, 3), v))
    if not q:
        for b in (1535, 2048, 2049):
            t.append(Task("pkcs-len-%d" % b, pkcs_lengths, (b, 65537)))
            t.append(Task("oaep-len-%d" % b, oaep_lengths, (b, 65537, names)))
        for b in S[:9]:
            t.append(Task("pkcs-full-%d" % b, pkcs_dev, (b, 65537, [16, 0],
                                                         True)))
            t.append(Task("oaep-full-%d" % b, oaep_dev, (b, 65537, "MD5",
                                                         [4, 30], True)))
    return t
