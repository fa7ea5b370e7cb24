"""A01: RSA signatures.

Encoded messages are built from the standard's definition, well-formed and
with every single-byte and structural deviation, turned into signatures with
the private exponent of fixed keys, and handed to the verifier; the verdict
must be that of the definition.  Signatures made by the library are opened
with the public exponent and judged by the same definition."""

import ctypes as C

from mc import pkcs1
from mc.core import Task
from mc.lib import Out
from mc.numth import rsa_key
from mc.oracle import HASHES

BOUNDS = ("moduli of 512..521, 1023..1025 bits (and 1536, 2048 in the thorough "
          "tier), e in {3, 65537, 2^33-9}; all 32 hash types and none; "
          "digest lengths 0..72; every byte of the encoded message x 13 "
          "values (x 255 for two keys); PSS salt lengths 0..max+2 and huge; "
          "structural variants of the padding; s, s+n, n-1, n, 0, 1; keys of "
          "1024, 1537 and 2048 bits (thorough: 3072, 4096): every byte x 2 "
          "values")
ASSUMPTIONS = ["EMSA-PKCS1-v1_5 and EMSA-PSS transcribed from RFC 8017",
               "the object identifier for GOST94 is the library's own"]

ENT = bytes(range(32))
ENT2 = bytes(range(100, 132))
E33 = (1 << 33) - 9
_n = C.c_size_t()
_pn = C.byref(_n)
ALL = (1 << 64) - 1


def hid(L, name):
    return getattr(L, "HASH_" + name) if name else L.HASH_NONE


def digest(name, seed=b"m"):
    return HASHES[name][2](seed)


def sign(L, key, name, msg, out, ent=ENT, priv=None):
    priv = priv or key.priv()
    return L.rsa_sign(out, _pn, hid(L, name), msg, len(msg), priv, len(priv),
                      ent)


def verify(L, pub, name, msg, sig):
    return L.rsa_verify(hid(L, name), msg, len(msg), sig, len(sig), pub,
                        len(pub))


def verify_pss(L, pub, name, msg, sig, slen):
    return L.rsa_verify_pss(hid(L, name), msg, len(msg), sig, len(sig), pub,
                            len(pub), slen)


def alphabet(b):
    s = {b ^ (1 << i) for i in range(8)} | {0, 1, 2, 0xfe, 0xff, b - 1 & 255}
    s.discard(b)
    return sorted(s)


def values(b, full):
    """Replacements for a byte: all, a spread, or (None) two of them."""
    if full is None:
        return [b ^ 1, b ^ 0x80]
    return sorted(set(range(256)) - {b}) if full else alphabet(b)


def rawsigs(key, good):
    """Signature strings around the valid one, all to be refused."""
    k, n = key.k, key.n
    s = int.from_bytes(good, "big")
    out = [good[:-1], good + b"\0", b"\0" + good, good[1:], b""]
    for v in (s + n, n - s, n, n - 1, n + 1, 0, 1, s ^ 1, 2 * n - s,
              (1 << 8 * k) - 1):
        if 0 <= v < 1 << 8 * k and v != s:
            out.append(v.to_bytes(k, "big"))
    for j in range(k):
        out.append(good[:j] + bytes([good[j] ^ 0x80]) + good[j + 1:])
    return out


# -- PKCS#1 v1.5 -----------------------------------------------------------

def pkcs_sign(ctx, bits, e):
    L = ctx.lib
    key = rsa_key(bits, e)
    priv, pub = key.priv(), key.pub()
    out = Out(key.k)
    types = [None] + sorted(HASHES)
    for name in types:
        if name:
            h = digest(name)
            msgs = [h, h[:-1], h + b"\0", b"", b"\xff" * len(h),
                    b"\0" * len(h)]
        else:
            msgs = [bytes((i * 7 + 1) & 255 for i in range(j))
                    for j in range(key.k)]
        for i, msg in enumerate(msgs):
            ctx.case("sign", bits, e, name, len(msg), i)
            ok = name is None or len(msg) == HASHES[name][0]
            em = ok and pkcs1.type1(pkcs1.digest_info(name, msg), key.k)
            out.reset()
            _n.value = 7
            r = sign(L, key, name, msg, out, priv=priv)
            ctx.eq(r, 1 if em else 0, "signing")
            if r == 1 and em:
                want = key.sig(em)
                ctx.eq(_n.value, key.k, "signature length")
                ctx.eq(out.get(), want, "signature")
                ctx.eq(verify(L, pub, name, msg, want), 1, "own signature")
                if i == 0:
                    out.reset()
                    sign(L, key, name, msg, out, ENT2, priv)
                    ctx.eq(out.get(), want, "depends on entropy")
            else:
                ctx.eq(verify(L, pub, name, msg, b"\0" * key.k), 0,
                       "verification without a possible encoding")
            ctx.check(out.intact(), "output size")
            ctx.state("sign", bits, e, name, len(msg), i)
    for t in (-1, 33, 34, 255):
        ctx.case("type", t)
        ctx.eq(L.rsa_sign(out, _pn, t, b"x" * 20, 20, priv, len(priv), ENT),
               0, "unknown hash type")
        ctx.eq(L.rsa_verify(t, b"x" * 20, 20, out.get(), key.k, pub,
                            len(pub)), 0, "unknown hash type")


def pkcs_raw(ctx, bits, e):
    L = ctx.lib
    key = rsa_key(bits, e)
    pub = key.pub()
    for name in ("SHA256", None, "MD5SHA1"):
        msg = digest(name) if name else b"abc"
        good = key.sig(pkcs1.type1(pkcs1.digest_info(name, msg), key.k))
        ctx.case("good", bits, name)
        ctx.eq(verify(L, pub, name, msg, good), 1, "valid signature")
        for j, s in enumerate(rawsigs(key, good)):
            ctx.case("raw", bits, name, j, s)
            ctx.eq(verify(L, pub, name, msg, s), 0, "changed signature")
            ctx.state("raw", bits, name, j)
        for j in range(len(msg)):
            for x in (1, 0x80):
                m2 = msg[:j] + bytes([msg[j] ^ x]) + msg[j + 1:]
                ctx.case("other digest", bits, name, j, x)
                ctx.eq(verify(L, pub, name, m2, good), 0, "another digest")
                ctx.state("dg", bits, name, j, x)
        for other in [None] + sorted(HASHES):
            if other == name:
                continue
            ctx.case("other type", bits, name, other)
            w = pkcs1.digest_info(other, msg) == pkcs1.digest_info(name, msg)
            if other and HASHES[other][0] != len(msg):
                w = False
            ctx.eq(verify(L, pub, other, msg, good), int(w),
                   "another hash type")
            ctx.state("ty", bits, name, other)


def pkcs_dev(ctx, bits, e, name, full):
    """Every byte of the encoded message."""
    L = ctx.lib
    key = rsa_key(bits, e)
    pub = key.pub()
    msg = digest(name) if name else b"hello"
    em = pkcs1.type1(pkcs1.digest_info(name, msg), key.k)
    ctx.case("good", bits, name)
    ctx.eq(verify(L, pub, name, msg, key.sig(em)), 1, "valid signature")
    for j in range(key.k):
        for v in values(em[j], full):
            bad = em[:j] + bytes([v]) + em[j + 1:]
            if int.from_bytes(bad, "big") >= key.n:
                continue
            ctx.case("byte", bits, e, name, j, v)
            ctx.eq(verify(L, pub, name, msg, key.sig(bad)), 0,
                   "deviating byte accepted")
            ctx.state("b", bits, e, name, j, v)


def pkcs_struct(ctx, bits, e):
    """Variants of the block structure."""
    L = ctx.lib
    key = rsa_key(bits, e)
    pub, k = key.pub(), key.k
    for name in (None, "MD5", "SHA1", "SHA256", "MD5SHA1", "SHAKE128"):
        msg = digest(name) if name else b"hello"
        t = pkcs1.digest_info(name, msg)
        good = pkcs1.type1(t, k)
        cands = []
        for cut in range(0, k - len(t) - 2):      # short PS, garbage after
            for junk in (b"\0", b"\xff", b"\x5a"):
                head = b"\0\1" + b"\xff" * cut + b"\0" + t
                cands.append(head + junk * (k - len(head)))
        for j in range(2, k - len(t) - 1):        # separator moved or doubled
            cands.append(good[:j] + b"\0" + good[j + 1:])
            cands.append(good[:j] + b"\0" + good[j:k - 1])
        for first in (b"\0\0", b"\0\2", b"\1\1", b"\0\xff", b"\1\0"):
            cands.append(first + good[2:])
        if name in pkcs1.OIDS:
            from mc.numth import der, der_oid, der_seq
            o = der_oid(*pkcs1.OIDS[name])
            h = der(4, msg)
            for v in (der_seq(der_seq(o), h),              # NULL missing
                      der_seq(der_seq(o, der(5, b""), der(5, b"")), h),
                      der_seq(der_seq(o, der(4, b"\0\0")), h),
                      der_seq(der_seq(o, b"\x05\x81\x00"), h),
                      der_seq(der_seq(o, der(5, b"")), h, b"\0"),
                      der_seq(der_seq(o, der(5, b"")),
                              b"\x04\x81" + bytes([len(msg)]) + msg),
                      msg, h, der_seq(h)):
                cands.append(pkcs1.type1(v, k))
        for other in sorted(HASHES):
            cands.append(pkcs1.type1(pkcs1.digest_info(other, msg), k))
        for i, em in enumerate(cands):
            if em is None or int.from_bytes(em, "big") >= key.n:
                continue
            ctx.case("struct", bits, name, i, em)
            ctx.eq(verify(L, pub, name, msg, key.sig(em)), int(em == good),
                   "structure")
            ctx.state("s", bits, name, em)


# -- PSS -------------------------------------------------------------------

def slen_of(slen, hl, embits):
    if slen == 0:
        return (embits + 7) // 8 - 2 - hl
    if slen == ALL:
        return hl
    return slen


def pss_sign(ctx, bits, e, names):
    L = ctx.lib
    key = rsa_key(bits, e)
    priv, pub = key.priv(), key.pub()
    embits = key.bits - 1
    eml = (embits + 7) // 8
    out = Out(key.k)
    for name in names:
        hl = HASHES[name][0]
        msg = digest(name)
        room = eml - hl - 2
        good = None
        slens = [0, ALL, ALL - 1, 1 << 63, 1 << 32, key.k, key.k + 1]
        slens += list(range(1, max(room, 0) + 3))
        for slen in dict.fromkeys(slens):
            ctx.case("sign", bits, name, slen)
            real = slen_of(slen, hl, embits)
            ok = 0 <= real <= room
            out.reset()
            _n.value = 5
            r = L.rsa_sign_pss(out, _pn, hid(L, name), msg, hl, priv,
                               len(priv), slen, ENT)
            ctx.eq(r, int(ok), "signing")
            ctx.check(out.intact(), "output size")
            ctx.state("sign", bits, e, name, slen)
            if r != 1 or not ok:
                ctx.eq(verify_pss(L, pub, name, msg, b"\0" * key.k, slen), 0,
                       "verification with impossible salt length")
                continue
            ctx.eq(_n.value, key.k, "signature length")
            sig = good = out.get()
            em = pow(int.from_bytes(sig, "big"), key.e, key.n)
            ctx.check(em.bit_length() <= embits, "encoded message too long")
            ctx.check(pkcs1.pss_verify(name, msg, em.to_bytes(eml, "big"),
                                       embits, real),
                      "signature is not a PSS signature with this salt length")
            for v in dict.fromkeys([0, ALL, slen, real, real - 1, real + 1,
                                    key.k, ALL - 1]):
                want = (v == 0 or slen_of(v, hl, embits) == real)
                ctx.eq(verify_pss(L, pub, name, msg, sig, v), int(want),
                       "verification with salt length %d" % v)
        for bad in (msg[:-1], msg + b"\0", b""):
            ctx.case("digest length", bits, name, len(bad))
            ctx.eq(L.rsa_sign_pss(out, _pn, hid(L, name), bad, len(bad), priv,
                                  len(priv), 0, ENT), 0, "digest length")
            if good:
                ctx.eq(verify_pss(L, pub, name, bad, good, 0), 0,
                       "verification with a digest of another length")
    out.reset()
    for t in (L.HASH_NONE, -1, 33, 255):
        ctx.case("type", t)
        ctx.eq(L.rsa_sign_pss(out, _pn, t, b"", 0, priv, len(priv), 0, ENT),
               0, "unknown hash type")
        ctx.eq(L.rsa_verify_pss(t, b"", 0, b"\0" * key.k, key.k, pub,
                                len(pub), 0), 0, "unknown hash type")


def pss_dev(ctx, bits, e, name, slens, full):
    L = ctx.lib
    key = rsa_key(bits, e)
    pub = key.pub()
    embits = key.bits - 1
    n = (embits + 7) // 8
    hl = HASHES[name][0]
    msg = digest(name)
    room = n - hl - 2

    def judge(em, what, *desc):
        v = int.from_bytes(em, "big")
        if v >= key.n:
            return
        sig = key.op(v).to_bytes(key.k, "big")
        for want in (None, slen):
            w = len(em) == n and pkcs1.pss_verify(name, msg, em, embits, want)
            ctx.case(what, bits, e, name, slen, desc, want, em)
            if want == 0:
                continue  # zero asks for recovery, as None does
            ctx.eq(verify_pss(L, pub, name, msg, sig, want or 0), int(w),
                   "verdict")
            ctx.state(what, bits, e, name, slen, desc, want)

    for slen in slens:
        if slen > room:
            continue
        salt = bytes((i * 31 + 5) & 255 for i in range(slen))
        em = pkcs1.pss_encode(name, msg, embits, salt)
        judge(em, "good")
        # every byte as transmitted
        for j in range(n):
            for v in values(em[j], full):
                judge(em[:j] + bytes([v]) + em[j + 1:], "byte", j, v)
        # every byte before masking
        db = b"\0" * (room - slen) + b"\1" + salt
        h = em[n - hl - 1:n - 1]
        for j in range(len(db)):
            for v in values(db[j], None if full is None else False):
                d2 = db[:j] + bytes([v]) + db[j + 1:]
                m = bytearray(pkcs1.xor(d2, pkcs1.mgf1(name, h, len(db))))
                m[0] &= 0xff >> (8 * n - embits)
                judge(bytes(m) + h + b"\xbc", "unmasked", j, v)
        # no separator at all
        m = bytearray(pkcs1.mgf1(name, h, len(db)))
        m[0] &= 0xff >> (8 * n - embits)
        judge(bytes(m) + h + b"\xbc", "no separator")
        # a good encoding with any of the unused top bits set
        for b in range(8):
            if (em[0] & (0xff >> (8 * n - embits))) == em[0]:
                judge(bytes([em[0] | 1 << b]) + em[1:], "top", b)
        if 8 * n < key.bits:
            judge(b"\1" + em, "leading byte")
        # longer and shorter salts that still hash right
        for s2 in {slen + 1, slen - 1, 0, room} - {slen}:
            if 0 <= s2 <= room:
                salt2 = bytes((i * 31 + 5) & 255 for i in range(s2))
                judge(pkcs1.pss_encode(name, msg, embits, salt2), "salt", s2)
        # nonzero padding with matching hash
        for j in range(room - slen):
            ps = bytearray(room - slen)
            ps[j] = 1
            judge(pkcs1.pss_encode(name, msg, embits, salt, bytes(ps)), "ps",
                  j)
        # raw signature strings
        good = key.sig(em)
        for j, s in enumerate(rawsigs(key, good)):
            ctx.case("raw", bits, name, slen, j, s)
            v = int.from_bytes(s, "big")
            w = (len(s) == key.k and v < key.n
                 and pow(v, key.e, key.n) >> (8 * n) == 0
                 and pkcs1.pss_verify(name, msg, pow(v, key.e, key.n).to_bytes(
                     n, "big"), embits, None))
            ctx.eq(verify_pss(L, pub, name, msg, s, 0), int(w),
                   "changed signature")
            ctx.state("raw", bits, name, slen, j)


def tasks(tier):
    t = []
    q = tier == "quick"
    S = list(range(512, 522))
    names = sorted(HASHES)
    for b in S + [1023, 1024, 1025] + ([] if q else [1536, 2047, 2048, 2049]):
        t.append(Task("pkcs-sign-%d" % b, pkcs_sign, (b, 65537)))
        t.append(Task("pkcs-raw-%d" % b, pkcs_raw, (b, 65537)))
        t.append(Task("pss-sign-%d" % b, pss_sign,
                      (b, 65537, names if b < 530 or not q else
                       ["SHA1", "SHA512", "SHAKE128", "BLAKE2B_384"])))
    for b in range(522, 531):   # room for no salt or one byte of it
        t.append(Task("pss-sign-%d" % b, pss_sign,
                      (b, 65537, [n for n in names if HASHES[n][0] == 64])))
    for v in ("i128", "p32", "l32"):
        t.append(Task("pkcs-sign-%s" % v, pkcs_sign, (517, 65537), v))
        t.append(Task("pss-sign-%s" % v, pss_sign, (513, 65537, names), v))
    for e in (3, 5, E33):
        t.append(Task("pkcs-raw-e%d" % e, pkcs_raw, (520, e)))
        t.append(Task("pkcs-sign-e%d" % e, pkcs_sign, (519, e)))
        t.append(Task("pkcs-struct-e%d" % e, pkcs_struct, (768, e)))
    for b in (512, 513, 520):
        t.append(Task("pkcs-struct-%d" % b, pkcs_struct, (b, 65537)))
    for b in S[:9]:
        for nm in ("SHA256", "MD5", None):
            t.append(Task("pkcs-dev-%d-%s" % (b, nm), pkcs_dev,
                          (b, 65537, nm, False)))
        t.append(Task("pss-dev-%d" % b, pss_dev,
                      (b, 65537, "MD5", [0, 1, 16, 40, 46, 47, 48], False)))
    t.append(Task("pss-dev-sha", pss_dev, (516, 65537, "SHA256",
                                           [0, 8, 20, 31], False)))
    for b in (1024, 1537, 2048) if q else (1024, 1537, 2048, 3072, 4096):
        for nm in ("SHA256", "SHA512"):
            t.append(Task("pkcs-big-%d-%s" % (b, nm), pkcs_dev,
                          (b, 65537, nm, None)))
        t.append(Task("pss-big-%d" % b, pss_dev, (b, 65537, "SHA256", [32],
                                                  None)))
    for i in ((513, 514) if q else S[:9]):
        t.append(Task("pkcs-full-%d" % i, pkcs_dev, (i, 65537, "SHA1", True)))
        t.append(Task("pss-full-%d" % i, pss_dev, (i, 65537, "SHA1", [20],
                                                   True)))
    return t
