"""K01: key derivation functions over their parameter grids.

Every function is run on the full product of small alphabets for password
length, salt length, cost and output length, chosen around hash blocks, output
blocks and the documented limits.  Oracle: hashlib, OpenSSL's scrypt, an
independent Eksblowfish, and direct transcriptions of the RFCs."""

import ctypes as C
import hashlib

from mc import build, oracle
from mc.core import Task
from mc.lib import Out

BOUNDS = ("all hashes; password/salt lengths {0,1,block-1,block,block+1,..}; "
          "output lengths over 0..3 blocks and the limits; iteration counts "
          "1..5; scrypt N<=2048, r<=8, p<=4; bcrypt cost 4..11, password lengths "
          "0..80; malformed bcrypt records in every character")
ASSUMPTIONS = ["hashlib/OpenSSL and the transcribed RFC definitions are right"]

DATA = bytes((i * 73 + 19) & 255 for i in range(2048))
ALL = list(oracle.HASHES)


def get(L, n):
    return getattr(L, "HASH_" + n)


def pbkdf2_ref(name, pw, salt, it, ln):
    out, i = b"", 1
    while len(out) < ln:
        u = oracle.hmac(name, pw, salt + i.to_bytes(4, "big"))
        t = int.from_bytes(u, "big")
        for _ in range(it - 1):
            u = oracle.hmac(name, pw, u)
            t ^= int.from_bytes(u, "big")
        out += t.to_bytes(len(u), "big")
        i += 1
    return out[:ln]


def pbkdf2(ctx, names):
    L = ctx.lib
    for name in names:
        size, bs, _ = oracle.HASHES[name]
        slow = name.startswith("KECCAK") or name == "MD2"
        fast = name in ("SHA1", "SHA256", "SHA512", "MD5", "SHA384", "SHA224")
        pls = (0, 1, bs - 1, bs, bs + 1, 2 * bs + 1) if not slow else (0, bs, bs + 1)
        sls = (0, 1, bs - 5, bs - 4, bs, 2 * bs) if not slow else (0, bs - 4)
        its = (1, 2, 3, 5) if not slow else (1, 3)
        for pl in pls:
            for sl in sls:
                for it in its:
                    top = 3 * size + 1 if not slow else size + 1
                    full = (hashlib.pbkdf2_hmac(name.lower(), DATA[:pl],
                                                DATA[7:7 + sl], it, top)
                            if fast else
                            pbkdf2_ref(name, DATA[:pl], DATA[7:7 + sl], it, top))
                    for ln in range(top + 1):
                        ctx.case("pbkdf2", name, pl, sl, it, ln)
                        ctx.state(name, pl, sl, it, ln)
                        out = Out(ln)
                        r = L.pbkdf2_derive(out, get(L, name), DATA[:pl], pl,
                                            DATA[7:], sl, it, ln)
                        ctx.eq(r, 1, "pbkdf2 return value")
                        ctx.eq(out.get(), full[:ln], "pbkdf2 output")
                        ctx.check(out.intact(), "pbkdf2 output size")
    out = Out(16)
    ctx.case("pbkdf2", "none")
    ctx.eq(L.pbkdf2_derive(out, L.HASH_NONE, b"a", 1, b"b", 1, 1, 16), 0,
           "missing hash accepted")
    ctx.case("pbkdf2", "too long")
    ctx.eq(L.pbkdf2_derive(out, L.HASH_SHA256, b"a", 1, b"b", 1, 1,
                           (1 << 64) - 1), 0, "absurd length accepted")
    ctx.eq(L.pbkdf2_derive(out, L.HASH_SHA256, b"a", 1, b"b", 1, 1,
                           (1 << 37) + 1), 0, "length above (2^32-1) blocks")


def pbkdf2_long(ctx):
    """Block counter beyond one and two bytes, many iterations."""
    L = ctx.lib
    for name, ln in (("SHA256", 32 * 257 + 5), ("MD5", 16 * 65537 + 3),
                     ("SHA512", 64 * 300)):
        ctx.case("pbkdf2 long", name, ln)
        ctx.state(name, ln)
        out = Out(ln)
        L.pbkdf2_derive(out, get(L, name), b"pw", 2, b"salt", 4, 1, ln)
        want = hashlib.pbkdf2_hmac(name.lower(), b"pw", b"salt", 1, ln)
        for b in range(0, ln, 4096):
            ctx.eq(out.get()[b:b + 4096], want[b:b + 4096], "block counter")
    for it in (255, 256, 257, 1000, 65535, 65536, 65537):
        ctx.case("pbkdf2 iterations", it)
        ctx.state("it", it)
        out = Out(20)
        L.pbkdf2_derive(out, L.HASH_SHA1, b"pw", 2, b"salt", 4, it, 20)
        ctx.eq(out.get(), hashlib.pbkdf2_hmac("sha1", b"pw", b"salt", it, 20),
               "iteration count")


def hkdf(ctx, names):
    L = ctx.lib
    for name in names:
        size, bs, _ = oracle.HASHES[name]
        slow = name.startswith("KECCAK") or name == "MD2"
        for il in (0, 1, bs, bs + 1) if slow else (0, 1, size, bs - 1, bs,
                                                   bs + 1, 2 * bs):
            for sl in (0, bs + 1) if slow else (0, 1, size, bs - 1, bs, bs + 1,
                                                2 * bs + 1):
                ctx.case("extract", name, il, sl)
                ctx.state(name, "x", il, sl)
                out = Out(size)
                r = L.hkdf_extract(out, get(L, name), DATA[:il], il,
                                   DATA[3:], sl)
                ctx.eq(r, 1, "extract return value")
                ctx.eq(out.get(), oracle.hmac(name, DATA[3:3 + sl], DATA[:il]),
                       "extract output")
                ctx.check(out.intact(), "extract output size")
        prk = DATA[50:50 + size]
        for nl in (0, 1, 7, size, bs, bs + 1, 200):
            t, full = b"", b""
            nblk = 4 if slow else (255 if nl == 7 and size <= 32 else 6)
            for i in range(1, nblk + 1):
                t = oracle.hmac(name, prk, t + DATA[9:9 + nl] + bytes([i]))
                full += t
            lens = sorted({0, 1, size - 1, size, size + 1, 2 * size - 1,
                           2 * size, 2 * size + 1, 3 * size + 1, nblk * size,
                           nblk * size - 1})
            for ln in lens:
                ctx.case("expand", name, nl, ln)
                ctx.state(name, "e", nl, ln)
                out = Out(ln)
                r = L.hkdf_expand(out, get(L, name), prk, DATA[9:], nl, ln)
                ctx.eq(r, 1, "expand return value")
                ctx.eq(out.get(), full[:ln], "expand output")
                ctx.check(out.intact(), "expand output size")
        big = Out(255 * size + 64)
        for ln in (255 * size + 1, 256 * size, 257 * size + 1, (1 << 64) - 1,
                   (1 << 64) - size, 1 << 32):
            ctx.case("expand limit", name, ln)
            ctx.eq(L.hkdf_expand(big, get(L, name), prk, b"", 0, ln), 0,
                   "more than 255 blocks accepted")
    ctx.case("hkdf none")
    ctx.eq(L.hkdf_extract(Out(64), L.HASH_NONE, b"a", 1, b"", 0), 0, "none")
    ctx.eq(L.hkdf_expand(Out(64), L.HASH_NONE, DATA, b"", 0, 5), 0, "none")


def eb2k(ctx, names):
    L = ctx.lib
    for name in names:
        size, bs, f = oracle.HASHES[name]
        slow = name.startswith("KECCAK") or name == "MD2"
        for pl in (0, 1, bs - 8, bs, bs + 1):
            for sl in (0, 8, 9, 20):
                salt = DATA[77:77 + min(sl, 8)]
                full, prev = b"", b""
                need = (2 * size + 2) * 2
                while len(full) < need:
                    prev = f(prev + DATA[:pl] + salt)
                    full += prev
                lens = (0, 1, size - 1, size, size + 1, 2 * size + 1)
                for kl in lens:
                    for il in lens if not slow else (0, size + 1):
                        ctx.case("eb2k", name, pl, sl, kl, il)
                        ctx.state(name, pl, sl, kl, il)
                        k, iv = Out(kl), Out(il)
                        r = L.eb2k_derive(k, iv, get(L, name), DATA[:pl], pl,
                                          DATA[77:], sl, kl, il)
                        ctx.eq(r, 1, "eb2k return value")
                        ctx.eq(k.get() + iv.get(), full[:kl + il],
                               "eb2k output")
                        ctx.check(k.intact() and iv.intact(), "eb2k size")
            for sl in (1, 2, 3, 4, 5, 6, 7):
                ctx.case("eb2k bad salt", name, pl, sl)
                ctx.eq(L.eb2k_derive(Out(8), Out(8), get(L, name), DATA, pl,
                                     DATA, sl, 8, 8), 0, "short salt accepted")
    ctx.case("eb2k none")
    ctx.eq(L.eb2k_derive(Out(8), Out(8), L.HASH_NONE, DATA, 4, DATA, 8, 8, 8),
           0, "none")


def pgpdf(ctx, names):
    L = ctx.lib
    for name in names:
        size, bs, f = oracle.HASHES[name]
        slow = name.startswith("KECCAK") or name == "MD2"
        lens = (0, 1, size, size + 1, 2 * size + 1, 3 * size)

        def ref(stream, ln):
            out, i = b"", 0
            while len(out) < ln:
                out += f(b"\0" * i + stream)
                i += 1
            return out[:ln]
        top = 3 * size
        for pl in (0, 1, 5, bs, bs + 1):
            for sl in (None, 0, 1, 8, bs - 1):
                s = DATA[33:33 + (sl or 0)]
                full = ref(s + DATA[:pl], top)
                for ln in lens:
                    ctx.case("pgpdf", name, pl, sl, ln)
                    ctx.state(name, pl, sl, ln)
                    out = Out(ln)
                    if sl is None:
                        r = L.pgpdf_derive_simple(out, get(L, name), DATA[:pl],
                                                  pl, ln)
                    else:
                        r = L.pgpdf_derive_salted(out, get(L, name), DATA[:pl],
                                                  pl, DATA[33:], sl, ln)
                    ctx.eq(r, 1, "pgpdf return value")
                    ctx.eq(out.get(), full[:ln], "pgpdf output")
                    ctx.check(out.intact(), "pgpdf size")
        for pl in (0, 1, 5, bs):
            for sl in (0, 1, 8):
                comb = DATA[33:33 + sl] + DATA[:pl]
                n = len(comb)
                for count in (0, 1, max(n - 1, 0), n, n + 1, n + sl, n + sl + 1,
                              2 * n, 2 * n + 1, 3 * n - 1, 1000, 65536,
                              65537, 100003):
                    if count > 1000 and (slow or pl != 5 or sl != 8):
                        continue
                    c = max(count, n)
                    stream = (comb * (c // n + 1))[:c] if n else b""
                    full = ref(stream, size + 1 if slow else top)
                    for ln in lens if not slow else (0, 1, size + 1):
                        ctx.case("pgpdf iter", name, pl, sl, count, ln)
                        ctx.state(name, pl, sl, count, ln)
                        out = Out(ln)
                        r = L.pgpdf_derive_iterated(out, get(L, name),
                                                    DATA[:pl], pl, DATA[33:],
                                                    sl, count, ln)
                        ctx.eq(r, 1, "pgpdf return value")
                        ctx.eq(out.get(), full[:ln], "pgpdf iterated output")
                        ctx.check(out.intact(), "pgpdf size")
    ctx.case("pgpdf none")
    o = Out(64)
    ctx.eq(L.pgpdf_derive_simple(o, L.HASH_NONE, DATA, 4, 8), 0, "none")
    ctx.eq(L.pgpdf_derive_salted(o, L.HASH_NONE, DATA, 4, DATA, 4, 8), 0, "none")
    ctx.eq(L.pgpdf_derive_iterated(o, L.HASH_NONE, DATA, 4, DATA, 4, 9, 8), 0,
           "none")


def scrypt(ctx, rs):
    L = ctx.lib
    for r_ in rs:
        for N in (1 << e for e in range(1, 12)):
            for p in (1, 2, 3, 4):
                for pl in (0, 1, 64, 65):
                    for sl in (0, 1, 51, 52):
                        if N > 16 and (pl, sl) not in ((1, 1), (65, 52)):
                            continue
                        top = 97
                        full = hashlib.scrypt(DATA[:pl], salt=DATA[5:5 + sl],
                                              n=N, r=r_, p=p, dklen=top,
                                              maxmem=1 << 28)
                        for ln in (0, 1, 31, 32, 33, 64, 97):
                            ctx.case("scrypt", N, r_, p, pl, sl, ln)
                            ctx.state(N, r_, p, pl, sl, ln)
                            out = Out(ln)
                            r = L.scrypt_derive(out, DATA[:pl], pl, DATA[5:],
                                                sl, N, r_, p, ln)
                            ctx.eq(r, 1, "scrypt return value")
                            ctx.eq(out.get(), full[:ln], "scrypt output")
                            ctx.check(out.intact(), "scrypt size")
    if rs[0] == 1:
        bad = [(0, 1, 1), (2, 0, 1), (2, 1, 0), (0, 0, 0), (3, 1, 1),
               (5, 1, 1), (6, 1, 1), (7, 8, 1), (12, 1, 1), (1023, 1, 1),
               (1025, 1, 1), ((1 << 32) + 2, 1, 1), ((1 << 63) + 1, 1, 1),
               (2, 1 << 15, 1 << 15), (2, 1 << 30, 1), (2, 1, 1 << 30),
               (1 << 63, 1, 1), (1 << 62, 8, 1), (1 << 57, 1, 1),
               (2, (1 << 32) - 1, (1 << 32) - 1)]
        for N, r_, p in bad:
            ctx.case("scrypt bad", N, r_, p)
            ctx.state("bad", N, r_, p)
            ctx.eq(L.scrypt_derive(Out(32), b"a", 1, b"b", 1, N, r_, p, 32), 0,
                   "inadmissible cost accepted")
        ctx.case("scrypt length")
        ctx.eq(L.scrypt_derive(Out(32), b"a", 1, b"b", 1, 2, 1, 1,
                               ((1 << 32) - 1) * 32 + 1), 0, "length accepted")


# -- bcrypt ----------------------------------------------------------------

B64 = b"./ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"


def b64(data):
    bits = "".join(format(b, "08b") for b in data)
    bits += "0" * (-len(bits) % 6)
    return bytes(B64[int(bits[i:i + 6], 2)] for i in range(0, len(bits), 6))


_ref = None


def eks(key, salt, cost, text, order):
    global _ref
    if _ref is None:
        _ref = C.CDLL(build.ref_so("bcrypt_ref"))
        _ref.ref_eks.argtypes = [C.c_void_p, C.c_void_p, C.c_size_t,
                                 C.c_void_p, C.c_size_t, C.c_int, C.c_void_p,
                                 C.c_int, C.c_int]
        _ref.ref_eks.restype = None
        bits = 32 * (18 + 1024)
        # pi by Machin's formula in fixed point
        one = 1 << (bits + 64)

        def arctan(x):
            t = s = one // x
            n, sign = 3, -1
            while t:
                t //= x * x
                s += sign * (t // n)
                n, sign = n + 2, -sign
            return s
        pi = 4 * (4 * arctan(5) - arctan(239))
        frac = (pi - 3 * one) >> 64
        words = [(frac >> (bits - 32 * (i + 1))) & 0xffffffff
                 for i in range(18 + 1024)]
        assert words[0] == 0x243f6a88 and words[17] == 0x8979fb1b
        _ref.ref_tables((C.c_uint32 * len(words))(*words))
    out = C.create_string_buffer(len(text))
    _ref.ref_eks(out, key, len(key), salt, len(salt), cost, text,
                 len(text) // 4, order)
    return out.raw


def bcrypt_ref(pw, salt, cost, minor):
    key = (pw[:72] + b"\0") if minor == b"b" else (pw + b"\0")
    h = eks(key, salt, cost, b"OrpheanBeholderScryDoubt", 0)[:23]
    return b"$2" + minor + b"$%02d$" % cost + b64(salt) + b64(h)


def bcrypt(ctx, minor, part, parts):
    L = ctx.lib
    salts = [bytes(range(16)), b"\0" * 16, b"\xff" * 16, DATA[:16]]
    # known-answer for the reference itself (public jBCrypt vector)
    ctx.case("reference self-test")
    s = B64.index
    raw = "".join(format(s(c), "06b") for c in b"DCq7YPn5Rq63x1Lad4cll.")
    salt = bytes(int(raw[i:i + 8], 2) for i in range(0, 128, 8))
    assert bcrypt_ref(b"", salt, 6, b"a") == \
        b"$2a$06$DCq7YPn5Rq63x1Lad4cll.TV4S6ytwfsfvkgY8jIucDrjc8deX1s."
    n = 0
    for pl in list(range(0, 82)) + [100, 200, 253, 254] + \
            ([255, 256, 300] if minor == b"b" else []):
        for si, salt in enumerate(salts):
            for cost in ((4, 5, 8, 10, 11) if pl == 9 and si == 0 else
                         (4, 5, 6) if pl % 9 == 0 else (4,)):
                n += 1
                if n % parts != part :
                    continue
                pw = bytes(33 + (i * 31 + pl) % 94 for i in range(pl))
                ctx.case("bcrypt", minor, pl, si, cost)
                ctx.state(minor, pl, si, cost)
                want = bcrypt_ref(pw, salt, cost, minor) + b"\0"
                out = Out(62)
                ctx.eq(L.bcrypt_generate(out, pw, pl, salt, cost, minor), 1,
                       "bcrypt return value")
                ctx.eq(out.get(len(want)), want, "bcrypt record")
                out2 = Out(62)
                ctx.eq(L.bcrypt_hash(out2, pw, salt, cost, minor), 1,
                       "bcrypt_hash return value")
                if pl < 255:
                    ctx.eq(out2.get(len(want)), want, "bcrypt_hash record")
                ctx.eq(L.bcrypt_verify(pw, pl, want), 1, "own record refused")
                ctx.eq(L.bcrypt_check(pw, want), 1, "own record refused")


def bcrypt_reject(ctx, minor):
    L = ctx.lib
    salt = DATA[:16]
    pw = bytes(33 + i for i in range(75))
    rec = bcrypt_ref(pw, salt, 4, minor)
    # a password differing in one significant byte must not verify
    for i in range(72):
        bad = bytearray(pw)
        bad[i] ^= 1
        ctx.case("wrong password", i)
        ctx.state("wrong", i)
        ctx.eq(L.bcrypt_verify(bytes(bad), len(bad), rec), 0,
               "wrong password accepted")
    for n in (0, 1, 70, 71):
        ctx.case("shorter password", n)
        ctx.eq(L.bcrypt_verify(pw[:n], n, rec), 0, "shorter password accepted")
        ctx.eq(L.bcrypt_check(pw[:n], rec), 0, "shorter password accepted")
    # records changed in one character
    for i in range(len(rec)):
        subs = [(rec[i] + 1) & 127 or 1, 0x24, 0x7a, 0x2e, 0x20, 0x80 | rec[i]]
        for v in subs:
            if v == rec[i] or i == 2 and v in b"ab":
                continue
            if i == 28 and v in B64:
                # unused low bits of the last salt character
                if B64.index(v) >> 4 == B64.index(rec[i]) >> 4:
                    continue
            if i == 59 and v in B64:
                if B64.index(v) >> 2 == B64.index(rec[i]) >> 2:
                    continue
            bad = rec[:i] + bytes([v]) + rec[i + 1:]
            # do not let a changed cost run for hours
            if bad[4:5] > b"0" or bad[5:6] > b"7":
                continue
            ctx.case("record", i, v)
            ctx.state("record", i, v)
            ctx.eq(L.bcrypt_verify(pw, len(pw), bad), 0,
                   "altered record accepted")
    # every cost field but the valid ones; hashes as a lenient reader has them
    hashes = [rec] + [bcrypt_ref(pw, salt, c, minor) for c in range(4)]
    for hi in b"0123456789/: aA+-\x01\xb0":
        for lo in b"0123456789/: aA+-\x01\xb0":
            f = bytes([hi, lo])
            if f.isdigit() and 4 <= int(f) <= 31:
                continue
            for h in hashes:
                ctx.case("cost field", f, h[4:6])
                ctx.state("cost field", f, h[4:6])
                ctx.eq(L.bcrypt_verify(pw, len(pw), h[:4] + f + h[6:]), 0,
                       "record with this cost accepted")
    for n in range(len(rec)):
        ctx.case("record prefix", n)
        ctx.eq(L.bcrypt_verify(pw, len(pw), rec[:n]), 0, "truncated record")
    for x in (b".", b"$", b"a", b" "):
        ctx.case("record suffix", x)
        ctx.eq(L.bcrypt_verify(pw, len(pw), rec + x), 0, "extended record")
    for cost in (0, 1, 2, 3, 32, 33, 99, 1 << 31):
        ctx.case("cost", cost)
        ctx.eq(L.bcrypt_generate(Out(62), pw, 8, salt, cost, minor), 0,
               "cost accepted")
        ctx.eq(L.bcrypt_hash(Out(62), b"pass", salt, cost, minor), 0,
               "cost accepted")
    for m in range(256):
        if bytes([m]) in (b"a", b"b"):
            continue
        ctx.case("minor", m)
        ctx.eq(L.bcrypt_generate(Out(62), pw, 8, salt, 4, bytes([m])), 0,
               "unknown minor accepted")
        bad = rec[:2] + bytes([m or 1]) + rec[3:]
        ctx.eq(L.bcrypt_verify(pw, len(pw), bad), 0, "unknown minor accepted")
    for ch in list(range(1, 7)) + list(range(14, 32)) + list(range(127, 256)):
        ctx.case("non-ascii", ch)
        ctx.eq(L.bcrypt_hash(Out(62), b"ab" + bytes([ch]), salt, 4, minor), 0,
               "non-ascii password accepted")
        ctx.eq(L.bcrypt_check(b"ab" + bytes([ch]), rec), 0, "non-ascii")


def bcrypt_pbkdf(ctx, part, parts):
    L = ctx.lib

    def ref(pw, salt, rounds, size):
        key = hashlib.sha512(pw).digest()
        stride = (size + 31) // 32
        amt = (size + stride - 1) // stride
        out = bytearray(size)
        left, count = size, 1
        while left > 0:
            s = hashlib.sha512(salt + count.to_bytes(4, "big")).digest()
            t = eks(key, s, 6, b"OxychromaticBlowfishSwatDynamite", 1)
            acc = int.from_bytes(t, "big")
            for _ in range(rounds - 1):
                s = hashlib.sha512(t).digest()
                t = eks(key, s, 6, b"OxychromaticBlowfishSwatDynamite", 1)
                acc ^= int.from_bytes(t, "big")
            blk = acc.to_bytes(32, "big")
            n = min(amt, left)
            i = 0
            while i < n:
                d = i * stride + count - 1
                if d >= size:
                    break
                out[d] = blk[i]
                i += 1
            left -= i
            count += 1
        return bytes(out)
    n = 0
    for pl in (1, 7, 64, 129):
        for sl in (1, 16, 125):
            for rounds in (1, 2, 3):
                for size in list(range(1, 140)) + [255, 256, 257, 1023]:
                    if (pl, sl) != (7, 16) and size not in (33, 64):
                        continue
                    n += 1
                    if n % parts != part:
                        continue
                    ctx.case("bcrypt_pbkdf", pl, sl, rounds, size)
                    ctx.state(pl, sl, rounds, size)
                    out = Out(size)
                    r = L.bcrypt_pbkdf(out, DATA[:pl], pl, DATA[9:], sl,
                                       rounds, size)
                    ctx.eq(r, 1, "bcrypt_pbkdf return value")
                    ctx.eq(out.get(), ref(DATA[:pl], DATA[9:9 + sl], rounds,
                                          size), "bcrypt_pbkdf output")
                    ctx.check(out.intact(), "bcrypt_pbkdf size")
    if part == 0:
        big = bytes((1 << 20) + 1)
        for args in ((b"", 0, b"s", 1, 1, 32), (b"p", 1, b"", 0, 1, 32),
                     (b"p", 1, b"s", 1, 0, 32), (b"p", 1, b"s", 1, 1, 0),
                     (b"p", 1, b"s", 1, 1, 1025), (b"p", 1, b"s", 1, 1, 1 << 40),
                     (b"p", 1, big, (1 << 20) + 1, 1, 32)):
            ctx.case("bcrypt_pbkdf bad", args[1], args[3], args[4], args[5])
            ctx.eq(L.bcrypt_pbkdf(Out(1100), *args), 0, "accepted")
        ctx.case("bcrypt_pbkdf max")
        out = Out(1024)
        ctx.eq(L.bcrypt_pbkdf(out, b"p", 1, b"s", 1, 1, 1024), 1, "maximum")
        ctx.eq(out.get(), ref(b"p", b"s", 1, 1024), "maximum size output")


def prepare(tier):
    build.ref_so("bcrypt_ref")
    return {}


def tasks(tier):
    ts = []
    for i in range(4):
        ts.append(Task("bcrypt_pbkdf/%d" % i, bcrypt_pbkdf, (i, 4)))
    for m in (b"a", b"b"):
        for i in range(3):
            ts.append(Task("bcrypt/%s/%d" % (m.decode(), i), bcrypt,
                           (m, i, 3)))
        ts.append(Task("bcrypt_reject/" + m.decode(), bcrypt_reject, (m,)))
    for r in (1, 2, 3, 4, 5, 8):
        ts.append(Task("scrypt/%d" % r, scrypt, ((r,),)))
    ts.append(Task("pbkdf2 long", pbkdf2_long))
    groups = [ALL[i::8] for i in range(8)]
    for i, g in enumerate(groups):
        ts.append(Task("pbkdf2/%d" % i, pbkdf2, (g,)))
        ts.append(Task("hkdf/%d" % i, hkdf, (g,)))
        ts.append(Task("eb2k/%d" % i, eb2k, (g,)))
        ts.append(Task("pgpdf/%d" % i, pgpdf, (g,)))
    return ts
