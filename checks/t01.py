"""T01: execution does not depend on secrets.

The library is compiled so that it reports each basic block it enters and the
address of each variable memory access.  An operation runs with its public
inputs fixed and its secret inputs drawn from an alphabet of extreme values;
runs with the same public outcome must report exactly the same sequence."""

import ctypes as C
import itertools

from mc import curves, pkcs1, trace
from mc.core import Task
from mc.numth import rsa_key
from mc.trace import compare, put

BOUNDS = ("comparison: buffers of 0..33 bytes, difference at each position in "
          "each direction; limb arithmetic: all vectors of 1..3 limbs over 5 "
          "limb values; padding: all 256 last bytes x one wrong byte at each "
          "position, blocks of 8 and 16; keys and scalars: ends of the range, "
          "word and window boundaries, digit patterns, endomorphism extremes "
          "(30 to 90 per curve) x all 11 curves x plain and blinded contexts; "
          "RSA padding: every byte wrong, every separator position; builds "
          "with assembly and without 128-bit integers (quick), and without "
          "assembly (thorough)")
ASSUMPTIONS = [
    "blocks and addresses are those of gcc -O1; instruction latency and "
    "addresses inside inline assembly are not observed",
    "the decision that a key, tag or padding is valid, and a public key, "
    "signature or length handed back, are public",
    "RSA arithmetic is blinded rather than constant time: only the handling "
    "of the decrypted block is compared",
]
LEVEL = "model_checking"
TECHNIQUE = ("explicit enumeration of executions of instrumented code, "
             "compared pairwise by their full block and address traces "
             "(self-composition over a finite secret alphabet)")
LIBS = ()
STALL = 120


def prepare(tier):
    vs = ["n64", "p32"] if tier == "quick" else ["n64", "p32", "i128"]
    out = {v: trace.library(v) for v in vs}
    out["rsa"] = trace.library("n64", only=("rsa.c", "util.c"))
    return out


def tracer(ctx, which, heap=True):
    return trace.Tracer(ctx.cfg["extra"][which], ctx.cfg["consts"], heap)


PATS = [bytes([b]) for b in (0, 0xff, 0x55, 0xaa, 0x01, 0x80, 0x7f, 0xf0)]


def patterns(n):
    """Byte strings of length n: uniform, one bit at an end, a ramp."""
    out = [p * n for p in PATS]
    if n:
        out += [b"\1" + bytes(n - 1), bytes(n - 1) + b"\1",
                b"\x80" + bytes(n - 1), bytes(n - 1) + b"\x80",
                bytes(i & 255 for i in range(n)),
                bytes((i * 167 + 13) & 255 for i in range(n)),
                bytes(n // 2) + b"\xff" * (n - n // 2),
                b"\xff" * (n // 2) + bytes(n - n // 2)]
    return sorted(set(out))


# -- comparison and padding ------------------------------------------------

def util(ctx, v):
    t = tracer(ctx, v)
    x, y, z = t.buf(64), t.buf(64), t.buf(64)
    for n in range(34):
        base = bytes((i * 37 + 1) & 255 for i in range(n))
        pairs = [(base, base)]
        for i in range(n):
            for d in (1, 0x80, 0xff):
                o = bytearray(base)
                o[i] ^= d
                pairs += [(base, bytes(o)), (bytes(o), base)]
        for p in patterns(n):
            pairs += [(p, base), (p, p)]

        for f in ("torsion_memequal", "torsion_memcmp"):
            def go(a, b, f=f, n=n):
                put(x, a)
                put(y, b)
                t.run(f, x, y, n)
            compare(ctx, t, "%s %d" % (f, n), go, pairs)

        def go(a, b):
            put(x, a)
            put(y, b)
            t.run("torsion_memxor", x, y, n)
            t.run("torsion_memxor3", z, x, y, n)
            t.run("torsion_memzero", z, n)
        compare(ctx, t, "torsion_memxor %d" % n, go, pairs)

    ln = t.buf(8)
    for n in (8, 16):
        blocks = set()
        for last in range(256):
            good = bytearray(range(100, 100 + n))
            if 1 <= last <= n:
                good[n - last:] = bytes([last]) * last
            good[-1] = last
            blocks.add(bytes(good))
            for i in range(n - 1):
                for d in (1, 0xff):
                    b = bytearray(good)
                    b[i] ^= d
                    blocks.add(bytes(b))

        def go(b):
            put(x, b)
            t.run("pkcs7_unpad", z, ln, x, n)
        compare(ctx, t, "pkcs7_unpad %d" % n, go, sorted(blocks))

        def go(b):
            put(x, b)
            t.run("pkcs7_unpad", x, ln, x, n)
        compare(ctx, t, "pkcs7_unpad %d in place" % n, go, sorted(blocks))


def padding(ctx, v):
    """Unpadding behind a cipher: all ways to be invalid look the same."""
    t = tracer(ctx, v)
    L = t.lib
    key, iv = t.buf(16), t.buf(8)
    put(key, bytes(range(16)))
    put(iv, bytes(range(50, 58)))
    ks = t.buf(4096)
    L.cipher_init(ks, L.CIPHER_IDEA, key, 16)
    ct, pt, ln, s = t.buf(64), t.buf(64), t.buf(8), t.buf(65536)
    tmp, blk = C.create_string_buffer(8), C.create_string_buffer(8)
    blocks = set()
    for last in range(256):
        good = bytearray(range(100, 108))
        if 1 <= last <= 8:
            good[8 - last:] = bytes([last]) * last
        good[-1] = last
        blocks.add(bytes(good))
        for i in range(7):
            b = bytearray(good)
            b[i] ^= 0x21
            blocks.add(bytes(b))

    def encrypt(b, mode):
        """Two blocks, the last decrypting to b."""
        first = bytes(range(8))
        blk.raw = b if mode == L.CIPHER_MODE_ECB else \
            bytes(i ^ j for i, j in zip(b, first))
        L.cipher_encrypt(ks, tmp, blk)
        return first + tmp.raw

    for mname in ("CIPHER_MODE_ECB", "CIPHER_MODE_CBC"):
        mode = getattr(L, mname)
        niv = 0 if mname.endswith("ECB") else 8

        def go(b):
            put(ct, encrypt(b, mode))
            put(ln, bytes(8))
            r = t.run("cipher_static_decrypt", pt, ln, L.CIPHER_IDEA, mode,
                      key, 16, iv, niv, ct, 16)
            return r, bytes(ln.raw[:8]) if r else 0
        compare(ctx, t, "cipher_static_decrypt " + mname, go, sorted(blocks))

        def go(b):
            put(ct, encrypt(b, mode))
            put(ln, bytes(8))
            t.run("cipher_stream_init", s, L.CIPHER_IDEA, mode, 0, key, 16,
                  iv, niv)
            t.run("cipher_stream_update", s, pt, ln, ct, 16)
            r = t.run("cipher_stream_final", s, pt, ln)
            return r, bytes(ln.raw[:8]) if r else 0
        compare(ctx, t, "cipher_stream_final " + mname, go, sorted(blocks))


def tags(ctx, v):
    """Rejecting a tag takes the same path wherever it is wrong."""
    t = tracer(ctx, v)
    L = t.lib
    key, iv, ct = t.buf(32), t.buf(24), t.buf(128)
    put(key, bytes(range(32)))
    put(iv, bytes(range(70, 94)))
    msg = bytes((i * 7 + 1) & 255 for i in range(33))

    def wrong(tag):
        yield tag
        for i in range(len(tag)):
            for d in (1, 0x80, 0xff):
                b = bytearray(tag)
                b[i] ^= d
                yield bytes(b)
        for p in patterns(len(tag)):
            yield p

    out, ln, s, tg = t.buf(128), t.buf(8), t.buf(65536), t.buf(16)
    for mname in ("GCM", "CCM", "EAX"):
        mode = getattr(L, "CIPHER_MODE_" + mname)

        def stream(tag, enc, data, run):
            put(ct, data)
            run("cipher_stream_init", s, L.CIPHER_AES128, mode, enc, key, 16,
                iv, 12)
            if mname == "CCM":
                run("cipher_stream_set_ccm", s, len(data), 16, None, 0)
            if tag is not None:
                put(tg, tag)
                run("cipher_stream_set_tag", s, tg, 16)
            run("cipher_stream_update", s, out, ln, ct, len(data))
            c = bytes(out.raw[:len(data)])
            r = run("cipher_stream_final", s, out, ln)
            return c, r

        c, r = stream(None, 1, msg, t.run)
        ln.raw = bytes([16]) + bytes(7)
        L.cipher_stream_get_tag(s, tg, ln)
        good = bytes(tg.raw[:16])

        def go(tag):
            return stream(tag, 0, c, t.run)[1]
        compare(ctx, t, "cipher_stream_final " + mname, go, wrong(good))

    box = t.buf(128)
    L.secretbox_seal(box, msg, len(msg), key, iv)
    sealed = bytes(box.raw[:len(msg) + 16])

    def go(tag):
        put(box, tag + sealed[16:])
        return t.run("secretbox_open", out, box, len(sealed), key, iv)
    compare(ctx, t, "secretbox_open", go, wrong(sealed[:16]))


# -- symmetric -------------------------------------------------------------

# Hashes whose compression function uses tables indexed by data are left out.
TABLE = ("MD2", "GOST94", "WHIRLPOOL")


def hashes(ctx, v, names):
    t = tracer(ctx, v)
    L = t.lib
    s, d, k, out = t.buf(8192), t.buf(512), t.buf(512), t.buf(256)
    for name in names:
        h = getattr(L, "HASH_" + name)
        osz = L.hash_output_size(h)
        for n in (1, 55, 64, 130):
            def go(data):
                put(d, data)
                t.run("hash_init", s, h)
                t.run("hash_update", s, d, n)
                t.run("hash_final", s, out, osz)
            compare(ctx, t, "%s %d" % (name, n), go, patterns(n))
        for n in (16, 200):
            def go(key):
                put(k, key)
                put(d, bytes(40))
                t.run("hmac_init", s, h, k, n)
                t.run("hmac_update", s, d, 40)
                t.run("hmac_final", s, out)
            compare(ctx, t, "HMAC %s %d" % (name, n), go, patterns(n))


def kdfs(ctx, v):
    t = tracer(ctx, v)
    L = t.lib
    k, d, out, s = t.buf(128), t.buf(128), t.buf(128), t.buf(4096)
    h = L.HASH_SHA256

    def go(key):
        put(k, key)
        t.run("hkdf_extract", out, h, k, 32, d, 16)
        t.run("hkdf_expand", out, h, k, d, 16, 80)
        t.run("pbkdf2_derive", out, h, k, 32, d, 16, 3, 50)
        t.run("secretbox_derive", out, k)
        t.run("hmac_drbg_init", s, h, k, 32)
        t.run("hmac_drbg_generate", s, out, 70, None, 0)
        t.run("hmac_drbg_reseed", s, k, 32)
        t.run("hash_drbg_init", s, h, k, 32)
        t.run("hash_drbg_generate", s, out, 70, None, 0)
        t.run("hash_drbg_reseed", s, k, 32)
    compare(ctx, t, "key derivation", go, patterns(32))


def ciphers(ctx, v):
    t = tracer(ctx, v)
    L = t.lib
    k, nn, d, out, s = (t.buf(64), t.buf(32), t.buf(512), t.buf(512),
                        t.buf(4096))
    put(nn, bytes(range(24)))
    for f in ("chacha20", "salsa20"):
        for kn in (16, 32):
            for n in (1, 64, 150):
                def go(key, data):
                    put(k, key)
                    put(d, data)
                    t.run(f + "_init", s, k, kn, nn, 8, 0)
                    t.run(f + "_crypt", s, out, d, n)
                    t.run(f + "_derive", out, k, kn, nn)
                compare(ctx, t, "%s %d %d" % (f, kn, n), go,
                        zip(patterns(kn), itertools.cycle(patterns(n))))
                ctx.beat()

    # accumulators just below, at and above the prime, with a zero multiplier
    # clamp of the key, and every message length of one block and a bit
    tops = [b"\xff" * 16, b"\xfb" + b"\xff" * 15, b"\xfa" + b"\xff" * 15,
            b"\xfc" + b"\xff" * 15, bytes(16), b"\5" + bytes(15)]
    for n in range(0, 34):
        def go(key, data):
            put(k, key)
            put(d, data)
            t.run("poly1305_init", s, k)
            t.run("poly1305_update", s, d, n)
            t.run("poly1305_pad", s)
            t.run("poly1305_final", s, out)
        keys = patterns(32) + [r + e for r in (bytes(16), b"\1" + bytes(15),
                                               b"\2" + bytes(15))
                               for e in (bytes(16), b"\xff" * 16)]
        datas = patterns(n) + [(x * 3)[:n] for x in tops] + \
            [(x + bytes(16) + x)[:n] for x in tops]
        if ctx.quick and n % 16 not in (0, 1, 15):
            datas = datas[::3]
        compare(ctx, t, "poly1305 %d" % n, go, itertools.product(keys, datas))

    for n in (0, 1, 7, 8, 31):
        def go(key, data):
            put(k, key)
            put(d, data)
            t.run("siphash_sum", d, n, k)
            t.run("siphash_mod", d, n, k, 1000003)
            t.run("siphash128_sum", int.from_bytes(key[:8], "little"), k)
            t.run("siphash256_sum", int.from_bytes(key[8:], "little"), k)
        compare(ctx, t, "siphash %d" % n, go,
                itertools.product(patterns(16), patterns(n)))

    def go(key, data):
        put(k, key)
        put(d, data)
        t.run("chachapoly_init", s, k, nn, 12)
        t.run("chachapoly_aad", s, d, 20)
        t.run("chachapoly_encrypt", s, out, d, 70)
        t.run("chachapoly_final", s, out)
        t.run("secretbox_seal", out, d, 70, k, nn)
    compare(ctx, t, "chachapoly", go,
            itertools.product(patterns(32), patterns(70)))

    # zero, one and 2^16-1 are special in this cipher's multiplication
    words = [b"\0\0", b"\0\1", b"\xff\xff", b"\x80\0"]
    for f in ("idea_encrypt", "idea_decrypt"):
        def go(key, data):
            put(k, key)
            put(d, data)
            t.run("idea_init", s, k)
            t.run(f, s, out, d)
        keys = patterns(16) + [a * 4 + b * 4 for a in words for b in words]
        datas = [a + b + c + e for a in words for b in words for c in words
                 for e in words]
        compare(ctx, t, f, go, itertools.product(keys, datas))


# -- limb arithmetic -------------------------------------------------------

M64 = (1 << 64) - 1
LIMBS = (0, 1, 2, 1 << 63, M64)


def raw(v, n):
    return v.to_bytes(8 * n, "little")


def limbs(ctx, v):
    t = tracer(ctx, v)
    x, y, z, tab = t.buf(64), t.buf(64), t.buf(64), t.buf(1024)
    scr = t.buf(1 << 16)
    for n in (1, 2, 3):
        vals = [sum(l << 64 * i for i, l in enumerate(w))
                for w in itertools.product(LIMBS[:3 if n == 3 else 5],
                                           repeat=n)]
        if n == 3:
            vals = sorted(set(vals + [(1 << 192) - 1, 1 << 191, 1 << 127,
                                      (1 << 192) - 2, M64 << 64, M64 << 128]))
        pairs = list(itertools.product(vals, vals))
        for f in ("mpn_sec_equal_p", "mpn_sec_lt_p", "mpn_sec_lte_p",
                  "mpn_sec_gt_p", "mpn_sec_gte_p", "mpn_sec_cmp"):
            def go(a, b):
                put(x, raw(a, n))
                put(y, raw(b, n))
                t.run(f, x, y, n)
            compare(ctx, t, "%s %d" % (f, n), go, pairs)

        def go(a):
            put(x, raw(a, n))
            t.run("mpn_sec_zero_p", x, n)
        compare(ctx, t, "mpn_sec_zero_p %d" % n, go, vals)
        for f in ("mpn_sec_add_1", "mpn_sec_sub_1"):
            def go(a, b):
                put(x, raw(a, n))
                t.run(f, z, x, n, b)
            compare(ctx, t, "%s %d" % (f, n), go,
                    itertools.product(vals, LIMBS))
        for f in ("mpn_sec_add", "mpn_sec_sub"):
            for m in range(1, n + 1):
                def go(a, b):
                    put(x, raw(a, n))
                    put(y, raw(b, n))
                    t.run(f, z, x, n, y, m)
                compare(ctx, t, "%s %d %d" % (f, n, m), go,
                        [(a, b) for a, b in pairs if b >> 64 * m == 0])
        for c in ((0, 1, 2, 1 << 32, 1 << 63, M64),):
            def go(a, b, cnd):
                put(x, raw(a, n))
                put(y, raw(b, n))
                t.run("mpn_cnd_zero", z, x, n, cnd)
                t.run("mpn_cnd_select", z, x, y, n, cnd)
                t.run("mpn_cnd_add_n", z, x, y, n, cnd)
                t.run("mpn_cnd_sub_n", z, x, y, n, cnd)
                t.run("mpn_cnd_neg", z, x, n, cnd)
                t.run("mpn_cnd_swap", x, y, n, cnd)
            some = pairs if len(pairs) < 700 else pairs[::2]
            compare(ctx, t, "mpn_cnd %d" % n, go,
                    [(a, b, k) for a, b in some for k in c])
        for ents in (1, 2, 3, 8, 16):
            put(tab, bytes((i * 29) & 255 for i in range(8 * n * ents)))

            def go(i):
                t.run("mpn_sec_tabselect", z, tab, n, ents, i)
            compare(ctx, t, "mpn_sec_tabselect %d %d" % (n, ents), go,
                    list(range(ents)))


def modular(ctx, v):
    t = tracer(ctx, v)
    L = t.lib
    x, y, z, m, scr, kk = (t.buf(128), t.buf(128), t.buf(256), t.buf(128),
                           t.buf(1 << 18), t.buf(8))
    mods = [(1 << 64) - 59, (1 << 127) - 1, 2 ** 255 - 19,
            2 ** 256 - 2 ** 32 - 977]
    if not ctx.quick:
        mods += [3, 2 ** 224 - 2 ** 96 + 1, 2 ** 521 - 1]
    for mod in mods:
        n = (mod.bit_length() + 63) // 64
        put(m, raw(mod, n))
        k = -pow(mod, -1, 1 << 64) & M64
        vals = curves.edge_scalars(mod)

        def go(a, b):
            put(x, raw(a, n))
            put(y, raw(b, n))
            t.run("mpn_sec_montmul", z, x, y, m, n, k, scr)
        few = vals if n < 3 else vals[::2] + vals[-3:]
        compare(ctx, t, "mpn_sec_montmul %x" % mod, go,
                itertools.product(few, few))

        def go(a):
            put(x, raw(a, n))
            return t.run("mpn_sec_invert", z, x, n, m, n, scr)
        compare(ctx, t, "mpn_sec_invert %x" % mod, go, vals[::4] + vals[-2:])

        def go(a):
            put(x, raw(a, n))
            return t.run("mpn_sec_invert_n", z, x, m, n, scr)
        compare(ctx, t, "mpn_sec_invert_n %x" % mod, go, vals[::7])

        def go(a, b):
            put(x, raw(a, n))
            put(y, raw(b, n))
            t.run("mpn_sec_powm", z, x, n, y, n, m, n, scr)
            return a
        es = vals[::3] + vals[-2:]
        compare(ctx, t, "mpn_sec_powm %x" % mod, go,
                [(3 % mod, e) for e in es] + [(mod - 1, e) for e in es[::3]])

        # Big integers drop leading zero words, so the sizes are public.
        zs = [t.buf(L.MPZ_SIZE) for _ in range(4)]
        for q in zs:
            L.mpz_init(q)

        # The exponent is the secret.
        def go(a, e):
            for q, w in zip(zs[1:], (a, e, mod)):
                b = w.to_bytes(8 * n, "little")
                L.mpz_import(q, b, len(b), -1)
            t.run("mpz_powm_sec", *zs)
            return a, L.mpz_size(zs[0])
        top = 1 << 64 * (n - 1)
        # room for the result, and the same allocation for every run
        L.mpz_import(zs[0], (mod - 1).to_bytes(8 * n, "little"), 8 * n, -1)
        for q in zs[1:]:
            L.mpz_import(q, (mod - 1).to_bytes(8 * n, "little"), 8 * n, -1)
        compare(ctx, t, "mpz_powm_sec %x" % mod, go,
                [(a, e) for a in (mod - 1, mod // 2)
                 for e in vals[::3] if e >= top])


# -- curves ----------------------------------------------------------------

def scalars(ctx, n):
    vals = curves.edge_scalars(n, 1 if ctx.quick else 2)
    return [v for v in vals if v]


def wei(ctx, v, name, blind):
    t = tracer(ctx, v)
    L = t.lib
    cv = curves.WEI[name]
    ec = L.wei_curve_create(getattr(L, "WEI_CURVE_" + name))
    if blind:
        L.wei_curve_randomize(ec, bytes((i * 7 + 3) & 255 for i in range(32)))
    sz, n = cv.nsize, cv.n
    k, tw, out, out2, ln, msg, aux = (t.buf(72), t.buf(72), t.buf(160),
                                      t.buf(160), t.buf(8), t.buf(64),
                                      t.buf(32))
    out3 = t.buf(160)
    put(msg, bytes(range(32)))
    put(aux, bytes(range(32)))
    put(tw, (n // 5 * 3).to_bytes(sz, "big"))
    enc = lambda d: d.to_bytes(sz, "big")
    good = scalars(ctx, n)
    bad = [0, n, n + 1, (1 << 8 * sz) - 1]
    bad = [b for b in bad if b < 1 << 8 * sz]
    if ctx.quick:
        few = good[::5] + good[-2:]
    else:
        few = good[::2] + good[-2:]

    def one(op, vals, *rest, outcome=None):
        def go(d):
            put(k, enc(d))
            r = t.run(op, *[k if a is K else a for a in rest])
            return (r,) + (outcome() if outcome else ())
        compare(ctx, t, "%s %s%s" % (op, name, " blinded" * blind), go, vals)
        ctx.beat()

    K = object()
    pub, publen = t.buf(160), t.buf(8)
    L.ecdsa_pubkey_create(ec, pub, publen, enc(n // 3), 1)
    pl = int.from_bytes(publen.raw[:8], "little")
    xonly = t.buf(72)
    L.bip340_pubkey_create(ec, xonly, enc(n // 3))

    one("ecdsa_pubkey_create", good, ec, out, ln, K, 1)
    one("ecdsa_pubkey_create", few + bad, ec, out, ln, K, 0)
    one("ecdsa_derive", few, ec, out, ln, pub, pl, K, 1)
    one("ecdsa_sign", few, ec, out, None, msg, 32, K)
    one("ecdsa_sign", few[::2], ec, out, out2, msg, 32, K)
    if L.bipschnorr_support(ec):
        one("bipschnorr_sign", few, ec, out, msg, 32, K)
    one("bip340_sign", few, ec, out, msg, 32, K, aux)
    one("bip340_sign", few[::2], ec, out, msg, 32, K, None)
    one("bip340_pubkey_create", few, ec, out, K)
    one("bip340_derive", few, ec, out, xonly, K)
    one("bip340_privkey_tweak_add", few, ec, out, K, tw)
    one("bip340_privkey_tweak_mul", few, ec, out, K, tw)
    one("bip340_privkey_export", few, ec, out, out2, out3, K)
    one("bip340_privkey_invert", few, ec, out, K)
    if blind:
        return
    one("ecdsa_privkey_verify", good + bad, ec, K)
    one("ecdsa_privkey_export", good + bad, ec, out, K)
    one("ecdsa_privkey_import", good + bad, ec, out, K, sz)
    one("ecdsa_privkey_negate", good + bad, ec, out, K)
    one("ecdsa_privkey_invert", good + bad, ec, out, K)
    one("ecdsa_privkey_tweak_add", good + bad, ec, out, K, tw)
    one("ecdsa_privkey_tweak_mul", good + bad, ec, out, K, tw)
    one("bip340_privkey_verify", good + bad, ec, K)
    one("ecdsa_pubkey_tweak_add", few, ec, out, ln, pub, pl, K, 1)
    one("ecdsa_pubkey_tweak_mul", few, ec, out, ln, pub, pl, K, 1)


def ed(ctx, v, name, blind):
    t = tracer(ctx, v)
    L = t.lib
    cv = curves.ED[name]
    ec = L.edwards_curve_create(getattr(L, "EDWARDS_CURVE_" + name))
    if blind:
        L.edwards_curve_randomize(ec, bytes((i * 7 + 3) & 255
                                            for i in range(32)))
    ps = L.eddsa_privkey_size(ec)
    sz = L.edwards_curve_scalar_size(ec)
    k, out, out2, msg, tw, pre = (t.buf(160), t.buf(256), t.buf(256),
                                  t.buf(64), t.buf(72), t.buf(160))
    put(msg, bytes(range(32)))
    put(tw, (cv.n // 5 * 3).to_bytes(sz, "little"))
    put(pre, bytes(range(ps)))
    pub = t.buf(72)
    L.eddsa_pubkey_create(ec, pub, bytes(range(ps)))
    K = object()
    keys = patterns(ps)
    vals = scalars(ctx, cv.n)
    # unreduced scalars are allowed here
    vals += [w for w in (cv.n, cv.n + 1, (1 << 8 * sz) - 1,
                         1 << (cv.n.bit_length())) if w < 1 << 8 * sz]
    enc = [w.to_bytes(sz, "little") for w in [0] + vals]
    few = enc[::4] + enc[-3:] if ctx.quick else enc

    def one(op, secrets, *rest, void=False):
        def go(d):
            put(k, d)
            r = t.run(op, *[k if a is K else a for a in rest])
            return None if void else r
        compare(ctx, t, "%s %s%s" % (op, name, " blinded" * blind), go,
                secrets)
        ctx.beat()

    one("eddsa_pubkey_from_scalar", few if blind else enc, ec, out, K,
        void=True)
    one("eddsa_pubkey_create", keys, ec, out, K, void=True)
    one("eddsa_sign", keys, ec, out, msg, 32, K, -1, None, 0, void=True)
    if not ctx.quick or not blind:
        one("eddsa_sign", keys[::3], ec, out, msg, 32, K, 1, msg, 9,
            void=True)
        one("eddsa_sign_tweak_add", keys[::3], ec, out, msg, 32, K, tw, -1,
            None, 0, void=True)
        one("eddsa_sign_tweak_mul", keys[::3], ec, out, msg, 32, K, tw, -1,
            None, 0, void=True)
    one("eddsa_sign_with_scalar", few, ec, out, msg, 32, K, pre, -1, None, 0,
        void=True)
    if not blind:
        one("eddsa_derive", keys, ec, out, pub, K)
        one("eddsa_derive_with_scalar", few, ec, out, pub, K)
        one("eddsa_privkey_expand", keys, ec, out, out2, K, void=True)
        one("eddsa_privkey_convert", keys, ec, out, K, void=True)
        one("eddsa_scalar_clamp", enc, ec, out, K, void=True)
        one("eddsa_scalar_verify", enc, ec, K)
        one("eddsa_scalar_is_zero", enc, ec, K)
        one("eddsa_scalar_tweak_add", enc, ec, out, K, tw, void=True)
        one("eddsa_scalar_tweak_mul", enc, ec, out, K, tw, void=True)
        one("eddsa_scalar_reduce", enc, ec, out, K, void=True)
        one("eddsa_scalar_negate", enc, ec, out, K, void=True)
        one("eddsa_scalar_invert", few, ec, out, K, void=True)
        one("eddsa_pubkey_tweak_add", few, ec, out, pub, K)
        one("eddsa_pubkey_tweak_mul", few, ec, out, pub, K)

    rp = t.buf(72)
    rs = [w for w in enc if int.from_bytes(w, "little") < cv.n]
    rfew = rs[::4] + rs[-2:] if ctx.quick else rs
    bad = [w for w in enc if w not in rs]
    if L.ristretto_pubkey_create(ec, rp, (cv.n // 3).to_bytes(sz, "little")):
        one("ristretto_pubkey_create", rfew + bad, ec, out, K)
        if not blind:
            one("ristretto_derive", rfew, ec, out, rp, K)
            one("ristretto_privkey_verify", enc, ec, K)
            one("ristretto_privkey_is_zero", enc, ec, K)
            one("ristretto_privkey_negate", enc, ec, out, K)
            one("ristretto_privkey_invert", rfew, ec, out, K)
            one("ristretto_privkey_tweak_add", enc, ec, out, K, tw)
            one("ristretto_privkey_tweak_mul", enc, ec, out, K, tw)
            one("ristretto_pubkey_tweak_add", rfew, ec, out, rp, K)
            one("ristretto_pubkey_tweak_mul", rfew, ec, out, rp, K)


def mont(ctx, v, name):
    t = tracer(ctx, v)
    L = t.lib
    cv = curves.MONT[name]
    ec = L.mont_curve_create(getattr(L, "MONT_CURVE_" + name))
    sz = L.ecdh_privkey_size(ec)
    k, out, out2, pub = t.buf(72), t.buf(72), t.buf(72), t.buf(72)
    bits = 8 * sz
    keys = patterns(sz)
    full = (1 << bits) - 1
    keys += [w.to_bytes(sz, "little") for w in curves.edge_scalars(full)]
    keys = keys if not ctx.quick else keys[::2] + keys[:8]

    def go(d):
        put(k, d)
        t.run("ecdh_pubkey_create", ec, out, k)
        t.run("ecdh_privkey_export", ec, out2, k)
    compare(ctx, t, "ecdh_pubkey_create " + name, go, keys)
    ctx.beat()
    for p in (cv.u, 0, 1, cv.p - 1, cv.p, full):
        if p > full:
            continue

        def go(d):
            put(k, d)
            put(pub, p.to_bytes(sz, "little"))
            return t.run("ecdh_derive", ec, out, pub, k)
        compare(ctx, t, "ecdh_derive %s %x" % (name, p), go,
                keys if p == cv.u else keys[::3])
        ctx.beat()


# -- RSA -------------------------------------------------------------------

def rsa(ctx, bits):
    t = tracer(ctx, "rsa", heap=False)
    L = t.lib
    key = rsa_key(bits, 65537)
    priv = key.priv()
    pk, ct, out, ln, ent, lab = (t.buf(len(priv)), t.buf(512), t.buf(512),
                                 t.buf(8), t.buf(32), t.buf(8))
    put(pk, priv)
    put(ent, bytes(range(32)))
    n = key.k

    def block(m):
        return b"\0\2" + bytes((i * 5 + 3) % 255 + 1
                               for i in range(n - m - 3)) + b"\0" + \
            bytes((i * 31 + 7) % 255 + 1 for i in range(m))

    ems = set()
    for m in (0, 1, 16, n - 11, n - 10, n - 12, n - 3):
        em = block(m)
        ems.add(em)
        for i in range(n):
            for b in (0, 1, 2, 3, 0xff):
                w = bytearray(em)
                w[i] = b
                ems.add(bytes(w))
    for i in range(2, n):
        w = bytearray(b"\0\2" + b"\1" * (n - 2))
        w[i] = 0
        ems.add(bytes(w))
        for j in range(i):
            w = bytearray(w)
            if j > 1:
                w[j] = 0
                if j % 7 == 0:
                    ems.add(bytes(w))
                w[j] = 1
    # A leading zero word would change the sizes in the big integers.
    ems = [e for e in sorted(ems) if int.from_bytes(e, "big") < key.n
           and e[:8] != bytes(8)]
    if ctx.quick:
        ems = ems[::4]

    def go(em):
        put(ct, key.enc(em))
        put(ln, bytes(8))
        r = t.run("rsa_decrypt", out, ln, ct, n, pk, len(priv), ent)
        return r, bytes(ln.raw[:8]) if r else 0
    compare(ctx, t, "rsa_decrypt %d" % bits, go, ems)

    for want in (0, 16, n - 11):
        def go(em):
            put(ct, key.enc(em))
            return t.run("rsa_decrypt_key", out, want, ct, n, pk, len(priv),
                         ent)
        compare(ctx, t, "rsa_decrypt_key %d %d" % (bits, want), go, ems[::2])

    for name in ("SHA1", "SHA256") if bits >= 600 else ("SHA1",):
        seed = bytes(range(L.hash_output_size(getattr(L, "HASH_" + name))))
        hl = len(seed)
        ems2 = set()
        for m in (0, 1, n - 2 * hl - 2):
            msg = bytes((i * 3 + 1) & 255 for i in range(m))
            em = pkcs1.oaep_encode(name, n, msg, b"", seed)
            ems2.add(em)
            db = pkcs1.oaep_open(name, em, b"")
            db = db[2]
            for i in range(len(db)):
                for d in (1, 0x80, 0xff):
                    w = bytearray(db)
                    w[i] ^= d
                    ems2.add(pkcs1.oaep_mask(name, b"\0", seed, bytes(w)))
            for i in range(1, n):
                for d in (1, 0xff):
                    w = bytearray(em)
                    w[i] ^= d
                    ems2.add(bytes(w))
            for f in (1, 2, 0x3f):
                ems2.add(bytes([f]) + em[1:])
        ems2 = [e for e in sorted(ems2) if int.from_bytes(e, "big") < key.n]

        def go(em):
            put(ct, key.enc(em))
            put(ln, bytes(8))
            r = t.run("rsa_decrypt_oaep", out, ln, getattr(L, "HASH_" + name),
                      ct, n, pk, len(priv), lab, 0, ent)
            return r, bytes(ln.raw[:8]) if r else 0
        compare(ctx, t, "rsa_decrypt_oaep %d %s" % (bits, name), go, ems2)


HASH = ["MD4", "MD5", "MD5SHA1", "SHA1", "SHA224", "SHA256", "SHA384",
        "SHA512", "RIPEMD160", "HASH160", "HASH256", "BLAKE2B_512",
        "BLAKE2S_256", "SHA3_256", "SHA3_512", "KECCAK256", "SHAKE128",
        "SHAKE256"]


def tasks(tier):
    out = []
    vs = ["n64", "p32"] if tier == "quick" else ["n64", "p32", "i128"]
    for v in vs:
        out.append(Task("util-" + v, util, (v,)))
        out.append(Task("padding-" + v, padding, (v,)))
        out.append(Task("tags-" + v, tags, (v,)))
        out.append(Task("kdf-" + v, kdfs, (v,)))
        out.append(Task("ciphers-" + v, ciphers, (v,)))
        out.append(Task("limbs-" + v, limbs, (v,)))
        out.append(Task("modular-" + v, modular, (v,)))
        for i in range(3):
            out.append(Task("hash-%s-%d" % (v, i), hashes, (v, HASH[i::3])))
        for name in curves.WEI:
            for b in (0, 1):
                out.append(Task("wei-%s-%s-%d" % (v, name, b), wei,
                                (v, name, b)))
        for name in curves.ED:
            for b in (0, 1):
                out.append(Task("ed-%s-%s-%d" % (v, name, b), ed,
                                (v, name, b)))
        for name in curves.MONT:
            out.append(Task("mont-%s-%s" % (v, name), mont, (v, name)))
    out.append(Task("rsa-512", rsa, (512,)))
    if tier != "quick":
        out.append(Task("rsa-1024", rsa, (1024,)))
    # longest first
    out.sort(key=lambda t: -sum(w in t.name for w in
                                ("P384", "P521", "448", "p32", "i128")))
    return out
