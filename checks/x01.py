"""X01: memory safety on arbitrary input.

Every function that takes untrusted bytes is called, in a build with the
address and undefined-behaviour sanitizers, with each buffer in an allocation
of exactly its size.  Each call is made twice over different garbage in the
heap, the stack and the outputs: results and outputs must agree, inputs stay
as they were and nothing may be left allocated."""

import itertools

from mc import curves, ffc, guard, pkcs1, texts
from mc.ciphers import BLOCK
from mc.core import Task
from mc.guard import O, Z
from mc.numth import der_int, der_seq, rsa_key

BOUNDS = ("per function: every prefix, 6 extensions, every deletion, "
          "duplication and insertion of 4 bytes, every byte x 14 values of "
          "one or more valid inputs; all inputs of 0, 1 and 2 bytes; text "
          "decoders: all strings of up to 4 characters over a 9-letter "
          "alphabet and all lengths to 200; streams: all lengths to 3 blocks, "
          "all two-part splits; all curves, ciphers x modes, hashes; 64-bit "
          "build with assembly, and the portable build for parsers and curves")
ASSUMPTIONS = [
    "output sizes are those of the size macros and functions of the headers, "
    "otherwise the fixed sizes of the scheme",
    "an output byte is in a defined state if it is untouched or a function of "
    "the inputs",
    "bcrypt records asking for more than 2^5 rounds are not tried",
]
LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of near-valid and short inputs on the "
             "real code under sanitizers, with exactly sized buffers and "
             "self-composition over memory contents")
LIBS = ()
STALL = 120

MACROS = [
    "RSA_MAX_PRIV_SIZE", "RSA_MAX_PUB_SIZE", "RSA_MAX_MOD_SIZE",
    "DSA_MAX_PARAMS_SIZE", "DSA_MAX_PUB_SIZE", "DSA_MAX_PRIV_SIZE",
    "DSA_MAX_SIZE", "DSA_MAX_SIG_SIZE", "DSA_MAX_DER_SIZE",
    "ECDSA_MAX_DER_SIZE", "BECH32_MAX_HRP_SIZE",
    "BECH32_MAX_DESERIALIZE_SIZE", "BECH32_MAX_DECODE_SIZE",
    "BECH32_MAX_SERIALIZE_SIZE", "CASH32_MAX_PREFIX_SIZE",
    "CASH32_MAX_DESERIALIZE_SIZE", "CASH32_MAX_DECODE_SIZE",
    "CASH32_MAX_SERIALIZE_SIZE", "CIPHER_MAX_FINAL_SIZE",
]
TYPES = ["hash_t", "hmac_t", "cipher_t", "cipher_stream_t", "chacha20_t",
         "salsa20_t", "arc4_t", "poly1305_t", "chachapoly_t", "hmac_drbg_t",
         "hash_drbg_t", "ctr_drbg_t", "cbc_t", "xts_t", "ctr_t", "cfb_t",
         "ofb_t", "gcm_t", "ccm_t", "eax_t", "mpz_t"]
FUNS = ["BASE32_DECODE_SIZE(%d)", "BASE64_DECODE_SIZE(%d)",
        "BASE16_DECODE_SIZE(%d)", "BASE58_DECODE_SIZE(%d)",
        "CIPHER_MAX_DECRYPT_SIZE(%d)", "SECRETBOX_OPEN_SIZE(%d)",
        "BASE32_ENCODE_SIZE(%d)", "BASE64_ENCODE_SIZE(%d)",
        "BASE16_ENCODE_SIZE(%d)", "BASE58_ENCODE_SIZE(%d)"]
NFUN = 260


def prepare(tier):
    exprs = MACROS + ["sizeof(%s)" % t for t in TYPES]
    exprs += [f % n for f in FUNS for n in range(NFUN)]
    return {"lib": {v: guard.library(v) for v in ("asan64", "asan32")},
            "val": guard.values(exprs)}


def start(ctx):
    g = guard.Guard(ctx, ctx.cfg["extra"]["lib"][ctx.variant])
    g.val = ctx.cfg["extra"]["val"]
    return g, g.L


VALUES = (0, 1, 2, 3, 0x30, 0x7f, 0x80, 0x81, 0x82, 0x84, 0xff)


def mutate(s, wide=True):
    """s, and everything one edit away."""
    out = [s]
    out += [s[:i] for i in range(len(s))]
    out += [s[i:] for i in range(1, min(len(s), 12))]
    out += [s + e for e in (b"\0", b"\xff", b"\x02\x01\x01", bytes(8), s[:1],
                            b"\x80" * 40)]
    for i in range(len(s)):
        vals = {s[i] ^ 1, s[i] ^ 0x80, (s[i] + 1) & 255, (s[i] - 1) & 255}
        if wide:
            vals |= set(VALUES)
        out += [s[:i] + bytes([v]) + s[i + 1:] for v in sorted(vals - {s[i]})]
        if wide:
            out.append(s[:i] + s[i + 1:])
            out += [s[:i] + e + s[i:] for e in (s[i:i + 1], b"\0", b"\x81",
                                                b"\x82\0", b"\x84\xff")]
    return list(dict.fromkeys(out))


def lengths(s):
    """DER lengths inflated: every byte as a length of up to 8 bytes."""
    out = []
    for i in range(len(s)):
        for k in (1, 2, 3, 4, 5, 8, 9, 0x7f):
            for f in (b"\0", b"\xff", b"\x01", b"\x7f"):
                out.append(s[:i] + bytes([0x80 | k]) + f * min(k, 9) + s[i:])
                out.append(s[:i] + bytes([0x80 | k]) + f * min(k, 9) +
                           s[i + 1:])
    return list(dict.fromkeys(out))


SHORT = [b""] + [bytes([a]) for a in range(256)]
SHORT2 = [bytes(p) for p in itertools.product(range(256), repeat=2)]


def small_der(count, ctx):
    """Sequences of tiny integers: every content of up to 4 or 5 bytes over
    a few tokens under a true length, and tuples of small values."""
    toks = (0, 1, 2, 0x7f, 0x80, 0x81, 0xff)
    out = []
    for n in range(5 if ctx.quick else 6):
        for t in itertools.product(toks, repeat=n):
            for h in (n, n + 1):
                out.append(b"\x30" + bytes([h]) + bytes(t))
    vals = (0, 1, 127, 128, 255, 256)
    head = max(count - 3, 0)
    for t in itertools.product(vals, repeat=min(count, 3)):
        s = der_seq(*[der_int(v) for v in (0,) * head + t])
        out += [s, s[:-1], s[:-2], s[:-3], s + b"\0"]
        # an empty integer, or one with spare zeros, at the end
        body = s[2:]
        for tail in (b"\2\0", b"\2\2\0\0", b"\2\1\0", b"\2\x81\1\0"):
            b = body + tail
            out.append(b"\x30" + bytes([len(b)]) + b)
            b = b"".join(der_int(v) for v in (0,) * head + t[:-1]) + tail
            out.append(b"\x30" + bytes([len(b)]) + b)
    return list(dict.fromkeys(out))


def thin(ctx, v):
    return v[::4] if ctx.quick else v


def sweep(ctx, name, inputs, *calls):
    for d in inputs:
        ctx.case(name, d)
        for c in calls:
            c(d)
    ctx.states(len(inputs))
    ctx.extra["functions"] = ctx.extra.get("functions", 0) + len(calls)


# -- RSA -------------------------------------------------------------------

ENT = bytes(range(32))


def rsa_priv(ctx, part):
    g, L = start(ctx)
    key = rsa_key(512, 65537)
    priv = key.priv()
    PRIV, PUB, MOD = (g.val["RSA_MAX_PRIV_SIZE"], g.val["RSA_MAX_PUB_SIZE"],
                      g.val["RSA_MAX_MOD_SIZE"])
    inputs = mutate(priv)
    if part == 0:
        inputs = SHORT + SHORT2[::5] + lengths(priv[:40])
        inputs += small_der(9, ctx) + small_der(2, ctx)
    elif part == 1:
        inputs = inputs[::2]
    else:
        inputs = inputs[1::2]
    c = key.enc(b"\0\2" + b"\1" * (key.k - 8) + b"\0hello")
    sweep(ctx, "rsa private key", inputs,
          lambda d: g.call("rsa_privkey_bits", d, len(d)),
          lambda d: g.call("rsa_privkey_verify", d, len(d)),
          lambda d: g.call("rsa_privkey_export", O(PRIV), Z(), d, len(d)),
          lambda d: g.call("rsa_pubkey_create", O(PUB), Z(), d, len(d)))
    if part == 0:
        _, (exp, n) = g.call("rsa_privkey_export", O(PRIV), Z(), priv,
                             len(priv))
        sweep(ctx, "rsa private import", thin(ctx, mutate(exp[:n])),
              lambda d: g.call("rsa_privkey_import", O(PRIV), Z(), d, len(d),
                               ENT))
    sweep(ctx, "rsa import, sign, decrypt", inputs if part == 0
          else inputs[::4] if ctx.quick else inputs,
          lambda d: g.call("rsa_privkey_import", O(PRIV), Z(), d, len(d), ENT),
          lambda d: g.call("rsa_sign", O(MOD), Z(), L.HASH_SHA256, bytes(32),
                           32, d, len(d), ENT),
          lambda d: g.call("rsa_decrypt", O(MOD), Z(), c, len(c), d, len(d),
                           ENT))


def rsa_pub(ctx):
    g, L = start(ctx)
    key = rsa_key(512, 65537)
    pub = key.pub()
    PUB, MOD = g.val["RSA_MAX_PUB_SIZE"], g.val["RSA_MAX_MOD_SIZE"]
    sig = bytes(range(64))
    inputs = mutate(pub) + SHORT + SHORT2[::7] + lengths(pub)
    inputs += small_der(2, ctx)
    sweep(ctx, "rsa public key", inputs,
          lambda d: g.call("rsa_pubkey_bits", d, len(d)),
          lambda d: g.call("rsa_pubkey_verify", d, len(d)),
          lambda d: g.call("rsa_pubkey_import", O(PUB), Z(), d, len(d)),
          lambda d: g.call("rsa_pubkey_export", O(PUB), Z(), d, len(d)))
    _, (exp, n) = g.call("rsa_pubkey_export", O(PUB), Z(), pub, len(pub))
    sweep(ctx, "rsa public import", mutate(exp[:n]),
          lambda d: g.call("rsa_pubkey_import", O(PUB), Z(), d, len(d)))
    sweep(ctx, "rsa public key use", inputs[::3] if ctx.quick else inputs,
          lambda d: g.call("rsa_verify", L.HASH_SHA256, bytes(32), 32, sig,
                           len(sig), d, len(d)),
          lambda d: g.call("rsa_verify_pss", L.HASH_SHA1, bytes(20), 20, sig,
                           len(sig), d, len(d), -1),
          lambda d: g.call("rsa_encrypt", O(MOD), Z(), b"hello", 5, d, len(d),
                           ENT),
          lambda d: g.call("rsa_encrypt_oaep", O(MOD), Z(), L.HASH_SHA1,
                           b"hello", 5, d, len(d), b"", 0, ENT))


PSS = ("SHA1", "SHA256", "SHA512")


def rsa_msg(ctx, sizes):
    g, L = start(ctx)
    for bits in sizes:
        key = rsa_key(bits, 65537)
        priv, pub, k = key.priv(), key.pub(), key.k
        h = bytes(range(32))

        def use(d):
            n = len(d)
            g.call("rsa_decrypt", O(k), Z(), d, n, priv, len(priv), ENT)
            g.call("rsa_decrypt_key", O(16), 16, d, n, priv, len(priv), ENT)
            g.call("rsa_decrypt_oaep", O(k), Z(), L.HASH_SHA1, d, n, priv,
                   len(priv), b"ab", 2, ENT)
            g.call("rsa_verify", L.HASH_SHA256, h, 32, d, n, pub, len(pub))
            g.call("rsa_verify_pss", L.HASH_SHA1, h[:20], 20, d, n, pub,
                   len(pub), -1)
            g.call("rsa_verify_pss", L.HASH_SHA1, h[:20], 20, d, n, pub,
                   len(pub), 5)
            for b in (0, 1, bits, bits + 7, bits + 16):
                g.call("rsa_unveil", O(k), Z(), d, n, b, pub, len(pub))
                g.call("rsa_veil", O((b + 7) // 8 + 1), Z(), d, n, b, pub,
                       len(pub), ENT)
        ems = [b"\0\2" + b"\1" * (k - m - 3) + b"\0" + b"m" * m
               for m in (0, 5, k - 11)]
        cts = [key.enc(e) for e in ems]
        inputs = list(cts)
        for c in cts[:1]:
            inputs += mutate(c, False)
        inputs += [key.n.to_bytes(k, "big"), (key.n - 1).to_bytes(k, "big"),
                   bytes(k), b"\xff" * k, b"\0" * (k - 1) + b"\1"]
        inputs += SHORT[:3]
        if ctx.quick:
            inputs = inputs[::2]
        sweep(ctx, "rsa message %d" % bits, inputs, use)
        # well-formed and nearly well-formed encodings
        ems, embits = [], bits - 1
        en = (embits + 7) // 8
        for hn in PSS:
            hl = pkcs1.HASHES[hn][0]
            mh = bytes(hl)
            for sl in range(0, max(en - hl - 1, 0)):
                for ps, sep in ((None, 1), (None, 0), (None, 2)):
                    e = pkcs1.pss_encode(hn, mh, embits, bytes(sl), ps, sep)
                    if e:
                        ems.append((hn, e))
            if en > hl + 1:
                # a data block of zeros only
                hh = bytes(range(hl))
                db = bytearray(pkcs1.mgf1(hn, hh, en - hl - 1))
                db[0] &= 0xff >> (8 * en - embits)
                ems.append((hn, bytes(db) + hh + b"\xbc"))
            for b in (b"\0", b"\1", b"\x7f"):
                ems.append((hn, b * (en - 1) + b"\xbc"))
        for hn, e in ems:
            d = key.sig(b"\0" * (k - en) + e)
            hl = pkcs1.HASHES[hn][0]
            t = getattr(L, "HASH_" + hn)
            for sl in (-1, 0, 1, 5, en - hl - 3, en - hl - 2, en - hl - 1,
                       en, k, 255):
                ctx.case("pss", bits, hn, e, sl)
                g.call("rsa_verify_pss", t, bytes(hl), hl, d, k, pub,
                       len(pub), sl)
                g.call("rsa_sign_pss", O(k), Z(), t, bytes(hl), hl, priv,
                       len(priv), sl, ENT)
            ctx.states(1)
        for hn in PSS:
            hl = pkcs1.HASHES[hn][0]
            t = getattr(L, "HASH_" + hn)
            es = [b"\0\2" + b"\1" * i + b"\0" * (k - 2 - i)
                  for i in range(k - 1)]
            es += [b"\0\2" + b"\1" * (k - 2), b"\0\1" + b"\xff" * (k - 2)]
            es += [pkcs1.type1(bytes(m), k) for m in range(k - 10)]
            if k > 2 * hl + 2:
                n = k - hl - 1
                lh = pkcs1.HASHES[hn][2](b"")
                for m in range(0, n - hl + 1):
                    for mid in (b"\1", b"\0", b"\2"):
                        db = (lh + bytes(m) + mid + bytes(n))[:n]
                        es.append(pkcs1.oaep_mask(hn, b"\0", bytes(hl), db))
            for e in es:
                if not e or int.from_bytes(e, "big") >= key.n:
                    continue
                ctx.case("padding", bits, hn, e)
                c = key.enc(e)
                g.call("rsa_decrypt", O(k), Z(), c, k, priv, len(priv), ENT)
                g.call("rsa_decrypt_oaep", O(k), Z(), t, c, k, priv,
                       len(priv), b"", 0, ENT)
                g.call("rsa_decrypt_key", O(16), 16, c, k, priv, len(priv),
                       ENT)
                g.call("rsa_verify", t, bytes(hl), hl, key.sig(e), k, pub,
                       len(pub))
                ctx.states(1)
        # message and digest lengths
        for n in range(k + 3):
            ctx.case("rsa lengths", bits, n)
            m = bytes((i * 7 + 1) & 255 for i in range(n))
            g.call("rsa_encrypt", O(k), Z(), m, n, pub, len(pub), ENT)
            g.call("rsa_encrypt_oaep", O(k), Z(), L.HASH_SHA1, m, n, pub,
                   len(pub), m, n, ENT)
            g.call("rsa_sign", O(k), Z(), L.HASH_SHA256, m, n, priv,
                   len(priv), ENT)
            g.call("rsa_sign_pss", O(k), Z(), L.HASH_SHA1, m[:20], len(m[:20]),
                   priv, len(priv), n, ENT)
            g.call("rsa_verify", L.HASH_SHA256, m, n, cts[0], k, pub, len(pub))
            g.call("rsa_decrypt_key", O(n), n, cts[1], k, priv, len(priv),
                   ENT)
        ctx.states(k + 3)


# -- DSA -------------------------------------------------------------------

def dsa_keys(ctx, part):
    g, L = start(ctx)
    grp = ffc.group(512, 160)
    key = ffc.Key(grp, grp[1] // 3)
    par, pub, priv = key.params(), key.pub(), key.priv()
    other = ffc.Key(grp, 7).priv()
    PAR, PUB, PRIV, SZ = (g.val["DSA_MAX_PARAMS_SIZE"],
                          g.val["DSA_MAX_PUB_SIZE"],
                          g.val["DSA_MAX_PRIV_SIZE"], g.val["DSA_MAX_SIZE"])
    SIG = g.val["DSA_MAX_SIG_SIZE"]
    short = SHORT + SHORT2[::9] + small_der((3, 4, 6, 2)[part], ctx)
    if part == 0:
        inputs = mutate(par) + short + lengths(par[:30])
        sweep(ctx, "dsa parameters", inputs,
              lambda d: g.call("dsa_params_bits", d, len(d)),
              lambda d: g.call("dsa_params_qbits", d, len(d)),
              lambda d: g.call("dsa_params_import", O(PAR), Z(), d, len(d)),
              lambda d: g.call("dsa_params_export", O(PAR), Z(), d, len(d)))
        _, (exp, n) = g.call("dsa_params_export", O(PAR), Z(), par, len(par))
        sweep(ctx, "dsa parameters import", mutate(exp[:n]),
              lambda d: g.call("dsa_params_import", O(PAR), Z(), d, len(d)))
        sweep(ctx, "dsa parameters use", thin(ctx, inputs),
              lambda d: g.call("dsa_params_verify", d, len(d)),
              lambda d: g.call("dsa_privkey_create", O(PRIV), Z(), d, len(d),
                               ENT))
    elif part == 1:
        inputs = mutate(pub) + short + lengths(pub[:30])
        s = key.enc(*key.sign(bytes(20)))
        sweep(ctx, "dsa public key", inputs,
              lambda d: g.call("dsa_pubkey_bits", d, len(d)),
              lambda d: g.call("dsa_pubkey_qbits", d, len(d)),
              lambda d: g.call("dsa_pubkey_import", O(PUB), Z(), d, len(d)),
              lambda d: g.call("dsa_pubkey_export", O(PUB), Z(), d, len(d)),
              lambda d: g.call("dsa_params_create", O(PAR), Z(), d, len(d)))
        _, (exp, n) = g.call("dsa_pubkey_export", O(PUB), Z(), pub, len(pub))
        sweep(ctx, "dsa public key import", mutate(exp[:n]),
              lambda d: g.call("dsa_pubkey_import", O(PUB), Z(), d, len(d)))
        sweep(ctx, "dsa public key use", thin(ctx, inputs),
              lambda d: g.call("dsa_pubkey_verify", d, len(d)),
              lambda d: g.call("dsa_verify", bytes(20), 20, s, len(s), d,
                               len(d)),
              lambda d: g.call("dsa_derive", O(SZ), Z(), d, len(d), other,
                               len(other)))
    elif part == 2:
        inputs = mutate(priv) + short
        sweep(ctx, "dsa private key", inputs,
              lambda d: g.call("dsa_privkey_bits", d, len(d)),
              lambda d: g.call("dsa_privkey_qbits", d, len(d)),
              lambda d: g.call("dsa_privkey_import", O(PRIV), Z(), d, len(d)),
              lambda d: g.call("dsa_privkey_export", O(PRIV), Z(), d, len(d)),
              lambda d: g.call("dsa_pubkey_create", O(PUB), Z(), d, len(d)))
        _, (exp, n) = g.call("dsa_privkey_export", O(PRIV), Z(), priv, len(priv))
        sweep(ctx, "dsa private key import", mutate(exp[:n]),
              lambda d: g.call("dsa_privkey_import", O(PRIV), Z(), d, len(d)))
        sweep(ctx, "dsa private key use", thin(ctx, inputs),
              lambda d: g.call("dsa_privkey_verify", d, len(d)),
              lambda d: g.call("dsa_sign", O(SIG), Z(), bytes(20), 20, d,
                               len(d), ENT))
    else:
        raw = key.enc(*key.sign(bytes(20)))
        DER = g.val["DSA_MAX_DER_SIZE"]
        n = len(raw) // 2
        _, (der, ln) = g.call("dsa_sig_export", O(DER), Z(), raw, len(raw), n)
        der = der[:ln]
        inputs = mutate(der) + SHORT + SHORT2 + lengths(der)
        inputs += small_der(2, ctx)
        for q in (20, 28, 32):
            sweep(ctx, "dsa signature import %d" % q, inputs,
                  lambda d: g.call("dsa_sig_import", O(2 * q), Z(), d, len(d),
                                   q))
        inputs = mutate(raw) + SHORT[:4]
        for q in (0, 1, 19, 20, 21, 28, 32, 33, 40, 64, -1):
            sweep(ctx, "dsa signature export %d" % q, inputs[::5],
                  lambda d: g.call("dsa_sig_export", O(DER), Z(), d, len(d),
                                   q))
        sweep(ctx, "dsa verify", thin(ctx, inputs),
              lambda d: g.call("dsa_verify", bytes(20), 20, d, len(d), pub,
                               len(pub)))
        for n in range(70):
            ctx.case("dsa digest", n)
            m = bytes((i * 3 + 1) & 255 for i in range(n))
            g.call("dsa_verify", m, n, raw, len(raw), pub, len(pub))
            g.call("dsa_sign", O(SIG), Z(), m, n, priv, len(priv), ENT)
        ctx.states(70)


# -- curves ----------------------------------------------------------------

def field_values(c, size, order="big"):
    vs = [0, 1, 2, c.p - 1, c.p, c.p + 1, c.n, c.n - 1, (1 << 8 * size) - 1,
          (1 << 8 * size - 1), c.p // 2, 5, 7]
    return [v.to_bytes(size, order) for v in vs if v < 1 << 8 * size]


def wei(ctx, name, part):
    g, L = start(ctx)
    c = curves.WEI[name]
    ec = L.wei_curve_create(getattr(L, "WEI_CURVE_" + name))
    slow = ctx.variant == "asan32"
    sz, ss = c.size, c.nsize
    d1 = (c.n // 3).to_bytes(ss, "big")
    P = c.mulg(c.n // 3)
    x, y = P[0].to_bytes(sz, "big"), P[1].to_bytes(sz, "big")
    comp = bytes([2 | P[1] & 1]) + x
    unc = b"\4" + x + y
    hyb = bytes([6 | P[1] & 1]) + x + y
    size = lambda k: L.ecdsa_pubkey_size(ec, k)
    h = bytes(range(32))
    _, (sig, _p) = g.call("ecdsa_sign", ec, O(2 * ss), Z(-1, 4), h, 32, d1)
    if part == "pub":
        inputs = list(SHORT)
        for s in (comp, unc, hyb):
            inputs += mutate(s, False) if slow else mutate(s)
        for pre in range(9):
            for v in field_values(c, sz):
                inputs.append(bytes([pre]) + v)
                for w in field_values(c, sz)[:4]:
                    inputs.append(bytes([pre]) + v + w)
        inputs = list(dict.fromkeys(inputs))
        if ctx.quick and slow:
            inputs = inputs[::9]
        elif ctx.quick and sz > 32:
            inputs = inputs[::4]

        def use(d):
            n = len(d)
            g.call("ecdsa_pubkey_verify", ec, d, n)
            for k in (0, 1):
                g.call("ecdsa_pubkey_convert", ec, O(size(k)), Z(), d, n, k)
            g.call("ecdsa_pubkey_export", ec, O(sz), O(sz), d, n)
            g.call("ecdsa_pubkey_negate", ec, O(size(1)), Z(), d, n, 1)
        sweep(ctx, "ecdsa public key", inputs, use)

        def more(d):
            n = len(d)
            g.call("ecdsa_pubkey_add", ec, O(size(0)), Z(), d, n, comp,
                   len(comp), 0)
            g.call("ecdsa_pubkey_combine", ec, O(size(1)), Z(), [comp, d, unc],
                   b"".join(len(q).to_bytes(8, "little")
                            for q in (comp, d, unc)), 3, 1)
            g.call("ecdsa_pubkey_tweak_add", ec, O(size(1)), Z(), d, n, d1, 1)
            g.call("ecdsa_pubkey_tweak_mul", ec, O(size(1)), Z(), d, n, d1, 1)
            g.call("ecdsa_pubkey_to_uniform", ec, O(sz), d, n, 0)
            g.call("ecdsa_derive", ec, O(size(1)), Z(), d, n, d1, 1)
            g.call("ecdsa_verify", ec, h, 32, sig, d, n)
            if L.bipschnorr_support(ec):
                g.call("bipschnorr_verify", ec, h, 32, bytes(sz + ss), d, n)
        sweep(ctx, "ecdsa public key use", inputs[::37 if slow else 25]
              if ctx.quick else inputs[::8 if slow else 3], more)
    elif part == "sig":
        _, (der, n) = g.call("ecdsa_sig_export", ec,
                             O(g.val["ECDSA_MAX_DER_SIZE"]), Z(), sig)
        der = der[:n]
        inputs = mutate(der) + SHORT + lengths(der[:20])
        inputs += small_der(2, ctx)
        if name in ("P256", "P521") and not slow:
            inputs += SHORT2 + lengths(der)
        sweep(ctx, "ecdsa der", inputs,
              lambda d: g.call("ecdsa_sig_import", ec, O(2 * ss), d, len(d)),
              lambda d: g.call("ecdsa_sig_import_lax", ec, O(2 * ss), d,
                               len(d)))
        vals = field_values(c, ss)
        sigs = [a + b for a in vals for b in vals]

        def use(s):
            g.call("ecdsa_sig_export", ec, O(2 * ss + 9), Z(), s)
            g.call("ecdsa_sig_normalize", ec, O(2 * ss), s)
            g.call("ecdsa_is_low_s", ec, s)
            for prm in (0, 1, 2, 3, 4, 0xffffffff):
                g.call("ecdsa_recover", ec, O(size(1)), Z(), h, 32, s, prm, 1)
            g.call("ecdsa_verify", ec, h, 32, s, comp, len(comp))
        sweep(ctx, "ecdsa signature", sigs[::5] if ctx.quick else sigs, use)
        for n in list(range(0, 70)) + [200]:
            ctx.case("ecdsa digest", n)
            m = bytes((i * 3 + 1) & 255 for i in range(n))
            g.call("ecdsa_verify", ec, m, n, sig, comp, len(comp))
            if not ctx.quick or n % 8 == 0:
                g.call("ecdsa_sign", ec, O(2 * ss), None, m, n, d1)
                g.call("bip340_sign", ec, O(sz + ss), m, n, d1, None)
                g.call("ecdsa_recover", ec, O(size(0)), Z(), m, n, sig, 0, 0)
        ctx.states(71)
    else:
        for n in range(0, ss + 20):
            for b in (b"\0", b"\1", b"\xff"):
                ctx.case("privkey import", n, b)
                g.call("ecdsa_privkey_import", ec, O(ss), b * n, n)
                g.call("bip340_privkey_import", ec, O(ss), b * n, n)
                ctx.states(1)
        for n in range(0, sz + 4):
            for m in (0, 1, sz, sz + 1, sz + 20):
                ctx.case("pubkey import", n, m)
                for sgn in (-1, 0, 1):
                    g.call("ecdsa_pubkey_import", ec, O(size(1)), Z(), x[:n] +
                           bytes(n - len(x[:n])), n, y[:m] +
                           bytes(m - len(y[:m])), m, sgn, 1)
                g.call("bip340_pubkey_import", ec, O(sz), x[:n] +
                       bytes(n - len(x[:n])), n, y[:m] +
                       bytes(m - len(y[:m])), m)
                ctx.states(1)
        keys = field_values(c, ss)
        for k in keys:
            ctx.case("privkey", k)
            g.call("ecdsa_privkey_verify", ec, k)
            g.call("ecdsa_privkey_export", ec, O(ss), k)
            g.call("ecdsa_privkey_tweak_add", ec, O(ss), k, d1)
            g.call("ecdsa_privkey_tweak_mul", ec, O(ss), k, d1)
            g.call("ecdsa_privkey_negate", ec, O(ss), k)
            g.call("ecdsa_privkey_invert", ec, O(ss), k)
            g.call("bip340_privkey_export", ec, O(ss), O(sz), O(sz), k)
            g.call("bip340_privkey_tweak_add", ec, O(ss), k, d1)
            g.call("bip340_pubkey_create", ec, O(sz), k)
            g.call("ecdsa_pubkey_create", ec, O(size(0)), Z(), k, 0)
            g.call("ecdsa_sign", ec, O(2 * ss), Z(-1, 4), h, 32, k)
            g.call("bip340_sign", ec, O(sz + ss), h, 32, k, h)
            ctx.states(1)
        _, (s340,) = g.call("bip340_sign", ec, O(sz + ss), h, 32, d1, None)
        _, (x340,) = g.call("bip340_pubkey_create", ec, O(sz), d1)
        xs = field_values(c, sz) + [x340]
        for k in xs:
            ctx.case("x-only", k)
            g.call("bip340_pubkey_verify", ec, k)
            g.call("bip340_pubkey_export", ec, O(sz), O(sz), k)
            g.call("bip340_pubkey_tweak_add", ec, O(sz), Z(-1, 4), k, d1)
            g.call("bip340_pubkey_tweak_mul", ec, O(sz), Z(-1, 4), k, d1)
            g.call("bip340_pubkey_tweak_add_check", ec, k, d1, k, 0)
            g.call("bip340_pubkey_add", ec, O(sz), k, x340)
            g.call("bip340_pubkey_combine", ec, O(sz), [k, x340, k], 3)
            g.call("bip340_pubkey_to_uniform", ec, O(sz), k, 0)
            g.call("bip340_derive", ec, O(sz), k, d1)
            g.call("bip340_verify", ec, h, 32, s340, k)
            ctx.states(1)
        for a in field_values(c, sz)[::2]:
            for b in field_values(c, ss)[::3]:
                ctx.case("bip340 signature", a, b)
                g.call("bip340_verify", ec, h, 32, a + b, x340)
                ctx.states(1)
        sold = None
        if name != "P224":
            _, sold = g.call("bipschnorr_sign", ec, O(sz + ss), h, 32, d1)
            sold = sold[0]
            old = g.call("ecdsa_pubkey_create", ec, O(size(1)), Z(), d1, 1)
            old = old[1][0]
        for room in (2, 3, 4, 5):
            scr = L.wei_scratch_create(ec, room)
            for n in range(0, 6):
                for bad in range(-1, n) if room == 4 else (-1,):
                    ctx.case("batch", room, n, bad)
                    ss_ = [s340] * n
                    if bad >= 0:
                        ss_[bad] = s340[:-1] + bytes([s340[-1] ^ 1])
                    lens = (32).to_bytes(8, "little") * n
                    g.call("bip340_verify_batch", ec, [h] * n, lens, ss_,
                           [x340] * n, n, scr)
                    if sold:
                        g.call("bipschnorr_verify_batch", ec, [h] * n, lens,
                               [sold] * n, [old] * n,
                               len(old).to_bytes(8, "little") * n, n, scr)
                    ctx.states(1)
            L.wei_scratch_destroy(ec, scr)
        for n in range(0, 4):
            for v in field_values(c, sz):
                ctx.case("maps", v)
                g.call("ecdsa_pubkey_from_uniform", ec, O(size(1)), Z(), v, 1,
                       void=True)
                g.call("ecdsa_pubkey_from_hash", ec, O(size(1)), Z(), v + v,
                       1)
                g.call("bip340_pubkey_from_hash", ec, O(sz), v + v)
                ctx.states(1)
            break


def ed(ctx, name):
    g, L = start(ctx)
    c = curves.ED[name]
    ec = L.edwards_curve_create(getattr(L, "EDWARDS_CURVE_" + name))
    ps, ks = L.eddsa_pubkey_size(ec), L.eddsa_privkey_size(ec)
    ss, fs = L.edwards_curve_scalar_size(ec), L.edwards_curve_field_size(ec)
    sg = L.eddsa_sig_size(ec)
    h = bytes(range(32))
    k = bytes(range(1, ks + 1))
    _, (pub,) = g.call("eddsa_pubkey_create", ec, O(ps), k, void=True)
    _, (sig,) = g.call("eddsa_sign", ec, O(sg), h, 32, k, -1, None, 0,
                       void=True)
    pubs = [pub] + field_values(c, ps, "little")
    for v in (0, 1, c.p - 1, c.p, c.p + 1):
        for s in (0, 1):
            w = v | s << 8 * ps - 1
            if w < 1 << 8 * ps:
                pubs.append(w.to_bytes(ps, "little"))
    pubs += mutate(pub, False)
    pubs = [p for p in dict.fromkeys(pubs) if len(p) == ps]
    sc = field_values(c, ss, "little")
    slow = ctx.variant == "asan32"

    def use(p):
        g.call("eddsa_pubkey_verify", ec, p)
        g.call("eddsa_pubkey_export", ec, O(fs), O(fs), p)
        g.call("eddsa_pubkey_convert", ec, O(fs), p)
        g.call("eddsa_pubkey_is_infinity", ec, p)
        g.call("eddsa_pubkey_is_small", ec, p)
        g.call("eddsa_pubkey_negate", ec, O(ps), p)
        g.call("eddsa_pubkey_to_uniform", ec, O(fs), p, 0)
    sweep(ctx, "eddsa public key", pubs[::6] if slow and ctx.quick else pubs,
          use)

    def more(p):
        g.call("eddsa_pubkey_has_torsion", ec, p)
        g.call("eddsa_pubkey_tweak_add", ec, O(ps), p, sc[3])
        g.call("eddsa_pubkey_tweak_mul", ec, O(ps), p, sc[3])
        g.call("eddsa_pubkey_add", ec, O(ps), p, pub)
        g.call("eddsa_pubkey_combine", ec, O(ps), [p, pub, p], 3)
        g.call("eddsa_derive", ec, O(ps), p, k)
        g.call("eddsa_derive_with_scalar", ec, O(ps), p, sc[2])
        g.call("eddsa_verify", ec, h, 32, sig, p, -1, None, 0)
        g.call("eddsa_verify_single", ec, h, 32, sig, p, -1, None, 0)
    sweep(ctx, "eddsa public key use", pubs[:20] + pubs[20::40]
          if ctx.quick else pubs, more)
    sigs = [s for s in mutate(sig, False) if len(s) == sg]
    for a in pubs[:12]:
        for b in sc:
            sigs.append((a + b + bytes(sg))[:sg])
    sweep(ctx, "eddsa signature", sigs[::24 if slow else 6] if ctx.quick
          else sigs,
          lambda s: g.call("eddsa_verify", ec, h, 32, s, pub, -1, None, 0),
          lambda s: g.call("eddsa_verify_single", ec, h, 32, s, pub, 1, h, 5))
    for room in (2, 3, 4, 5):
        scr = L.edwards_scratch_create(ec, room)
        for n in range(0, 6):
            for bad in range(-1, n) if room == 4 else (-1,):
                ctx.case("batch", room, n, bad)
                v = [sig] * n
                if bad >= 0:
                    v[bad] = sig[:3] + bytes([sig[3] ^ 1]) + sig[4:]
                g.call("eddsa_verify_batch", ec, [h] * n,
                       (32).to_bytes(8, "little") * n, v, [pub] * n, n, -1,
                       None, 0, scr)
                ctx.states(1)
        L.edwards_scratch_destroy(ec, scr)
    for n in list(range(0, 12)) + [63, 64, 65, 127, 128, 129, 255, 256, 300]:
        m = bytes(i & 255 for i in range(n))
        for cl in (0, 1, 255):
            ctx.case("eddsa message", n, cl)
            cx = bytes(cl)
            g.call("eddsa_sign", ec, O(sg), m, n, k, 0, cx, cl, void=True)
            g.call("eddsa_verify", ec, m, n, sig, pub, 0, cx, cl)
            ctx.states(1)
    for n in range(0, ss + 20):
        for b in (b"\0", b"\1", b"\xff"):
            ctx.case("import", n, b)
            g.call("eddsa_privkey_import", ec, O(ks), b * n, n)
            g.call("ristretto_privkey_import", ec, O(ss), b * n, n)
            for m in (0, 1, fs, fs + 1):
                for sgn in (-1, 0, 1):
                    g.call("eddsa_pubkey_import", ec, O(ps), b * n, n,
                           bytes(m), m, sgn)
            ctx.states(1)
    for s in sc:
        ctx.case("scalar", s)
        g.call("eddsa_scalar_verify", ec, s)
        g.call("eddsa_scalar_is_zero", ec, s)
        for f in ("clamp", "reduce", "negate", "invert"):
            g.call("eddsa_scalar_" + f, ec, O(ss), s, void=True)
        for f in ("tweak_add", "tweak_mul"):
            g.call("eddsa_scalar_" + f, ec, O(ss), s, sc[4], void=True)
        g.call("eddsa_pubkey_from_scalar", ec, O(ps), s, void=True)
        for f in ("verify", "is_zero"):
            g.call("ristretto_privkey_" + f, ec, s)
        for f in ("export", "negate", "invert"):
            g.call("ristretto_privkey_" + f, ec, O(ss), s)
        g.call("ristretto_privkey_tweak_add", ec, O(ss), s, sc[3])
        g.call("ristretto_pubkey_create", ec, O(fs), s)
        ctx.states(1)
    rs = field_values(c, fs, "little")
    r, (rp,) = g.call("ristretto_pubkey_create", ec, O(fs), sc[2])
    rs = rs + [v for v in mutate(rp, False) if len(v) == fs]

    def rist(p):
        g.call("ristretto_pubkey_verify", ec, p)
        g.call("ristretto_pubkey_is_infinity", ec, p)
        g.call("ristretto_pubkey_negate", ec, O(fs), p)
        g.call("ristretto_pubkey_add", ec, O(fs), p, rp)
        g.call("ristretto_pubkey_tweak_add", ec, O(fs), p, sc[3])
        g.call("ristretto_pubkey_to_uniform", ec, O(fs), p, 0)
        g.call("ristretto_derive", ec, O(fs), p, sc[3])
    sweep(ctx, "ristretto", rs[:14] + rs[14::24] if ctx.quick else rs, rist)
    for v in field_values(c, fs, "little"):
        ctx.case("maps", v)
        g.call("eddsa_pubkey_from_uniform", ec, O(ps), v, void=True)
        g.call("eddsa_pubkey_from_hash", ec, O(ps), v + v, 0, void=True)
        g.call("ristretto_pubkey_from_uniform", ec, O(fs), v, void=True)
        g.call("ristretto_pubkey_from_hash", ec, O(fs), v + v, void=True)
        ctx.states(1)


def mont(ctx, name):
    g, L = start(ctx)
    c = curves.MONT[name]
    ec = L.mont_curve_create(getattr(L, "MONT_CURVE_" + name))
    ks, ps = L.ecdh_privkey_size(ec), L.ecdh_pubkey_size(ec)
    k = bytes(range(ks))
    _, (pub,) = g.call("ecdh_pubkey_create", ec, O(ps), k, void=True)
    pubs = field_values(c, ps, "little") + mutate(pub, False)
    pubs = [p for p in dict.fromkeys(pubs) if len(p) == ps]

    def use(p):
        g.call("ecdh_pubkey_verify", ec, p)
        g.call("ecdh_pubkey_is_small", ec, p)
        for s in (-1, 0, 1):
            g.call("ecdh_pubkey_export", ec, O(ps), O(ps), p, s)
            g.call("ecdh_pubkey_convert", ec,
                   O(ps if name != "X448" else ps + 1), p, s)
        g.call("ecdh_pubkey_to_uniform", ec, O(ps), p, 0)
        g.call("ecdh_derive", ec, O(ps), p, k)
    sweep(ctx, "ecdh public key", pubs[::5] if ctx.quick else pubs, use)
    for n in range(0, ks + 20):
        for b in (b"\0", b"\1", b"\xff"):
            ctx.case("import", n, b)
            g.call("ecdh_privkey_import", ec, O(ks), b * n, n)
            for m in (0, 1, ps, ps + 1):
                g.call("ecdh_pubkey_import", ec, O(ps), b * n, n, bytes(m), m)
            ctx.states(1)
    for v in field_values(c, ps, "little"):
        ctx.case("maps", v)
        g.call("ecdh_privkey_verify", ec, v)
        g.call("ecdh_pubkey_has_torsion", ec, v)
        g.call("ecdh_pubkey_from_uniform", ec, O(ps), v, void=True)
        g.call("ecdh_pubkey_from_hash", ec, O(ps), v + v, 0)
        ctx.states(1)


# -- encodings -------------------------------------------------------------

def bases(ctx):
    g, L = start(ctx)
    alpha = b"A0f=z/ \xff\n"
    strings = [bytes(p) for n in range(0, 4 if ctx.quick else 5)
               for p in itertools.product(alpha, repeat=n)]
    for n in range(0, 40):
        for ch in (b"A", b"0", b"=", b"f", b"z", b"_"):
            s = ch * n
            strings += [s, s + b"=", s + b"==", s + b"=" * 6, b"=" + s]
    strings += SHORT
    strings = list(dict.fromkeys(s for s in strings if len(s) < NFUN))
    V = g.val
    for nm, kinds in (("base16", 0), ("base16le", 0), ("base32", 1),
                      ("base32hex", 1), ("base58", 0), ("base64", 0),
                      ("base64url", 0)):
        up = nm.replace("hex", "").replace("url", "").replace("le", "").upper()

        def size(s):
            n = len(s)
            mac = V["%s_DECODE_SIZE(%d)" % (up, n)]
            if nm == "base58":
                return [mac]
            if up == "BASE16":
                return [mac, g.call(nm + "_decode_size", n)[0]]
            return [mac, g.call(nm + "_decode_size", s, n)[0]]

        def dec(s):
            n = len(s)
            for out in dict.fromkeys(size(s)):
                for u in ((0, 1) if kinds else (None,)):
                    a = () if u is None else (u,)
                    g.call(nm + "_decode", O(out), Z(), s, n, *a)
            for u in ((0, 1) if kinds else (None,)):
                a = () if u is None else (u,)
                g.call(nm + "_test", s, n, *a)
        sweep(ctx, nm, strings, dec)
        for n in range(0, 130 if nm != "base58" else 80):
            for b in (b"\0", b"\xff", b"\x9e"):
                ctx.case(nm + " encode", n, b)
                mac = V["%s_ENCODE_SIZE(%d)" % (up, n)]
                for u in ((0, 1) if kinds else (None,)):
                    a = () if u is None else (u,)
                    outs = [mac + 1]
                    if nm != "base58":
                        outs.append(g.call(nm + "_encode_size", n, *a)[0] + 1)
                    for out in outs:
                        g.call(nm + "_encode", O(out), Z(), b * n, n, *a,
                               void=nm != "base58")
                ctx.states(1)


def addresses(ctx):
    g, L = start(ctx)
    V = g.val
    HRP, DES, DEC = (V["BECH32_MAX_HRP_SIZE"] + 1,
                     V["BECH32_MAX_DESERIALIZE_SIZE"],
                     V["BECH32_MAX_DECODE_SIZE"])
    CP, CD, CH = (V["CASH32_MAX_PREFIX_SIZE"] + 1,
                  V["CASH32_MAX_DESERIALIZE_SIZE"],
                  V["CASH32_MAX_DECODE_SIZE"])

    def raw_bech(hrp, data, const):
        pm = texts.bech_polymod(texts.hrp_expand(hrp) + data + [0] * 6) ^ const
        chk = [(pm >> 5 * (5 - i)) & 31 for i in range(6)]
        return hrp + b"1" + "".join(texts.BECH[d] for d in data + chk).encode()

    def raw_cash(prefix, data):
        pm = texts.cash_polymod([c & 31 for c in prefix] + [0] + data +
                                [0] * 8)
        chk = [(pm >> 5 * (7 - i)) & 31 for i in range(8)]
        return prefix + b":" + "".join(texts.BECH[d]
                                       for d in data + chk).encode()

    def strings(seeds, alpha):
        out = []
        for s in seeds:
            out += [s[:i] for i in range(len(s) + 1)]
            out += [s + s[:i] for i in range(len(s))]
            for i in range(len(s)):
                for ch in b"a1:A\x80\xffqz /~\x7f":
                    out.append(s[:i] + bytes([ch]) + s[i + 1:])
                    out.append(s[:i] + bytes([ch]) + s[i:])
                out.append(s[:i] + s[i + 1:])
        out += [bytes(p) for n in range(4)
                for p in itertools.product(alpha, repeat=n)]
        for n in range(0, 260):
            for ch in alpha[:4]:
                out += [bytes([ch]) * n, b"bc1" + bytes([ch]) * n,
                        b"a:" + bytes([ch]) * n, bytes([ch]) * n + b"1qqqqqq",
                        bytes([ch]) * n + b":qqqqqqqq"]
        return [s.replace(b"\0", b"") for s in dict.fromkeys(out)]

    seeds = [texts.bech_enc(b"bc", 0, bytes(range(20)), 1),
             texts.bech_enc(b"tb", 1, bytes(range(32)), 0x2bc830a3),
             texts.bech_ser(b"a" * 83, [], 1),
             texts.bech_ser(b"x", list(range(32)) * 2 + [0] * 18, 1)]
    seeds = [s for s in seeds if s]

    def bech(s):
        z = s + b"\0"
        for k in (1, 0x2bc830a3):
            g.call("bech32_is", z, k)
            g.call("bech32_test", z, k)
            g.call("bech32_deserialize", O(HRP), O(DES), Z(), z, k)
            g.call("bech32_decode", O(HRP), Z(-1, 4), O(DEC), Z(), z, k)
    sweep(ctx, "bech32", strings(seeds, b"1qa:B\xff"), bech)
    valid = [raw_bech(h, [f] * n, c) for h in (b"bc", b"a", b"x" * 83)
             for n in range(100) for f in (0, 1, 31) for c in (1, 0x2bc830a3)]
    valid += [raw_bech(b"h" * n, [], 1) for n in range(200)]
    sweep(ctx, "bech32 with good checksum", valid, bech)

    cs = [texts.cash_enc(b"bitcoincash", 0, bytes(range(20))),
          texts.cash_enc(b"p", 1, bytes(range(64))),
          texts.cash_ser(b"pref", list(range(32)) * 3)]
    cs = [s for s in cs if s]

    def cash(s):
        z = s + b"\0"
        for p in (b"bitcoincash\0", b"p\0", b"\0"):
            g.call("cash32_is", z, p)
            g.call("cash32_test", z, p)
            g.call("cash32_deserialize", O(CP), O(CD), Z(), z, p)
            g.call("cash32_decode", Z(-1, 4), O(CH), Z(), z, p)
    sweep(ctx, "cash32", strings(cs, b":qa1B\xff"), cash)
    valid = [raw_cash(h, [f] * n) for h in (b"bitcoincash", b"p")
             for n in range(220) for f in (0, 1, 2, 31)]
    valid += [v[2:] for v in valid if v[:2] == b"p:"]
    valid += [raw_cash(b"h" * n, [0, 0]) for n in range(200)]
    sweep(ctx, "cash32 with good checksum", valid, cash)
    # prefixes of any length
    for n in list(range(0, 100)) + [255, 256, 1000]:
        ctx.case("prefix", n)
        p = b"a" * n + b"\0"
        h = bytes(range(20))
        g.call("bech32_serialize", O(V["BECH32_MAX_SERIALIZE_SIZE"] + 1), p,
               h, 20, 1)
        g.call("bech32_encode", O(V["BECH32_MAX_SERIALIZE_SIZE"] + 1), p, 0,
               h, 20, 1)
        g.call("cash32_serialize", O(V["CASH32_MAX_SERIALIZE_SIZE"] + 1), p,
               h, 20)
        g.call("cash32_encode", O(V["CASH32_MAX_SERIALIZE_SIZE"] + 1), p, 0,
               h, 20)
        g.call("cash32_decode", Z(-1, 4), O(CH), Z(), cs[0] + b"\0", p)
        ctx.states(1)
    for n in list(range(0, 200)):
        ctx.case("data", n)
        d = bytes(i & 31 for i in range(n))
        g.call("bech32_serialize", O(V["BECH32_MAX_SERIALIZE_SIZE"] + 1),
               b"bc\0", d, n, 1)
        g.call("bech32_encode", O(V["BECH32_MAX_SERIALIZE_SIZE"] + 1),
               b"bc\0", 1, d, n, 1)
        g.call("cash32_serialize", O(V["CASH32_MAX_SERIALIZE_SIZE"] + 1),
               b"bc\0", d, n)
        for t in (0, 15, 16, 0xffffffff):
            g.call("cash32_encode", O(V["CASH32_MAX_SERIALIZE_SIZE"] + 1),
                   b"bc\0", t, d, n)
        for a, b in ((5, 8), (8, 5)):
            for pad in (0, 1):
                m = (n * a + (b - 1 if pad else 0)) // b
                for f in ("bech32", "cash32"):
                    g.call(f + "_convert_bits", O(m), Z(), b, d, n, a, pad)
        ctx.states(1)


def numbers(ctx):
    """Big-integer import and text conversion."""
    g, L = start(ctx)
    z = g.alloc(g.val["sizeof(mpz_t)"])
    L.mpz_init(z)
    alpha = b"09aZ-+ x\n"
    strs = [bytes(p) for n in range(0, 4 if ctx.quick else 5)
            for p in itertools.product(alpha, repeat=n)]
    for n in range(0, 140):
        strs += [b"1" * n, b"z" * n, b"-" + b"9" * n, b"0" * n, b"9" * n +
                 b"!"]
    strs = list(dict.fromkeys(strs))

    def parse(s):
        for base in (0, 2, 3, 8, 10, 16, 36, 37, 62):
            g.call("mpz_set_str", z, s + b"\0", base, once=True, alloc=True)
    sweep(ctx, "mpz_set_str", strs, parse)

    def parse(s):
        for zn in (1, 2, 5):
            for base in (2, 10, 16, 36):
                g.call("mpn_set_str", O(8 * zn), zn, s + b"\0", base)
    short = [s for s in strs if len(s) < 6 or s[:1] in b"1z9"]
    sweep(ctx, "mpn_set_str", short, parse)
    for n in range(0, 70):
        for fillb in (b"\0", b"\1", b"\xff"):
            for e in (1, -1):
                ctx.case("import", n, fillb, e)
                d = fillb * n
                g.call("mpz_import", z, d, n, e, once=True, alloc=True,
                       void=True)
                k = L.mpz_bytelen(z)
                for m in (k, k + 1, k + 9):
                    g.call("mpz_export", O(m), z, m, e, void=True)
                for zn in range(0, 5):
                    g.call("mpn_import", O(8 * zn), zn, d, n, e, void=True)
                ctx.states(1)


# -- symmetric -------------------------------------------------------------

def cipher_static(ctx, names):
    g, L = start(ctx)
    V = g.val
    for name in names:
        bs, kls = BLOCK[name]
        kl = list(kls)[len(list(kls)) // 2]
        t = getattr(L, "CIPHER_" + name)
        cx = g.alloc(V["sizeof(cipher_t)"])
        for n in range(0, 130):
            ctx.case("cipher_init", name, n)
            r, _ = g.call("cipher_init", cx, t, bytes(range(n)), n, once=True)
            if r == 1:
                g.call("cipher_encrypt", cx, O(bs), bytes(bs), void=True)
                g.call("cipher_decrypt", cx, O(bs), bytes(bs), void=True)
            ctx.states(1)
        for mode in ("RAW", "ECB", "CBC", "CTS", "XTS", "CTR", "CFB", "OFB",
                     "GCM", "CCM", "EAX"):
            m = getattr(L, "CIPHER_MODE_" + mode)
            k = kl * 2 if mode == "XTS" else kl
            key = bytes(range(1, k + 1))
            for ivn in sorted({0, 1, bs - 1, bs, bs + 1, 12, 13}):
                iv = bytes(range(ivn))
                for n in list(range(0, 3 * bs + 2)):
                    if ctx.quick and n % bs not in (0, 1, bs - 1) and \
                            ivn not in (bs, 0 if mode == "ECB" else bs):
                        continue
                    ctx.case("static", name, mode, ivn, n)
                    d = bytes((i * 5 + 1) & 255 for i in range(n))
                    out = V["CIPHER_MAX_DECRYPT_SIZE(%d)" % n]
                    for f in ("encrypt", "decrypt"):
                        g.call("cipher_static_" + f, O(out), Z(), t, m, key,
                               k, iv, ivn, d, n)
                    ctx.states(1)


def cipher_stream(ctx, names):
    g, L = start(ctx)
    V = g.val
    st = g.alloc(V["sizeof(cipher_stream_t)"])
    for name in names:
        bs, kls = BLOCK[name]
        kl = list(kls)[len(list(kls)) // 2]
        t = getattr(L, "CIPHER_" + name)
        for mode in ("ECB", "CBC", "CTS", "XTS", "CTR", "CFB", "OFB", "GCM",
                     "CCM", "EAX"):
            m = getattr(L, "CIPHER_MODE_" + mode)
            k = kl * 2 if mode == "XTS" else kl
            key = bytes(range(1, k + 1))
            iv = bytes(range(0 if mode == "ECB" else
                             12 if mode in ("GCM", "CCM", "EAX") else bs))
            if mode == "CCM":
                iv = iv[:bs - 5 if bs == 8 else 12]
            for enc, pad, tagn, n in itertools.product(
                    (0, 1), (0, 1), (None, 0, 1, 15, 16, 17),
                    range(0, 2 * bs + 2)):
                if tagn is not None and mode not in ("GCM", "CCM", "EAX"):
                    continue
                if pad and mode in ("GCM", "CCM", "EAX"):
                    continue
                if tagn not in (None, 16) and n % bs > 1:
                    continue
                d = bytes((i * 5 + 1) & 255 for i in range(n))
                cuts = range(n + 1) if tagn is None and pad == 0 and \
                    not ctx.quick else sorted({0, n // 2, n, min(n, 1)})
                for cut in cuts:
                    ctx.case("stream", name, mode, enc, pad, tagn, n, cut)
                    ctx.states(1)
                    r, _ = g.call("cipher_stream_init", st, t, m, enc, key, k,
                                  iv, len(iv), once=True)
                    if r != 1:
                        continue
                    g.call("cipher_stream_set_padding", st, pad, once=True)
                    if mode in ("GCM", "EAX"):
                        g.call("cipher_stream_set_aad", st, d[:3], len(d[:3]),
                               once=True)
                    if mode == "CCM":
                        g.call("cipher_stream_set_ccm", st, n, tagn or 16,
                               d[:3], len(d[:3]), once=True)
                    if tagn is not None:
                        g.call("cipher_stream_set_tag", st, bytes(tagn), tagn,
                               once=True)
                    for part in (d[:cut], d[cut:]):
                        sz = L.cipher_stream_update_size(st, len(part))
                        _, (o, z) = g.call("cipher_stream_update", st, O(sz),
                                           Z(), part, len(part), once=True,
                                           void=True)
                        ctx.check(z <= sz, "update size", sz, z)
                    sz = L.cipher_stream_final_size(st)
                    ctx.check(sz <= V["CIPHER_MAX_FINAL_SIZE"], "final size")
                    r, (o, z) = g.call("cipher_stream_final", st, O(sz), Z(),
                                       once=True)
                    if r == 1:
                        ctx.check(z <= sz, "final size", sz, z)
                    g.call("cipher_stream_get_tag", st, O(16), Z(),
                           once=True, limit=False)


def symmetric(ctx):
    g, L = start(ctx)
    V = g.val
    s = {t: g.alloc(V["sizeof(%s)" % t]) for t in TYPES}
    key, iv = bytes(range(32)), bytes(range(24))
    for n in range(0, 200):
        d = bytes((i * 7 + 3) & 255 for i in range(n))
        ctx.case("secretbox", n)
        g.call("secretbox_open", O(V["SECRETBOX_OPEN_SIZE(%d)" % n]), d, n,
               key, iv)
        g.call("secretbox_seal", O(n + 16), d, n, key, iv, void=True)
        ctx.case("streams", n)
        for f, kn in (("chacha20", 16), ("chacha20", 32), ("salsa20", 16),
                      ("salsa20", 32)):
            for nn in (8, 24) if f == "salsa20" else (8, 12, 16, 24):
                c = s[f + "_t"]
                g.call(f + "_init", c, key[:kn], kn, iv[:nn], nn, 0,
                       once=True, void=True)
                for part in (d[:n // 3], d[n // 3:]):
                    g.call(f + "_crypt", c, O(len(part)), part, len(part),
                           once=True, void=True)
        if 1 <= n <= 256:
            g.call("arc4_init", s["arc4_t"], d, n, once=True, void=True)
            g.call("arc4_crypt", s["arc4_t"], O(n), d, n, once=True,
                   void=True)
        ctx.case("macs", n)
        p = s["poly1305_t"]
        g.call("poly1305_init", p, key, once=True, void=True)
        for part in (d[:n // 2], d[n // 2:]):
            g.call("poly1305_update", p, part, len(part), once=True,
                   void=True)
        g.call("poly1305_final", p, O(16), once=True, void=True)
        g.call("siphash_sum", d, n, key[:16])
        g.call("siphash_mod", d, n, key[:16], 1009)
        g.call("murmur3_sum", d, n, 7)
        g.call("murmur3_tweak", d, n, 7, 9)
        a = s["chachapoly_t"]
        for nn in (8, 12, 16, 24):
            g.call("chachapoly_init", a, key, iv[:nn], nn, once=True,
                   void=True)
            g.call("chachapoly_aad", a, d[:n // 2], n // 2, once=True,
                   void=True)
            g.call("chachapoly_decrypt", a, O(n), d, n, once=True, void=True)
            g.call("chachapoly_final", a, O(16), once=True, void=True)
        ctx.case("util", n)
        g.call("torsion_memcmp", d, d[::-1], n)
        g.call("torsion_memcmp_var", d, d[::-1], n)
        g.call("torsion_memequal", d, bytes(d), n)
        g.call("torsion_memxor3", O(n), d, d, n, void=True)
        if 1 <= n <= 64:
            for v in (0, 1, n - 1, n, n + 1, 255):
                b = d[:-1] + bytes([v & 255])
                g.call("pkcs7_unpad", O(n), Z(), b, n)
        ctx.case("drbg", n)
        h = L.HASH_SHA256
        for f in ("hmac_drbg", "hash_drbg"):
            c = s[f + "_t"]
            g.call(f + "_init", c, h, d, n, once=True, void=True)
            g.call(f + "_generate", c, O(n), n, d, n, once=True, void=True)
            g.call(f + "_generate", c, O(n), n, None, 0, once=True, void=True)
            g.call(f + "_reseed", c, d, n, once=True, void=True)
        c = s["ctr_drbg_t"]
        for bits in (128, 192, 256):
            # without derivation the seed has a fixed maximum
            for deriv in (0, 1):
                if not deriv and n > 16 + bits // 8:
                    continue
                g.call("ctr_drbg_init", c, bits, deriv, d, n, d[:20],
                       len(d[:20]), once=True, void=True)
                g.call("ctr_drbg_generate", c, O(n), n, d[:9], len(d[:9]),
                       once=True, void=True)
                g.call("ctr_drbg_reseed", c, d, n, d[:20], len(d[:20]),
                       once=True, void=True)
        ctx.states(5)


HASHES = ["BLAKE2B_160", "BLAKE2B_256", "BLAKE2B_384", "BLAKE2B_512",
          "BLAKE2S_128", "BLAKE2S_160", "BLAKE2S_224", "BLAKE2S_256",
          "GOST94", "HASH160", "HASH256", "KECCAK224", "KECCAK256",
          "KECCAK384", "KECCAK512", "MD2", "MD4", "MD5", "MD5SHA1",
          "RIPEMD160", "SHA1", "SHA224", "SHA256", "SHA384", "SHA512",
          "SHA3_224", "SHA3_256", "SHA3_384", "SHA3_512", "SHAKE128",
          "SHAKE256", "WHIRLPOOL"]


def hashes(ctx, names):
    g, L = start(ctx)
    c = g.alloc(g.val["sizeof(hash_t)"])
    m = g.alloc(g.val["sizeof(hmac_t)"])
    for name in names:
        h = getattr(L, "HASH_" + name)
        sz = L.hash_output_size(h)
        for n in range(0, 300):
            d = bytes((i * 7 + 3) & 255 for i in range(n))
            for cut in sorted({0, 1, n // 2, n}):
                if cut > n or (ctx.quick and cut and n % 7):
                    continue
                ctx.case("hash", name, n, cut)
                g.call("hash_init", c, h, once=True, void=True)
                for part in (d[:cut], d[cut:]):
                    g.call("hash_update", c, part, len(part), once=True,
                           void=True)
                g.call("hash_final", c, O(sz), sz, once=True, void=True)
                ctx.states(1)
            g.call("hmac_init", m, h, d, n, once=True, void=True)
            g.call("hmac_update", m, d, n, once=True, void=True)
            g.call("hmac_final", m, O(sz), once=True, void=True)
            if n % 9 == 0:
                for ln in (0, 1, sz, sz + 1, 100):
                    g.call("hkdf_expand", O(ln), h, bytes(sz), d, n, ln)
                    g.call("pbkdf2_derive", O(ln), h, d, n, d, n, 2, ln)
                    g.call("pgpdf_derive_simple", O(ln), h, d, n, ln)
                    g.call("pgpdf_derive_salted", O(ln), h, d, n, d[:8],
                           len(d[:8]), ln)
                    g.call("pgpdf_derive_iterated", O(ln), h, d, n, d[:8],
                           len(d[:8]), 100, ln)
                    g.call("eb2k_derive", O(ln), O(ln), h, d, n, d[:8],
                           len(d[:8]), ln, ln)
                g.call("hkdf_extract", O(sz), h, d, n, d, n)


def kdf(ctx, part):
    g, L = start(ctx)
    salt = bytes(range(16))
    if part == 0:
        for mn in b"aby":
            ctx.case("bcrypt_hash", mn)
            r, (rec,) = g.call("bcrypt_hash", O(61), b"pass\0", salt, 4, mn)
        rec = rec[:60]
        recs = [rec]
        recs += [rec[:i] for i in range(60)]
        recs += [rec + e for e in (b"a", b"$", b"." * 40)]
        for i in range(60):
            chars = b"$.z\xff2" if i < 8 or not ctx.quick else b"\xff"
            recs += [rec[:i] + bytes([ch]) + rec[i + 1:] for ch in chars]
            if i < 30:
                recs += [rec[:i] + rec[i + 1:], rec[:i] + b"$" + rec[i:]]
        recs += [b"$2a$", b"$2", b"$2y$04$", b"$2$04$", b"$", b""]
        recs = [r for r in dict.fromkeys(recs)
                if not (r[4:6].isdigit() and int(r[4:6]) > 5)]
        sweep(ctx, "bcrypt record", recs,
              lambda r: g.call("bcrypt_verify", b"pass", 4, r + b"\0"),
              lambda r: g.call("bcrypt_check", b"pass\0", r + b"\0"))
    else:
        for n in list(range(0, 80)) + [255, 256]:
            ctx.case("bcrypt", n)
            p = bytes((i % 255) + 1 for i in range(n))
            if n % 8 in (0, 7) or n in (1, 71, 73, 74):
                g.call("bcrypt_generate", O(61), p, n, salt, 4, 98)
                g.call("bcrypt_hash", O(61), p + b"\0", salt, 4, 97)
            ctx.states(1)
        for r in (0, 1, 3, 32, 33, 255, 0xffffffff):
            ctx.case("bcrypt rounds", r)
            g.call("bcrypt_generate", O(61), b"p", 1, salt, r, 98)
            ctx.states(1)
        for n in (0, 1, 2, 31, 32, 33, 63, 64, 65, 128, 200):
            ctx.case("bcrypt_pbkdf", n)
            for rounds in (0, 1):
                g.call("bcrypt_pbkdf", O(n), b"pw", 2, salt, 16, rounds, n)
            g.call("bcrypt_pbkdf", O(32), salt[:n % 17], n % 17, salt[:n % 9],
                   n % 9, 1, 32)
            ctx.states(1)
        for N, r, p in itertools.product((0, 1, 2, 3, 4, 16), (0, 1, 2),
                                         (0, 1, 3)):
            for n in (0, 1, 64, 65):
                ctx.case("scrypt", N, r, p, n)
                g.call("scrypt_derive", O(n), b"pw", 2, salt, 16, N, r, p, n)
                ctx.states(1)
        for N, r, p in ((1 << 63, 1, 1), (1 << 40, 8, 1), (2, 1 << 30, 1),
                        (2, 1, 1 << 30), (2, 1 << 31, 1 << 31),
                        ((1 << 64) - 1, 1, 1), (1 << 32, 1 << 20, 1)):
            ctx.case("scrypt too large", N, r, p)
            r_, _ = g.call("scrypt_derive", O(32), b"pw", 2, salt, 16, N, r,
                           p, 32)
            ctx.eq(r_, 0, "impossible parameters accepted")
            ctx.states(1)


def tasks(tier):
    out = []

    def add(name, fn, args=(), variants=("asan64",)):
        for v in variants:
            out.append(Task("%s-%s" % (name, v[4:]), fn, args, v))
    both = ("asan64", "asan32")
    for name in ("P521", "P384", "SECP256K1", "P256", "P224", "P192"):
        for part in ("pub", "sig", "rest"):
            add("wei-%s-%s" % (name, part), wei, (name, part), both)
    for name in ("ED448", "ED25519", "ED1174"):
        add("ed-" + name, ed, (name,), both)
    for name in ("X448", "X25519"):
        add("mont-" + name, mont, (name,), both)
    for p in range(3):
        add("rsa-priv-%d" % p, rsa_priv, (p,))
    add("rsa-pub", rsa_pub)
    for bits in (512, 513, 520) if tier == "quick" else range(512, 521):
        add("rsa-msg-%d" % bits, rsa_msg, ((bits,),))
    for p in range(4):
        add("dsa-%d" % p, dsa_keys, (p,))
    add("bases", bases)
    add("addresses", addresses)
    add("numbers", numbers, (), both)
    names = list(BLOCK)
    for i in range(6):
        add("static-%d" % i, cipher_static, (names[i::6],))
        add("stream-%d" % i, cipher_stream, (names[i::6],))
    add("symmetric", symmetric, (), both)
    for i in range(4):
        add("hash-%d" % i, hashes, (HASHES[i::4],))
    for p in (0, 1):
        add("kdf-%d" % p, kdf, (p,))
    return out
