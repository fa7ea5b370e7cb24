"""W01: released heap memory holds no private values.

The library is built over a heap that looks into every block as it is released
(a moved block counts as released) for any eight consecutive bytes, in either
byte order, of the private values of the call: key components, what follows
from them by definition, the nonce of a signature, plaintexts, derived secrets.
Values which are public are left out.  Each operation runs on the valid key and
on every one-byte change and truncation of it, so that every exit is taken.
Where the private values are not known from outside (blinding of curve objects,
working memory of scrypt) what is left must not depend on them at all."""

import ctypes as C
import struct

from mc import curves, ffc, wipe
from mc.core import Task
from mc.lib import Lib
from mc.numth import rsa_key

BOUNDS = ("RSA keys of 512 and 768 bits (thorough: and 1024, 2048), DSA groups "
          "1024/160 and 2048/256: every operation taking a private key, on the "
          "valid key, with every byte changed in 3 ways (thorough: 8; not for "
          "2048 bits) and every prefix; messages of all accepted lengths; right, wrong and too short "
          "ciphertexts; signing, derivation and key functions of all curves; "
          "randomised curve objects for 4 seeds; scrypt over 36 parameter sets "
          "x 3 passwords; all derivations for passwords "
          "of 8..149 bytes; clearing of numbers of 0..40 words; 64-bit and "
          "portable build")
ASSUMPTIONS = [
    "a block of memory that is moved leaves its old contents behind",
    "private values are sought in memory order and reversed, eight bytes at a "
    "time; encrypted or blinded forms of them do not count",
    "the stack is not looked at",
    "making keys, recovering the missing parts of a damaged RSA key and "
    "encrypting to a public key are not covered: there the library leaves "
    "candidates and messages behind",
    "the result of a derivation and powers of a base are not sought",
]
TECHNIQUE = ("exhaustive enumeration of operations, keys and failure exits on "
             "the real code, observing every block returned to the allocator")
LIBS = ()

ENT = [bytes((i * 37 + 11) & 255 for i in range(64)), b"\xff" * 64,
       bytes(range(64)), bytes(64)]
DATA = bytes((i * 167 + i // 256 + 43) & 255 for i in range(4096))


def prepare(tier):
    return {"lib": {v: wipe.library(v) for v in ("n64", "p32")}}


def enc(v, n=None):
    if isinstance(v, bytes):
        return v
    return v.to_bytes(n or max((v.bit_length() + 7) // 8, 1), "big")


def windows(b):
    return {w for x in (b, b[::-1]) for w in
            (x[i:i + 8] for i in range(len(x) - 7))}


class Rig:
    def __init__(self, ctx):
        self.ctx = ctx
        self.L = Lib(ctx.cfg["extra"]["lib"][ctx.variant], ctx.cfg["consts"])
        self.d = self.L._dll
        self.res = (C.c_uint64 * 6)()
        self.d.wipe_add.argtypes = [C.c_void_p, C.c_size_t]
        self.d.wipe_end.argtypes = [C.c_void_p]
        ctx.extra["released_blocks"] = 0
        ctx.extra["released_bytes"] = 0

    def seek(self, secrets, public=()):
        """Which values must not be found."""
        pub = set()
        for p in public:
            pub |= windows(enc(p))
        ws = set()
        for s in secrets:
            b = enc(s)
            # a number that is shorter than a word leaves zeros around it
            ws |= {w for w in windows(b) if len(set(w)) > 3} - pub
        ws = sorted(ws)
        a = (C.c_uint64 * len(ws))(*[struct.unpack("<Q", w)[0] for w in ws])
        self.d.wipe_clear()
        self.d.wipe_add(a, len(ws))
        return len(ws)

    def call(self, f, *args):
        self.d.wipe_begin()
        r = getattr(self.L, f)(*args)
        self.d.wipe_end(self.res)
        return r

    def look(self, f, *args):
        """Call; nothing sought may be in what was released."""
        ctx = self.ctx
        r = self.call(f, *args)
        ctx.step(1)
        ctx.extra["released_blocks"] += self.res[0]
        ctx.extra["released_bytes"] += self.res[1]
        if self.res[2]:
            ctx.fail(f + " released memory holding private values", "none",
                     "%d matches, e.g. %016x" % (self.res[2], self.res[3]))
        return r

    def left(self, f, *args):
        """Call; what was released, as a digest."""
        r = self.call(f, *args)
        self.ctx.step(1)
        return r, self.res[0], self.res[1], self.res[4]


def known(ctx):
    """The search finds what is left and only that."""
    R = Rig(ctx)
    s = DATA[:64]
    R.seek([s])
    for f, found in (("wipe_leaks", True), ("wipe_moves", True),
                     ("wipe_clean", False)):
        ctx.case(f)
        ctx.states(1)
        R.d.wipe_begin()
        getattr(R.d, f)(s, C.c_size_t(64))
        R.d.wipe_end(R.res)
        if bool(R.res[2]) != found:
            raise RuntimeError("%s: %d" % (f, R.res[2]))
    # the result of a call is one of a run, not of the harness
    ctx.step(3)


def variants(ctx, der):
    """The key, every one-byte change and every prefix of it."""
    yield "valid", der
    ds = () if len(der) > 1100 else (1, 0x80, 0xff) if ctx.quick else tuple(1 << i for i in range(8))
    for i in range(len(der)):
        for d in ds:
            yield "byte %d ^ %02x" % (i, d), \
                der[:i] + bytes([der[i] ^ d]) + der[i + 1:]
        yield "prefix %d" % i, der[:i]


def rsa(ctx, bits, part, parts):
    R = Rig(ctx)
    L = R.L
    k = rsa_key(bits)
    n, size = k.n, k.k
    t, h = L.HASH_SHA256, DATA[:32]
    msg = b"plaintext words " + DATA[100:116]
    out, ol = C.create_string_buffer(8192), C.c_size_t(0)

    def priv(*extra):
        lam = k.lam
        phi = (k.p - 1) * (k.q - 1)
        return R.seek([k.d, k.p, k.q, k.dp, k.dq, k.qi, k.p - 1, k.q - 1, lam,
                       phi] + list(extra), [n, k.e])

    def var(f, *a):
        ol.value = 8192
        if not getattr(L, f)(out, C.byref(ol), *a):
            raise RuntimeError(f)
        return out.raw[:ol.value]
    pub = k.pub()
    ct = var("rsa_encrypt", msg, len(msg), pub, len(pub), ENT[0])
    big = size >= 2 * 32 + 2 + len(msg)
    oaep = var("rsa_encrypt_oaep", t, msg, len(msg), pub, len(pub), b"lab", 3,
               ENT[0]) if big else DATA[:size]
    der = k.priv()
    pe = var("rsa_privkey_export", der, len(der))
    o, l = out, C.byref(ol)
    ops = {
        "rsa_privkey_bits": lambda K: K,
        "rsa_privkey_verify": lambda K: K,
        "rsa_privkey_export": lambda K: (o, l) + K,
        "rsa_pubkey_create": lambda K: (o, l) + K,
        "rsa_sign": lambda K: (o, l, t, h, 32) + K + (ENT[1],),
        "rsa_sign_pss": lambda K: (o, l, t, h, 32) + K + (16, ENT[1]),
        "rsa_decrypt": lambda K: (o, l, ct, size) + K + (ENT[1],),
        "rsa_decrypt_key": lambda K: (o, len(msg), ct, size) + K + (ENT[1],),
        "rsa_decrypt_oaep": lambda K: (o, l, t, oaep, size) + K +
        (b"lab", 3, ENT[1]),
    }
    names = sorted(ops)[part::parts]
    for f in names:
        priv(msg)
        for what, K in variants(ctx, der):
            ctx.case(f, bits, what)
            ctx.states(1)
            ol.value = 8192
            R.look(f, *ops[f]((K, len(K))))
    if part == 0:
        priv()
        ctx.case("rsa_privkey_import", bits)
        ctx.states(1)
        R.look("rsa_privkey_import", o, l, pe, len(pe), ENT[0])
        # other lengths and digests
        for m in range(0, 65):
            ctx.case("rsa_sign", bits, m)
            ctx.states(1)
            R.look("rsa_sign", o, l, t, h * 2, m, der, len(der), ENT[2])
            R.look("rsa_sign_pss", o, l, t, h, 32, der, len(der), m, ENT[2])
    if part == 1 % parts:
        # plaintexts of every length; wrong ciphertexts
        for m in range(8, size - 10):
            s = DATA[m:2 * m]
            c = var("rsa_encrypt", s, m, pub, len(pub), ENT[2])
            priv(s)
            ctx.case("rsa_decrypt", bits, m)
            ctx.states(1)
            ol.value = 8192
            R.look("rsa_decrypt", o, l, c, size, der, len(der), ENT[0])
            R.look("rsa_decrypt_key", o, m, c, size, der, len(der), ENT[0])
            R.look("rsa_decrypt_key", o, m + 1, c, size, der, len(der), ENT[0])
        for m in range(8, size - 65):
            s = DATA[m:2 * m]
            c = var("rsa_encrypt_oaep", t, s, m, pub, len(pub), b"", 0, ENT[2])
            priv(s)
            for lab in (b"", b"x"):
                ctx.case("rsa_decrypt_oaep", bits, m, lab)
                ctx.states(1)
                ol.value = 8192
                R.look("rsa_decrypt_oaep", o, l, t, c, size, der, len(der),
                       lab, len(lab), ENT[0])
        for i in range(size):
            bad = ct[:i] + bytes([ct[i] ^ 1]) + ct[i + 1:]
            em = k.op(int.from_bytes(bad, "big") % n)
            priv(em)
            for c in (bad, bad[:i], b"\0" + bad):
                ctx.case("wrong ciphertext", bits, i, len(c))
                ctx.states(1)
                ol.value = 8192
                R.look("rsa_decrypt", o, l, c, len(c), der, len(der), ENT[0])
                R.look("rsa_decrypt_oaep", o, l, t, c, len(c), der, len(der),
                       b"", 0, ENT[0])
                R.look("rsa_decrypt_key", o, 16, c, len(c), der, len(der),
                       ENT[0])


def dsa(ctx, pb, qb, part, parts):
    R = Rig(ctx)
    L = R.L
    grp = p, q, g = ffc.group(pb, qb)
    x = int.from_bytes(DATA[7:7 + qb // 8], "big") % q
    key = ffc.Key(grp, x)
    peer = ffc.Key(grp, int.from_bytes(DATA[70:70 + qb // 8], "big") % q)
    h = DATA[:32]
    m = ffc.bits2int(h, q) % q
    nonce = next(ffc.rfc6979(x, m, q))
    r, s = key.with_nonce(m, nonce)
    der, up = key.priv(), peer.pub()
    out, ol = C.create_string_buffer(8192), C.c_size_t(0)
    o, l = out, C.byref(ol)
    secrets = [x, nonce, pow(nonce, -1, q), r * x % q, r * x,
               (m + r * x) % q]
    public = [p, q, g, key.y, peer.y, r, s, m, pow(g, nonce, p)]
    if not L.dsa_privkey_export(o, l, der, len(der)):
        raise RuntimeError("dsa_privkey_export")
    pe = out.raw[:ol.value]
    ops = {
        "dsa_privkey_bits": lambda K: K,
        "dsa_privkey_qbits": lambda K: K,
        "dsa_privkey_verify": lambda K: K,
        "dsa_privkey_export": lambda K: (o, l) + K,
        "dsa_pubkey_create": lambda K: (o, l) + K,
        "dsa_params_create": lambda K: (o, l) + K,
        "dsa_sign": lambda K: (o, l, h, 32) + K + (ENT[0],),
        "dsa_derive": lambda K: (o, l, up, len(up)) + K,
    }
    heavy = ("dsa_sign", "dsa_derive", "dsa_pubkey_create")
    R.seek(secrets, public)
    for f in sorted(ops)[part::parts]:
        for what, K in variants(ctx, der):
            if ctx.quick and f in heavy and pb > 1024 and "^ 0" not in what:
                continue
            ctx.case(f, pb, what)
            ctx.states(1)
            ol.value = 8192
            R.look(f, *ops[f]((K, len(K))))
    if part == 0:
        for what, K in variants(ctx, pe):
            ctx.case("dsa_privkey_import", pb, what)
            ctx.states(1)
            ol.value = 8192
            R.look("dsa_privkey_import", o, l, K, len(K))
        # messages of every length
        for n in range(0, 70):
            mm = ffc.bits2int(DATA[:n], q) % q
            kk = next(ffc.rfc6979(x, mm, q))
            rr, ss = key.with_nonce(mm, kk)
            R.seek([x, kk, pow(kk, -1, q), rr * x % q, rr * x],
                   public + [rr, ss, mm, pow(g, kk, p)])
            for e in ENT:
                ctx.case("dsa_sign", pb, n, e[0])
                ctx.states(1)
                ol.value = 8192
                R.look("dsa_sign", o, l, DATA[:n], n, der, len(der), e)
    if part == 1:
        # peers that are refused
        R.seek([x], [p, q, g, key.y, peer.y])
        for what, U in variants(ctx, up):
            if ctx.quick and "^ 8" in what:
                continue
            ctx.case("dsa_derive", pb, what)
            ctx.states(1)
            ol.value = 8192
            R.look("dsa_derive", o, l, U, len(U), der, len(der))


def scrypt(ctx):
    R = Rig(ctx)
    out = C.create_string_buffer(256)
    pws = [b"password", b"another one", b""]
    for N in (2, 4, 16, 64):
        for r in (1, 2, 8):
            for p in (1, 2, 3):
                seen = []
                for pw in pws:
                    ctx.case("scrypt", N, r, p, pw)
                    ctx.states(1)
                    x = R.left("scrypt_derive", out, pw, len(pw), DATA, 16, N,
                               r, p, 64)
                    ctx.eq(x[0], 1, "scrypt_derive")
                    seen.append(x)
                ctx.check(len(set(seen)) == 1, "what scrypt releases depends "
                          "on the password", seen[0], seen[1])


def passwords(ctx):
    """The other derivations, for passwords of all lengths."""
    R = Rig(ctx)
    L = R.L
    out = [C.create_string_buffer(256) for _ in range(2)]
    salt = DATA[2000:2016]
    hs = [getattr(L, "HASH_" + h) for h in ("MD5", "SHA1", "SHA256", "SHA512")]
    for n in list(range(8, 150)) + [255, 256, 1000]:
        pw = bytes(b or 1 for b in DATA[n:2 * n])
        R.seek([pw], [salt])
        for t in hs:
            ctx.case("password", n, t)
            ctx.states(1)
            R.look("eb2k_derive", out[0], out[1], t, pw, n, salt, 8, 32, 16)
            R.look("hkdf_extract", out[0], t, pw, n, salt, 16)
            R.look("hkdf_expand", out[0], t, pw * 8, salt, 16, 100)
            R.look("pbkdf2_derive", out[0], t, pw, n, salt, 16, 2, 50)
            R.look("pgpdf_derive_simple", out[0], t, pw, n, 40)
            R.look("pgpdf_derive_salted", out[0], t, pw, n, salt, 8, 40)
            R.look("pgpdf_derive_iterated", out[0], t, pw, n, salt, 8, 100,
                   40)
        R.look("scrypt_derive", out[0], pw, n, salt, 16, 2, 1, 2, 40)
        if n < 20 or n in (72, 73, 255):
            R.look("bcrypt_generate", out[0], pw, n, salt, 4, 0x62)
            R.look("bcrypt_pbkdf", out[0], pw, n, salt, 16, 1, 40)


def numbers(ctx):
    """Clearing functions."""
    R = Rig(ctx)
    size = 64
    L = R.L
    for n in range(1, 41):
        for sign in (0, 1):
            s = DATA[n:n + 8 * n]
            R.seek([s])
            z = C.create_string_buffer(size)
            L.mpz_init(z)
            L.mpz_import(z, s, len(s), 1)
            if sign:
                L.mpz_neg(z, z)
            ctx.case("mpz_cleanse", n, sign)
            ctx.states(1)
            R.look("mpz_cleanse", z)
            # a number that has shrunk still has its old words
            z = C.create_string_buffer(size)
            L.mpz_init(z)
            L.mpz_import(z, s, len(s), 1)
            L.mpz_set_ui(z, 5)
            ctx.case("mpz_cleanse shrunk", n, sign)
            ctx.states(1)
            R.look("mpz_cleanse", z)
            zs = [C.create_string_buffer(size) for _ in range(3)]
            for y in zs:
                L.mpz_init(y)
                L.mpz_import(y, s, len(s), 1)
            ctx.case("mpz_cleanses", n)
            ctx.states(1)
            R.look("mpz_cleanses", zs[0], zs[1], zs[2], C.c_void_p(None))


def create(R, kind, name):
    return getattr(R.L, kind + "_curve_create")(
        getattr(R.L, "%s_CURVE_%s" % (kind.upper(), name)))


def blinding(ctx):
    R = Rig(ctx)
    L = R.L
    for kind, names in (("wei", curves.WEI), ("edwards", curves.ED)):
        for name in names:
            seen = []
            for e in ENT:
                for again in (None,) + tuple(ENT[:2]):
                    ec = create(R, kind, name)
                    getattr(L, kind + "_curve_randomize")(ec, e)
                    if again:
                        getattr(L, kind + "_curve_randomize")(ec, again)
                    ctx.case("destroy", name, e[0], again and again[0])
                    ctx.states(1)
                    seen.append(R.left(kind + "_curve_destroy", ec)[1:])
            ctx.check(len(set(seen)) == 1, "a destroyed curve object leaves "
                      "its blinding behind", seen[0], sorted(set(seen))[-1])


def schemes(ctx, kind, name):
    """Every function given a private key, over keys and refusals."""
    R = Rig(ctx)
    L = R.L
    ec = create(R, kind, name)
    if kind != "mont":
        getattr(L, kind + "_curve_randomize")(ec, ENT[0])
    out = [C.create_string_buffer(512) for _ in range(3)]
    ol = C.c_size_t(0)
    c = {"wei": curves.WEI, "edwards": curves.ED,
         "mont": curves.MONT}[kind][name]
    msg = DATA[:40]
    public = [c.n] if kind == "wei" else []

    def run(f, *a, sec=()):
        ctx.case(name, f, key.hex()[:16])
        ctx.states(1)
        R.seek([key] + list(sec), public)
        ol.value = 512
        return R.look(f, *a)
    o, l = out[0], C.byref(ol)
    if kind == "wei":
        ns = c.nsize
        keys = [enc(int.from_bytes(DATA[i:i + ns], "big") % (c.n - 1) + 1, ns)
                for i in (1, 300)]
        keys += [enc(c.n, ns), enc(c.n + (1 << 70), ns), b"\xfe\xdc" * (ns // 2)
                 + b"\xba" * (ns % 2), enc(c.n - DATA[9], ns)]
        pub = C.create_string_buffer(512)
        pl = C.c_size_t(512)
        L.ecdsa_pubkey_create(ec, pub, C.byref(pl), keys[1], 1)
        U = (pub.raw[:pl.value], pl.value)
        tw = keys[1]
        for key in keys:
            for f in ("verify",):
                run("ecdsa_privkey_" + f, ec, key)
                run("bip340_privkey_" + f, ec, key)
            for f in ("export", "negate", "invert"):
                run("ecdsa_privkey_" + f, ec, o, key)
            for f in ("negate", "invert"):
                run("ecdsa_privkey_" + f, ec, o, key)
            run("ecdsa_privkey_tweak_add", ec, o, key, tw)
            run("ecdsa_privkey_tweak_mul", ec, o, key, tw)
            run("ecdsa_pubkey_create", ec, o, l, key, 1)
            run("ecdsa_privkey_import", ec, o, key, ns)
            run("ecdsa_sign", ec, o, None, msg, 32, key)
            run("ecdsa_derive", ec, o, l, U[0], U[1], key, 1)
            run("ecdsa_derive", ec, o, l, U[0], U[1] - 1, key, 1)
            run("bip340_pubkey_create", ec, o, key)
            run("bip340_sign", ec, o, msg, 32, key, ENT[0])
            run("bip340_privkey_export", ec, o, out[1], out[2], key)
            run("bip340_privkey_tweak_add", ec, o, key, tw)
            if L.bipschnorr_support(ec):
                run("bipschnorr_sign", ec, o, msg, 32, key)
    elif kind == "edwards":
        fs = L.edwards_curve_field_size(ec)
        ns = L.edwards_curve_scalar_size(ec)
        ps = L.eddsa_privkey_size(ec)
        keys = [DATA[i:i + ps] for i in (1, 300, 700)]
        L.eddsa_pubkey_create(ec, out[2], keys[1])
        U = out[2].raw[:L.eddsa_pubkey_size(ec)]
        for key in keys:
            L.eddsa_privkey_expand(ec, out[1], out[2], key)
            sc, pre = out[1].raw[:ns], out[2].raw[:fs]
            S = (sc, pre)
            tw = DATA[40:40 + ns]
            run("eddsa_privkey_expand", ec, o, out[1], key, sec=S)
            run("eddsa_privkey_convert", ec, o, key, sec=S)
            run("eddsa_pubkey_create", ec, o, key, sec=S)
            run("eddsa_sign", ec, o, msg, 40, key, -1, None, 0, sec=S)
            run("eddsa_sign_with_scalar", ec, o, msg, 40, sc, pre, -1, None, 0,
                sec=S)
            run("eddsa_sign_tweak_add", ec, o, msg, 40, key, tw, -1, None, 0,
                sec=S)
            run("eddsa_sign_tweak_mul", ec, o, msg, 40, key, tw, -1, None, 0,
                sec=S)
            run("eddsa_derive", ec, o, U, key, sec=S)
            run("eddsa_derive", ec, o, bytes(len(U)), key, sec=S)
            run("eddsa_derive_with_scalar", ec, o, U, sc, sec=S)
            run("eddsa_pubkey_from_scalar", ec, o, sc, sec=S)
            for f in ("negate", "invert", "reduce", "clamp"):
                run("eddsa_scalar_" + f, ec, o, sc, sec=S)
            run("eddsa_scalar_tweak_add", ec, o, sc, tw, sec=S)
            run("eddsa_scalar_tweak_mul", ec, o, sc, tw, sec=S)
    else:
        ns = L.ecdh_privkey_size(ec)
        keys = [DATA[i:i + ns] for i in (1, 300, 700)]
        L.ecdh_pubkey_create(ec, out[2], keys[1])
        U = out[2].raw[:L.ecdh_pubkey_size(ec)]
        for key in keys:
            run("ecdh_pubkey_create", ec, o, key)
            for u in (U, bytes(len(U)), b"\xff" * len(U)):
                run("ecdh_derive", ec, o, u, key)
            run("ecdh_privkey_export", ec, o, key)
            run("ecdh_privkey_import", ec, o, key, ns)
    R.seek(keys[:2])
    ctx.case("destroy", name)
    R.look(kind + "_curve_destroy", ec)


def tasks(tier):
    ts = [Task("known", known), Task("scrypt", scrypt),
          Task("passwords", passwords)]
    for v in ("n64", "p32"):
        sizes = (512, 768) if tier == "quick" else (512, 768, 1024, 2048)
        for b in sizes:
            for i in range(3):
                ts.append(Task("rsa-%d/%d/%s" % (b, i, v), rsa, (b, i, 3),
                               variant=v))
        for pb, qb in ((1024, 160), (2048, 256)):
            for i in range(4):
                ts.append(Task("dsa-%d/%d/%s" % (pb, i, v), dsa,
                               (pb, qb, i, 4), variant=v))
        ts.append(Task("blinding/" + v, blinding, variant=v))
        ts.append(Task("numbers/" + v, numbers, variant=v))
        for kind, d in (("wei", curves.WEI), ("edwards", curves.ED),
                        ("mont", curves.MONT)):
            for n in d:
                ts.append(Task("%s/%s/%s" % (kind, n, v), schemes, (kind, n),
                               variant=v))
    return ts
