"""F01: running out of memory.

The library is built over a heap which refuses chosen requests.  Each operation
first runs with all requests granted; then again for every request it made,
with that one refused, with that and all later ones refused, and with every
pair of refusals where there are few.  The call must either stop the process
by its own decision, or report failure having released everything, or give
exactly the result it gives with enough memory."""

import ctypes as C

from mc import curves, ffc, oom
from mc.core import Task
from mc.lib import Lib, Out
from mc.numth import rsa_key

BOUNDS = ("every operation that allocates: scrypt (8 parameter sets), base58 "
          "(lengths 0..64, 300), RSA (512- and 1024-bit "
          "keys, all operations, right and wrong inputs), DSA (1024/160), "
          "curve objects and scratch space of all curves, batch "
          "verification; every single refusal, every refusal from one request "
          "onwards, all pairs where at most 100 (thorough: 400) requests "
          "are made; every prefix of RSA and DSA keys; 64-bit and portable "
          "build")
ASSUMPTIONS = [
    "stopping the process is an allowed answer: it is what the library does "
    "where an operation has no way to report failure",
    "requests are those to the C heap",
]
TECHNIQUE = ("exhaustive exploration of allocation-failure sequences on the "
             "real code, compared with the run that has enough memory")
LIBS = ()

DATA = bytes((i * 167 + i // 256 + 43) & 255 for i in range(4096))
ENT = DATA[64:96]


def prepare(tier):
    return {"lib": {v: oom.library(v) for v in ("n64", "p32")}}


class Rig:
    def __init__(self, ctx):
        self.ctx = ctx
        self.L = Lib(ctx.cfg["extra"]["lib"][ctx.variant], ctx.cfg["consts"])
        self.d = self.L._dll
        self.d.oom_call.argtypes = [C.c_void_p, C.c_void_p, C.c_uint64,
                                    C.c_uint64, C.c_int, C.c_void_p]
        self.d.oom_call.restype = None
        self.d.oom_sweep.restype = None
        self.res = (C.c_uint64 * 6)()
        self.n = C.c_size_t()
        self.pairs = 100 if ctx.quick else 400
        for k in ("refusals", "stopped", "failed", "unaffected"):
            ctx.extra[k] = 0

    def call(self, f, rt, args, a=0, b=0, all_=0):
        """(how it ended, result, outputs, blocks left)"""
        outs, keep = [], []
        v = (C.c_uint64 * 12)()
        for i, x in enumerate(args):
            if isinstance(x, Out):
                outs.append(x.reset())
                v[i] = x.ptr
            elif isinstance(x, bytes):
                s = C.create_string_buffer(x, max(len(x), 1))
                keep.append(s)
                v[i] = C.addressof(s)
            elif x is Ellipsis:
                self.n.value = 0xabcd
                v[i] = C.addressof(self.n)
            elif isinstance(x, C.Array):
                v[i] = C.addressof(x)
            elif x is None:
                v[i] = 0
            else:
                v[i] = x & (1 << 64) - 1
        self.d.oom_call(f, v, a, b, all_, self.res)
        how, r = self.res[0], self.res[1]
        if rt is None:
            r = 1
        elif rt is C.c_void_p:
            r = int(r != 0)
        else:
            r &= 0xffffffff
        got = (how, r, (self.n.value,) + tuple(o.get() for o in outs),
               self.res[4])
        if not all(o.intact() for o in outs):
            self.ctx.fail("output size")
        return got

    def op(self, name, *args, want=None, fn=None):
        ctx = self.ctx
        ctx.case(name, *[a for a in args if isinstance(a, (int, bytes))])
        if fn is None:
            fn = getattr(self.L, name)
            rt = fn.restype
        else:
            rt = C.c_int
        f = C.cast(fn, C.c_void_p)
        base = self.call(f, rt, args)
        total = self.res[2]
        self.d.oom_sweep()
        ctx.states(1)
        if base[0]:
            ctx.fail("ended without a refusal")
            return 0
        if want is not None:
            ctx.eq(base[1], want, "result with enough memory")
        if base[1] == 0:
            ctx.eq(base[3], 0, "blocks left by a failing call")
        runs = [(k, 0, 0) for k in range(1, total + 1)]
        runs += [(0, k, 1) for k in range(1, total)]
        if total <= self.pairs:
            runs += [(i, j, 0) for i in range(1, total + 1)
                     for j in range(i + 1, total + 2)]
        for a, b, all_ in runs:
            how, r, outs, left = self.call(f, rt, args, a, b, all_)
            refused = self.res[3]
            self.d.oom_sweep()
            ctx.states(1)
            ctx.step(1)
            ctx.extra["refusals"] += refused
            if how == 1:
                ctx.extra["stopped"] += 1
                continue
            what = None
            if how:
                what = "crash"
            elif r == 0:
                ctx.extra["failed"] += 1
                if left:
                    what = "%d blocks never released" % left
            else:
                ctx.extra["unaffected"] += 1
                if (r, outs, left) != base[1:]:
                    what = "another result"
            if what:
                ctx.case(name, *[x for x in args
                                 if isinstance(x, (int, bytes))],
                         "refused", a, b, all_)
                ctx.fail("%s after a refused request" % what, base[1], r)
        return base[1]


def known(ctx):
    """What is planted is told apart."""
    R = Rig(ctx)
    out = Out(16)
    for name, bad in (("oom_good", 0), ("oom_stops", 0), ("oom_leaks", 1),
                      ("oom_writes", 1), ("oom_lies", 1)):
        class Sub:
            fails = 0

            def __getattr__(self, k):
                return getattr(ctx, k)

            def fail(self, *a):
                self.fails += 1
        R.ctx = s = Sub()
        R.op(name, out, DATA[:16], 16, fn=getattr(R.d, name))
        if bool(s.fails) != bool(bad):
            raise RuntimeError("%s: %d" % (name, s.fails))
    R.ctx = ctx


def scrypt(ctx):
    R = Rig(ctx)
    for N, r, p in ((2, 1, 1), (4, 1, 2), (16, 2, 1), (16, 8, 2), (64, 1, 3),
                    (64, 8, 1), (128, 3, 3), (1024, 8, 1)):
        for ln in (0, 1, 32, 64, 100):
            R.op("scrypt_derive", Out(ln), b"password", 8, DATA[:16], 16, N, r,
                 p, ln, want=1)
    for N in (0, 3, 5):
        R.op("scrypt_derive", Out(32), b"password", 8, DATA[:16], 16, N, 1, 1,
             32, want=0)


def texts(ctx):
    R = Rig(ctx)
    L = R.L
    for n in list(range(65)) + [300]:
        for data in (DATA[:n], bytes(n), bytes(n // 2) + DATA[:n - n // 2]):
            e = Out(2 * n + 8)
            R.op("base58_encode", e, ..., data, n, want=1)
            L.base58_encode(e, C.byref(R.n), data, n)
            s = e.get(R.n.value)
            d = Out(len(s) + 8)
            R.op("base58_decode", d, ..., s, len(s), want=1)
            if s:
                bad = s[:len(s) // 2] + b"0" + s[len(s) // 2 + 1:]
                R.op("base58_decode", d, ..., bad, len(bad), want=0)


def rsa(ctx, bits, part, parts):
    R = Rig(ctx)
    L = R.L
    k = rsa_key(bits)
    size, t, h = k.k, L.HASH_SHA1, DATA[:20]
    der, pub = k.priv(), k.pub()
    o, K, P = Out(size), (der, len(der)), (pub, len(pub))
    big = Out(4096)

    def var(f, *a):
        if getattr(L, f)(o.reset(), C.byref(R.n), *a) != 1:
            raise RuntimeError(f)
        return o.get(R.n.value)
    msg = DATA[:16]
    sig = var("rsa_sign", t, h, 20, *K, ENT)
    pss = var("rsa_sign_pss", t, h, 20, *K, 20, ENT)
    ct = var("rsa_encrypt", msg, 16, *P, ENT)
    oct_ = var("rsa_encrypt_oaep", t, msg, 16, *P, b"", 0, ENT)
    L.rsa_privkey_export(big, C.byref(R.n), *K)
    pe = big.get(R.n.value)
    L.rsa_pubkey_export(big, C.byref(R.n), *P)
    pp = big.get(R.n.value)
    v = Out(size + 4)
    L.rsa_veil(v, C.byref(R.n), ct, size, k.bits + 32, *P, ENT)
    w = v.get(R.n.value)

    def bad(s):
        return s[:-1] + bytes([s[-1] ^ 1])
    tail = (b"", 0)
    jobs = [
        ("rsa_sign", (o, ..., t, h, 20) + K + (ENT,), 1),
        ("rsa_sign", (o, ..., t, h, 19) + K + (ENT,), 0),
        ("rsa_verify", (t, h, 20, sig, size) + P, 1),
        ("rsa_verify", (t, h, 20, bad(sig), size) + P, 0),
        ("rsa_verify", (t, bad(h), 20, sig, size) + P, 0),
        ("rsa_encrypt", (o, ..., msg, 16) + P + (ENT,), 1),
        ("rsa_decrypt", (o, ..., ct, size) + K + (ENT,), 1),
        ("rsa_decrypt", (o, ..., bad(ct), size) + K + (ENT,), 0),
        ("rsa_decrypt_key", (Out(16), 16, ct, size) + K + (ENT,), 1),
        ("rsa_decrypt_key", (Out(16), 16, bad(ct), size) + K + (ENT,), 1),
        ("rsa_decrypt_key", (Out(17), 17, ct, size) + K + (ENT,), 1),
        ("rsa_sign_pss", (o, ..., t, h, 20) + K + (20, ENT), 1),
        ("rsa_sign_pss", (o, ..., t, h, 20) + K + (0, ENT), 1),
        ("rsa_sign_pss", (o, ..., t, h, 20) + K + (size, ENT), 0),
        ("rsa_verify_pss", (t, h, 20, pss, size) + P + (20,), 1),
        ("rsa_verify_pss", (t, h, 20, pss, size) + P + (0,), 1),
        ("rsa_verify_pss", (t, h, 20, pss, size) + P + (21,), 0),
        ("rsa_verify_pss", (t, h, 20, bad(pss), size) + P + (20,), 0),
        ("rsa_encrypt_oaep", (o, ..., t, msg, 16) + P + tail + (ENT,), 1),
        ("rsa_decrypt_oaep", (o, ..., t, oct_, size) + K + tail + (ENT,), 1),
        ("rsa_decrypt_oaep", (o, ..., t, bad(oct_), size) + K + tail + (ENT,),
         0),
        ("rsa_veil", (v, ..., ct, size, k.bits + 32) + P + (ENT,), 1),
        ("rsa_unveil", (o, ..., w, len(w), k.bits + 32) + P, 1),
        ("rsa_unveil", (o, ..., b"\xff" * len(w), len(w), k.bits) + P, 0),
        ("rsa_privkey_bits", K, k.bits),
        ("rsa_privkey_verify", K, 1),
        ("rsa_privkey_verify", (bad(der), len(der)), 0),
        ("rsa_privkey_export", (big, ...) + K, 1),
        ("rsa_privkey_import", (big, ..., pe, len(pe), ENT), 1),
        ("rsa_pubkey_create", (big, ...) + K, 1),
        ("rsa_pubkey_bits", P, k.bits),
        ("rsa_pubkey_verify", P, 1),
        ("rsa_pubkey_export", (big, ...) + P, 1),
        ("rsa_pubkey_import", (big, ..., pp, len(pp)), 1),
        ("rsa_pubkey_bits", (pub[:-1], len(pub) - 1), 0),
        ("rsa_privkey_bits", (der[:-1], len(der) - 1), 0),
    ]
    for i in range(len(der)):
        jobs.append(("rsa_privkey_verify", (der[:i], i), 0))
        jobs.append(("rsa_privkey_import", (big, ..., pe[:i], min(i, len(pe)),
                                            ENT), None))
    for i in range(len(pub)):
        jobs.append(("rsa_pubkey_verify", (pub[:i], i), 0))
    for f, a, want in jobs[part::parts]:
        R.op(f, *a, want=want)


def dsa(ctx, part, parts):
    R = Rig(ctx)
    L = R.L
    grp = ffc.group(1024, 160)
    key = ffc.Key(grp, int.from_bytes(DATA[7:27], "big") % grp[1])
    peer = ffc.Key(grp, int.from_bytes(DATA[70:90], "big") % grp[1])
    der, pub, par = key.priv(), key.pub(), key.params()
    up = peer.pub()
    K, P, M = (der, len(der)), (pub, len(pub)), (par, len(par))
    o, h = Out(4096), DATA[:20]
    r, s = key.sign(h)
    sig = key.enc(r, s)

    def var(f, *a):
        if getattr(L, f)(o.reset(), C.byref(R.n), *a) != 1:
            raise RuntimeError(f)
        return o.get(R.n.value)
    pe, qe, me = (var("dsa_privkey_export", *K), var("dsa_pubkey_export", *P),
                  var("dsa_params_export", *M))
    sd = var("dsa_sig_export", sig, len(sig), 0)

    def bad(x):
        return x[:-1] + bytes([x[-1] ^ 1])
    jobs = [
        ("dsa_sign", (o, ..., h, 20) + K + (ENT,), 1),
        ("dsa_verify", (h, 20, sig, 40) + P, 1),
        ("dsa_verify", (h, 20, bad(sig), 40) + P, 0),
        ("dsa_verify", (bad(h), 20, sig, 40) + P, 0),
        ("dsa_derive", (o, ..., up, len(up)) + K, 1),
        ("dsa_privkey_create", (o, ...) + M + (ENT,), 1),
        ("dsa_pubkey_create", (o, ...) + K, 1),
        ("dsa_params_create", (o, ...) + K, 1),
        ("dsa_privkey_verify", K, 1),
        ("dsa_privkey_verify", (bad(der), len(der)), 0),
        ("dsa_pubkey_verify", P, 1),
        ("dsa_privkey_bits", K, 1024), ("dsa_privkey_qbits", K, 160),
        ("dsa_pubkey_bits", P, 1024), ("dsa_pubkey_qbits", P, 160),
        ("dsa_params_bits", M, 1024), ("dsa_params_qbits", M, 160),
        ("dsa_privkey_export", (o, ...) + K, 1),
        ("dsa_pubkey_export", (o, ...) + P, 1),
        ("dsa_params_export", (o, ...) + M, 1),
        ("dsa_privkey_import", (o, ..., pe, len(pe)), 1),
        ("dsa_pubkey_import", (o, ..., qe, len(qe)), 1),
        ("dsa_params_import", (o, ..., me, len(me)), 1),
        ("dsa_sig_export", (o, ..., sig, 40, 0), 1),
        ("dsa_sig_import", (o, ..., sd, len(sd), 20), 1),
        ("dsa_sig_import", (o, ..., sd[:-1], len(sd) - 1, 20), 0),
    ]
    if ctx.variant == "n64":
        jobs.append(("dsa_params_verify", M, 1))
    for i in range(len(der)):
        jobs.append(("dsa_privkey_verify", (der[:i], i), 0))
    for i in range(len(pub)):
        jobs.append(("dsa_pubkey_verify", (pub[:i], i), 0))
    for i in range(len(par)):
        jobs.append(("dsa_params_bits", (par[:i], i), 0))
    for f, a, want in jobs[part::parts]:
        R.op(f, *a, want=want)


def objects(ctx):
    R = Rig(ctx)
    L = R.L
    for fam, names in (("wei", curves.WEI), ("edwards", curves.ED),
                       ("mont", curves.MONT)):
        for nm in names:
            i = getattr(L, "%s_CURVE_%s" % (fam.upper(), nm))
            R.op(fam + "_curve_create", i, want=1)
            if fam == "mont":
                continue
            ec = getattr(L, fam + "_curve_create")(i)
            for size in (1, 2, 3, 5, 8, 64):
                R.op(fam + "_scratch_create", ec, size, want=1)
            R.op(fam + "_curve_randomize", ec, ENT)
            getattr(L, fam + "_curve_destroy")(ec)


def arr(items):
    n = max(len(items), 1)
    return (C.c_char_p * n)(*items), (C.c_size_t * n)(*map(len, items))


def batches(ctx):
    R = Rig(ctx)
    L = R.L

    def run(name, ec, scratch, msgs, pubs, sigs, lens):
        for wrong in [None] + list(range(len(msgs))):
            ss = [bytes([s[0] ^ 1]) + s[1:] if i == wrong else s
                  for i, s in enumerate(sigs)]
            (m, ml), (s, _), (p, pl) = arr(msgs), arr(ss), arr(pubs)
            args = [ec, m, ml, s, p] + ([pl] if lens else []) + [len(msgs)]
            if name.startswith("eddsa"):
                args += [-1, None, 0]
            R.op(name, *args, scratch, want=int(wrong is None))

    for nm in ("P256", "SECP256K1"):
        ec = L.wei_curve_create(getattr(L, "WEI_CURVE_" + nm))
        sc = L.wei_scratch_create(ec, 4)
        for count in (0, 1, 2, 5):
            msgs = [DATA[i:i + 32] for i in range(count)]
            for kind in ("bip340", "bipschnorr"):
                if kind == "bip340" and nm != "SECP256K1":
                    continue
                pubs, sigs = [], []
                for i in range(count):
                    d = DATA[i + 100:i + 132]
                    po, so = Out(33), Out(64)
                    if kind == "bip340":
                        L.bip340_pubkey_create(ec, po, d)
                        L.bip340_sign(ec, so, msgs[i], 32, d, ENT)
                        pubs.append(po.get(32))
                    else:
                        L.ecdsa_pubkey_create(ec, po, C.byref(R.n), d, 1)
                        L.bipschnorr_sign(ec, so, msgs[i], 32, d)
                        pubs.append(po.get(R.n.value))
                    sigs.append(so.get())
                run(kind + "_verify_batch", ec, sc, msgs, pubs, sigs,
                    kind != "bip340")
        L.wei_scratch_destroy(ec, sc)
        L.wei_curve_destroy(ec)
    for nm, c in curves.ED.items():
        ec = L.edwards_curve_create(getattr(L, "EDWARDS_CURVE_" + nm))
        sc = L.edwards_scratch_create(ec, 4)
        for count in (0, 1, 2, 5):
            msgs, pubs, sigs = [DATA[i:i + 32] for i in range(count)], [], []
            for i in range(count):
                po, so = Out(c.adj), Out(2 * c.adj)
                d = DATA[i + 100:i + 100 + c.adj]
                L.eddsa_pubkey_create(ec, po, d)
                L.eddsa_sign(ec, so, msgs[i], 32, d, -1, None, 0)
                pubs.append(po.get())
                sigs.append(so.get())
            run("eddsa_verify_batch", ec, sc, msgs, pubs, sigs, False)
        L.edwards_scratch_destroy(ec, sc)
        L.edwards_curve_destroy(ec)


def tasks(tier):
    t = []
    for v in ("n64", "p32"):
        for fn in (known, scrypt, texts, objects, batches):
            t.append(Task("%s/%s" % (fn.__name__, v), fn, (), v))
        for i in range(4):
            t.append(Task("rsa-512-%d/%s" % (i, v), rsa, (512, i, 4), v))
            t.append(Task("dsa-%d/%s" % (i, v), dsa, (i, 4), v))
    for i in range(6):
        t.append(Task("rsa-1024-%d" % i, rsa, (1024, i, 6), "n64"))
    return t
