"""P01: threads and earlier calls do not interfere.

Programs of library calls are built for the whole interface, on inputs, keys,
cipher and curve objects which all programs share.  Each runs alone first, in a
build that reports every access: what it writes of the memory threads could
share (the library's own image, shared inputs and objects) is its footprint.
Two programs whose footprints do not meet commute, so that all their
interleavings are one; those that do meet are run in two threads under a
scheduler, through all schedules with up to two preemptions at the accesses in
conflict.  Short programs are run through all schedules with one preemption at
any shared access, which checks the reduction itself."""

from mc import conc, curves, ffc, guard
from mc.ciphers import BLOCK
from mc.conc import At, Program, Ret, Rig
from mc.core import Task
from mc.numth import next_prime, rsa_key

BOUNDS = ("a program per public function and 2..3 sets of arguments (accepted "
          "and refused), on all curves, hashes, ciphers x modes; alone, after "
          "itself and after the program listed before it; every access "
          "recorded; pairs in conflict: all schedules of two threads with up "
          "to 2 preemptions at 40 conflicting accesses or fewer, 1 at up to "
          "2000; programs with up to 40 (thorough: 1000) shared accesses: all "
          "schedules with 1 preemption; 64-bit and portable build")
ASSUMPTIONS = [
    "sequential consistency: one access happens at a time",
    "assembly inside the library is seen by what it leaves changed, not "
    "access by access",
    "the shared generator is left to R01",
]
TECHNIQUE = ("exhaustive exploration of thread interleavings of the real code "
             "up to a preemption bound, reduced by independence of recorded "
             "memory footprints")
LIBS = ()
STALL = 150

TYPES = ["hash_t", "hmac_t", "cipher_t", "cipher_stream_t", "chacha20_t",
         "salsa20_t", "arc4_t", "poly1305_t", "chachapoly_t", "hmac_drbg_t",
         "hash_drbg_t", "ctr_drbg_t", "cbc_t", "xts_t", "ctr_t", "cfb_t",
         "ofb_t", "gcm_t", "ccm_t", "eax_t", "mpz_t", "aes_t", "arc2_t",
         "blowfish_t", "camellia_t", "cast5_t", "des_t", "des_ede_t",
         "des_ede3_t", "idea_t", "serpent_t", "twofish_t"]


def prepare(tier):
    return {"lib": {v: conc.library(v) for v in ("n64", "p32")},
            "val": guard.values(["sizeof(%s)" % t for t in TYPES])}


DATA = bytes((i * 167 + i // 256 + 43) & 255 for i in range(4096))
ENT = [bytes(range(64)), bytes(range(100, 164)), b"\xff" * 64]
MSG = [b"a message", DATA[:200], b""]


class Set:
    """The programs of one task."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.rig = Rig(ctx, ctx.cfg["extra"]["lib"][ctx.variant])
        self.L = self.rig.L
        self.progs = []    # (name, builder)
        self.skipped = []

    def size(self, t):
        return self.ctx.cfg["extra"]["val"]["sizeof(%s)" % t]

    def add(self, name, build):
        """build(program) appends the calls; it is used once per thread."""
        def make():
            p = Program(self.rig, name)
            build(p)
            return p
        self.progs.append((name, make))

    # -- exploration -------------------------------------------------------

    def explore(self, a, b, ha, hb, bound, every=False, cap=2000):
        """All schedules of a and b; returns the number of points."""
        ctx, rig = self.ctx, self.rig
        longest = 0
        for first in (0, 1):
            todo = [()]
            while todo:
                pts = todo.pop()
                ctx.case("threads", a.name, b.name, first, pts)
                ctx.states(1)
                bad, h, th = rig.pair(a, b, first, pts, every)
                ctx.step(max(len(th), 1))
                if bad:
                    ctx.fail("two threads: " + bad)
                    return longest
                if h != (ha, hb):
                    ctx.fail("the result depends on the other thread",
                             "results as alone",
                             "thread %s differs" % " and ".join(
                                 str(i) for i in (0, 1)
                                 if h[i] != (ha, hb)[i]))
                    return longest
                longest = max(longest, len(th))
                if len(pts) < bound:
                    lo = pts[-1] + 1 if pts else 0
                    nxt = [i for i in range(lo, len(th)) if th[i] & 2]
                    todo += [pts + (i,) for i in nxt[:cap]]
        return longest

    def run(self):
        ctx, rig, s = self.ctx, self.rig, self.rig.s
        done, writers = [], []
        for name, make in self.progs:
            p = make()
            ctx.case("alone", name)
            s.conc_clear()
            bad, h = rig.alone(p)
            ctx.states(1)
            ctx.step(rig.res.accesses)
            if bad:
                raise RuntimeError("%s alone: %s" % (name, bad))
            w = rig.written()
            ctx.case("after itself", name)
            bad, h2 = rig.alone(p, p)
            ctx.step(rig.res.accesses)
            if bad or h2 != h:
                ctx.fail("the result depends on an earlier call", "the same "
                         "result", bad or "another result")
            w |= rig.written()
            if done:
                ctx.case("after another", name, done[-1][0])
                ctx.states(1)
                bad, h2 = rig.alone(p, done[-1][1])
                ctx.step(rig.res.accesses)
                if bad or h2 != h:
                    ctx.fail("the result depends on an earlier call", "the "
                             "same result", bad or "another result")
            done.append((name, p, make(), h, w, rig.res.accesses))
        ctx.extra["programs"] = len(done)
        ctx.extra["independent_pairs"] = 0
        union = set()
        for d in done:
            union |= d[4]
        # what each touches of the words anyone writes
        touched = {}
        if union:
            for name, p, _, h, w, _ in done:
                s.conc_clear()
                rig.alone(p)
                touched[name] = rig.written(15) & union
        n = len(done)
        conflicts = []
        for i in range(n):
            wi = done[i][4]
            if not wi:
                continue
            for j in range(n):
                if wi & (touched[done[j][0]] | done[j][4]):
                    conflicts.append((i, j))
        ctx.extra["independent_pairs"] = n * n - len(conflicts)
        ctx.extra["conflicting_pairs"] = len(conflicts)
        # each conflicting program with itself, its neighbour and one other
        picked, seen = [], {}
        for i, j in conflicts:
            k = seen.setdefault(i, [])
            if j == i or abs(i - j) <= 2 or len(k) < 2:
                k.append(j)
                picked.append((i, j))
        for i, j in sorted(picked, key=lambda t: abs(t[0] - t[1])):
            a, b = done[i], done[j]
            p, q = a[1], b[2]
            ctx.case("conflict", a[0], b[0])
            s.conc_clear()
            s.conc_record(p.addr, q.addr)
            s.conc_mark()
            m = self.explore(p, q, a[3], b[3], 0)
            self.explore(p, q, a[3], b[3], 2 if m <= 40 else 1)
            s.conc_clear()
        # the reduction itself
        limit = 40 if ctx.quick else 1000
        for i in range(n):
            a, b = done[i], done[(i + 1) % n]
            s.conc_clear()
            for x, y in ((a, a), (a, b)):
                if x[5] + y[5] > 2000000:
                    continue
                bad, h, th = rig.pair(x[1], y[2], 0, (), True)
                if not bad and len(th) > 2 * limit:
                    continue
                self.explore(x[1], y[2], x[3], y[3], 1, True)
        if self.skipped:
            ctx.extra["functions_left_out"] = len(self.skipped)


# -- search on known faults ------------------------------------------------

def known(ctx):
    """The search must tell faulty functions from sound ones."""
    st = Set(ctx)
    rig, s = st.rig, st.rig.s
    x, y = bytes(range(8)), bytes(range(100, 108))
    for fn, args, faulty in (("fault_static", ((x, 8), (y, 8)), True),
                             ("fault_heap", ((x, 8), (y, 8)), True),
                             ("fault_input", ((x, 8), (x, 8)), True),
                             ("fault_early", ((9,), (60,)), True),
                             ("fault_none", ((9,), (60,)), False),
                             ("fault_locked", ((x, 8), (y, 8)), False)):
        ps = []
        for a in args:
            p = Program(rig, fn)
            o = p.out(8)
            p.call(fn, o, *a)
            ps.append(p)
        s.conc_clear()
        hs = []
        for p in ps:
            bad, h = rig.alone(p)
            hs.append(h)
        if not rig.written():
            raise RuntimeError("%s: nothing recorded" % fn)
        s.conc_clear()
        s.conc_record(ps[0].addr, ps[1].addr)
        if not s.conc_mark():
            raise RuntimeError("%s: no conflict" % fn)
        before = len(ctx.failures)
        st.explore(ps[0], ps[1], hs[0], hs[1], 2)
        found = len(ctx.failures) > before
        del ctx.failures[before:]
        if found != faulty:
            raise RuntimeError("%s: %s" % (fn, "found" if found else "missed"))
        s.conc_clear()


# -- symmetric -------------------------------------------------------------

def hashes(ctx):
    st = Set(ctx)
    L = st.L
    ids = [(k, v) for k, v in ctx.cfg["consts"].items()
           if k.startswith("HASH_") and L.hash_has_backend(v)]
    for name, t in ids:
        n = L.hash_output_size(t)
        for v in (0, 1):
            def build(p, t=t, n=n, v=v):
                h = p.obj(st.size("hash_t"))
                p.call("hash_init", h, t)
                p.call("hash_update", h, DATA, 70 * v + 3)
                p.call("hash_update", h, DATA, 130)
                p.call("hash_final", h, p.out(n), n)
            st.add("%s/%d" % (name, v), build)

            def mac(p, t=t, n=n, v=v):
                h = p.obj(st.size("hmac_t"))
                p.call("hmac_init", h, t, DATA[v:], 20 + 200 * v)
                p.call("hmac_update", h, DATA[v:], 77)
                p.call("hmac_final", h, p.out(n))
            st.add("hmac %s/%d" % (name, v), mac)
    # by name
    for f, (ret, args) in st.rig.protos.items():
        if not f.endswith("_init") or f[:-5] + "_final" not in st.rig.protos:
            continue
        base = f[:-5]
        fin = st.rig.protos[base + "_final"][1]
        if args and args[0][1] != "ctx":
            continue
        types = [a[0] for a in args[1:]]
        if base + "_update" not in st.rig.protos:
            continue
        for v in (0, 1):
            if types == []:
                ia = ()
            elif types == ["size_t", "constunsignedchar*", "size_t"]:
                ia = (32, DATA[v:], 20 * v)
            elif base == "keccak":
                ia = (256,)
            elif base == "poly1305":
                ia = (DATA[v:],)
            else:
                st.skipped.append(f)
                continue
            fa = {2: (), 3: (32,), 4: (1, 32)}[len(fin)]

            def build(p, base=base, ia=ia, fa=fa, v=v):
                h = p.obj(4096)
                p.call(base + "_init", h, *ia)
                p.call(base + "_update", h, DATA[v:], 200)
                p.call(base + "_final", h, p.out(64), *fa)
            st.add("%s/%d" % (base, v), build)
    st.run()


def kdfs(ctx):
    st = Set(ctx)
    L = st.L
    pw = [b"password", b"other secret", b""]
    for v in (0, 1):
        P, S = pw[v], DATA[v:v + 16]
        for hn in ("SHA256", "SHA1", "MD5", "SHA512"):
            t = getattr(L, "HASH_" + hn)
            n = L.hash_output_size(t)

            def h(p, t=t, n=n, P=P, S=S):
                p.call("eb2k_derive", p.out(32), p.out(16), t, P, len(P), S, 8,
                       32, 16)
                p.call("hkdf_extract", p.out(n), t, P, len(P), S, 16)
                p.call("hkdf_expand", p.out(100), t, S * 4, P, len(P), 100)
                p.call("pbkdf2_derive", p.out(50), t, P, len(P), S, 16, 3, 50)
                p.call("pgpdf_derive_simple", p.out(40), t, P, len(P), 40)
                p.call("pgpdf_derive_salted", p.out(40), t, P, len(P), S, 8,
                       40)
                p.call("pgpdf_derive_iterated", p.out(40), t, P, len(P), S, 8,
                       100, 40)
            st.add("kdf %s/%d" % (hn, v), h)
        st.add("scrypt/%d" % v, lambda p, P=P, S=S: p.call(
            "scrypt_derive", p.out(40), P, len(P), S, 16, 8, 1, 2, 40))
        st.add("bcrypt/%d" % v, lambda p, P=P, S=S: p.call(
            "bcrypt_generate", p.out(80), P, len(P), S, 4, 0x62))
        st.add("bcrypt text/%d" % v, lambda p, P=P, S=S: p.call(
            "bcrypt_hash", p.out(80), P, S, 4, 0x61))
        rec = b"$2b$04$" + b"abcdefghijklmnopqrstuu" + b"A" * 31
        st.add("bcrypt check/%d" % v, lambda p, P=P: (
            p.call("bcrypt_check", P, rec),
            p.call("bcrypt_verify", P, len(P), rec)))
        st.add("bcrypt pbkdf/%d" % v, lambda p, P=P, S=S: p.call(
            "bcrypt_pbkdf", p.out(40), P, len(P), S, 16, 1, 40))
    st.run()


def crypt(ctx, names):
    """Objects of one cipher, shared by all programs; streams of one's own."""
    st = Set(ctx)
    L, rig = st.L, st.rig
    for name in names:
        bs, kls = BLOCK[name]
        kl = kls[len(kls) // 2]
        t = getattr(L, "CIPHER_" + name)
        key = DATA[9:9 + kl]
        cx = rig.alloc(1, st.size("cipher_t"))
        rig.shared("cipher_init", cx, t, key, kl)
        for v in (0, 1):
            D, IV = DATA[50 * v:50 * v + 200], DATA[v * 3:v * 3 + bs]

            def block(p, cx=cx, D=D, bs=bs):
                p.call("cipher_encrypt", cx, p.out(bs), D)
                p.call("cipher_decrypt", cx, p.out(bs), D)
            st.add("%s block/%d" % (name, v), block)

            def ecb(p, cx=cx, D=D, bs=bs):
                for f in ("ecb_encrypt", "ecb_decrypt"):
                    p.call(f, cx, p.out(3 * bs), D, 3 * bs)
                for f in ("ecb_steal", "ecb_unsteal"):
                    p.call(f, cx, p.out(bs, D[:bs]), p.out(bs, D[9:9 + bs]),
                           bs - 3)
            st.add("%s ecb/%d" % (name, v), ecb)
            for mode, fs in (("cbc", ("encrypt", "decrypt")),
                             ("xts", ("encrypt", "decrypt")),
                             ("ctr", ("crypt",)),
                             ("cfb", ("encrypt", "decrypt")),
                             ("ofb", ("crypt",))):
                if mode == "xts" and bs != 16:
                    continue

                def low(p, cx=cx, D=D, bs=bs, IV=IV, mode=mode, fs=fs, kl=kl):
                    for f in fs:
                        m = p.obj(st.size(mode + "_t"))
                        p.call(mode + "_init", m, cx, IV)
                        if mode == "xts":
                            p.call("xts_setup", m, cx, DATA[700:700 + kl], kl)
                        n = 3 * bs if mode in ("cbc", "xts") else 50
                        p.call(mode + "_" + f, m, cx, p.out(n), D, n)
                        if mode in ("cbc", "xts"):
                            g = "steal" if f == "encrypt" else "unsteal"
                            p.call(mode + "_" + g, m, cx, p.out(bs, D[:bs]),
                                   p.out(bs, D[9:9 + bs]), bs - 1)
                st.add("%s %s/%d" % (name, mode, v), low)
            for mode in ("gcm", "ccm", "eax"):
                if mode != "eax" and bs != 16:
                    continue

                def aead(p, cx=cx, D=D, bs=bs, mode=mode):
                    for f in ("encrypt", "decrypt"):
                        m = p.obj(st.size(mode + "_t"))
                        p.call(mode + "_init", m, cx, D[7:], 12)
                        if mode == "ccm":
                            p.call("ccm_setup", m, cx, 40, 16, D, 20)
                        elif mode == "gcm":
                            p.call("gcm_aad", m, D, 20)
                        else:
                            p.call("eax_aad", m, cx, D, 20)
                        p.call(mode + "_" + f, m, cx, p.out(40), D, 40)
                        a = (m,) if mode == "gcm" else (m, cx)
                        p.call(mode + "_digest", *a, p.out(16))
                st.add("%s %s/%d" % (name, mode, v), aead)
            for mode in ("ECB", "CBC", "CTS", "XTS", "CTR", "CFB", "OFB",
                         "GCM", "CCM", "EAX"):
                m = getattr(L, "CIPHER_MODE_" + mode, None)
                if m is None:
                    continue
                k2 = DATA[9:9 + kl * (2 if mode == "XTS" else 1)]
                iv = b"" if mode == "ECB" else \
                    D[:12] if mode in ("GCM", "CCM", "EAX") else IV

                def stream(p, t=t, m=m, k2=k2, iv=iv, D=D, mode=mode):
                    for enc in (1, 0):
                        c = p.obj(st.size("cipher_stream_t"))
                        p.call("cipher_stream_init", c, t, m, enc, k2, len(k2),
                               iv, len(iv))
                        if mode in ("GCM", "EAX"):
                            p.call("cipher_stream_set_aad", c, D, 9)
                        elif mode == "CCM":
                            p.call("cipher_stream_set_ccm", c, 48, 16, D, 9)
                        if mode in ("GCM", "EAX", "CCM") and not enc:
                            p.call("cipher_stream_set_tag", c, D, 16)
                        for i in (0, 24):
                            p.call("cipher_stream_update", c, p.out(64),
                                   p.word(), D[i:], 24)
                        p.call("cipher_stream_final", c, p.out(64), p.word())
                        if enc and mode in ("GCM", "EAX", "CCM"):
                            p.call("cipher_stream_get_tag", c, p.out(16),
                                   p.word())
                ok = L.cipher_stream_init(bytes(st.size("cipher_stream_t")),
                                          t, m, 1, k2, len(k2), iv, len(iv))
                if not ok:
                    continue
                st.add("%s stream %s/%d" % (name, mode, v), stream)
                if mode in ("GCM", "EAX", "CCM"):
                    continue

                def static(p, t=t, m=m, k2=k2, iv=iv, D=D):
                    for f in ("encrypt", "decrypt"):
                        p.call("cipher_static_" + f, p.out(128), p.word(), t,
                               m, k2, len(k2), iv, len(iv), D, 64)
                st.add("%s static %s/%d" % (name, mode, v), static)
    st.run()


def streams(ctx):
    st = Set(ctx)
    L, rig = st.L, st.rig
    for v in (0, 1):
        K, D = DATA[v:v + 32], DATA[30 * v:30 * v + 300]

        def arc4(p, K=K, D=D):
            c = p.obj(st.size("arc4_t"))
            p.call("arc4_init", c, K, 20)
            p.call("arc4_crypt", c, p.out(100), D, 100)
        st.add("arc4/%d" % v, arc4)
        for f in ("chacha20", "salsa20"):
            def chacha(p, f=f, K=K, D=D):
                c = p.obj(st.size(f + "_t"))
                p.call(f + "_init", c, K, 32, D, 8, 5)
                p.call(f + "_crypt", c, p.out(130), D, 130)
                p.call(f + "_crypt", c, p.out(10), D, 10)
                p.call(f + "_init", c, K, 16, D, 24, 0)
                p.call(f + "_crypt", c, p.out(10), D, 10)
                p.call(f + "_derive", p.out(32), K, 32, D)
            st.add("%s/%d" % (f, v), chacha)

        def cp(p, K=K, D=D):
            for f in ("encrypt", "decrypt", "auth"):
                c = p.obj(st.size("chachapoly_t"))
                p.call("chachapoly_init", c, K, D, 12)
                p.call("chachapoly_aad", c, D, 13)
                if f == "auth":
                    p.call("chachapoly_auth", c, D, 70)
                else:
                    p.call("chachapoly_" + f, c, p.out(70), D, 70)
                p.call("chachapoly_final", c, p.out(16))
        st.add("chachapoly/%d" % v, cp)

        def box(p, K=K, D=D):
            o = p.out(66)
            p.call("secretbox_seal", o, D, 50, K, D)
            p.call("secretbox_open", p.out(50), o, 66, K, D)
            p.call("secretbox_open", p.out(50), D, 66, K, D)
            p.call("secretbox_derive", p.out(32), K)
        st.add("secretbox/%d" % v, box)

        def macs(p, K=K, D=D):
            c = p.obj(st.size("poly1305_t"))
            p.call("poly1305_init", c, K)
            p.call("poly1305_update", c, D, 21)
            p.call("poly1305_pad", c)
            p.call("poly1305_update", c, D, 5)
            p.call("poly1305_final", c, p.out(16))
            p.call("siphash_sum", D, 33, K)
            p.call("siphash_mod", D, 33, K, 1000003)
            p.call("siphash128_sum", 77 + len(K), K)
            p.call("siphash256_sum", 77, K)
            p.call("murmur3_sum", D, 35, 9)
            p.call("murmur3_tweak", D, 35, 9, 8)
        st.add("macs/%d" % v, macs)

        def util(p, D=D):
            p.call("torsion_memcmp", D, DATA, 30)
            p.call("torsion_memcmp_var", D, DATA, 30)
            p.call("torsion_memequal", D, DATA, 30)
            p.call("torsion_memxor", p.out(30, D[:30]), DATA, 30)
            p.call("torsion_memxor3", p.out(30), D, DATA, 30)
            p.call("torsion_memzero", p.out(30), 20)
            p.call("pkcs7_pad", p.out(16), D, 11, 16)
            p.call("pkcs7_unpad", p.out(16), p.word(), b"\1" * 16, 16)
        st.add("util/%d" % v, util)
        for f, ia in (("hmac_drbg", (L.HASH_SHA256, D, 48)),
                      ("hash_drbg", (L.HASH_SHA256, D, 48)),
                      ("ctr_drbg", (256, 1, D, 48, K, 10)),
                      ("ctr_drbg", (128, 0, D, 32, K, 10))):
            def drbg(p, f=f, ia=ia, D=D):
                c = p.obj(st.size(f + "_t"))
                p.call(f + "_init", c, *ia)
                p.call(f + "_generate", c, p.out(100), 100, D, 10)
                if f == "ctr_drbg":
                    p.call(f + "_reseed", c, D, 32, D, 5)
                else:
                    p.call(f + "_reseed", c, D, 48)
                p.call(f + "_generate", c, p.out(100), 100, None, 0)
                p.call(f + "_rng", p.out(40), 40, c)
            st.add("%s %d/%d" % (f, ia[0], v), drbg)
        # ciphers by name on shared objects
        for f, ia in (("aes", (128,)), ("aes", (256,)), ("arc2", None),
                      ("blowfish", None), ("camellia", (128,)),
                      ("camellia", (256,)), ("cast5", ()), ("des", ()),
                      ("des_ede", ()), ("des_ede3", ()), ("idea", ()),
                      ("serpent", (256,)), ("twofish", (128,)),
                      ("twofish", (256,))):
            cx = rig.alloc(1, st.size(f + "_t"))
            if f == "arc2":
                a = (cx, K, 16, 128)
            elif f == "blowfish":
                a = (cx, K, 16, D, 16)
            else:
                a = (cx,) + ia + (K,)
            rig.shared(f + "_init", *a)

            def named(p, f=f, cx=cx, a=a, D=D):
                p.call(f + "_encrypt", cx, p.out(16), D)
                p.call(f + "_decrypt", cx, p.out(16), D)
                c = p.obj(st.size(f + "_t"))
                p.call(f + "_init", c, *a[1:])
                p.call(f + "_encrypt", c, p.out(16), D)
            st.add("%s by name %r/%d" % (f, ia, v), named)
    st.run()


def texts(ctx):
    st = Set(ctx)
    for v in (0, 1):
        D = DATA[40 * v:40 * v + 20]
        for b, extra in (("base16", ()), ("base16le", ()), ("base32", (1,)),
                         ("base32hex", (0,)), ("base58", ()), ("base64", ()),
                         ("base64url", ())):
            def enc(p, b=b, extra=extra, D=D):
                o, n = p.out(80), p.word(80)
                p.call(b + "_encode", o, n, D, 20, *extra)
                m = p.word(80)
                p.call(b + "_decode", p.out(80), m, o, At(n), *extra)
                p.call(b + "_test", o, At(n), *extra)
                p.call(b + "_decode", p.out(80), p.word(80), D, 20, *extra)
            st.add("%s/%d" % (b, v), enc)

        def bech(p, D=D):
            o = p.out(100)
            for k in (1, 0x2bc830a3):
                p.call("bech32_encode", o, b"bc", 1, D, 20, k)
                p.call("bech32_decode", p.out(84), p.word(), p.out(41),
                       p.word(), o, k)
                p.call("bech32_test", o, k)
                p.call("bech32_is", o, k)
                p.call("bech32_serialize", o, b"hrp", b"\1\2\3\4", 4, k)
                p.call("bech32_deserialize", p.out(84), p.out(84), p.word(),
                       o, k)
            p.call("bech32_convert_bits", p.out(40), p.word(), 5, D, 20, 8, 1)
        st.add("bech32/%d" % v, bech)

        def cash(p, D=D):
            o = p.out(200)
            p.call("cash32_encode", o, b"bitcoincash", 1, D, 20)
            p.call("cash32_decode", p.word(), p.out(64), p.word(), o,
                   b"bitcoincash")
            p.call("cash32_test", o, b"bitcoincash")
            p.call("cash32_is", o, b"bitcoincash")
            p.call("cash32_serialize", o, b"pre", b"\1\2\3\4", 4)
            p.call("cash32_deserialize", p.out(84), p.out(120), p.word(), o,
                   b"pre")
            p.call("cash32_convert_bits", p.out(40), p.word(), 5, D, 20, 8, 1)
        st.add("cash32/%d" % v, cash)
    st.run()


# -- integers --------------------------------------------------------------

P1, P2 = (1 << 127) - 1, next_prime(1 << 130)
D0 = (1 << 255) // 7 | 1
NUM = [
    {"x": 3 ** 190, "y": 5 ** 86, "d": 3 * D0, "n": 3 * D0 * (5 ** 110),
     "m": (1 << 255) - 19, "p": P1, "q": P2},
    {"x": -(7 ** 110), "y": 5 ** 87, "d": 3 * D0, "n": 3 * D0 * 7 ** 90,
     "m": (1 << 256) - 189, "p": P1, "q": P2},
]
# not for arbitrary arguments, or without a result to compare
LEAVE = {"mpz_roinit_n", "mpz_print", "mpn_print", "mpz_clear", "mpz_cleanse",
         "_mpz_realloc", "mpz_limbs_read", "mpz_limbs_write",
         "mpz_limbs_modify", "mpz_limbs_finish", "mpz_roset", "mpn_reduce",
         "mp_run_tests", "mpz_swap", "mpz_init", "mpz_export"}


def mpz(ctx, part):
    st = Set(ctx)
    rig, L = st.rig, st.L
    shared = []
    for v in (0, 1):
        d = {}
        for k, val in NUM[v].items():
            z = rig.alloc(1, st.size("mpz_t"))
            raw = abs(val).to_bytes(300, "big")
            rig.shared("mpz_init", z)
            rig.shared("mpz_import", z, raw, 300, 1)
            if val < 0:
                rig.shared("mpz_neg", z, z)
            d[k] = z
        shared.append(d)
    names = sorted(n for n in rig.protos if n.startswith("mpz_"))
    for f in names[part::3]:
        ret, args = rig.protos[f]
        if f in LEAVE:
            continue
        for v in (0, 1):
            def build(p, f=f, args=args, v=v):
                own, av, drbg = [], [], None
                fresh = f.startswith("mpz_init")
                for t, n in args:
                    if t == "mpz_ptr":
                        z = p.obj(st.size("mpz_t"))
                        if not fresh:
                            p.call("mpz_init", z)
                            p.call("mpz_set", z, shared[v]["x"])
                        own.append(z)
                        av.append(z)
                    elif t == "mpz_srcptr":
                        n = "y" if f == "mpz_findprime" else n
                        if f in ("mpz_sqrt", "mpz_sqrtrem", "mpz_rootrem",
                                 "mpz_root", "mpz_urandomm",
                                 "mpz_nextprime", "mpz_bin_ui"):
                            n = "y"
                        if f == "mpz_remove":
                            n = {"x": "n", "y": "d"}[n]
                        av.append(shared[v][n])
                    elif t in ("mp_limb_t", "mp_long_t"):
                        av.append({"divexact": 3}.get(
                            f[4:12], 3 if n in "kmd" else 20))
                    elif t in ("mp_bits_t", "mp_size_t"):
                        av.append(77)
                    elif t == "int":
                        av.append(10 if n == "base" else 2 if n != "endian"
                                  else 1)
                    elif t == "size_t":
                        av.append(40)
                    elif t == "constunsignedchar*":
                        av.append(rig.bytes(DATA))
                    elif t == "constchar*":
                        av.append(rig.bytes(b"1234567890123456789012345678901"))
                    elif t == "mp_rng_f*":
                        drbg = p.obj(st.size("hmac_drbg_t"))
                        p.call("hmac_drbg_init", drbg, L.HASH_SHA256, DATA, 48)
                        av.append(rig.fn("hmac_drbg_rng"))
                    elif t == "void*":
                        av.append(drbg)
                    else:
                        raise KeyError(t)
                r = p.call(f, *av)
                if f == "mpz_get_str":
                    p.call("conc_string", p.out(200), r, 200,
                           fn=rig.helper("conc_string"))
                for z in own:
                    p.call("mpz_sgn", z)
                    p.call("mpz_bitlen", z)
                    p.call("mpz_export", p.out(1200), z, 1200, 1)
                    p.call("mpz_clear", z)
            try:
                build(Program(rig, f))
            except KeyError:
                st.skipped.append(f)
                break
            st.add("%s/%d" % (f, v), build)
    st.run()


def mpn(ctx):
    st = Set(ctx)
    rig, L = st.rig, st.L
    D = 3 * ((1 << 250) // 7 | 1)
    N = D * ((1 << 250) // 11 * 3 | 1)
    for f in sorted(n for n in rig.protos if n.startswith("mpn_")):
        ret, args = rig.protos[f]
        if f in LEAVE:
            continue
        for v in (0, 1):
            num = {"xp": (1 << 500) // (3 + 2 * v), "dp": D,
                   "yp": (1 << 510) // 7 | 1, "np": N, "tp": 1 << 511,
                   "mp": (1 << 511) // 13 | 1}

            def build(p, f=f, args=args, num=num, v=v):
                av, drbg = [], None
                for t, n in args:
                    if t == "constmp_limb_t*":
                        av.append(rig.bytes(num[n].to_bytes(256, "little")))
                    elif t == "mp_limb_t*":
                        av.append(p.obj(1 << 16) if n == "scratch" else
                                  p.out(512, DATA[:512]))
                    elif t == "mp_size_t*":
                        av.append(p.word())
                    elif t == "mp_size_t":
                        if f.endswith(("invert", "jacobi")):
                            n = {"xn": "yn", "yn": "n"}.get(n, n)
                        av.append({"yn": 4, "dn": 4, "shift": 17, "nents": 4,
                                   "which": 2}.get(n, 8))
                    elif t == "mp_limb_t":
                        av.append(3 if n == "d" else 1)
                    elif t == "mp_bits_t":
                        av.append(13)
                    elif t == "size_t":
                        av.append(64)
                    elif t == "int":
                        av.append(10 if n == "base" else 1)
                    elif t == "constchar*":
                        av.append(rig.bytes(b"12345678901234567890"))
                    elif t == "char*":
                        av.append(p.out(300))
                    elif t == "unsignedchar*":
                        av.append(p.out(64))
                    elif t == "constunsignedchar*":
                        av.append(rig.bytes(DATA))
                    elif t == "mp_rng_f*":
                        drbg = p.obj(st.size("hmac_drbg_t"))
                        p.call("hmac_drbg_init", drbg, L.HASH_SHA256, DATA, 48)
                        av.append(rig.fn("hmac_drbg_rng"))
                    elif t == "void*":
                        av.append(drbg)
                    else:
                        raise KeyError(t)
                p.call(f, *av)
            try:
                build(Program(rig, f))
            except KeyError:
                st.skipped.append(f)
                break
            st.add("%s/%d" % (f, v), build)
    st.run()


# -- RSA, DSA --------------------------------------------------------------

def var(L, f, *args, n=4096):
    import ctypes as C
    o, z = C.create_string_buffer(n), C.c_size_t(n)
    r = getattr(L, f)(o, C.byref(z), *args)
    assert r == 1, f
    return o.raw[:z.value]


def rsa(ctx):
    st = Set(ctx)
    L = st.L
    h = DATA[:32]
    t = L.HASH_SHA256
    for v, bits in ((0, 768), (1, 768), (2, 512)):
        key = rsa_key(bits, 65537 if v != 1 else 17)
        priv, pub, E = key.priv(), key.pub(), ENT[v % 3]
        if v == 2:
            priv, pub = priv[:-1] + bytes([priv[-1] ^ 1]), pub[:-1]
            sig = enc = oaep = pss = DATA[:64]
        else:
            sig = var(L, "rsa_sign", t, h, 32, priv, len(priv), E)
            pss = var(L, "rsa_sign_pss", t, h, 32, priv, len(priv), 32, E)
            enc = var(L, "rsa_encrypt", b"hello", 5, pub, len(pub), E)
            oaep = var(L, "rsa_encrypt_oaep", t, b"hi", 2, pub, len(pub), b"l",
                       1, E)
        pe = var(L, "rsa_privkey_export", key.priv(), len(key.priv()))
        ue = var(L, "rsa_pubkey_export", key.pub(), len(key.pub()))
        K, U = (priv, len(priv)), (pub, len(pub))
        M = bits // 8
        for f, a in (
                ("rsa_privkey_bits", K), ("rsa_privkey_verify", K),
                ("rsa_privkey_import", ("o", pe, len(pe), E)),
                ("rsa_privkey_export", ("o",) + K),
                ("rsa_pubkey_create", ("o",) + K), ("rsa_pubkey_bits", U),
                ("rsa_pubkey_verify", U),
                ("rsa_pubkey_import", ("o", ue, len(ue))),
                ("rsa_pubkey_export", ("o",) + U),
                ("rsa_sign", ("o", t, h, 32) + K + (E,)),
                ("rsa_verify", (t, h, 32, sig, len(sig)) + U),
                ("rsa_encrypt", ("o", b"hello", 5) + U + (E,)),
                ("rsa_decrypt", ("o", enc, len(enc)) + K + (E,)),
                ("rsa_sign_pss", ("o", t, h, 32) + K + (20, E)),
                ("rsa_verify_pss", (t, h, 32, pss, len(pss)) + U + (32,)),
                ("rsa_encrypt_oaep", ("o", t, b"hi", 2) + U + (b"l", 1, E)),
                ("rsa_decrypt_oaep", ("o", t, oaep, len(oaep)) + K +
                 (b"l", 1, E)),
                ("rsa_veil", ("o", enc, len(enc), bits + 8) + U + (E,)),
                ("rsa_unveil", ("o", enc, len(enc), bits + 8) + U),
                ("rsa_decrypt_key", ("k", 16, enc, len(enc)) + K + (E,)),
                ("rsa_privkey_generate", ("o", 512, 65537, E))):
            def build(p, f=f, a=a):
                av = []
                for x in a:
                    if x == "o":
                        av += [p.out(4096), p.word(4096)]
                    elif x == "k":
                        av.append(p.out(16))
                    else:
                        av.append(x)
                p.call(f, *av)
            st.add("%s/%d" % (f, v), build)
    st.run()


def dsa(ctx):
    st = Set(ctx)
    L = st.L
    h = DATA[:20]
    prm = None
    from mc.numth import der_int, der_seq
    p, q, g = ffc.group(1024, 160)
    prm = der_seq(der_int(p), der_int(q), der_int(g))
    for v in (0, 1, 2):
        E = ENT[v]
        priv = var(L, "dsa_privkey_create", prm, len(prm), E)
        pub = var(L, "dsa_pubkey_create", priv, len(priv))
        sig = var(L, "dsa_sign", h, 20, priv, len(priv), E)
        der = var(L, "dsa_sig_export", sig, len(sig), 20)
        exp = [var(L, "dsa_%s_export" % k, x, len(x)) for k, x in
               (("params", prm), ("privkey", priv), ("pubkey", pub))]
        if v == 2:
            priv, pub, sig = priv[:-1], pub[:-2], sig[:-1] + b"\1"
            der = der[:-1]
            exp = [x[:-1] for x in exp]
        R, K, U = ((x, len(x)) for x in (prm, priv, pub))
        ops = [("dsa_sig_export", ("o", sig, len(sig), 20)),
               ("dsa_sig_import", ("o", der, len(der), 20)),
               ("dsa_sign", ("o", h, 20) + K + (E,)),
               ("dsa_verify", (h, 20, sig, len(sig)) + U),
               ("dsa_derive", ("o",) + U + K),
               ("dsa_params_create", ("o",) + K),
               ("dsa_pubkey_create", ("o",) + K),
               ("dsa_privkey_create", ("o",) + R + (E,))]
        for k, x, e in (("params", R, exp[0]), ("privkey", K, exp[1]),
                        ("pubkey", U, exp[2])):
            ops += [("dsa_%s_%s" % (k, f), x) for f in ("bits", "qbits",
                                                        "verify")]
            ops += [("dsa_%s_import" % k, ("o", e, len(e))),
                    ("dsa_%s_export" % k, ("o",) + x)]
        if v == 0 and not ctx.quick:
            ops.append(("dsa_params_generate", ("o", 1024, E)))
        for f, a in ops:
            def build(p, f=f, a=a):
                av = []
                for x in a:
                    av += [p.out(4096), p.word(4096)] if x == "o" else [x]
                p.call(f, *av)
            st.add("%s/%d" % (f, v), build)
    st.run()


# -- curves ----------------------------------------------------------------

class Skip(Exception):
    pass


class Family:
    """Arguments for the functions of one scheme on one curve, by the types
    and names of their parameters."""

    def __init__(self, st, kind, ec, eid, c, prefix, nsize, fsize):
        self.st, self.kind, self.ec, self.eid = st, kind, ec, eid
        self.c, self.prefix = c, prefix
        self.nsize, self.fsize = nsize, fsize
        self.d = [self.data(v) for v in (0, 1)]
        bad = dict(self.d[1])
        for k in ("pub", "pub1", "sig", "der", "x_raw"):
            if k in bad:
                bad[k] = bytes(len(bad[k]))
        bad["priv"] = b"\xff" * len(bad["priv"])
        self.d.append(bad)
        self.many = [[x[k] for x in self.d[:2] for _ in (0, 1)]
                     for k in ("msg", "sig", "pub")]

    def out(self, f, *args, n=200, var=False):
        import ctypes as C
        o = C.create_string_buffer(n)
        z = C.c_size_t(n)
        r = getattr(self.st.L, f)(self.ec, o, *((C.byref(z),) if var else ()),
                                  *args)
        return r, o.raw[:z.value]

    def data(self, v):
        pre, n = self.prefix, self.nsize
        E = ENT[v]
        d = {"entropy": E, "bytes": DATA[5 * v:5 * v + 400], "msg": MSG[v],
             "aux": E[:32], "ctx": b"context"[:3 + v], "prefix": DATA[:64]}
        big = "little" if self.kind != "wei" else "big"
        k = (0x1234567 ** 30 + v) % self.c.n
        d["scalar"] = d["tweak"] = k.to_bytes(n, big)
        if pre == "eddsa":
            ps = getattr(self.st.L, "eddsa_privkey_size")(self.ec)
            d["priv"] = DATA[v:v + ps]
            d["pub"] = self.out("eddsa_pubkey_create", d["priv"])[1][:self.psz()]
            d["sig"] = self.out("eddsa_sign", MSG[v], len(MSG[v]), d["priv"],
                                -1, None, 0)[1][:self.st.L.eddsa_sig_size(
                                    self.ec)]
        elif pre == "ecdsa" or pre == "bipschnorr":
            d["priv"] = (k + 77).to_bytes(n, big) if k + 77 < self.c.n else \
                d["scalar"]
            d["pub"] = self.out("ecdsa_pubkey_create", d["priv"], 1,
                                var=True)[1]
            if pre == "ecdsa":
                import ctypes as C
                u = C.c_uint()
                o = C.create_string_buffer(200)
                self.st.L.ecdsa_sign(self.ec, o, C.byref(u), MSG[v],
                                     len(MSG[v]), d["priv"])
                d["sig"] = o.raw[:2 * n]
                d["der"] = self.out("ecdsa_sig_export", d["sig"], var=True)[1]
            else:
                d["sig"] = self.out("bipschnorr_sign", MSG[v], len(MSG[v]),
                                    d["priv"])[1][:n + self.fsize]
        elif pre == "bip340":
            d["priv"] = (k + 78).to_bytes(n, big) if k + 78 < self.c.n else \
                d["scalar"]
            d["pub"] = self.out("bip340_pubkey_create",
                                d["priv"])[1][:self.fsize]
            d["sig"] = self.out("bip340_sign", MSG[v], len(MSG[v]), d["priv"],
                                None)[1][:n + self.fsize]
        else:
            d["priv"] = (DATA[v:v + n] if self.kind == "mont" else d["scalar"])
            d["pub"] = self.out(pre + "_pubkey_create",
                                d["priv"])[1][:self.psz()]
            d["sig"] = bytes(64)
        if self.kind != "mont" and pre not in ("ristretto", "bipschnorr"):
            import ctypes as C
            x, y = C.create_string_buffer(100), C.create_string_buffer(100)
            f = getattr(self.st.L, pre + "_pubkey_export")
            a = (d["pub"], len(d["pub"])) if pre == "ecdsa" else (d["pub"],)
            f(self.ec, x, y, *a)
            d["x_raw"], d["y_raw"] = x.raw[:self.fsize], y.raw[:self.fsize]
        else:
            d["x_raw"], d["y_raw"] = d["pub"], None
        d["pub1"] = d["pub2"] = d["expect"] = d["pub"]
        return d

    def psz(self):
        return getattr(self.st.L, self.prefix + "_pubkey_size")(self.ec)

    def build(self, p, f, args, v):
        d, av, after = self.d[v], [], []
        last = None
        for t, n in args:
            if n == "ec":
                if t.startswith("const"):
                    av.append(self.ec)
                else:
                    raise Skip(f)
            elif t == "unsignedchar*":
                av.append(p.out(200))
            elif t == "size_t*":
                av.append(p.word(200))
            elif t in ("unsignedint*", "int*"):
                av.append(p.word())
            elif t == "constunsignedchar*":
                if n not in d:
                    raise Skip(f)
                last = d[n]
                av.append(last)
            elif t == "constunsignedchar*const*":
                k = {"msgs": 0, "sigs": 1, "pubs": 2}[n]
                av.append(self.st.rig.pointers(self.many[k])[0])
            elif t == "constsize_t*":
                k = {"msg_lens": 0, "pub_lens": 2}[n]
                av.append(self.st.rig.pointers(self.many[k])[1])
            elif t == "size_t":
                if n == "len" and last is None:
                    av.append(4)
                elif n == "len":
                    av.append(self.nsize if "privkey" in f else len(last))
                else:
                    av.append(len(last or b""))
            elif t == "int":
                av.append({"compact": v & 1, "ph": -1 if v != 1 else 0,
                           "sign": v & 1, "negated": 0, "pake": v & 1}[n])
            elif t == "unsignedint":
                av.append({"hint": v, "subgroup": 0, "param": v & 1}[n])
            elif t == "function":
                av.append(self.st.rig.helper("conc_accept"))
            elif t == "void*":
                av.append(None)
            elif t == "ecdsa_redefine_f*":
                av.append(None)
            elif t in ("wei_scratch_t*", "edwards_scratch_t*"):
                k = t.split("_")[0]
                av.append(p.call(k + "_scratch_create", self.ec, 6))
                after.append((k + "_scratch_destroy", self.ec, av[-1]))
            else:
                raise Skip(f)
        p.call(f, *av)
        for a in after:
            p.call(*a)


def curve(ctx, kind, name):
    st = Set(ctx)
    L, rig = st.L, st.rig
    eid = getattr(L, "%s_CURVE_%s" % (kind.upper(), name))
    ec = rig.shared(kind + "_curve_create", eid)
    if kind == "wei":
        c = curves.WEI[name]
        rig.shared("wei_curve_randomize", ec, ENT[0])
        fams = [("ecdsa", c.nsize, c.size), ("bip340", c.nsize, c.size)]
        if L.bipschnorr_support(ec):
            fams.append(("bipschnorr", c.nsize, c.size))
    elif kind == "edwards":
        c = curves.ED[name]
        rig.shared("edwards_curve_randomize", ec, ENT[0])
        ns = L.edwards_curve_scalar_size(ec)
        fs = L.edwards_curve_field_size(ec)
        fams = [("eddsa", ns, fs)]
        if name != "ED1174":
            fams.append(("ristretto", ns, fs))
    else:
        c = curves.MONT[name]
        fams = [("ecdh", L.mont_curve_scalar_size(ec),
                 L.mont_curve_field_size(ec))]
    for pre, ns, fs in fams:
        fam = Family(st, kind, ec, eid, c, pre, ns, fs)
        for f, (ret, args) in sorted(rig.protos.items()):
            if not f.startswith(pre + "_"):
                continue
            for v in (0, 1, 2):
                try:
                    fam.build(Program(rig, f), f, args, v)
                except (Skip, KeyError):
                    st.skipped.append(f)
                    break
                st.add("%s %s/%d" % (name, f, v),
                       lambda p, fam=fam, f=f, args=args, v=v:
                       fam.build(p, f, args, v))
    # a context of one's own
    for v in (0, 1):
        def own(p, v=v):
            e = p.call(kind + "_curve_create", eid)
            if kind != "mont":
                p.call(kind + "_curve_randomize", e, ENT[v])
            key = fam.d[v]["priv"]
            f = {"wei": "bip340_pubkey_create", "edwards":
                 "eddsa_pubkey_from_scalar", "mont": "ecdh_pubkey_create"}[kind]
            p.call(f, e, p.out(200), fam.d[v]["scalar"] if kind == "edwards"
                   else key)
            for g in ("scalar_size", "scalar_bits", "field_size",
                      "field_bits"):
                p.call("%s_curve_%s" % (kind, g), e)
            p.call(kind + "_curve_destroy", e)
        st.add("%s own context/%d" % (name, v), own)
    st.run()


def tasks(tier):
    ts = [Task("known faults", known)]
    names = sorted(BLOCK)
    for v in ("n64", "p32"):
        for n in curves.WEI:
            ts.append(Task("wei/%s/%s" % (n, v), curve, ("wei", n), variant=v))
        for n in curves.ED:
            ts.append(Task("edwards/%s/%s" % (n, v), curve, ("edwards", n),
                           variant=v))
        for n in curves.MONT:
            ts.append(Task("mont/%s/%s" % (n, v), curve, ("mont", n),
                           variant=v))
        for i in range(3):
            ts.append(Task("mpz-%d/%s" % (i, v), mpz, (i,), variant=v))
            ts.append(Task("ciphers-%d/%s" % (i, v), crypt, (names[i::3],),
                           variant=v))
        for f in (mpn, rsa, dsa, hashes, kdfs, streams, texts):
            ts.append(Task("%s/%s" % (f.__name__, v), f, variant=v))
    return ts
