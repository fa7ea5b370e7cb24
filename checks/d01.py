"""D01: deterministic generators over call histories.

The operation alphabet (reseed with several lengths, generate with several
output and additional-input lengths, the callback) is explored to a fixed
depth from several instantiations; the library replays each history from the
start while a model (mc/drbg.py) steps along.  For CTR_DRBG the seed is also
solved for, so that the internal counter starts right before every carry."""

import ctypes as C
import itertools

from mc import drbg, modes, oracle
from mc.core import Task
from mc.lib import Out, ctxbuf

BOUNDS = ("HMAC/Hash: all 32 hashes to depth 2, six hashes to depth 4, over "
          "8 operations; seeds 0..200 bytes; 600 (Hash: 66000) consecutive "
          "calls; CTR: 3 key sizes x derivation on/off, depth 4 over 8 "
          "operations, all argument lengths 0..80, counters at every carry")
ASSUMPTIONS = ["SP 800-90A transcribed in mc/drbg.py over reference hashes "
               "and AES"]

DATA = bytes((i * 167 + i // 256 + 43) & 255 for i in range(4096))


def ops_for(n):
    """(operation, output length, additional/seed length)"""
    return [("reseed", 0, 0), ("reseed", 0, 33), ("generate", 1, 0),
            ("generate", n, 0), ("generate", 2 * n + 1, 7),
            ("generate", 0, 0), ("generate", n - 1, 64), ("rng", n + 1, 0)]


class Run:
    def __init__(self, ctx, kind):
        self.L, self.ctx, self.kind = ctx.lib, ctx, kind
        self.c = ctxbuf(8192)
        self.g = lambda n: getattr(self.L, kind + "_drbg_" + n)
        self.addr = C.addressof(self.c)

    def reseed(self, d, add=None):
        if self.kind == "ctr":
            self.g("reseed")(self.c, d, len(d), add, len(add))
        else:
            self.g("reseed")(self.c, d, len(d))

    def generate(self, n, add=b"", cb=False):
        o = Out(n)
        if cb:
            self.g("rng")(o, n, self.addr)
        else:
            self.g("generate")(self.c, o, n, add, len(add))
        self.ctx.check(o.intact(), "wrote past the requested length")
        return o.get()


def history(ctx, r, m, seq, ctr=False):
    for i, (op, n, a) in enumerate(seq):
        arg = DATA[17 * i + n:17 * i + n + a]
        if op == "reseed":
            if ctr:
                r.reseed(arg, DATA[:a // 2])
                m.reseed(arg, DATA[:a // 2])
            else:
                r.reseed(arg)
                m.reseed(arg)
        elif op == "generate":
            ctx.eq(r.generate(n, arg), m.generate(n, arg), "step %d" % i)
        else:
            ctx.eq(r.generate(n, cb=True), m.generate(n), "step %d" % i)
    ctx.eq(r.generate(16), m.generate(16), "state after the history")


def hashy(ctx, kind, name, depth):
    L = ctx.lib
    model = drbg.Hmac if kind == "hmac" else drbg.Hash
    t = getattr(L, "HASH_" + name)
    n = oracle.HASHES[name][0]
    r = Run(ctx, kind)
    ops = ops_for(n)
    for d in range(1, depth + 1):
        for seq in itertools.product(range(len(ops)), repeat=d):
            ctx.case(kind, name, seq)
            ctx.state(name, seq)
            seed = DATA[:32 + d]
            r.g("init")(r.c, t, seed, len(seed))
            history(ctx, r, model(name, seed), [ops[i] for i in seq])


def lengths(ctx, kind, name, top):
    L = ctx.lib
    model = drbg.Hmac if kind == "hmac" else drbg.Hash
    t = getattr(L, "HASH_" + name)
    n = oracle.HASHES[name][0]
    r = Run(ctx, kind)
    for sl in range(0, top):
        ctx.case(kind, name, "seed length", sl)
        ctx.state(name, "seed", sl)
        seed = DATA[sl:2 * sl]
        r.g("init")(r.c, t, seed, sl)
        m = model(name, seed)
        history(ctx, r, m, [("generate", sl, 0), ("reseed", 0, sl),
                            ("generate", 4 * n + sl % 7, sl)])


def long_run(ctx, kind, name, count):
    """The call counter of one instance past its byte boundaries."""
    L = ctx.lib
    model = drbg.Hmac if kind == "hmac" else drbg.Hash
    r = Run(ctx, kind)
    r.g("init")(r.c, getattr(L, "HASH_" + name), DATA, 48)
    m = model(name, DATA[:48])
    for i in range(count):
        n = 1 if i % 64 else 70
        ctx.case(kind, name, "call", i)
        ctx.state(name, "call", i)
        ctx.eq(r.generate(n), m.generate(n), "call %d" % i)
    # the counter restarts on reseed
    r.reseed(b"again")
    m.reseed(b"again")
    for i in range(3):
        ctx.eq(r.generate(9), m.generate(9), "after reseed")


def carries(ctx, name, count):
    """Many seeds: carries inside the V additions are met in all depths."""
    L = ctx.lib
    r = Run(ctx, "hash")
    t = getattr(L, "HASH_" + name)
    for i in range(count):
        seed = i.to_bytes(4, "big")
        ctx.case("hash", name, "carry", i)
        ctx.state(name, "carry", i)
        r.g("init")(r.c, t, seed, 4)
        m = drbg.Hash(name, seed)
        ctx.eq(r.generate(300), m.generate(300), "output")
        ctx.eq(r.generate(3, b"x"), m.generate(3, b"x"), "output")


def ctr(ctx, bits, df, depth):
    L = ctx.lib
    r = Run(ctx, "ctr")
    sl = bits // 8 + 16
    ops = [("reseed", 0, 0), ("reseed", 0, 31), ("reseed", 0, sl),
           ("generate", 1, 0), ("generate", 16, 0), ("generate", 33, sl),
           ("generate", 0, 9), ("rng", 47, 0)]
    seed, pers = DATA[5:5 + sl], DATA[100:109]
    for d in range(1, depth + 1):
        for seq in itertools.product(range(len(ops)), repeat=d):
            ctx.case("ctr", bits, df, seq)
            ctx.state(seq)
            L.ctr_drbg_init(r.c, bits, df, seed, sl, pers, 9)
            history(ctx, r, drbg.Ctr(bits, df, seed, pers),
                    [ops[i] for i in seq], True)


def ctr_lengths(ctx, bits, df):
    L = ctx.lib
    r = Run(ctx, "ctr")
    sl = bits // 8 + 16
    top = 80 if df else sl
    lens = list(range(top + 1)) + ([255, 256, 511, 512] if df else [])
    for a in lens:
        for b in (0, 1, 15, 16, 17, sl - 1, sl, a):
            if not df and b > sl:
                continue
            ctx.case("ctr lengths", bits, df, a, b)
            ctx.state(a, b)
            e, p = DATA[a:2 * a], DATA[500:500 + b]
            L.ctr_drbg_init(r.c, bits, df, e, a, p, b)
            m = drbg.Ctr(bits, df, e, p)
            ctx.eq(r.generate(40), m.generate(40), "after instantiation")
            r.reseed(p, e)
            m.reseed(p, e)
            ctx.eq(r.generate(b % 80, e), m.generate(b % 80, e), "additional")
            ctx.eq(r.generate(a), m.generate(a), "output")
    if df:
        # empty versus absent arguments
        for e, p in ((b"", b""), (b"", b"x"), (b"x", b"")):
            ctx.case("ctr empty", bits, e, p)
            L.ctr_drbg_init(r.c, bits, df, e or None, len(e), p or None,
                            len(p))
            m = drbg.Ctr(bits, df, e, p)
            ctx.eq(r.generate(20), m.generate(20), "output")


def ctr_carries(ctx, bits):
    """Solve for the seed that puts the counter at a chosen value."""
    L = ctx.lib
    r = Run(ctx, "ctr")
    kl, sl = bits // 8, bits // 8 + 16
    targets = []
    for k in range(0, 17):
        for d in range(-4, 5):
            targets.append(((1 << (8 * k)) + d) % (1 << 128))
    targets += [((1 << (8 * k)) - 1) << (128 - 8 * k) for k in range(17)]
    zero = drbg.Ctr(bits, 0, bytes(sl), b"")
    base = zero.k + zero.v
    for v in targets:
        want = DATA[:kl] + v.to_bytes(16, "big")
        seed = modes.xor(base, want)
        for how in ("init", "reseed", "generate"):
            for n in (0, 1, 16, 17, 64, 80, 100):
                ctx.case("ctr carry", bits, v, how, n)
                ctx.state(v, how, n)
                if how == "init":
                    L.ctr_drbg_init(r.c, bits, 0, seed, sl, None, 0)
                    m = drbg.Ctr(bits, 0, seed, b"")
                else:
                    L.ctr_drbg_init(r.c, bits, 0, DATA, sl, None, 0)
                    m = drbg.Ctr(bits, 0, DATA[:sl], b"")
                    probe = drbg.Ctr(bits, 0, DATA[:sl], b"")
                    probe.update(b"")
                    s2 = modes.xor(probe.k + probe.v, want)
                    if how == "reseed":
                        r.reseed(s2, b"")
                        m.reseed(s2, b"")
                    else:
                        ctx.eq(r.generate(n, s2), m.generate(n, s2), "output")
                if how != "generate" and m.v != v.to_bytes(16, "big"):
                    raise RuntimeError("seed not solved")
                ctx.eq(r.generate(n), m.generate(n), "output at the carry")
                ctx.eq(r.generate(n + 3), m.generate(n + 3), "following call")


def tasks(tier):
    q = tier == "quick"
    ts = []
    deep = ("SHA1", "SHA256", "SHA512", "SHA384", "SHA3_256", "MD5")
    slow = lambda n: n.startswith("KECCAK") or n == "MD2"
    for kind in ("hmac", "hash"):
        for name in oracle.HASHES:
            d = 4 if name in deep else (1 if slow(name) else 2)
            if not q and not slow(name):
                d += 1
            ts.append(Task("%s/%s" % (kind, name), hashy, (kind, name, d)))
        for name in ("SHA1", "SHA256", "SHA512"):
            ts.append(Task("%s lengths/%s" % (kind, name), lengths,
                           (kind, name, 201)))
    ts.append(Task("hmac long", long_run, ("hmac", "SHA256", 600)))
    ts.append(Task("hash long", long_run, ("hash", "SHA256", 66000)))
    ts.append(Task("hash long/SHA512", long_run, ("hash", "SHA512", 700)))
    for name in ("SHA256", "SHA512", "SHA1"):
        ts.append(Task("hash carries/" + name, carries,
                       (name, 3000 if q else 30000)))
    for bits in (128, 192, 256):
        for df in (0, 1):
            ts.append(Task("ctr/%d/%d" % (bits, df), ctr,
                           (bits, df, 3 if q else 4)))
            ts.append(Task("ctr lengths/%d/%d" % (bits, df), ctr_lengths,
                           (bits, df)))
        ts.append(Task("ctr carries/%d" % bits, ctr_carries, (bits,)))
    return ts
