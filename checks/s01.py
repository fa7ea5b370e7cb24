"""S01: stream ciphers.

Keystreams over key length x nonce length x starting counter, for every total
length and every 2-cut (3-cuts over an alphabet), in place and out of place;
counters placed so that every carry occurs inside the message."""

import itertools

from mc import modes, streams
from mc.core import Task
from mc.lib import Out, ctxbuf

BOUNDS = ("ChaCha20/Salsa20: key 16/32, nonce 8/12/16/24/28/32, 14 starting "
          "counters, all lengths 0..200 with all 2-cuts, all sequences of 4 "
          "calls over 7 lengths; ARC4: all key lengths 1..256, 1100 bytes; "
          "every key and nonce bit of the derivations")
ASSUMPTIONS = ["keystreams transcribed from the cipher specifications"]

DATA = bytes((i * 167 + i // 256 + 43) & 255 for i in range(4096))
COUNTERS = (0, 1, 2, 0xff, 0xffff, 0x7fffffff, 0xfffffffd, 0xfffffffe,
            0xffffffff, 1 << 32, (1 << 33) - 2, (1 << 63) - 1, (1 << 64) - 2,
            (1 << 64) - 1)


def run(ctx, L, kind, key, nonce, counter, cuts, inplace, want, c):
    getattr(L, kind + "_init")(c, key, len(key), nonce, len(nonce), counter)
    f = getattr(L, kind + "_crypt")
    got, pos = b"", 0
    for k in cuts:
        o = Out(k)
        m = DATA[pos:pos + k]
        if inplace:
            o.set(m)
            f(c, o, o, k)
        else:
            f(c, o, m, k)
        ctx.check(o.intact(), "output size")
        got += o.get()
        pos += k
    ctx.eq(got, modes.xor(want, DATA[:pos]) if pos else b"", "keystream")


def admissible(kind, nl, counter, blocks):
    # A 12-byte nonce leaves a 32-bit counter; its wrap is out of the
    # specification, and Salsa20 does not define such nonces at all.
    if nl in (12, 28):
        if kind == "salsa20":
            return False
        return counter + blocks <= 1 << 32
    return True


def grid(ctx, kind, kl):
    L = ctx.lib
    stream = getattr(streams, kind[:-2] + "_stream")
    c = ctxbuf(1024)
    for nl in (8, 12, 16, 24, 28, 32):
        for ki in range(3):
            key = bytes((i * (31 + 6 * ki) + 7 * ki) & 255 for i in range(kl))
            nonce = bytes((i * 91 + 17 + ki) & 255 for i in range(nl))
            for counter in COUNTERS:
                ns = [nonce]
                if nl in (16, 32):
                    if counter != 0:
                        # the counter is part of the nonce
                        b = counter.to_bytes(8, "little")
                        ns = [nonce[:-16] + b + nonce[-8:] if kind == "chacha20"
                              else nonce[:-8] + b]
                for nonce_ in ns:
                    for n in (0, 1, 63, 64, 65, 128, 193, 256, 300):
                        if not admissible(kind, nl, counter, n // 64 + 1):
                            continue
                        want = stream(key, nonce_, counter, n)
                        for cuts in ((n,), (n // 2, n - n // 2),
                                     (1, n - 1) if n else (0, 0)):
                            for inp in (0, 1):
                                ctx.case("grid", kind, kl, nl, ki, counter,
                                         cuts, inp)
                                ctx.state(kl, nl, ki, counter, cuts, inp)
                                run(ctx, L, kind, key, nonce_, counter, cuts,
                                    inp, want, c)


def splits(ctx, kind):
    L = ctx.lib
    stream = getattr(streams, kind[:-2] + "_stream")
    c = ctxbuf(1024)
    key = bytes((i * 31 + 7) & 255 for i in range(32))
    nonce = bytes(range(8))
    counter = 0xfffffffe
    want = stream(key, nonce, counter, 2000)
    for n in range(0, 201):
        for k in range(n + 1):
            ctx.case("split", kind, n, k)
            ctx.state(n, k)
            run(ctx, L, kind, key, nonce, counter, (k, n - k), (n + k) % 2,
                want[:n], c)
    for d in (3, 4) if ctx.quick else (3, 4, 5):
        for cuts in itertools.product((0, 1, 31, 63, 64, 65, 130), repeat=d):
            ctx.case("sequence", kind, cuts)
            ctx.state(cuts)
            run(ctx, L, kind, key, nonce, counter, cuts, sum(cuts) % 2,
                want[:sum(cuts)], c)


def derive(ctx, kind):
    L = ctx.lib
    ref = streams.hchacha if kind == "chacha20" else streams.hsalsa
    f = getattr(L, kind + "_derive")
    for kl in (16, 32):
        base_k = bytes((i * 7 + 3) & 255 for i in range(kl))
        base_n = bytes((i * 13 + 90) & 255 for i in range(16))
        cases = [(base_k, base_n), (bytes(kl), bytes(16)),
                 (b"\xff" * kl, b"\xff" * 16)]
        for i in range(8 * kl):
            k = int.from_bytes(base_k, "big") ^ (1 << i)
            cases.append((k.to_bytes(kl, "big"), base_n))
        for i in range(128):
            n = int.from_bytes(base_n, "big") ^ (1 << i)
            cases.append((base_k, n.to_bytes(16, "big")))
        for k, n in cases:
            ctx.case("derive", kind, k.hex(), n.hex())
            ctx.state(k, n)
            o = Out(32)
            f(o, k, kl, n)
            ctx.eq(o.get(), ref(k, n), "derived key")
            ctx.check(o.intact(), "derived key size")
            c = ctxbuf(1024)
            for nl in (24, 32):
                nonce = n + bytes(range(nl - 16))
                want = (streams.chacha_stream if kind == "chacha20" else
                        streams.salsa_stream)(k, nonce, 5, 70)
                ctx.state(k, n, nl)
                run(ctx, L, kind, k, nonce, 5, (70,), 0, want, c)


def secretbox_derive(ctx):
    L = ctx.lib
    for i in range(257):
        k = (1 << i if i < 256 else 0).to_bytes(32, "big")
        ctx.case("box key", k.hex())
        ctx.state(k)
        o = Out(32)
        L.secretbox_derive(o, k)
        ctx.eq(o.get(), streams.hsalsa(k, bytes(16)), "box key")


def bits(ctx, kind):
    """Every key and nonce bit reaches its place in the state."""
    L = ctx.lib
    stream = getattr(streams, kind[:-2] + "_stream")
    c = ctxbuf(1024)
    for kl in (16, 32):
        for nl in (8, 16) if kind == "salsa20" else (8, 12, 16):
            for i in range(8 * kl + 8 * nl + 64):
                v = 1 << i
                nonce = (v % (1 << (8 * nl))).to_bytes(nl, "big")
                v >>= 8 * nl
                key = (v % (1 << (8 * kl))).to_bytes(kl, "big")
                v >>= 8 * kl
                if nl == 12 and v >= 1 << 32:
                    continue
                ctx.case("bits", kind, kl, nl, i)
                ctx.state(kl, nl, i)
                run(ctx, L, kind, key, nonce, v, (64,), 0,
                    stream(key, nonce, v, 64), c)


def arc4(ctx, lo, hi):
    L = ctx.lib
    c = ctxbuf(1024)
    for kl in range(lo, hi):
        for kind in range(3):
            key = [bytes((i * 53 + kl) & 255 for i in range(kl)), bytes(kl),
                   b"\xff" * kl][kind]
            total = 1100 if kl % 16 == 0 else 300
            want = modes.xor(streams.rc4(key, total), DATA[:total])
            for cuts in ((total,), (255, total - 255), (256, total - 256),
                         (1, 0, total - 1), (257, total - 257)):
                for inp in (0, 1):
                    ctx.case("arc4", kl, kind, cuts, inp)
                    ctx.state(kl, kind, cuts, inp)
                    L.arc4_init(c, key, kl)
                    got, pos = b"", 0
                    for k in cuts:
                        o = Out(k)
                        if inp:
                            o.set(DATA[pos:pos + k])
                            L.arc4_crypt(c, o, o, k)
                        else:
                            L.arc4_crypt(c, o, DATA[pos:pos + k], k)
                        ctx.check(o.intact(), "output size")
                        got += o.get()
                        pos += k
                    ctx.eq(got, want, "keystream")
    if lo == 1:
        key = b"split"
        ks = modes.xor(streams.rc4(key, 300), DATA[:300])
        for n in range(0, 300, 7):
            for k in range(n + 1):
                ctx.case("arc4 split", n, k)
                ctx.state("s", n, k)
                L.arc4_init(c, key, 5)
                a, b = Out(k), Out(n - k)
                L.arc4_crypt(c, a, DATA[:k], k)
                L.arc4_crypt(c, b, DATA[k:n], n - k)
                ctx.eq(a.get() + b.get(), ks[:n], "keystream")


def tasks(tier):
    streams.selftest()
    ts = []
    for kind in ("chacha20", "salsa20"):
        for kl in (16, 32):
            ts.append(Task("grid/%s/%d" % (kind, kl), grid, (kind, kl)))
        ts.append(Task("splits/" + kind, splits, (kind,)))
        ts.append(Task("derive/" + kind, derive, (kind,)))
        ts.append(Task("bits/" + kind, bits, (kind,)))
        ts.append(Task("p32 grid/" + kind, grid, (kind, 32), variant="p32"))
    for i in range(8):
        ts.append(Task("arc4/%d" % i, arc4, (1 + 32 * i, 33 + 32 * i)))
    ts.append(Task("secretbox derive", secretbox_derive))
    return ts
