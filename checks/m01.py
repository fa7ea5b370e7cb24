"""M01: Poly1305, SipHash, MurmurHash3.

Poly1305 runs on accumulators placed exactly at chosen residues (around zero,
around the modulus, at every power of two) by solving for the last message
block, on all block sequences over an edge alphabet, and on all splits; both
the 64-bit and the 32-bit back end.  SipHash and MurmurHash run over all
lengths, single-bit keys, every tail and edge moduli."""

import itertools

from mc import streams
from mc.core import Task
from mc.lib import Out, ctxbuf

BOUNDS = ("Poly1305: 700 target residues x 9 multipliers x 5 pads, all "
          "sequences of 1..4 blocks over 7 edge blocks, lengths 0..100 with "
          "all 2-cuts; SipHash: lengths 0..300, every key bit, 130 moduli x "
          "2000 messages; Murmur: lengths 0..130, all 1- and 2-byte messages")
ASSUMPTIONS = ["definitions transcribed in mc/streams.py (published vectors "
               "checked at start)"]

DATA = bytes((i * 167 + i // 256 + 43) & 255 for i in range(4096))
P = streams.P1305
RS = (1, 2, 4, 5, streams.CLAMP, streams.CLAMP ^ 1, 0x0ffffffc << 96,
      0x0ffffffc0ffffffc, 0x0e12345c0789abcc0def012c03456789 & streams.CLAMP)
PADS = (0, (1 << 128) - 1, 1, (1 << 64) - 1, 0x80000000_00000000_80000000_00000000)


def mac(L, c, key, msg, cuts=None):
    L.poly1305_init(c, key)
    pos = 0
    for k in cuts or (len(msg),):
        L.poly1305_update(c, msg[pos:pos + k], k)
        pos += k
    o = Out(16)
    L.poly1305_final(c, o)
    return o


def residues():
    v = set(range(0, 40)) | set(P - 1 - i for i in range(40))
    for k in range(1, 130):
        for d in (-1, 0, 1, 5, -5):
            v.add(((1 << k) + d) % P)
            v.add((P - (1 << k) + d) % P)
    for w in (26, 44, 32, 64):
        full = (1 << w) - 1
        x = 0
        for i in range(0, 130, w):
            x |= full << i
            v.add(x % P)
            v.add((x ^ (full << i)) % P)
    return sorted(v)


def poly_residues(ctx, part, parts):
    L = ctx.lib
    c = ctxbuf(1024)
    n = 0
    for v in residues():
        for r in RS:
            n += 1
            if n % parts != part:
                continue
            rinv = pow(r, -1, P)
            need = v * rinv % P
            # last block: full, then short with its terminator bit
            for lastlen in (16, 15, 1):
                hib = 1 << (8 * lastlen)
                found = None
                for m1 in range(0, 3000 if lastlen == 16 else 1):
                    m1 = (m1 * 0x9e3779b97f4a7c15f39cc0605cedc835) % (1 << 128)
                    a = (m1 + (1 << 128)) * r % P
                    m2 = (need - a - hib) % P
                    if m2 < hib:
                        found = (m1, m2)
                        break
                if found is None:
                    # solve for the first block instead
                    for m2 in range(0, 256 if lastlen == 1 else 64):
                        a = (need - hib - m2) % P
                        m1 = (a * rinv - (1 << 128)) % P
                        if m1 < 1 << 128:
                            found = (m1, m2)
                            break
                if found is None:
                    continue
                msg = (found[0].to_bytes(16, "little") +
                       found[1].to_bytes(lastlen, "little"))
                for pad in PADS:
                    key = r.to_bytes(16, "little") + pad.to_bytes(16, "little")
                    ctx.case("residue", v, r, lastlen, pad)
                    ctx.state(v, r, lastlen, pad)
                    want = ((v + pad) % (1 << 128)).to_bytes(16, "little")
                    o = mac(L, c, key, msg)
                    ctx.eq(o.get(), want, "tag at this residue")
                    ctx.check(o.intact(), "tag size")


def poly_seqs(ctx, depth):
    L = ctx.lib
    c = ctxbuf(1024)
    al = [bytes(16), b"\xff" * 16, b"\xfb" + b"\xff" * 15, b"\1" + bytes(15),
          bytes(15) + b"\x80", b"\xff" * 8 + bytes(8), bytes(8) + b"\xff" * 8]
    for r in RS:
        for pad in PADS[:2]:
            key = r.to_bytes(16, "little") + pad.to_bytes(16, "little")
            for d in range(1, depth + 1):
                for seq in itertools.product(range(len(al)), repeat=d):
                    ctx.case("blocks", r, pad, seq)
                    ctx.state(r, pad, seq)
                    msg = b"".join(al[i] for i in seq)
                    ctx.eq(mac(L, c, key, msg).get(),
                           streams.poly1305(key, msg), "tag")


def poly_splits(ctx):
    L = ctx.lib
    c = ctxbuf(1024)
    for ki, key in enumerate((bytes(range(32)), b"\xff" * 32,
                              bytes((i * 77 + 5) & 255 for i in range(32)))):
        for n in range(0, 101):
            msg = DATA[:n] if ki != 1 else b"\xff" * n
            want = streams.poly1305(key, msg)
            for k in range(n + 1):
                ctx.case("split", ki, n, k)
                ctx.state(ki, n, k)
                ctx.eq(mac(L, c, key, msg, (k, n - k)).get(), want, "tag")
            ctx.case("bytewise", ki, n)
            ctx.eq(mac(L, c, key, msg, (1,) * n).get(), want, "tag")
            # padding to a block boundary
            for k in range(0, n + 1):
                L.poly1305_init(c, key)
                L.poly1305_update(c, msg[:k], k)
                L.poly1305_pad(c)
                L.poly1305_update(c, msg[k:], n - k)
                o = Out(16)
                L.poly1305_final(c, o)
                ctx.case("pad", ki, n, k)
                ctx.state("pad", ki, n, k)
                ctx.eq(o.get(), streams.poly1305(key, msg[:k] + bytes(-k % 16)
                                                 + msg[k:]), "padded tag")
    for seq in itertools.product((0, 1, 15, 16, 17, 33), repeat=4):
        ctx.case("sequence", seq)
        ctx.state(seq)
        msg = DATA[:sum(seq)]
        ctx.eq(mac(L, c, key, msg, seq).get(), streams.poly1305(key, msg),
               "tag")
    for n in (1000, 4096):
        ctx.case("long", n)
        ctx.eq(mac(L, c, b"\xff" * 32, b"\xff" * n).get(),
               streams.poly1305(b"\xff" * 32, b"\xff" * n), "long tag")
    # clamping: every key bit
    for i in range(256):
        for base in (0, (1 << 256) - 1):
            key = (base ^ (1 << i)).to_bytes(32, "little")
            ctx.case("key bit", base, i)
            ctx.state("key", base, i)
            ctx.eq(mac(L, c, key, DATA[:40]).get(),
                   streams.poly1305(key, DATA[:40]), "clamped key")


def sip(ctx):
    L = ctx.lib
    key = bytes(range(16))
    for n in range(301):
        for base in (DATA, b"\xff" * 301, bytes(301)):
            ctx.case("siphash", n, base[:1])
            ctx.state(n, base[:1])
            ctx.eq(L.siphash_sum(base[:n], n, key),
                   streams.siphash(base[:n], key), "siphash")
    for i in range(128):
        k = (1 << i).to_bytes(16, "little")
        for n in (0, 1, 7, 8, 9, 15):
            ctx.case("siphash key", i, n)
            ctx.state("k", i, n)
            ctx.eq(L.siphash_sum(DATA, n, k), streams.siphash(DATA[:n], k),
                   "siphash")
    nums = [0, 1, (1 << 64) - 1] + [1 << i for i in range(64)] + \
        [(0x9e3779b97f4a7c15 * i) % (1 << 64) for i in range(300)]
    for num in nums:
        for k in (bytes(32), b"\xff" * 32, bytes(range(32)), DATA[5:37]):
            ctx.case("siphash num", num, k.hex())
            ctx.state("num", num, k)
            ctx.eq(L.siphash128_sum(num, k), streams.siphash128(num, k),
                   "128-bit key variant")
            ctx.eq(L.siphash256_sum(num, k), streams.siphash256(num, k),
                   "256-bit key variant")
    for i in range(256):
        k = (1 << i).to_bytes(32, "little")
        ctx.case("siphash256 key", i)
        ctx.eq(L.siphash256_sum(7, k), streams.siphash256(7, k), "key bit")


def sipmod(ctx):
    L = ctx.lib
    key = bytes(range(16))
    mods = [0, 1, 2, 3, 10, 100, 0xffffffff, 1 << 32, (1 << 32) + 1,
            (1 << 64) - 1, 0xffffffff00000000, 0x100000001 * 0x7fffffff]
    mods += [1 << i for i in range(64)] + [(1 << i) - 1 for i in range(2, 64)]
    for i in range(2000 if ctx.quick else 20000):
        m = i.to_bytes(3, "little")
        h = streams.siphash(m, key)
        for mod in mods:
            ctx.case("siphash mod", i, mod)
            ctx.states(1)
            ctx.eq(L.siphash_mod(m, 3, key, mod), h * mod >> 64,
                   "modular reduction")


def murmur(ctx):
    L = ctx.lib
    seeds = (0, 1, 0xffffffff, 0x80000000, 0xfba4c795, 0x12345678)
    for n in range(131):
        for base in (DATA, b"\xff" * 131, bytes(131)):
            for seed in seeds:
                ctx.case("murmur", n, base[:1], seed)
                ctx.state(n, base[:1], seed)
                ctx.eq(L.murmur3_sum(base[:n], n, seed),
                       streams.murmur3(base[:n], seed), "murmur3")
    for n in (1, 2):
        for v in range(256 ** n):
            m = v.to_bytes(n, "little")
            ctx.case("murmur short", m.hex())
            ctx.state("short", m)
            ctx.eq(L.murmur3_sum(m, n, 5), streams.murmur3(m, 5), "murmur3")
    for pre in (0, 4):
        for p in range(3):
            for v in range(256):
                m = bytearray(DATA[:pre + 3])
                m[pre + p] = v
                m = bytes(m)
                ctx.case("murmur tail", m.hex())
                ctx.state("tail", m)
                ctx.eq(L.murmur3_sum(m, len(m), 9), streams.murmur3(m, 9),
                       "murmur3")
    for n in seeds:
        for tweak in seeds:
            for ln in (0, 1, 5, 8):
                ctx.case("tweak", n, tweak, ln)
                ctx.state("tweak", n, tweak, ln)
                s = (n * 0xfba4c795 + tweak) % (1 << 32)
                ctx.eq(L.murmur3_tweak(DATA[:ln], ln, n, tweak),
                       streams.murmur3(DATA[:ln], s), "tweaked murmur3")


def tasks(tier):
    streams.selftest()
    ts = []
    depth = 4 if tier == "quick" else 5
    for v in ("n64", "p32"):
        for i in range(4):
            ts.append(Task("residues/%s/%d" % (v, i), poly_residues, (i, 4),
                           variant=v))
        ts.append(Task("blocks/" + v, poly_seqs, (depth,), variant=v))
        ts.append(Task("splits/" + v, poly_splits, variant=v))
        ts.append(Task("sip/" + v, sip, variant=v))
        ts.append(Task("sipmod/" + v, sipmod, variant=v))
    ts.append(Task("murmur", murmur))
    return ts
