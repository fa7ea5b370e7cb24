"""H01: digests and HMACs for every length and split.

State of an incremental hash: (algorithm, number of buffered bytes, blocks
done).  The space walked is the product of first chunk x second chunk x third
chunk, which visits every (buffered bytes, chunk length) pair from both the
fresh and the reused context, and every message length.  Oracle: OpenSSL,
libgcrypt and plain definitions."""

import ctypes as C
import hashlib

from mc import oracle
from mc.core import Task
from mc.lib import ctxbuf, Out

BOUNDS = ("all hashes; messages 0..4 blocks+2; all pairs of leading chunks up "
          "to 2 blocks+2; HMAC keys 0..2 blocks+2; lengths beyond 2^32 bits "
          "and 2^32 bytes; keyed BLAKE2 with every output size and key size; "
          "each hash by its own functions, with no, one and two updates")
ASSUMPTIONS = ["OpenSSL/libgcrypt/Python reference digests are correct",
               "message content is one fixed pattern per length except for "
               "the all-byte-values pass"]

MSG = bytes((i * 167 + (i >> 8) * 29 + 41) & 255 for i in range(4096))


def digests(name, n):
    f = oracle.HASHES[name][2]
    return [f(MSG[:i]) for i in range(n + 1)]


def lengths_and_splits(ctx, name):
    L = ctx.lib
    size, bs, f = oracle.HASHES[name]
    t = getattr(L, "HASH_" + name)
    ctx.case(name, "meta")
    ctx.eq(L.hash_output_size(t), size, "output size")
    ctx.eq(L.hash_block_size(t), bs, "block size")
    ctx.eq(L.hash_has_backend(t), 1, "backend")
    slow = name.startswith("KECCAK") or name == "MD2"
    maxlen = (4 * bs + 2) if not slow else 3 * bs + 2
    span = 2 * bs + 2
    want = digests(name, max(maxlen, 2 * span + bs + 1))
    st = ctxbuf(4096)
    out = Out(size)
    init, update, final = L.hash_init, L.hash_update, L.hash_final
    bufs = C.create_string_buffer(MSG, len(MSG))
    base = C.addressof(bufs)

    # every length in one call; then byte by byte; then with empty updates
    for n in range(maxlen + 1):
        ctx.case(name, "one", n)
        ctx.state(name, n % bs, n // bs)
        init(st, t)
        update(st, base, n)
        final(st, out.reset(), size)
        ctx.eq(out.get(), want[n], "digest of one update")
        ctx.check(out.intact(), "digest exceeds its output size")
        ctx.case(name, "bytes", n)
        init(st, t)
        update(st, base, 0)
        for i in range(n):
            update(st, base + i, 1)
        update(st, base + n, 0)
        final(st, out.reset(), size)
        ctx.step(n)
        ctx.eq(out.get(), want[n], "digest of byte-wise updates")

    # all (first, second) chunk pairs, with three tails
    for a in range(span + 1):
        ctx.case(name, "pairs", a)
        for b in range(span + 1):
            for c in ((0, 1, bs) if a % 2 == 0 or not ctx.quick else (bs - 1,)):
                init(st, t)
                update(st, base, a)
                update(st, base + a, b)
                if c:
                    update(st, base + a + b, c)
                final(st, out, size)
                if out.get() != want[a + b + c]:
                    ctx.cur = (name, "chunks", a, b, c)
                    ctx.fail("digest of chunked updates", want[a + b + c],
                             out.get())
                ctx.transitions += 3
            ctx._states.add(hash((name, a % bs, b % bs, b // bs)))
        ctx.traces += 3 * span

    # every chunk length that divides the message evenly, long message
    for k in range(1, 2 * bs + 2):
        ctx.case(name, "even", k)
        n = max(len(want) - 1, 0)
        init(st, t)
        i = 0
        while i < n:
            c = min(k, n - i)
            update(st, base + i, c)
            i += c
            ctx.step()
        final(st, out.reset(), size)
        ctx.eq(out.get(), want[n], "digest of equal chunks")

    # every byte value at every position of the last block region
    for v in range(0, 256, 17 if slow else 1):
        for n in (bs - 9, bs, bs + 3) if bs > 16 else (bs - 1, bs, bs + 3):
            m = bytes([v]) * n
            ctx.case(name, "value", v, n)
            init(st, t)
            update(st, m, n)
            final(st, out.reset(), size)
            ctx.eq(out.get(), f(m), "digest of constant bytes")


def hmacs(ctx, name):
    L = ctx.lib
    size, bs, f = oracle.HASHES[name]
    t = getattr(L, "HASH_" + name)
    st = ctxbuf(8192)
    out = Out(size)
    slow = name.startswith("KECCAK") or name == "MD2"
    keys = range(0, 2 * bs + 3) if not slow else (
        0, 1, bs // 2, bs - 1, bs, bs + 1, 2 * bs, 2 * bs + 1)
    for kl in keys:
        key = bytes((i * 7 + kl) & 255 for i in range(kl))
        for ml in (0, 1, bs - 1, bs, 2 * bs + 5):
            m = MSG[:ml]
            want = oracle.hmac(name, key, m)
            for cut in (None, 0, 1, bs - 1, bs):
                if cut is not None and cut > ml:
                    continue
                ctx.case(name, "hmac", kl, ml, cut)
                ctx.state(name, "hmac", kl, ml)
                L.hmac_init(st, t, key, kl)
                if cut is None:
                    L.hmac_update(st, m, ml)
                else:
                    L.hmac_update(st, m[:cut], cut)
                    L.hmac_update(st, m[cut:], ml - cut)
                L.hmac_final(st, out.reset())
                ctx.eq(out.get(), want, "hmac")
                ctx.check(out.intact(), "hmac exceeds its output size")


def direct(ctx):
    """The functions of each hash by name; sessions without any update."""
    L = ctx.lib
    st = ctxbuf(8192)
    for name, (size, bs, f) in oracle.HASHES.items():
        nm = name.lower()
        if nm.startswith("blake2"):
            nm = nm.replace("_", "")
        fns = []
        for part in ("init", "update", "final"):
            fns.append(getattr(L, "%s_%s" % (nm, part)))
            fns[-1].restype = None
        init, update, final = fns
        VP, SZ = C.c_void_p, C.c_size_t
        update.argtypes = [VP, VP, SZ]
        blake, shake = nm.startswith("blake2"), nm.startswith("shake")
        init.argtypes = [VP, VP, SZ] if blake else [VP]
        final.argtypes = [VP, VP, SZ] if shake else [VP, VP]
        out = Out(size)
        for n in list(range(0, bs + 2)) + [2 * bs - 1, 2 * bs, 3 * bs + 7]:
            want = f(MSG[:n])
            for cut in (None, 0, n // 2, n):
                if cut is None and n:
                    continue
                ctx.case(name, "direct", n, cut)
                ctx.state(name, "direct", n, cut)
                for kl in (0, 5) if blake else (0,):
                    C.memset(st, 0x5c, 4096)
                    if blake:
                        init(st, MSG if kl else None, kl)
                        if kl:
                            H = getattr(hashlib, nm[:7])
                            want = H(MSG[:n], digest_size=size,
                                     key=MSG[:kl]).digest()
                    else:
                        init(st)
                    if cut is not None:
                        update(st, MSG, cut)
                        update(st, MSG[cut:], n - cut)
                    if shake:
                        final(st, out.reset(), size)
                    else:
                        final(st, out.reset())
                    ctx.eq(out.get(), want, "digest by name")
                    ctx.check(out.intact(), "digest exceeds its output size")
                want = f(MSG[:n])
        # no update call at all, on storage that held something else
        t = getattr(L, "HASH_" + name)
        ctx.case(name, "no update")
        C.memset(st, 0xff, 4096)
        L.hash_init(st, t)
        L.hash_final(st, out.reset(), size)
        ctx.eq(out.get(), f(b""), "digest without update")
        for kl in (0, 1, bs, bs + 1):
            ctx.case(name, "no update", "hmac", kl)
            C.memset(st, 0xff, 8192)
            L.hmac_init(st, t, MSG, kl)
            L.hmac_final(st, out.reset())
            ctx.eq(out.get(), oracle.hmac(name, MSG[:kl], b""),
                   "hmac without update")


def blake_keyed(ctx, which):
    L = ctx.lib
    big = which == "b"
    maxlen, bs = (64, 128) if big else (32, 64)
    H = hashlib.blake2b if big else hashlib.blake2s
    init = L.blake2b_init if big else L.blake2s_init
    upd = L.blake2b_update if big else L.blake2s_update
    fin = L.blake2b_final if big else L.blake2s_final
    st = ctxbuf(4096)
    for ol in range(1, maxlen + 1):
        out = Out(ol)
        for kl in range(0, maxlen + 1):
            key = MSG[100:100 + kl]
            for ml in (0, 1, bs - 1, bs, bs + 1, 2 * bs):
                if ctx.quick and (ol + kl) % 3 and ml not in (0, bs):
                    continue
                ctx.case("blake2" + which, ol, kl, ml)
                ctx.state(ol, kl, ml)
                want = H(MSG[:ml], digest_size=ol, key=key).digest()
                init(st, ol, key, kl)
                upd(st, MSG, ml)
                fin(st, out.reset())
                ctx.eq(out.get(), want, "keyed blake2")
                ctx.check(out.intact(), "output size")


def keccak_params(ctx):
    """Raw sponge with every standard capacity, pad byte and output size."""
    L = ctx.lib
    st = ctxbuf(4096)
    for bits in (128, 160, 192, 224, 256, 320, 384, 448, 512, 576, 768):
        rate = (1600 - 2 * bits) // 8
        for pad in (0x01, 0x06, 0x1f):
            for ml in (0, 1, rate - 2, rate - 1, rate, rate + 1, 2 * rate - 1):
                full = oracle.keccak(MSG[:ml], rate, pad, rate)
                for ol in (1, 7, 8, 9, rate - 1, rate) if pad != 1 else (8,):
                    if ol > rate:
                        continue
                    ctx.case("keccak", bits, pad, ml, ol)
                    ctx.state(bits, pad, ml, ol)
                    out = Out(ol)
                    L.keccak_init(st, bits)
                    cut = ml // 3
                    L.keccak_update(st, MSG, cut)
                    L.keccak_update(st, MSG[cut:], ml - cut)
                    L.keccak_final(st, out, pad, ol)
                    ctx.eq(out.get(), full[:ol], "keccak")
                    ctx.check(out.intact(), "output size")
    for name, rate in (("SHAKE128", 168), ("SHAKE256", 136)):
        h = getattr(hashlib, name.lower().replace("shake", "shake_"))
        t = getattr(L, "HASH_" + name)
        for ol in range(1, rate + 1):
            for ml in (0, rate - 1, rate):
                ctx.case(name, "xof", ol, ml)
                ctx.state(name, ol, ml)
                out = Out(ol)
                L.hash_init(st, t)
                L.hash_update(st, MSG, ml)
                L.hash_final(st, out, ol)
                ctx.eq(out.get(), h(MSG[:ml]).digest(ol), "shake output")


def long_message(ctx, name, total, tail):
    """total bytes (multiple of 16 MiB chunks) plus tail."""
    L = ctx.lib
    size = oracle.HASHES[name][0]
    t = getattr(L, "HASH_" + name)
    chunk = MSG * 4096  # 16 MiB
    buf = C.create_string_buffer(chunk, len(chunk))
    st = ctxbuf(4096)
    if name == "GOST94":
        h = oracle.GcryHash(oracle.GOST94, 32)
    elif name in ("MD4", "WHIRLPOOL", "RIPEMD160"):
        h = oracle.EvpHash(name if name != "WHIRLPOOL" else "whirlpool", size)
    elif name.startswith("BLAKE2"):
        h = getattr(hashlib, name[:7].lower())()
    elif name == "MD5SHA1":
        h = hashlib.new("md5-sha1")
    else:
        h = hashlib.new(name.lower())
    L.hash_init(st, t)
    ctx.case(name, "long", total, tail)
    for i in range(total // len(chunk)):
        L.hash_update(st, buf, len(chunk))
        h.update(chunk)
        ctx.step()
        ctx.state(name, "long", i)
        ctx.beat()
    L.hash_update(st, buf, tail)
    h.update(chunk[:tail])
    out = Out(size)
    L.hash_final(st, out, size)
    ctx.eq(out.get(), h.digest(), "digest of a message of %d bytes" %
           (total + tail))


def one_huge_update(ctx, name):
    """A single update call with more than 2^32 bits."""
    L = ctx.lib
    size = oracle.HASHES[name][0]
    n = (1 << 29) + 65
    data = MSG[:4096] * (n // 4096 + 1)
    st = ctxbuf(4096)
    ctx.case(name, "huge", n)
    L.hash_init(st, getattr(L, "HASH_" + name))
    L.hash_update(st, b"x", 1)
    L.hash_update(st, data, n)
    out = Out(size)
    L.hash_final(st, out, size)
    if name.startswith("BLAKE2"):
        h = getattr(hashlib, name[:7].lower())(b"x")
    else:
        h = hashlib.new(name.lower(), b"x")
    h.update(memoryview(data)[:n])
    ctx.state(name, "huge")
    ctx.eq(out.get(), h.digest(), "digest of one huge update")


def tasks(tier):
    ts = []
    G = 1 << 30
    M = 1 << 24
    # the slow ones first
    long = [("GOST94", G // 2, 5)] if tier == "thorough" else []
    long += [("WHIRLPOOL", G // 2, 33), ("SHA256", 4 * G, 7),
             ("BLAKE2S_256", 4 * G, 7), ("RIPEMD160", G // 2, 7),
             ("SHA1", G // 2, 120), ("MD5", G // 2, 60), ("MD4", G // 2, 60),
             ("SHA512", G // 2, 111), ("BLAKE2B_512", G // 2, 1),
             ("MD5SHA1", G // 2, 1)]
    if tier == "thorough":
        long += [(n, 4 * G + M, 9) for n in
                 ("SHA1", "MD5", "MD4", "RIPEMD160", "SHA512", "BLAKE2B_512",
                  "WHIRLPOOL")]
    for n, t, r in long:
        ts.append(Task("long/%s/%d" % (n, t), long_message, (n, t, r)))
    vs = ("n64", "p32") if tier == "thorough" else ("n64",)
    for v in vs:
        for n in oracle.HASHES:
            ts.append(Task("split/%s/%s" % (n, v), lengths_and_splits, (n,), v))
            ts.append(Task("hmac/%s/%s" % (n, v), hmacs, (n,), v))
        for w in "bs":
            ts.append(Task("keyed/%s/%s" % (w, v), blake_keyed, (w,), v))
        ts.append(Task("keccak/%s" % v, keccak_params, (), v))
        ts.append(Task("direct/%s" % v, direct, (), v))
    for n in ("SHA256", "BLAKE2B_512") if tier == "quick" else (
            "SHA256", "BLAKE2B_512", "SHA1", "MD5", "BLAKE2S_256"):
        ts.append(Task("huge/" + n, one_huge_update, (n,)))
    return ts
