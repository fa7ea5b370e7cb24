"""B01: block ciphers as keyed permutations.

Keys and blocks run over structured alphabets (every single bit, every byte
value in every position, arithmetic edges), the product of which drives every
table entry of every round and of the key schedules.  Oracle: OpenSSL and
libgcrypt; Twofish with 192-bit keys from its specification."""

from mc import ciphers
from mc.core import Task
from mc.lib import Out, ctxbuf

BOUNDS = ("24 ciphers; every key length 0..140; keys: every bit, every byte "
          "value at every position, 16-bit word edges; blocks: every bit, every "
          "byte value at every position under several keys, chains of 512 "
          "self-applications; every value of every 16-bit word of the block; bulk, single-block and in-place calls")
ASSUMPTIONS = ["OpenSSL/libgcrypt block ciphers are right"]


def blocks(bs):
    out = [bytes(bs), b"\xff" * bs, bytes(range(bs))]
    for i in range(8 * bs):
        out.append((1 << i).to_bytes(bs, "big"))
        out.append((((1 << (8 * bs)) - 1) ^ (1 << i)).to_bytes(bs, "big"))
    for p in range(bs):
        for v in range(256):
            b = bytearray((i * 29 + v * 7 + p) & 255 for i in range(bs))
            b[p] = v
            out.append(bytes(b))
            b = bytearray(bs)
            b[p] = v
            out.append(bytes(b))
    # 16-bit words at their edges, for the ciphers that multiply or add words
    words = (0, 1, 2, 0x7fff, 0x8000, 0xfffe, 0xffff)
    for w0 in words:
        for w1 in words:
            for w2 in words:
                for w3 in words:
                    b = b"".join(w.to_bytes(2, "big") for w in (w0, w1, w2, w3))
                    out.append((b + b[::-1])[:bs])
    return b"".join(out)


def keys(kl, full):
    out = [bytes(kl), b"\xff" * kl, bytes(range(kl)),
           bytes(255 - i for i in range(kl))]
    for i in range(8 * kl):
        out.append((1 << i).to_bytes(kl, "big"))
    if full:
        for p in range(kl):
            for v in range(256):
                b = bytearray((i * 41 + v * 3 + p * 5 + 1) & 255
                              for i in range(kl))
                b[p] = v
                out.append(bytes(b))
    words = (0, 1, 0x8000, 0xffff)
    for i in range(kl // 2):
        for w in words:
            b = bytearray(kl)
            b[2 * i:2 * i + 2] = w.to_bytes(2, "big")
            out.append(bytes(b))
            b = bytearray(b"\xff" * kl)
            b[2 * i:2 * i + 2] = w.to_bytes(2, "big")
            out.append(bytes(b))
    return out


def init(ctx, name, key):
    L = ctx.lib
    c = ctxbuf()
    ctx.eq(L.cipher_init(c, getattr(L, "CIPHER_" + name), key, len(key)), 1,
           "admissible key refused")
    return c


def ecb(L, c, enc, data):
    out = Out(len(data))
    (L.ecb_encrypt if enc else L.ecb_decrypt)(c, out, data, len(data))
    return out


def perm(ctx, name, part, parts):
    """Few keys, all blocks, through every entry point."""
    L = ctx.lib
    bs, kls = ciphers.BLOCK[name]
    data = blocks(bs)
    for ki, kl in enumerate(kls):
        if len(kls) > 1 and kl not in (1, 5, 7, 8, 16, 56, 71, 72, 127, 128):
            continue
        for j, key in enumerate([bytes(kl), b"\xff" * kl,
                                 bytes((i * 13 + 5) & 255 for i in range(kl)),
                                 bytes((i * 201 + 77) & 255
                                       for i in range(kl))]):
            if j % parts != part:
                continue
            ref = ciphers.make(name, key)
            c = init(ctx, name, key)
            for enc in (1, 0):
                ctx.case("bulk", name, key.hex(), enc)
                want = ref.run(enc, data)
                out = ecb(L, c, enc, data)
                got = out.get()
                for o in range(0, len(data), bs):
                    ctx.state(name, key, enc, data[o:o + bs])
                    if got[o:o + bs] != want[o:o + bs]:
                        ctx.case("block", name, key.hex(), enc,
                                 data[o:o + bs].hex())
                        ctx.fail("block value", want[o:o + bs], got[o:o + bs])
                ctx.step(len(data) // bs)
                ctx.check(out.intact(), "output size")
                f = L.cipher_encrypt if enc else L.cipher_decrypt
                for o in range(0, min(len(data), 600 * bs), bs):
                    b = data[o:o + bs]
                    ctx.case("single", name, key.hex(), enc, b.hex())
                    one = Out(bs)
                    f(c, one, b)
                    ctx.eq(one.get(), want[o:o + bs], "single block")
                    ctx.check(one.intact(), "single block size")
                    inpl = Out(bs)
                    inpl.set(b)
                    f(c, inpl, inpl)
                    ctx.eq(inpl.get(), want[o:o + bs], "single block in place")
                buf = Out(len(data))
                buf.set(data)
                (L.ecb_encrypt if enc else L.ecb_decrypt)(c, buf, buf,
                                                          len(data))
                ctx.eq(buf.get(), want, "bulk in place")
            # a chain through the permutation and back
            x = bytes(bs)
            y = Out(bs)
            y.set(x)
            for n in range(512):
                ctx.case("chain", name, key.hex(), n)
                L.cipher_encrypt(c, y, y)
                x = ref.run(1, x)
                ctx.eq(y.get(), x, "chain forward")
            for n in range(512):
                L.cipher_decrypt(c, y, y)
            ctx.eq(y.get(), bytes(bs), "chain back")


def schedule(ctx, name, part, parts):
    """All keys, a few blocks."""
    L = ctx.lib
    bs, kls = ciphers.BLOCK[name]
    data = bytes(bs) + b"\xff" * bs + bytes((i * 77 + 3) & 255
                                            for i in range(2 * bs))
    n = 0
    for kl in kls:
        full = len(kls) == 1 or kl in (5, 16, 128)
        if name == "BLOWFISH":
            full = kl == 16
        for key in keys(kl, full):
            n += 1
            if n % parts != part:
                continue
            if name in ("TWOFISH192", "BLOWFISH") and n % 3 and ctx.quick:
                continue
            ctx.case("key", name, key.hex())
            ctx.state(name, key)
            ref = ciphers.make(name, key)
            c = init(ctx, name, key)
            e = ecb(L, c, 1, data).get()
            ctx.eq(e, ref.run(1, data), "encryption under this key")
            ctx.eq(ecb(L, c, 0, e).get(), data, "inverse under this key")


def words(ctx, name, variant_keys):
    """Every value of every 16-bit word of the block."""
    L = ctx.lib
    bs, kls = ciphers.BLOCK[name]
    kl = 16 if len(kls) > 1 else kls[0]
    allw = [w.to_bytes(2, "big") for w in range(65536)]
    for j in range(variant_keys):
        key = bytes((i * (57 + 2 * j) + 11 * j + 9) & 255 for i in range(kl))
        ref = ciphers.make(name, key)
        c = init(ctx, name, key)
        base = bytes((i * 31 + 5) & 255 for i in range(bs))
        for p in range(0, bs, 2):
            ctx.case("words", name, key.hex(), p)
            data = b"".join(base[:p] + w + base[p + 2:] for w in allw)
            for enc in (1, 0):
                want = ref.run(enc, data)
                got = ecb(L, c, enc, data).get()
                if got != want:
                    for o in range(0, len(data), bs):
                        if got[o:o + bs] != want[o:o + bs]:
                            ctx.case("words", name, key.hex(), enc,
                                     data[o:o + bs].hex())
                            ctx.fail("block value", want[o:o + bs],
                                     got[o:o + bs])
                ctx.step(65536)
                ctx.states(65536)


def idea_keys(ctx, pos):
    """Every value of one key word: all multiplicative inverses."""
    L = ctx.lib
    d = bytes(16) + bytes((i * 77 + 3) & 255 for i in range(16))
    for w in range(65536):
        key = bytearray((i * 19 + 3) & 255 for i in range(16))
        key[pos:pos + 2] = w.to_bytes(2, "big")
        key = bytes(key)
        ctx.case("idea key", key.hex())
        ctx.state(key)
        ref = ciphers.make("IDEA", key)
        c = init(ctx, "IDEA", key)
        e = ecb(L, c, 1, d).get()
        ctx.eq(e, ref.run(1, d), "encryption under this key")
        ctx.eq(ecb(L, c, 0, e).get(), d, "inverse under this key")


def lengths(ctx):
    L = ctx.lib
    key = bytes(range(140))
    for name, (bs, kls) in ciphers.BLOCK.items():
        t = getattr(L, "CIPHER_" + name)
        ctx.case("sizes", name)
        ctx.eq(L.cipher_block_size(t), bs, "block size")
        ctx.check(L.cipher_key_size(t) in kls, "default key size")
        for kl in range(141):
            ctx.case("key length", name, kl)
            ctx.state(name, kl)
            c = ctxbuf()
            r = L.cipher_init(c, t, key, kl)
            ctx.eq(r, 1 if kl in kls else 0, "admission of key length")
            if r == 1 and kl in kls:
                d = bytes(range(2 * bs))
                ctx.eq(ecb(L, c, 1, d).get(),
                       ciphers.make(name, key[:kl]).run(1, d),
                       "encryption with this key length")
    known = {getattr(L, "CIPHER_" + n) for n in ciphers.BLOCK}
    for t in set(range(64)) - known | {255, 1 << 16, (1 << 31) - 1}:
        ctx.case("unknown cipher", t)
        ctx.state("unknown", t)
        ctx.eq((L.cipher_block_size(t), L.cipher_key_size(t)), (0, 0),
               "sizes of an unknown cipher")
        for kl in (0, 8, 16, 32):
            ctx.eq(L.cipher_init(ctxbuf(), t, key, kl), 0, "unknown cipher")
            ctx.eq(L.cipher_stream_init(ctxbuf(), t, L.CIPHER_MODE_CBC, 1, key,
                                        kl, key, 16), 0, "unknown cipher")


def arc2_bits(ctx):
    """Effective key sizes of RC2, through its own entry points."""
    L = ctx.lib
    d = bytes(range(50, 66))
    for kl in (1, 2, 5, 8, 9, 16, 33, 64, 127, 128):
        key = bytes((i * 91 + kl) & 255 for i in range(kl))
        for bits in list(range(1, 1025)):
            ctx.case("arc2", kl, bits)
            ctx.state("arc2", kl, bits)
            c = ctxbuf()
            L.arc2_init(c, key, kl, bits)
            ref = ciphers.arc2(key, bits)
            o = Out(8)
            L.arc2_encrypt(c, o, d)
            ctx.eq(o.get(), ref.run(1, d[:8]), "effective key bits")
            L.arc2_decrypt(c, o, o)
            ctx.eq(o.get(), d[:8], "inverse")


def direct(ctx):
    """The per-cipher entry points agree with the generic ones."""
    L = ctx.lib
    groups = [("aes", ("AES128", "AES192", "AES256"), True),
              ("camellia", ("CAMELLIA128", "CAMELLIA192", "CAMELLIA256"), True),
              ("serpent", ("SERPENT128", "SERPENT192", "SERPENT256"), True),
              ("twofish", ("TWOFISH128", "TWOFISH192", "TWOFISH256"), True),
              ("cast5", ("CAST5",), False), ("des", ("DES",), False),
              ("des_ede", ("DES_EDE",), False),
              ("des_ede3", ("DES_EDE3",), False), ("idea", ("IDEA",), False)]
    for pre, names, bits in groups:
        for name in names:
            bs, kls = ciphers.BLOCK[name]
            kl = kls[0]
            for key in keys(kl, False)[:64]:
                ref = ciphers.make(name, key)
                c = ctxbuf()
                f = getattr(L, pre + "_init")
                f(c, 8 * kl, key) if bits else f(c, key)
                cs = [(c, c)]
                if pre == "aes":
                    c2 = ctxbuf()
                    L.aes_init_encrypt(c2, 8 * kl, key)
                    o = Out(bs)
                    L.aes_encrypt(c2, o, bytes(range(bs)))
                    ctx.eq(o.get(), ref.run(1, bytes(range(bs))),
                           "encrypt-only schedule")
                    L.aes_init_decrypt(c2)
                    cs.append((c2, c2))
                if pre == "idea":
                    c2 = ctxbuf()
                    L.idea_init_encrypt(c2, key)
                    L.idea_init_decrypt(c2)
                    cs.append((c2, c2))
                for ce, cd in cs:
                    for d in (bytes(bs), b"\xff" * bs, bytes(range(7, 7 + bs)),
                              key[:bs].ljust(bs, b"\x5a")):
                        ctx.case("direct", name, key.hex(), d.hex())
                        ctx.state(name, key, d)
                        o = Out(bs)
                        getattr(L, pre + "_encrypt")(ce, o, d)
                        ctx.eq(o.get(), ref.run(1, d), "direct encrypt")
                        ctx.check(o.intact(), "size")
                        o = Out(bs)
                        getattr(L, pre + "_decrypt")(cd, o, d)
                        ctx.eq(o.get(), ref.run(0, d), "direct decrypt")
                        ctx.check(o.intact(), "size")
    for kl in range(1, 73):
        key = bytes((i * 91 + kl) & 255 for i in range(kl))
        ref = ciphers.make("BLOWFISH", key)
        c = ctxbuf()
        L.blowfish_init(c, key, kl, None, 0)
        for d in (bytes(8), bytes(range(8))):
            ctx.case("blowfish", kl, d.hex())
            o = Out(8)
            L.blowfish_encrypt(c, o, d)
            ctx.eq(o.get(), ref.run(1, d), "direct encrypt")
            L.blowfish_decrypt(c, o, o)
            ctx.eq(o.get(), d, "direct decrypt")


def tasks(tier):
    ciphers.selftest()
    ts = [Task("lengths", lengths), Task("arc2 bits", arc2_bits),
          Task("direct", direct)]
    for name in ciphers.BLOCK:
        slow = name == "TWOFISH192"
        k = 4 if slow else 1
        for i in range(k):
            ts.append(Task("perm/%s/%d" % (name, i), perm, (name, i, k)))
            ts.append(Task("schedule/%s/%d" % (name, i), schedule,
                           (name, i, k)))
    for pos in (0, 6, 10):
        ts.append(Task("idea keys/%d" % pos, idea_keys, (pos,)))
    for name in ciphers.BLOCK:
        if name != "TWOFISH192":
            ts.append(Task("words/" + name, words,
                           (name, 1 if tier == "quick" else 6)))
    for name in ("AES128", "AES256", "CAMELLIA256", "SERPENT256",
                 "TWOFISH256", "IDEA", "DES_EDE3", "CAST5", "BLOWFISH"):
        ts.append(Task("perm32/%s" % name, perm, (name, 0, 2), variant="p32"))
    return ts
