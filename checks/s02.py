"""S02: ChaCha20-Poly1305 and secretbox.

All lengths and 2-cuts of associated data and message for sealing and opening;
for secretbox every single-bit change of box, key and nonce, every truncation
and extension.  Oracle: the constructions over transcribed primitives."""

import ctypes as C

from mc import modes, streams
from mc.core import Task
from mc.huge import STEP, Zeros, aead
from mc.lib import Out, ctxbuf

BOUNDS = ("chachapoly: nonce 8/12/16/24/28/32, aad 0..40 x message 0..140 with "
          "all 2-cuts, authentication-only calls, sessions without "
          "message or aad calls; secretbox: lengths 0..300, "
          "every bit of box, key and nonce flipped, every truncation; aad and "
          "messages beyond 2^32 bytes")
ASSUMPTIONS = ["RFC 8439 and NaCl constructions transcribed correctly"]

STALL = 240            # one call with 2^32 bytes takes long

DATA = bytes((i * 167 + i // 256 + 43) & 255 for i in range(4096))


def ref(key, iv, aad, m):
    pk = streams.chacha_stream(key, iv, 0, 64)[:32]
    c = modes.xor(streams.chacha_stream(key, iv, 0, 64 + len(m))[64:], m)
    mac = (modes.pad16(aad) + modes.pad16(c) + len(aad).to_bytes(8, "little")
           + len(c).to_bytes(8, "little"))
    return c, streams.poly1305(pk, mac)


def once(ctx, c, key, iv, aad, m, acuts, cuts, how, want):
    L = ctx.lib
    ct, tag = want
    L.chachapoly_init(c, key, iv, len(iv))
    pos = 0
    for k in acuts:
        L.chachapoly_aad(c, aad[pos:pos + k], k)
        pos += k
    src = m if how == "encrypt" else ct
    got, pos = b"", 0
    for k in cuts:
        part = src[pos:pos + k]
        if how == "auth":
            L.chachapoly_auth(c, part, k)
        else:
            o = Out(k)
            f = L.chachapoly_encrypt if how == "encrypt" else \
                L.chachapoly_decrypt
            if (pos + k) % 2:
                o.set(part)
                f(c, o, o, k)
            else:
                f(c, o, part, k)
            ctx.check(o.intact(), "output size")
            got += o.get()
        pos += k
    o = Out(16)
    L.chachapoly_final(c, o)
    if how != "auth":
        ctx.eq(got, ct if how == "encrypt" else m, how)
    ctx.eq(o.get(), tag, "tag after " + how)
    ctx.check(o.intact(), "tag size")


def grid(ctx, nl):
    c = ctxbuf(2048)
    key = bytes((i * 29 + nl) & 255 for i in range(32))
    iv = bytes((i * 7 + 3) & 255 for i in range(nl))
    if nl in (16, 32):
        # leave the counter part at zero so that the position is standard
        iv = iv[:-16] + bytes(8) + iv[-8:]
    for al in list(range(0, 41)) + [255, 256, 257]:
        for ml in list(range(0, 141)):
            if al > 2 and al % 16 not in (0, 1, 15) and ml % 16 not in (0, 1, 15):
                continue
            aad, m = DATA[:al], DATA[300:300 + ml]
            want = ref(key, iv, aad, m)
            for how in ("encrypt", "decrypt", "auth"):
                ctx.case("grid", nl, al, ml, how)
                ctx.state(nl, al, ml, how)
                once(ctx, c, key, iv, aad, m, (al // 2, al - al // 2),
                     (ml,), how, want)
                # calls that were never made
                if ml == 0:
                    ctx.case("no message call", nl, al, how)
                    once(ctx, c, key, iv, aad, m, (al,), (), how, want)
                if al == 0:
                    ctx.case("no aad call", nl, ml, how)
                    once(ctx, c, key, iv, aad, m, (),
                         (ml,) if ml else (), how, want)


def splits(ctx):
    c = ctxbuf(2048)
    key = bytes((i * 29 + 1) & 255 for i in range(32))
    iv = bytes(range(12))
    for ml in range(0, 141):
        al = ml % 37
        aad, m = DATA[:al], DATA[300:300 + ml]
        want = ref(key, iv, aad, m)
        for k in range(ml + 1):
            for how in ("encrypt", "decrypt", "auth"):
                ctx.case("split", ml, k, how)
                ctx.state(ml, k, how)
                a = k % (al + 1)
                once(ctx, c, key, iv, aad, m, (a, 0, al - a), (k, ml - k), how,
                     want)
        ctx.case("bytewise", ml)
        once(ctx, c, key, iv, aad, m, (1,) * al, (1,) * ml, "encrypt", want)
    # empty calls anywhere must not matter
    for al in (0, 5, 16):
        aad, m = DATA[:al], DATA[:50]
        want = ref(key, iv, aad, m)
        for cuts in ((0, 50), (50, 0), (0, 0, 50), (16, 0, 34), (5, 0, 0, 45)):
            for how in ("encrypt", "decrypt", "auth"):
                ctx.case("empty calls", al, cuts, how)
                once(ctx, c, key, iv, aad, m, (0, al, 0), cuts, how, want)


def boxref(key, nonce, m):
    s = streams.salsa_stream(key, nonce, 0, 32 + len(m))
    c = modes.xor(s[32:], m)
    return streams.poly1305(s[:32], c) + c


def box(ctx, lo, hi):
    L = ctx.lib
    for ml in range(lo, hi):
        for seed in range(2):
            key = bytes((i * 29 + seed) & 255 for i in range(32))
            nonce = bytes((i * 31 + 9 * seed) & 255 for i in range(24))
            m = DATA[ml:2 * ml]
            want = boxref(key, nonce, m)
            ctx.case("seal", ml, seed)
            ctx.state(ml, seed)
            o = Out(ml + 16)
            L.secretbox_seal(o, m, ml, key, nonce)
            ctx.eq(o.get(), want, "sealed box")
            ctx.check(o.intact(), "box size")
            p = Out(ml)
            ctx.eq(L.secretbox_open(p, want, ml + 16, key, nonce), 1,
                   "own box refused")
            ctx.eq(p.get(), m, "opened message")
            ctx.check(p.intact(), "message size")


def tamper(ctx, mls):
    L = ctx.lib
    key = bytes((i * 29 + 3) & 255 for i in range(32))
    nonce = bytes((i * 31 + 9) & 255 for i in range(24))
    for ml in mls:
        m = DATA[ml:2 * ml]
        good = boxref(key, nonce, m)
        o = Out(ml + 64)

        def no(what, b, k=key, n=nonce):
            ctx.eq(L.secretbox_open(o, b, len(b), k, n), 0, what)
        for i in range(8 * len(good)):
            b = bytearray(good)
            b[i // 8] ^= 1 << (i % 8)
            ctx.case("bit", ml, i)
            ctx.state(ml, "bit", i)
            no("changed box opened", bytes(b))
        for i in range(256):
            k = bytearray(key)
            k[i // 8] ^= 1 << (i % 8)
            ctx.case("key bit", ml, i)
            ctx.state(ml, "key", i)
            no("other key opened", good, bytes(k))
        for i in range(192):
            n = bytearray(nonce)
            n[i // 8] ^= 1 << (i % 8)
            ctx.case("nonce bit", ml, i)
            ctx.state(ml, "nonce", i)
            no("other nonce opened", good, key, bytes(n))
        for n in range(len(good)):
            ctx.case("truncated", ml, n)
            ctx.state(ml, "trunc", n)
            no("truncated box opened", good[:n])
        for n in range(1, 20):
            ctx.case("extended", ml, n)
            no("extended box opened", good + bytes(n))
        # two changed bytes of the tag, equal differences
        for i in range(16):
            for j in range(i + 1, 16):
                for d in (1, 0x80, 0xff):
                    b = bytearray(good)
                    b[i] ^= d
                    b[j] ^= d
                    ctx.case("two bytes", ml, i, j, d)
                    ctx.state(ml, i, j, d)
                    no("changed tag opened", bytes(b))


def huge(ctx, an, mn):
    """Lengths which need more than 32 bits."""
    L = ctx.lib
    key, iv = bytes(range(32)), bytes(range(50, 62))
    z, c = Zeros(max(an, STEP)), ctxbuf()
    ctx.case("huge", an, mn)
    ctx.states(1)
    L.chachapoly_init(c, key, iv, 12)
    L.chachapoly_aad(c, z.ptr, an)
    buf = C.create_string_buffer(STEP)
    want = aead(b"ChaCha20-Poly1305", key, iv, an, mn)
    while mn:
        k = min(mn, STEP)
        L.chachapoly_encrypt(c, buf, z.ptr, k)
        mn -= k
        ctx.beat()
    o = Out(16)
    L.chachapoly_final(c, o)
    ctx.eq(o.get(), want, "tag")


def tasks(tier):
    streams.selftest()
    ts = [Task("grid/%d" % n, grid, (n,)) for n in (8, 12, 16, 24, 28, 32)]
    ts.append(Task("splits", splits))
    top = 300 if tier == "quick" else 1200
    for i in range(0, top, 100):
        ts.append(Task("box/%d" % i, box, (i, i + 101)))
    for g in ((0, 1), (15, 16, 17), (32, 40), (100,)):
        ts.append(Task("tamper/%s" % (g,), tamper, (g,)))
    for n in (8, 12, 24):
        ts.append(Task("p32 grid/%d" % n, grid, (n,), variant="p32"))
    ts.append(Task("huge/aad", huge, ((1 << 32) + 3, 5)))
    ts.append(Task("huge/message", huge, (3, (1 << 32) + 5)))
    ts.append(Task("p32 box", box, (0, 140), variant="p32"))
    ts.append(Task("p32 tamper", tamper, ((33,),), variant="p32"))
    return ts
