"""B02: stream sessions of the unauthenticated modes.

A session is a sequence of update calls followed by the final call.  For each
mode, direction and padding setting the check explores every message length in
the bound, every way to cut it in two (and in three for 8-byte blocks), and
every call sequence over an alphabet of chunk lengths up to a depth."""

import ctypes as C
import itertools

from mc import ciphers, modes
from mc.core import Task
from mc.lib import Out, ctxbuf

BOUNDS = ("8 modes, both directions, padding on/off; lengths 0..4 blocks with "
          "every 1- and 2-cut, 3-cuts for 8-byte blocks, all sequences of 4 "
          "calls over 6 chunk lengths; all 24 ciphers for all lengths 0..3 "
          "blocks; all counter carries; all tweak bits; all last-block paddings; "
          "the functions below the session, block stealing for all remainders; "
          "calls which come too late")
ASSUMPTIONS = ["block ciphers of OpenSSL/libgcrypt are right",
               "mode definitions transcribed from SP 800-38A/E"]

MODES = ("RAW", "ECB", "CBC", "CTS", "XTS", "CTR", "CFB", "OFB")
DATA = bytes((i * 167 + i // 256 + 43) & 255 for i in range(4096))


def keyiv(name, mode, kl, seed=0):
    k = bytes((i * 37 + 11 + seed) & 255 for i in range(kl))
    if mode == "XTS":
        k += bytes((i * 59 + 101 + seed) & 255 for i in range(kl))
    bs = ciphers.BLOCK[name][0]
    iv = bytes((i * 83 + 200 + seed) & 255 for i in range(bs))
    return k, (b"" if mode in ("RAW", "ECB") else iv)


class Model:
    """What the session must output: (ok, bytes)."""

    def __init__(self, name, mode, key, iv):
        self.bs = ciphers.BLOCK[name][0]
        self.mode, self.iv = mode, iv
        if mode == "XTS":
            h = len(key) // 2
            self.ref = ciphers.make(name, key[:h])
            self.ref2 = ciphers.make(name, key[h:])
        else:
            self.ref = ciphers.make(name, key)
        self.memo = {}

    def run(self, enc, padding, m):
        k = (enc, padding, m)
        if k not in self.memo:
            self.memo[k] = self._run(enc, padding, m)
        return self.memo[k]

    def _run(self, enc, padding, m):
        padding = padding is not False
        bs, iv, mode, ref = self.bs, self.iv, self.mode, self.ref
        part = len(m) % bs
        if mode in ("CTR", "CFB", "OFB"):
            if mode == "CTR":
                return True, modes.ctr(ref, iv, m, bs)
            if mode == "CFB":
                return True, modes.cfb(ref, enc, iv, m, bs)
            return True, modes.ofb(ref, iv, m, bs)
        if mode == "RAW" or (mode == "ECB" and not padding):
            return part == 0, modes.ecb(ref, enc, m[:len(m) - part])
        if mode in ("CBC", "CTS") and not padding:
            return part == 0, modes.cbc(ref, enc, iv, m[:len(m) - part], bs)
        if mode in ("ECB", "CBC"):
            if enc:
                m = modes.pad(m, bs)
            else:
                m = m[:len(m) - part]
            o = (modes.ecb(ref, enc, m) if mode == "ECB" else
                 modes.cbc(ref, enc, iv, m, bs))
            if enc:
                return True, o
            u = modes.unpad(o, bs) if not part else None
            if u is None:
                return False, o[:-bs] if o else b""
            return True, u
        if mode == "XTS" and not padding:
            return part == 0, (modes.xts(ref, self.ref2, enc, iv,
                                         m[:len(m) - part], bs) or b"")
        if len(m) < bs:
            return False, b""
        if mode == "CTS":
            return True, modes.cts(ref, enc, iv, m, bs)
        return True, modes.xts(ref, self.ref2, enc, iv, m, bs)


_n = C.c_size_t()
_pn = C.byref(_n)


def session(ctx, st, model, mode_id, t, enc, padding, key, iv, m, cuts,
            inplace=False):
    """Feed m in the given chunks and compare with the model."""
    L = ctx.lib
    ok, want = model.run(enc, padding, m)
    ctx.eq(L.cipher_stream_init(st, t, mode_id, enc, key, len(key), iv,
                                len(iv)), 1, "session refused")
    if padding is False:
        ctx.eq(L.cipher_stream_set_padding(st, 0), 1, "padding refused")
    elif padding == "on":
        ctx.eq(L.cipher_stream_set_padding(st, 1), 1, "padding refused")
    got = b""
    pos = 0
    for c in cuts:
        sz = L.cipher_stream_update_size(st, c)
        o = Out(sz)
        L.cipher_stream_update(st, o, _pn, m[pos:pos + c], c)
        n = _n.value
        if n > sz:
            ctx.fail("more output than announced", sz, n)
            return
        ctx.check(o.intact(), "wrote beyond the announced size")
        got += o.get(n)
        pos += c
        if got != want[:len(got)]:
            ctx.fail("output after update", want[:len(got)], got)
            return
    sz = L.cipher_stream_final_size(st)
    o = Out(sz)
    _n.value = 12345
    r = L.cipher_stream_final(st, o, _pn)
    ctx.eq(bool(r), ok, "success of the session")
    n = _n.value
    if n > sz:
        ctx.fail("more final output than announced", sz, n)
        return
    ctx.check(o.intact(), "final wrote beyond the announced size")
    if ok:
        ctx.eq(got + o.get(n), want, "session output")


def combos(mode):
    pads = (None,) if mode in ("RAW", "CTR", "CFB", "OFB") else \
        (None, False, "on")
    for enc in (1, 0):
        for p in pads:
            yield enc, p


def inputs(model, enc, padding, n):
    """Message to feed: for padded decryption a valid ciphertext of n bytes."""
    if enc or padding is False or model.mode not in ("ECB", "CBC"):
        return DATA[5:5 + n]
    bs = model.bs
    if n % bs or n == 0:
        return DATA[5:5 + n]
    # the plaintext length varies with n so that every padding length occurs
    return model.run(1, None, DATA[9:9 + n - 1 - (n // bs * 3) % bs])[1]


def splits(ctx, name, mode, kl, top, three):
    L = ctx.lib
    t = getattr(L, "CIPHER_" + name)
    mid = getattr(L, "CIPHER_MODE_" + mode)
    key, iv = keyiv(name, mode, kl)
    bs = ciphers.BLOCK[name][0]
    model = Model(name, mode, key, iv)
    st = ctxbuf()
    for enc, p in combos(mode):
        padded = p is not False
        for n in range(top * bs + 1):
            m = inputs(model, enc, p, n)
            cutsets = [(n,)]
            cutsets += [(k, n - k) for k in range(n + 1)]
            if three and n <= 3 * bs + 1:
                cutsets += [(a, b, n - a - b) for a in range(n + 1)
                            for b in range(n - a + 1)]
            cutsets.append((1,) * n)
            for cuts in cutsets:
                ctx.case("split", name, mode, enc, p, cuts)
                ctx.state(mode, enc, p, cuts)
                session(ctx, st, model, mid, t, enc, p, key, iv, m, cuts)


def sequences(ctx, name, mode, kl, depth):
    L = ctx.lib
    t = getattr(L, "CIPHER_" + name)
    mid = getattr(L, "CIPHER_MODE_" + mode)
    key, iv = keyiv(name, mode, kl)
    bs = ciphers.BLOCK[name][0]
    model = Model(name, mode, key, iv)
    st = ctxbuf()
    al = (0, 1, bs - 1, bs, bs + 1, 2 * bs + 3)
    for enc, p in combos(mode):
        for d in range(1, depth + 1):
            for cuts in itertools.product(al, repeat=d):
                m = inputs(model, enc, p, sum(cuts))
                ctx.case("sequence", name, mode, enc, p, cuts)
                ctx.state(mode, enc, p, cuts)
                session(ctx, st, model, mid, t, enc, p, key, iv, m, cuts)


def every_cipher(ctx, name):
    L = ctx.lib
    t = getattr(L, "CIPHER_" + name)
    bs, kls = ciphers.BLOCK[name]
    kl = 16 if len(kls) > 1 else kls[0]
    st = ctxbuf()
    for mode in MODES:
        mid = getattr(L, "CIPHER_MODE_" + mode)
        key, iv = keyiv(name, mode, kl, 3)
        model = Model(name, mode, key, iv)
        for enc, p in combos(mode):
            if p == "on":
                continue
            for n in range(3 * bs + 1):
                m = inputs(model, enc, p, n)
                for cuts in ((n,), (n // 2, n - n // 2), (n // 3, n - n // 3)):
                    ctx.case("cipher", name, mode, enc, p, cuts)
                    ctx.state(mode, enc, p, cuts)
                    session(ctx, st, model, mid, t, enc, p, key, iv, m, cuts)
                if p is False:
                    continue
                # one-call interface
                ok, want = model.run(enc, p, m)
                o = Out(n + 2 * bs)
                f = L.cipher_static_encrypt if enc else L.cipher_static_decrypt
                r = f(o, _pn, t, mid, key, len(key), iv, len(iv), m, n)
                ctx.eq(bool(r), ok, "static success")
                ctx.check(o.intact(), "static output size")
                if ok:
                    ctx.eq(o.get(_n.value), want, "static output")
                else:
                    ctx.eq(_n.value, 0, "static length after failure")
        for mode in ("GCM", "CCM", "EAX"):
            ctx.case("static aead", name, mode)
            ctx.eq(L.cipher_static_encrypt(Out(64), _pn, t,
                                           getattr(L, "CIPHER_MODE_" + mode),
                                           key, kl, DATA, 12, DATA, 16), 0,
                   "one-call interface must refuse authenticated modes")


def carries(ctx, name):
    """Counters about to carry and tweaks with every bit set."""
    L = ctx.lib
    t = getattr(L, "CIPHER_" + name)
    bs, kls = ciphers.BLOCK[name]
    kl = 16 if len(kls) > 1 else kls[0]
    st = ctxbuf()
    key = keyiv(name, "CTR", kl)[0]
    full = 1 << (8 * bs)
    ivs = set()
    for i in range(8 * bs + 1):
        for d in (1, 2, 3):
            ivs.add(((1 << i) - d) % full)
            ivs.add((full - (1 << i) + (1 << i) - d) % full)
            ivs.add((full - (1 << (i % (8 * bs))) - d) % full)
    for iv in sorted(ivs):
        iv = iv.to_bytes(bs, "big")
        model = Model(name, "CTR", key, iv)
        for n in (4 * bs, 4 * bs + 1):
            for cuts in ((n,), (bs - 1, n - bs + 1), (2 * bs + 3, n - 2 * bs - 3)):
                ctx.case("carry", name, iv.hex(), cuts)
                ctx.state(iv, cuts)
                session(ctx, st, model, L.CIPHER_MODE_CTR, t, 1, None, key, iv,
                        DATA[:n], cuts)
    key = keyiv(name, "XTS", kl)[0]
    ref2 = ciphers.make(name, key[kl:])
    for i in range(8 * bs):
        for v in ((1 << i), full - 1 - (1 << i), (3 << i) % full,
                  (1 << i) | (1 << (8 * bs - 1))):
            iv = ref2.run(0, v.to_bytes(bs, "little"))
            model = Model(name, "XTS", key, iv)
            for enc in (1, 0):
                for n in (3 * bs, 3 * bs + 1, 4 * bs - 1):
                    ctx.case("tweak", name, iv.hex(), enc, n)
                    ctx.state(iv, enc, n)
                    session(ctx, st, model, L.CIPHER_MODE_XTS, t, enc, None,
                            key, iv, DATA[:n], (n,))


def padding(ctx, name):
    """All final blocks up to one wrong padding byte."""
    L = ctx.lib
    t = getattr(L, "CIPHER_" + name)
    bs, kls = ciphers.BLOCK[name]
    st = ctxbuf()
    blocks = []
    for last in range(256):
        b = bytearray(DATA[40:40 + bs])
        b[-1] = last
        blocks.append(bytes(b))
        blocks.append(bytes([last]) * bs)
        if 1 <= last <= bs:
            good = bytearray(DATA[40:40 + bs])
            good[bs - last:] = bytes([last]) * last
            blocks.append(bytes(good))
            for p in range(bs):
                for v in (0, 1, last - 1, last + 1, last ^ 0x80, 255):
                    b = bytearray(good)
                    b[p] = v & 255
                    blocks.append(bytes(b))
    for mode in ("ECB", "CBC"):
        key, iv = keyiv(name, mode, kls[0], 5)
        model = Model(name, mode, key, iv)
        mid = getattr(L, "CIPHER_MODE_" + mode)
        for b in blocks:
            for head in (0, 1):
                pt = DATA[:head * bs] + b
                m = model.run(1, False, pt)[1]
                ctx.case("padding", name, mode, head, b.hex())
                ctx.state(mode, head, b)
                session(ctx, st, model, mid, t, 0, None, key, iv, m, (len(m),))
                # and it must never succeed with a partial block after it
                session(ctx, st, model, mid, t, 0, None, key, iv, m + b"x",
                        (len(m), 1))
    for b in blocks:
        want = modes.unpad(b, bs)
        o = Out(bs)
        ctx.case("unpad", b.hex())
        r = L.pkcs7_unpad(o, _pn, b, bs)
        ctx.eq(bool(r), want is not None, "padding verdict")
        if want is not None:
            ctx.eq(o.get(_n.value), want, "unpadded block")
    for n in range(bs):
        o = Out(bs)
        ctx.case("pad", n)
        L.pkcs7_pad(o, DATA[:n], n, bs)
        ctx.eq(o.get(), modes.pad(DATA[:n], bs), "padded block")
        ctx.check(o.intact(), "padded size")


def refusals(ctx):
    L = ctx.lib
    st = ctxbuf()
    for name in ciphers.BLOCK:
        bs, kls = ciphers.BLOCK[name]
        t = getattr(L, "CIPHER_" + name)
        kl = 16 if len(kls) > 1 else kls[0]
        for mode in MODES:
            mid = getattr(L, "CIPHER_MODE_" + mode)
            key, iv = keyiv(name, mode, kl)
            for n in range(0, 2 * bs + 2):
                ctx.case("iv length", name, mode, n)
                ctx.state(name, mode, n)
                r = L.cipher_stream_init(st, t, mid, 1, key, len(key), DATA, n)
                ctx.eq(r, int(n == len(iv)), "nonce length admission")
            for n in range(0, 2 * kl + 3):
                k = (key + DATA)[:n]
                h = n // 2 if mode == "XTS" else n
                good = h in kls and not (mode == "XTS" and n & 1)
                ctx.case("key length", name, mode, n)
                ctx.state(name, mode, "k", n)
                r = L.cipher_stream_init(st, t, mid, 0, k, n, iv, len(iv))
                ctx.eq(r, int(good), "key length admission")
            if mode in ("RAW", "CTR", "CFB", "OFB"):
                L.cipher_stream_init(st, t, mid, 1, key, len(key), iv, len(iv))
                ctx.case("set_padding", name, mode)
                ctx.eq(L.cipher_stream_set_padding(st, 1), 0, "no padding here")
            for f, a in ((L.cipher_stream_set_aad, (DATA, 3)),
                         (L.cipher_stream_set_tag, (DATA, 16)),
                         (L.cipher_stream_set_ccm, (3, 8, DATA, 3))):
                L.cipher_stream_init(st, t, mid, 0, key, len(key), iv, len(iv))
                ctx.case("aead call", name, mode)
                ctx.eq(f(st, *a), 0, "authenticated-mode call accepted")
        key, iv = keyiv(name, "XTS", kl)
        ctx.case("xts equal halves", name)
        ctx.eq(L.cipher_stream_init(st, t, L.CIPHER_MODE_XTS, 1,
                                    key[:kl] * 2, 2 * kl, iv, bs), 0,
               "equal XTS keys accepted")
        for i in range(kl):
            k = bytearray(key[:kl] * 2)
            k[kl + i] ^= 0x10
            ctx.case("xts halves differ", name, i)
            ctx.eq(L.cipher_stream_init(st, t, L.CIPHER_MODE_XTS, 1, bytes(k),
                                        2 * kl, iv, bs), 1,
                   "different XTS keys refused")


def crypt(ctx, name):
    """The unbuffered call: any split, in place or not."""
    L = ctx.lib
    t = getattr(L, "CIPHER_" + name)
    bs, kls = ciphers.BLOCK[name]
    kl = kls[0]
    st = ctxbuf()
    for mode in MODES:
        mid = getattr(L, "CIPHER_MODE_" + mode)
        key, iv = keyiv(name, mode, kl, 9)
        model = Model(name, mode, key, iv)
        stream = mode in ("CTR", "CFB", "OFB")
        for enc in (1, 0):
            for n in range(0, 3 * bs + 2):
                for k in range(0, n + 1):
                    if not stream and (n % bs or k % bs):
                        continue
                    if stream and ctx.quick and k % 3 and n % 5:
                        continue
                    for inpl in (0, 1):
                        ctx.case("crypt", name, mode, enc, n, k, inpl)
                        ctx.state(mode, enc, n, k, inpl)
                        L.cipher_stream_init(st, t, mid, enc, key, len(key),
                                             iv, len(iv))
                        pad_ = False
                        if mode not in ("RAW", "CTR", "CFB", "OFB"):
                            L.cipher_stream_set_padding(st, 0)
                        m = DATA[3:3 + n]
                        want = model.run(enc, pad_, m)[1]
                        got = b""
                        for part in (m[:k], m[k:]):
                            o = Out(len(part))
                            if inpl:
                                o.set(part)
                                r = L.cipher_stream_crypt(st, o, o, len(part))
                            else:
                                r = L.cipher_stream_crypt(st, o, part,
                                                          len(part))
                            ctx.eq(r, 1, "crypt refused")
                            ctx.check(o.intact(), "crypt size")
                            got += o.get()
                        ctx.eq(got, want, "crypt output")
            if not stream:
                for n in range(1, 2 * bs):
                    if n % bs == 0:
                        continue
                    L.cipher_stream_init(st, t, mid, enc, key, len(key), iv,
                                         len(iv))
                    if mode != "RAW":
                        L.cipher_stream_set_padding(st, 0)
                    ctx.case("crypt partial", name, mode, enc, n)
                    ctx.eq(L.cipher_stream_crypt(st, Out(64), DATA, n), 0,
                           "partial block accepted")


def late(ctx, name):
    """Calls which come too late in a session: refused without effect."""
    L = ctx.lib
    t = getattr(L, "CIPHER_" + name)
    bs, kls = ciphers.BLOCK[name]
    kl = kls[0]
    st = ctxbuf()
    for mode in ("ECB", "CBC", "CTS", "XTS"):
        mid = getattr(L, "CIPHER_MODE_" + mode)
        key, iv = keyiv(name, mode, kl, 13)
        model = Model(name, mode, key, iv)
        for enc in (1, 0):
            for pad0 in (True, False):
                m = DATA[5:5 + 3 * bs]
                if not enc:
                    m = model.run(1, pad0, m)[1]
                for n in range(1, 2 * bs + 1):
                    held = n % bs != 0 or pad0 and not (
                        enc and mode in ("ECB", "CBC"))
                    for p in (0, 1, None):
                        ctx.case("late", name, mode, enc, pad0, n, p)
                        ctx.state(mode, enc, pad0, n, p)
                        L.cipher_stream_init(st, t, mid, enc, key, len(key),
                                             iv, len(iv))
                        if not pad0:
                            L.cipher_stream_set_padding(st, 0)
                        o = Out(4 * bs)
                        L.cipher_stream_update(st, o, _pn, m, n)
                        got = o.get(_n.value)
                        pad = pad0
                        if p is None:
                            if not held:
                                continue
                            ctx.eq(L.cipher_stream_crypt(st, Out(bs), m, bs),
                                   0, "unbuffered call amid a block")
                        elif enc and mode in ("ECB", "CBC"):
                            pad = bool(p)
                            ctx.eq(L.cipher_stream_set_padding(st, p), 1,
                                   "padding chosen before the end")
                        elif held:
                            ctx.eq(L.cipher_stream_set_padding(st, p), 0,
                                   "padding changed amid the data")
                        else:
                            continue
                        ok, want = model.run(enc, pad, m)
                        L.cipher_stream_update(st, o, _pn, m[n:], len(m) - n)
                        got += o.get(_n.value)
                        r = L.cipher_stream_final(st, o, _pn)
                        got += o.get(_n.value)
                        ctx.eq((bool(r), got), (ok, want), "result")
                        ctx.eq((L.cipher_stream_get_tag(st, o, _pn), _n.value),
                               (0, 0), "tag of a mode which has none")
    for n in range(0, 2 * max(kls) + 2):
        if n in kls:
            continue
        for f in (L.cipher_static_encrypt, L.cipher_static_decrypt):
            ctx.case("static key length", name, n)
            _n.value = 77
            o = Out(4 * bs)
            ctx.eq((f(o, _pn, t, L.CIPHER_MODE_CBC, DATA, n, DATA, bs, DATA,
                      bs), _n.value), (0, 0), "key length admitted")


def lowlevel(ctx, name):
    """The mode functions below the session: splits on blocks, in place."""
    L = ctx.lib
    t = getattr(L, "CIPHER_" + name)
    bs, kls = ciphers.BLOCK[name]
    kl = kls[0]
    for mode in ("CBC", "XTS", "CTR", "CFB", "OFB"):
        key, iv = keyiv(name, mode, kl, 21)
        model = Model(name, mode, key, iv)
        c = ctxbuf()
        L.cipher_init(c, t, key[:kl], kl)
        lo = mode.lower()
        for enc in (1, 0):
            if lo in ("ctr", "ofb"):
                f = getattr(L, lo + "_crypt")
            else:
                f = getattr(L, lo + ("_encrypt" if enc else "_decrypt"))
            unit = bs if lo in ("cbc", "xts") else 1
            for n in range(0, 4 * bs + 1, unit):
                for k in range(0, n + 1, unit):
                    for inpl in (0, 1):
                        if unit == 1 and ctx.quick and (n + k) % 3:
                            continue
                        ctx.case("lowlevel", name, mode, enc, n, k, inpl)
                        ctx.state(mode, enc, n, k, inpl)
                        st = ctxbuf(1024)
                        getattr(L, lo + "_init")(st, c, iv)
                        if lo == "xts":
                            ctx.eq(L.xts_setup(st, c, key[kl:], kl), 1,
                                   "xts setup")
                        m = DATA[3:3 + n]
                        want = model.run(enc, False, m)[1]
                        got = b""
                        for part in (m[:k], m[k:]):
                            o = Out(len(part))
                            if inpl:
                                o.set(part)
                                f(st, c, o, o, len(part))
                            else:
                                f(st, c, o, part, len(part))
                            ctx.check(o.intact(), "size")
                            got += o.get()
                        ctx.eq(got, want, "mode output")
    # ECB stealing
    key, _ = keyiv(name, "ECB", kl)
    ref = ciphers.make(name, key)
    c = ctxbuf()
    L.cipher_init(c, t, key, kl)
    for part in range(bs):
        m = DATA[9:9 + bs + part]
        ctx.case("ecb steal", name, part)
        ctx.state("steal", part)
        last, blk = Out(bs), Out(bs)
        last.set(ref.run(1, m[:bs]))
        blk.set(m[bs:])
        first = ref.run(1, m[:bs])
        L.ecb_steal(c, last, blk, part)
        wl = ref.run(1, m[bs:] + first[part:])
        ctx.eq(last.get() + blk.get(part), wl + first[:part], "ecb steal")
        last.set(ref.run(0, last.get()))
        L.ecb_unsteal(c, last, blk, part)
        ctx.eq(last.get() + blk.get(part), m, "ecb unsteal")
    # the other two ways of stealing
    for mode, lo in (("CTS", "cbc"), ("XTS", "xts")):
        key, iv = keyiv(name, mode, kl, 22)
        model = Model(name, mode, key, iv)
        c = ctxbuf()
        L.cipher_init(c, t, key[:kl], kl)
        for nb in (1, 2, 3):
            for part in range(1, bs):
                for enc in (1, 0):
                    ctx.case("steal", name, mode, nb, part, enc)
                    ctx.state(mode, nb, part, enc)
                    st = ctxbuf(1024)
                    getattr(L, lo + "_init")(st, c, iv)
                    if lo == "xts":
                        L.xts_setup(st, c, key[kl:], kl)
                    m = DATA[5:5 + nb * bs + part]
                    o, last, blk = Out(nb * bs), Out(bs), Out(part)
                    getattr(L, lo + ("_encrypt" if enc else "_decrypt"))(
                        st, c, o, m, nb * bs)
                    last.set(o.get()[-bs:])
                    blk.set(m[nb * bs:])
                    getattr(L, lo + ("_steal" if enc else "_unsteal"))(
                        st, c, last, blk, part)
                    ctx.check(last.intact() and blk.intact(), "size")
                    ctx.eq(o.get()[:-bs] + last.get() + blk.get(),
                           model.run(enc, True, m)[1], "stolen blocks")


def tasks(tier):
    ts = [Task("refusals", refusals)]
    top = 4 if tier == "quick" else 6
    for mode in MODES:
        ts.append(Task("splits/AES128/" + mode, splits,
                       ("AES128", mode, 16, top, False)))
        ts.append(Task("splits/DES/" + mode, splits,
                       ("DES", mode, 8, top + 1, True)))
        ts.append(Task("sequences/AES256/" + mode, sequences,
                       ("AES256", mode, 32, 4 if tier == "quick" else 5)))
        ts.append(Task("sequences/CAST5/" + mode, sequences,
                       ("CAST5", mode, 16, 4 if tier == "quick" else 5)))
    for name in ciphers.BLOCK:
        ts.append(Task("cipher/" + name, every_cipher, (name,)))
    for name in ("AES128", "DES", "CAMELLIA256", "IDEA"):
        ts.append(Task("carries/" + name, carries, (name,)))
        ts.append(Task("padding/" + name, padding, (name,)))
        ts.append(Task("crypt/" + name, crypt, (name,)))
        ts.append(Task("late/" + name, late, (name,)))
        ts.append(Task("lowlevel/" + name, lowlevel, (name,)))
    return ts
