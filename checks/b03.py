"""B03: authenticated modes.

Sessions over the product of nonce, associated-data, message and tag lengths,
all splits of short messages, and every single-byte change of tag, nonce,
associated data and ciphertext.  Oracle: GCM, CCM and EAX written from their
definitions over reference block ciphers."""

import ctypes as C

from mc import ciphers, modes
from mc.core import Task
from mc.huge import Zeros, aead, cbcmac
from mc.lib import Out, ctxbuf

BOUNDS = ("GCM/CCM/EAX; nonce lengths 1..40, aad lengths 0..40 and around "
          "2^16-2^8, message lengths 0..70 with all 2-cuts, all tag lengths; "
          "sessions without associated data or message calls; the functions "
          "below the session for lengths 0..33, in 2 parts, also in place; "
          "GCM counters about to wrap; every byte of tag, nonce, aad and "
          "ciphertext changed, every tag bit flipped; lengths beyond 2^32 bits "
          "(GCM) and 2^32 bytes (CCM)")
ASSUMPTIONS = ["block ciphers of OpenSSL/libgcrypt are right",
               "GCM, CCM (RFC 3610) and EAX transcribed from their definitions"]

STALL = 240            # one call with 2^32 bytes takes long

DATA = bytes((i * 167 + i // 256 + 43) & 255 for i in range(70000))
B16 = [n for n, (bs, _) in ciphers.BLOCK.items() if bs == 16]
_n = C.c_size_t()
_pn = C.byref(_n)


class Model:
    def __init__(self, name, mode, kl=None):
        bs, kls = ciphers.BLOCK[name]
        self.bs, self.mode, self.name = bs, mode, name
        kl = kl or (16 if len(kls) > 1 else kls[0])
        self.key = bytes((i * 57 + 13) & 255 for i in range(kl))
        self.ref = ciphers.make(name, self.key)
        if mode == "GCM":
            self.gcm = modes.Gcm(self.ref)

    def run(self, iv, aad, m, tl):
        """(ciphertext, tag)"""
        if self.mode == "GCM":
            c, t = self.gcm.crypt(1, iv, aad, m)
        elif self.mode == "CCM":
            c, t = modes.ccm(self.ref, 1, iv, aad, m, tl)
        else:
            c, t = modes.eax(self.ref, self.bs, 1, iv, aad, m)
        return c, t[:tl]


def start(L, st, md, enc, iv, aad, mlen, tl, aadcuts=None):
    t = getattr(L, "CIPHER_" + md.name)
    mid = getattr(L, "CIPHER_MODE_" + md.mode)
    r = L.cipher_stream_init(st, t, mid, enc, md.key, len(md.key), iv, len(iv))
    if r != 1:
        return 0
    if md.mode == "CCM":
        return L.cipher_stream_set_ccm(st, mlen, tl, aad, len(aad))
    pos = 0
    for c in (len(aad),) if aadcuts is None else aadcuts:
        if L.cipher_stream_set_aad(st, aad[pos:pos + c], c) != 1:
            return 0
        pos += c
    return 1


def feed(ctx, st, data, cuts):
    L = ctx.lib
    got, pos = b"", 0
    for c in cuts:
        ctx.eq(L.cipher_stream_update_size(st, c), c, "announced size")
        o = Out(c)
        L.cipher_stream_update(st, o, _pn, data[pos:pos + c], c)
        ctx.eq(_n.value, c, "output length")
        ctx.check(o.intact(), "output size")
        got += o.get()
        pos += c
    return got


def encrypt(ctx, st, md, iv, aad, m, tl, cuts, aadcuts=None):
    L = ctx.lib
    c, tag = md.run(iv, aad, m, tl)
    if start(L, st, md, 1, iv, aad, len(m), tl, aadcuts) != 1:
        ctx.fail("encryption session refused")
        return c, tag
    o = Out(16)
    ctx.eq(L.cipher_stream_get_tag(st, o, _pn), 0, "tag before the end")
    got = feed(ctx, st, m, cuts)
    ctx.eq(got, c, "ciphertext")
    ctx.eq(L.cipher_stream_final(st, Out(64), _pn), 1, "final")
    ctx.eq(_n.value, 0, "final output length")
    o = Out(16)
    ctx.eq(L.cipher_stream_get_tag(st, o, _pn), 1, "tag not available")
    full = tl if md.mode == "CCM" else md.bs
    ctx.eq(_n.value, full, "tag length")
    ctx.eq(o.get(tl), tag, "tag")
    ctx.check(o.intact(), "tag size")
    return c, tag


def decrypt(ctx, st, md, iv, aad, c, tag, cuts, aadcuts=None, tagat=0,
            mlen=None):
    """(verdict, plaintext); tagat: number of chunks before the tag is set"""
    L = ctx.lib
    if start(L, st, md, 0, iv, aad, len(c) if mlen is None else mlen, len(tag),
             aadcuts) != 1:
        return 0, None
    if tagat == 0 and L.cipher_stream_set_tag(st, tag, len(tag)) != 1:
        return 0, None
    got, pos = b"", 0
    for i, k in enumerate(cuts):
        got += feed(ctx, st, c[pos:pos + k], (k,))
        pos += k
        if tagat == i + 1:
            if L.cipher_stream_set_tag(st, tag, len(tag)) != 1:
                return 0, None
    r = L.cipher_stream_final(st, Out(64), _pn)
    ctx.eq((L.cipher_stream_get_tag(st, Out(16), _pn), _n.value), (0, 0),
           "tag given to the receiver")
    return r, got


def taglens(mode, bs):
    if mode == "GCM":
        return [4, 8, 12, 13, 14, 15, 16]
    if mode == "CCM":
        return [4, 6, 8, 10, 12, 14, 16]
    return list(range(1, bs + 1))


def nonces(mode):
    if mode == "GCM":
        return list(range(1, 41)) + [63, 64, 65, 255, 256, 257]
    if mode == "CCM":
        return list(range(7, 14))
    return list(range(1, 41)) + [255, 256, 1000]


def grid(ctx, name, mode):
    st = ctxbuf()
    md = Model(name, mode)
    bs = md.bs
    L = ctx.lib
    lens = [0, 1, bs - 1, bs, bs + 1, 2 * bs, 2 * bs + 1, 3 * bs + 5]
    for nl in nonces(mode):
        iv = DATA[100:100 + nl]
        for al in lens:
            for ml in lens:
                for tl in (taglens(mode, bs) if al == 1 and ml == bs + 1
                           else [16 if bs == 16 else 8]):
                    ctx.case("grid", name, mode, nl, al, ml, tl)
                    ctx.state(nl, al, ml, tl)
                    aad, m = DATA[300:300 + al], DATA[500:500 + ml]
                    c, tag = encrypt(ctx, st, md, iv, aad, m, tl, (ml,))
                    r, p = decrypt(ctx, st, md, iv, aad, c, tag, (ml,))
                    ctx.eq((r, p), (1, m), "own message refused")
                    # calls that are never made
                    for mc in ({(ml,), ()} if ml == 0 else {(ml,)}):
                        for ac in ({None, ()} if al == 0 and mode != "CCM"
                                   else {None}):
                            if mc and ac is None:
                                continue
                            ctx.case("absent calls", name, mode, nl, al, ml,
                                     mc, ac)
                            encrypt(ctx, st, md, iv, aad, m, tl, mc, ac)
                            r, p = decrypt(ctx, st, md, iv, aad, c, tag, mc,
                                           ac)
                            ctx.eq((r, p), (1, m), "own message refused")
    for nl in range(0, 20):
        ok = {"GCM": True, "CCM": nl >= 7, "EAX": True}[mode]
        ctx.case("nonce length", name, mode, nl)
        r = L.cipher_stream_init(st, getattr(L, "CIPHER_" + name),
                                 getattr(L, "CIPHER_MODE_" + mode), 1, md.key,
                                 len(md.key), DATA, nl)
        if mode == "CCM" or nl > 0:
            ctx.eq(r, int(ok), "nonce length admission")


def splits(ctx, name, mode):
    st = ctxbuf()
    md = Model(name, mode)
    bs = md.bs
    tl = bs
    top = 4 * bs + 6 if bs == 16 else 5 * bs
    for ml in range(top + 1):
        iv = DATA[100:113 if mode != "GCM" else 112]
        al = (ml * 7) % 37
        aad, m = DATA[300:300 + al], DATA[500:500 + ml]
        for k in range(ml + 1):
            if ctx.quick and bs == 16 and ml > 40 and k % 2:
                continue
            cuts = (k, ml - k)
            acuts = None if mode == "CCM" else (k % (al + 1), al - k % (al + 1))
            ctx.case("split", name, mode, ml, cuts, acuts)
            ctx.state(ml, k)
            c, tag = encrypt(ctx, st, md, iv, aad, m, tl, cuts, acuts)
            r, p = decrypt(ctx, st, md, iv, aad, c, tag, cuts, acuts, k % 3)
            ctx.eq((r, p), (1, m), "own message refused")
        ctx.case("bytewise", name, mode, ml)
        encrypt(ctx, st, md, iv, aad, m, tl, (1,) * ml,
                None if mode == "CCM" else (1,) * al)
    # three cuts, short
    ml = 2 * bs + 3
    m = DATA[500:500 + ml]
    for a in range(0, ml + 1):
        for b in range(0, ml + 1 - a):
            ctx.case("split3", name, mode, a, b)
            ctx.state("3", a, b)
            encrypt(ctx, st, md, iv, DATA[:5], m, tl, (a, b, ml - a - b))


def reject(ctx, name, mode):
    st = ctxbuf()
    md = Model(name, mode)
    bs = md.bs
    L = ctx.lib
    for nl, al, ml in ((13, 20, 37), (12 if mode != "CCM" else 7, 0, 16),
                       (12, 3, 0), (8, 17, 1)):
        iv, aad, m = DATA[100:100 + nl], DATA[300:300 + al], DATA[500:500 + ml]
        for tl in taglens(mode, bs):
            c, tag = md.run(iv, aad, m, tl)

            def no(what, *a, **kw):
                r, _ = decrypt(ctx, st, md, *a, **kw)
                ctx.eq(r, 0, what)
            for i in range(8 * tl):
                bad = bytearray(tag)
                bad[i // 8] ^= 1 << (i % 8)
                ctx.case("tag bit", name, mode, nl, al, ml, tl, i)
                ctx.state(nl, al, ml, tl, "tag", i)
                no("changed tag accepted", iv, aad, c, bytes(bad), (ml,))
            for v in (b"\0" * tl, b"\xff" * tl):
                ctx.case("fixed tag", name, mode, nl, al, ml, tl, v)
                no("fixed tag accepted", iv, aad, c, v, (ml,))
            for i in range(nl):
                bad = bytearray(iv)
                bad[i] ^= 1
                ctx.case("nonce", name, mode, nl, al, ml, tl, i)
                ctx.state(nl, al, ml, tl, "iv", i)
                if tl > 2:
                    no("other nonce accepted", bytes(bad), aad, c, tag, (ml,))
            for i in range(al):
                bad = bytearray(aad)
                bad[i] ^= 0x40
                ctx.case("aad", name, mode, nl, al, ml, tl, i)
                ctx.state(nl, al, ml, tl, "aad", i)
                if tl > 2:
                    no("other aad accepted", iv, bytes(bad), c, tag, (ml,))
            for i in range(ml):
                bad = bytearray(c)
                bad[i] ^= 0x04
                ctx.case("ciphertext", name, mode, nl, al, ml, tl, i)
                ctx.state(nl, al, ml, tl, "ct", i)
                if tl > 2:
                    no("other ciphertext accepted", iv, aad, bytes(bad), tag,
                       (ml,))
            if tl > 2:
                ctx.case("lengths", name, mode, nl, al, ml, tl)
                no("extended", iv, aad, c + b"\0", tag, (ml + 1,))
                no("extended aad", iv, aad + b"\0", c, tag, (ml,))
                if ml:
                    no("truncated", iv, aad, c[:-1], tag, (ml - 1,))
                if al:
                    no("truncated aad", iv, aad[:-1], c, tag, (ml,))
                    no("moved", iv, aad[:-1], aad[-1:] + c, tag, (ml + 1,))
                    if mode != "CCM":
                        no("no aad", iv, b"", c, tag, (ml,))
            # no tag given
            ctx.case("no tag", name, mode, nl, al, ml, tl)
            start(L, st, md, 0, iv, aad, ml, tl)
            feed(ctx, st, c, (ml,))
            ctx.eq(L.cipher_stream_final(st, Out(64), _pn), 0,
                   "accepted without a tag")
        # tag lengths
        for tl in list(range(0, 40)) + [255, 256, 1 << 20]:
            ok = tl in taglens(mode, bs)
            ctx.case("tag length", name, mode, tl)
            ctx.state("tl", tl)
            tbuf = DATA[:tl] if tl < 5000 else bytes(tl)
            if mode == "CCM":
                L.cipher_stream_init(st, getattr(L, "CIPHER_" + name),
                                     L.CIPHER_MODE_CCM, 0, md.key, len(md.key),
                                     iv, nl)
                ctx.eq(L.cipher_stream_set_ccm(st, ml, tl, aad, al), int(ok),
                       "tag length admission")
                if ok:
                    for t2 in range(0, 20):
                        ctx.eq(L.cipher_stream_set_tag(st, DATA, t2),
                               int(t2 == tl), "tag length admission")
            else:
                start(L, st, md, 0, iv, aad, ml, tl)
                ctx.eq(L.cipher_stream_set_tag(st, tbuf, tl), int(ok),
                       "tag length admission")
        ctx.case("tag while encrypting", name, mode)
        start(L, st, md, 1, iv, aad, ml, 8)
        ctx.eq(L.cipher_stream_set_tag(st, DATA, 8), 0, "set while encrypting")
    if mode == "CCM":
        ctx.case("ccm without lengths")
        L.cipher_stream_init(st, getattr(L, "CIPHER_" + name),
                             L.CIPHER_MODE_CCM, 0, md.key, len(md.key), DATA, 13)
        ctx.eq(L.cipher_stream_set_tag(st, DATA, 16), 0, "tag before lengths")
        ctx.eq(L.cipher_stream_final(st, Out(64), _pn), 0, "final")


def gcm_wrap(ctx, name):
    """Nonces for which the 32-bit counter wraps: only those bits may carry."""
    st = ctxbuf()
    md = Model(name, "GCM")
    g = md.gcm
    # invert H: H^(2^128 - 2)
    inv, e, b = None, (1 << 128) - 2, g.h
    while e:
        if e & 1:
            inv = b if inv is None else modes.gmul(inv, b)
        b = modes.gmul(b, b)
        e >>= 1
    inv2 = modes.gmul(inv, inv)
    lenblk = modes.gmul(128, g.h)
    for hi in (0, (1 << 96) - 1, 0x1234567890abcdef00112233, (1 << 40) - 1):
        for lo in [0xffffffff - i for i in range(6)] + [0, 1, 0xfffffeff,
                   0xff, 0xfe, 0xffff, 0xfffe, 0xffffff, 0xfffffe, 0x7fffffff]:
            j0 = (hi << 32) | lo
            iv = modes.gmul(j0 ^ lenblk, inv2).to_bytes(16, "big")
            assert g.j0(iv) == j0.to_bytes(16, "big")
            for ml in (0, 16, 33, 80, 100):
                ctx.case("gcm counter", name, hi, lo, ml)
                ctx.state(hi, lo, ml)
                m = DATA[:ml]
                c, tag = encrypt(ctx, st, md, iv, b"x", m, 16, (ml // 3,
                                                                ml - ml // 3))
                ctx.eq(decrypt(ctx, st, md, iv, b"x", c, tag, (ml,)), (1, m),
                       "own message refused")


def long_aad(ctx, name):
    st = ctxbuf()
    for mode in ("CCM", "GCM", "EAX"):
        md = Model(name, mode)
        for al in (0xfeff, 0xff00, 0xff01, 0xffff, 0x10000, 0x10001):
            for ml in (0, 17):
                ctx.case("long aad", name, mode, al, ml)
                ctx.state(mode, al, ml)
                c, tag = encrypt(ctx, st, md, DATA[:13], DATA[:al],
                                 DATA[:ml], 16, (ml,))
        for ml in (255, 256, 257, 4095, 4096, 65535, 65536, 65537):
            for nl in (12, 13) if mode == "CCM" else (12,):
                # a 13-byte nonce leaves two length bytes: the library drops
                # nonce bytes for longer messages, as documented in the source
                if mode == "CCM" and nl == 13 and ml > 65535:
                    continue
                ctx.case("long message", name, mode, nl, ml)
                ctx.state(mode, "m", nl, ml)
                encrypt(ctx, st, md, DATA[:nl], b"a", DATA[:ml], 16,
                        (ml - 7, 7))


def lowlevel(ctx, name, mode):
    """The functions below the session, in two parts, also in place."""
    L = ctx.lib
    md = Model(name, mode)
    bs, lo = md.bs, mode.lower()
    c = ctxbuf()
    ctx.eq(L.cipher_init(c, getattr(L, "CIPHER_" + name), md.key,
                         len(md.key)), 1, "key")
    for nl in (7, 12, 13, 16):
        if mode == "CCM" and nl > 13:
            continue
        iv = DATA[50:50 + nl]
        for al in (0, 1, bs, 2 * bs + 3):
            aad = DATA[300:300 + al]
            for ml in range(0, 2 * bs + 2):
                m = DATA[500:500 + ml]
                ct, tag = md.run(iv, aad, m, bs)
                for k in {0, ml // 3, ml}:
                    for enc in (1, 0):
                        for inpl in (0, 1):
                            ctx.case("lowlevel", name, mode, nl, al, ml, k,
                                     enc, inpl)
                            ctx.state(nl, al, ml, k, enc, inpl)
                            st = ctxbuf(4096)
                            f = getattr(L, lo + "_init")
                            ctx.eq(f(st, c, iv, nl), 1, "init")
                            if mode == "CCM":
                                ctx.eq(L.ccm_setup(st, c, ml, bs, aad, al), 1,
                                       "setup")
                            for part in (aad[:k], aad[k:]):
                                if mode == "GCM":
                                    L.gcm_aad(st, part, len(part))
                                elif mode == "EAX":
                                    L.eax_aad(st, c, part, len(part))
                            f = getattr(L, lo + ("_encrypt" if enc else
                                                 "_decrypt"))
                            src, got = (m if enc else ct), b""
                            for part in (src[:k], src[k:]):
                                o = Out(len(part))
                                if inpl:
                                    o.set(part)
                                    f(st, c, o, o, len(part))
                                else:
                                    f(st, c, o, part, len(part))
                                ctx.check(o.intact(), "size")
                                got += o.get()
                            o = Out(bs)
                            if mode == "GCM":
                                L.gcm_digest(st, o)
                            else:
                                getattr(L, lo + "_digest")(st, c, o)
                            ctx.check(o.intact(), "tag size")
                            ctx.eq(got, ct if enc else m, "mode output")
                            ctx.eq(o.get(), tag, "tag")


def refused_ciphers(ctx):
    L = ctx.lib
    st = ctxbuf()
    for name, (bs, kls) in ciphers.BLOCK.items():
        if bs == 16:
            continue
        kl = 16 if len(kls) > 1 else kls[0]
        for mode in ("GCM", "CCM"):
            ctx.case("64-bit block", name, mode)
            ctx.state(name, mode)
            ctx.eq(L.cipher_stream_init(st, getattr(L, "CIPHER_" + name),
                                        getattr(L, "CIPHER_MODE_" + mode), 1,
                                        DATA, kl, DATA, 12), 0,
                   "64-bit block cipher accepted")


def huge(ctx, mode, an, mn):
    """Lengths beyond 32 bits (in bits for GCM, in bytes for CCM)."""
    L = ctx.lib
    key, iv = bytes(range(16)), bytes(range(50, 62))
    aad, st = Zeros(max(an, 1)), ctxbuf()
    ctx.case("huge", mode, an, mn)
    ctx.state(mode, an, mn)
    mid = getattr(L, "CIPHER_MODE_" + mode)
    ctx.eq(L.cipher_stream_init(st, L.CIPHER_AES128, mid, 1, key, 16, iv, 12),
           1, "session")
    if mode == "CCM":
        r = L.cipher_stream_set_ccm(st, mn, 16, aad.ptr, an)
        ref = ciphers.make("AES128", key)
        head = bytes([64 + 56 + 2]) + iv + mn.to_bytes(3, "big") + \
            b"\xff\xff" + an.to_bytes(8, "big")
        want = modes.xor(cbcmac(b"AES-128-CBC", key, head, an),
                         ref.run(1, bytes([2]) + iv + bytes(3)))
    else:
        r = L.cipher_stream_set_aad(st, aad.ptr, an)
        want = aead(b"AES-128-GCM", key, iv, an, mn)
    ctx.eq(r, 1, "associated data")
    buf = C.create_string_buffer((1 << 22) + 64)
    z = Zeros(1 << 22)
    while mn:
        k = min(mn, 1 << 22)
        L.cipher_stream_update(st, buf, _pn, z.ptr, k)
        mn -= k
        ctx.beat()
    ctx.eq(L.cipher_stream_final(st, Out(64), _pn), 1, "final")
    o = Out(16)
    ctx.eq(L.cipher_stream_get_tag(st, o, _pn), 1, "tag not available")
    ctx.eq(o.get(), want, "tag")


def tasks(tier):
    ts = [Task("refused ciphers", refused_ciphers)]
    for name in ("AES128", "SERPENT128", "DES"):
        for mode in ("GCM", "CCM", "EAX") if name != "DES" else ("EAX",):
            ts.append(Task("lowlevel/%s/%s" % (mode, name), lowlevel,
                           (name, mode)))
    for mode in ("GCM", "CCM", "EAX"):
        for name in B16:
            if name == "TWOFISH192" and tier == "quick":
                continue
            if name in ("AES128", "SERPENT256") or tier != "quick":
                ts.append(Task("splits/%s/%s" % (mode, name), splits,
                               (name, mode)))
                ts.append(Task("reject/%s/%s" % (mode, name), reject,
                               (name, mode)))
            ts.append(Task("grid/%s/%s" % (mode, name), grid, (name, mode)))
    for name in ("DES", "BLOWFISH", "DES_EDE3", "CAST5", "IDEA", "ARC2"):
        ts.append(Task("grid/EAX/" + name, grid, (name, "EAX")))
    for name in ("DES", "CAST5"):
        ts.append(Task("splits/EAX/" + name, splits, (name, "EAX")))
        ts.append(Task("reject/EAX/" + name, reject, (name, "EAX")))
    for name in ("AES128", "CAMELLIA256"):
        ts.append(Task("gcm_wrap/" + name, gcm_wrap, (name,)))
        ts.append(Task("long/" + name, long_aad, (name,)))
    ts.append(Task("huge/GCM/aad", huge, ("GCM", (1 << 29) + 3, 5)))
    ts.append(Task("huge/GCM/message", huge, ("GCM", 3, (1 << 29) + 5)))
    ts.append(Task("huge/CCM", huge, ("CCM", (1 << 32) + 3, 0)))
    ts.append(Task("p32 grid GCM", grid, ("AES256", "GCM"), variant="p32"))
    ts.append(Task("p32 grid EAX", grid, ("AES256", "EAX"), variant="p32"))
    return ts
