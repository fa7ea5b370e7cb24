"""N03: conversions and two's-complement bit operations.

All boundary-word numbers of both signs x bases, byte widths and bit
positions; all short strings over an alphabet containing valid digits,
invalid characters and signs.  Python integers are the oracle."""

import ctypes as C
import itertools
import struct

from mc.core import Task
from mc.lib import Out, ctxbuf
from mc.mpz import (B, H, M64, SI, UI, W, Limbs, Pool, number, signed, upto,
                    values)

BOUNDS = ("boundary numbers of 0..4 limbs of both signs x all bases 2..62; "
          "import/export of all lengths 0..40 and widths n..n+17, both "
          "endiannesses; all strings of length <= 4 over 11 characters x 7 "
          "bases; and/or/xor over all pairs of signed boundary numbers; "
          "single-bit operations at all positions 0..270; all compact words "
          "with boundary mantissas; overlapping operands, all ways of "
          "creating, growing, sharing and clearing a number")
ASSUMPTIONS = ["Python integers are two's complement of unbounded width"]

LOW = "0123456789abcdefghijklmnopqrstuvwxyz"
UP = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"


def text(v, base):
    cs = LOW if base <= 36 else UP
    if v == 0:
        return "0"
    s, a = "", abs(v)
    while a:
        a, r = divmod(a, base)
        s = cs[r] + s
    return ("-" if v < 0 else "") + s


def strings(ctx, chunk, n):
    """Every number in every base, there and back."""
    L, P = ctx.lib, Pool(ctx)
    free = C.CDLL(None).free
    free.argtypes = [C.c_void_p]
    z, px = P.new(), P.new()
    for base in range(2, 63):
        vals = set(upto(3 if ctx.quick else 4))
        for k in range(1, 45):
            vals |= {base ** k, base ** k - 1}
        vals |= {int("9" * k) for k in (19, 20, 38, 39, 40)}
        vals |= {(1 << 256) - 1, 1 << 255, (1 << 192) - 1, 1 << 192}
        for i, v in enumerate(sorted(vals)):
            if i % n != chunk:
                continue
            for x in ((v, -v) if v else (0,)):
                ctx.case("string", base, hex(x))
                ctx.states(1)
                P.set(px, x)
                e = text(x, base)
                p = L.mpz_get_str(px, base)
                got = C.string_at(p).decode()
                free(p)
                ctx.eq(got, e, "mpz_get_str")
                size = L.mpz_sizeinbase(px, base)
                ctx.eq(size, len(e.lstrip("-")), "mpz_sizeinbase")
                for s in {e, "+" + e.lstrip("-") if x >= 0 else e,
                          " \t\n" + e, e.upper() if base <= 36 else e,
                          ("-000" if x < 0 else "000") + e.lstrip("-")}:
                    P.set(z, 12345)
                    r = L.mpz_set_str(z, s.encode(), base)
                    ctx.eq((r, P.get(z)), (1, x), "mpz_set_str %r" % s)
            # word-array form
            nl = (v.bit_length() + W - 1) // W
            e = text(v, base)
            a = Limbs(nl, v)
            o = Out(len(e) + 1)
            ctx.eq(L.mpn_get_str(o, a, nl, base), len(e), "mpn_get_str")
            ctx.eq((o.get(), o.intact()), (e.encode() + b"\0", True),
                   "mpn_get_str text")
            ctx.eq(L.mpn_sizeinbase(a, nl, base), len(e), "mpn_sizeinbase")
            b = Limbs(nl + 1)
            ctx.eq((L.mpn_set_str(b, nl + 1, e.encode(), base), b.get()),
                   (1, v), "mpn_set_str")
            if nl > 1:
                c = Limbs(nl - 1)
                ctx.eq(L.mpn_set_str(c, nl - 1, e.encode(), base), 0,
                       "mpn_set_str must refuse what does not fit")
                ctx.check(c.intact(), "mpn_set_str overflow")


SPACE = " \t\n\v\f\r"
PREFIX = {"b": 2, "B": 2, "o": 8, "O": 8, "x": 16, "X": 16}


def parse(s, base):
    """Model of the accepted numerals: optional sign, then digits; white space
    in front of the sign and among the digits does not count."""
    t = s.lstrip(SPACE)
    neg = False
    if t[:1] in ("+", "-"):
        neg = t[0] == "-"
        t = t[1:]
    if base == 0:
        if t[:1] == "0":
            if t[1:2] in PREFIX and len(t) > 1:
                base, t = PREFIX[t[1]], t[2:]
            else:
                base = 8
        else:
            base = 10
    if not 2 <= base <= 62:
        return None
    v = 0
    for ch in t:
        if ch in SPACE:
            continue
        if base <= 36:
            d = LOW.find(ch.lower())
        else:
            d = UP.find(ch)
        if d < 0 or d >= base:
            return None
        v = v * base + d
    return -v if neg else v


def parsing(ctx, base):
    """All short strings."""
    L, P = ctx.lib, Pool(ctx)
    z = P.new()
    alpha = "0179aFzZ-+x_ " if ctx.quick else "01279aAfFgGzZ-+xXbBoO_:/@`{ \t"
    if base == 0 and ctx.quick:
        alpha = "01789aFz-+xXbBoO "
    for n in range(1, 5):
        for t in itertools.product(alpha, repeat=n):
            s = "".join(t)
            d = s.lstrip(SPACE).lstrip("+-")
            if base == 0 and d[:1] == "0" and d[1:2] in PREFIX:
                d = d[2:]
            if not d.strip(SPACE):
                continue                     # empty digit strings
            ctx.case("parse", base, s)
            ctx.states(1)
            e = parse(s, base)
            P.set(z, 77)
            r = L.mpz_set_str(z, s.encode(), base)
            ctx.eq((r, P.get(z)), (0, 0) if e is None else (1, e),
                   "mpz_set_str")
    for ch in range(1, 256):
        s = b"1" + bytes([ch]) + b"1"
        ctx.case("parse byte", base, ch)
        ctx.states(1)
        e = parse(s.decode("latin-1"), base) if ch < 128 else None
        r = L.mpz_set_str(z, s, base)
        ctx.eq((r, P.get(z)), (0, 0) if e is None else (1, e),
               "mpz_set_str")
    P.set(z, 77)
    ctx.eq((L.mpz_set_str(z, None, base), P.get(z)), (0, 0), "no string")
    for b in (1, -1, 63, 64, -10):
        ctx.case("bad base", b)
        ctx.eq(L.mpz_set_str(z, b"1", b), 0, "bad base accepted")


def octets(ctx):
    """Byte import and export."""
    L, P = ctx.lib, Pool(ctx)
    z = P.new()
    fills = [lambda i, n: 0, lambda i, n: 255, lambda i, n: i + 1,
             lambda i, n: 0 if i < n // 2 else 255,
             lambda i, n: 128 if i == 0 else 0,
             lambda i, n: 1 if i == n - 1 else 0]
    for n in range(0, 41):
        for k, f in enumerate(fills):
            raw = bytes(f(i, n) for i in range(n))
            for en, name in ((1, "big"), (-1, "little"), (0, "little")):
                ctx.case("bytes", n, k, name)
                ctx.states(1)
                P.set(z, -(1 << 300))
                L.mpz_import(z, raw, n, en)
                v = int.from_bytes(raw, name)
                ctx.eq(P.get(z), v, "mpz_import")
                w = (v.bit_length() + 7) // 8
                for m in range(w, w + 18):
                    o = Out(m)
                    L.mpz_export(o, z, m, en)
                    ctx.eq((o.get(), o.intact()),
                           (v.to_bytes(m, name), True), "mpz_export")
                # word arrays of every size: truncating import and export
                for zn in range(0, 7):
                    a = Limbs(zn)
                    L.mpn_import(a, zn, raw, n, en)
                    ctx.eq((a.get(), a.intact()),
                           (v % (1 << W * zn), True), "mpn_import")
                    for m in (0, 1, 7, 8, 9, B * zn, B * zn + 3):
                        o = Out(m)
                        L.mpn_export(o, m, a, zn, en)
                        e = (v % (1 << W * zn)) % (1 << 8 * m)
                        ctx.eq((o.get(), o.intact()),
                               (e.to_bytes(m, name), True), "mpn_export")


def words(ctx):
    """Word and compact conversions, size predicates, limb access."""
    L, P = ctx.lib, Pool(ctx)
    z = P.new()
    for w in UI:
        ctx.case("ui", w)
        L.mpz_set_ui(z, w)
        ctx.eq((P.get(z), L.mpz_get_ui(z)), (w, w), "mpz_set_ui")
    for w in SI:
        ctx.case("si", w)
        L.mpz_set_si(z, w)
        ctx.eq((P.get(z), L.mpz_get_si(z)), (w, w), "mpz_set_si")
    for x in signed(upto(4)):
        ctx.case("sizes", hex(x))
        ctx.states(1)
        P.set(z, x)
        a = abs(x)
        ctx.eq(L.mpz_get_ui(z), a & M64, "mpz_get_ui")
        ctx.eq(L.mpz_fits_ui_p(z) != 0, a <= M64, "mpz_fits_ui_p")
        ctx.eq(L.mpz_fits_si_p(z) != 0, -H <= x < H, "mpz_fits_si_p")
        if -H <= x < H:
            ctx.eq(L.mpz_get_si(z), x, "mpz_get_si")
        for i in range(6):
            ctx.eq(L.mpz_getlimbn(z, i), a >> (W * i) & M64,
                   "mpz_getlimbn")
    # compact: every exponent, boundary mantissas
    mant = [0, 1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000,
            0x7fffff, 0x400000, 0x123456]
    for exp in range(256):
        for m in mant:
            for neg in (0, 1):
                c = exp << 24 | neg << 23 | m
                ctx.case("compact", hex(c))
                ctx.states(1)
                v = m >> 8 * (3 - exp) if exp <= 3 else m << 8 * (exp - 3)
                v = -v if neg else v
                L.mpz_set_compact(z, c)
                ctx.eq(P.get(z), v, "mpz_set_compact")
                if v:
                    ctx.eq(L.mpz_get_compact(z), compact(v),
                           "mpz_get_compact")
                else:
                    ctx.eq(L.mpz_get_compact(z), 0, "mpz_get_compact")
    for x in signed(upto(4)) + [s * ((1 << k) + d) for k in range(1, 300)
                                for d in (-1, 0, 1) for s in (1, -1)]:
        ctx.case("compact of", hex(x))
        ctx.states(1)
        P.set(z, x)
        ctx.eq(L.mpz_get_compact(z), compact(x), "mpz_get_compact")


def compact(x):
    if x == 0:
        return 0
    a = abs(x)
    n = (a.bit_length() + 7) // 8
    m = a << 8 * (3 - n) if n <= 3 else a >> 8 * (n - 3)
    if m & 0x800000:
        m >>= 8
        n += 1
    return n << 24 | (0x800000 if x < 0 else 0) | m


def logic(ctx, chunk, n):
    L, P = ctx.lib, Pool(ctx)
    vals = signed(upto(2) + values(3, [0, 1, H, M64] if not ctx.quick
                                   else [0, 1, M64])
                  + [(1 << 192) - (1 << W), 1 << 256])
    zs = [(v, P.new(v)) for v in vals]
    z = P.new()
    inf = (1 << 63) - 1
    for x, px in zs[chunk::n]:
        L.mpz_com(z, px)
        ctx.eq(P.get(z), ~x, "mpz_com")
        P.set(z, x)
        L.mpz_com(z, z)
        ctx.eq(P.get(z), ~x, "mpz_com in place")
        for y, py in zs:
            ctx.case("logic", hex(x), hex(y))
            ctx.states(1)
            for nm, e in (("mpz_and", x & y), ("mpz_ior", x | y),
                          ("mpz_xor", x ^ y)):
                f = getattr(L, nm)
                f(z, px, py)
                ctx.eq(P.get(z), e, nm)
                P.set(z, x)
                f(z, z, py)
                ctx.eq(P.get(z), e, nm + " onto its first operand")
                P.set(z, y)
                f(z, px, z)
                ctx.eq(P.get(z), e, nm + " onto its second operand")
                if x == y:
                    P.set(z, x)
                    f(z, z, z)
                    ctx.eq(P.get(z), e, nm + " of one variable")
            h = L.mpz_hamdist(px, py)
            if (x < 0) == (y < 0):
                ctx.eq(h, bin(x ^ y).count("1"), "mpz_hamdist")
            else:
                ctx.check(h == inf, "mpz_hamdist of opposite signs", inf, h)
            if 0 <= y <= M64:
                ctx.eq(L.mpz_and_ui(px, y), x & y, "mpz_and_ui")
                for nm, e in (("mpz_ior_ui", x | y), ("mpz_xor_ui", x ^ y)):
                    getattr(L, nm)(z, px, y)
                    ctx.eq(P.get(z), e, nm)
                    P.set(z, x)
                    getattr(L, nm)(z, z, y)
                    ctx.eq(P.get(z), e, nm + " in place")
            if -H <= y < H:
                for nm, e in (("mpz_and_si", x & y), ("mpz_ior_si", x | y),
                              ("mpz_xor_si", x ^ y)):
                    getattr(L, nm)(z, px, y)
                    ctx.eq(P.get(z), e, nm)
                    P.set(z, x)
                    getattr(L, nm)(z, z, y)
                    ctx.eq(P.get(z), e, nm + " in place")
        ctx.eq(P.get(px), x, "operand unchanged")


def bits(ctx, chunk, n):
    """Single-bit operations and scans at every position."""
    L, P = ctx.lib, Pool(ctx)
    vals = signed(sorted(set(upto(3)) |
                         {(1 << k) + d for k in (0, 1, 2, 3, 7, 62, 64, 65,
                                                 127, 128, 190, 256)
                          for d in (-1, 0, 1, 2)} | set(range(40))))
    z, px = P.new(), P.new()
    inf = (1 << 63) - 1
    for x in vals[chunk::n]:
        P.set(px, x)
        ctx.case("popcount", hex(x))
        pc = L.mpz_popcount(px)
        ctx.check(pc == (bin(x).count("1") if x >= 0 else inf),
                  "mpz_popcount", None, pc)
        pos = set(range(0, 6)) | set(range(0, 271))
        for k in (62, 63, 64, 65, 66, 126, 127, 128, 129, 190, 191, 192, 193,
                  255, 256, 257):
            pos.add(k)
        for p in sorted(pos):
            ctx.case("bit", hex(x), p)
            ctx.states(1)
            b = x >> p & 1
            ctx.eq(L.mpz_tstbit(px, p), b, "mpz_tstbit")
            for nm, e in (("mpz_setbit", x | 1 << p),
                          ("mpz_clrbit", x & ~(1 << p)),
                          ("mpz_combit", x ^ 1 << p)):
                P.set(z, x)
                getattr(L, nm)(z, p)
                ctx.eq(P.get(z), e, nm)
            s = x >> p
            e1 = inf if s == 0 else p + (s & -s).bit_length() - 1
            s = ~s
            e0 = inf if s == 0 else p + (s & -s).bit_length() - 1
            ctx.eq((L.mpz_scan0(px, p), L.mpz_scan1(px, p)), (e0, e1),
                   "mpz_scan0, mpz_scan1")


def low_bits(ctx):
    """Word-array bit functions."""
    L = ctx.lib
    inf = (1 << 63) - 1
    for n in range(1, 4):
        vs = [number(w) for w in itertools.product(
            [0, 1, H, M64, 0x00ff00ff00ff00ff & M64], repeat=n)]
        x, y, z = Limbs(n), Limbs(n), Limbs(n)
        top = (1 << W * n) - 1
        stale = number([0x5c5c5c5c5c5c5c5c & M64] * n)
        for a in vs:
            x.set(a)
            for p in range(0, W * n, 1 if n < 3 else 5):
                ctx.case("low bit", n, hex(a), p)
                ctx.states(1)
                ctx.eq((L.mpn_tstbit(x, p), L.mpn_getbit(x, n, p)),
                       (a >> p & 1,) * 2, "mpn_tstbit")
                for w in (1, 3, 4, 5, W - 1):
                    ctx.eq(L.mpn_getbits(x, n, p, w),
                           a >> p & ((1 << w) - 1), "mpn_getbits")
                for nm, e in (("mpn_setbit", a | 1 << p),
                              ("mpn_clrbit", a & ~(1 << p)),
                              ("mpn_combit", a ^ 1 << p)):
                    z.set(a)
                    getattr(L, nm)(z, p)
                    ctx.eq((z.get(), z.intact()), (e, True), nm)
                L.mpn_mask(z.set(stale), x, n, p)
                ctx.eq(z.get(), a & ((1 << p) - 1), "mpn_mask")
                L.mpn_mask(z.set(a), z, n, p)
                ctx.eq(z.get(), a & ((1 << p) - 1), "mpn_mask in place")
                s = a >> p
                e1 = inf if s == 0 else p + (s & -s).bit_length() - 1
                s = ~s
                e0 = p + (s & -s).bit_length() - 1
                ctx.eq((L.mpn_scan0(x, n, p), L.mpn_scan1(x, n, p)), (e0, e1),
                       "mpn_scan0, mpn_scan1")
            for p in (W * n, W * n + 1, W * n + 200):
                ctx.case("low bit beyond", n, hex(a), p)
                ctx.eq((L.mpn_getbit(x, n, p), L.mpn_getbits(x, n, p, 4),
                        L.mpn_scan0(x, n, p), L.mpn_scan1(x, n, p)),
                       (0, 0, p, inf), "positions beyond the number")
                L.mpn_mask(z.set(stale), x, n, p)
                ctx.eq(z.get(), a, "mpn_mask beyond")
            ctx.eq(L.mpn_ctz(x, n),
                   (a & -a).bit_length() - 1 if a else W * n, "mpn_ctz")
            ctx.eq((L.mpn_popcount(x, n), L.mpn_bitlen(x, n),
                    L.mpn_bytelen(x, n)),
                   (bin(a).count("1"), a.bit_length(),
                    (a.bit_length() + 7) // 8), "mpn counts")
        for a in vs[::1 if n < 3 else 4]:
            x.set(a)
            for b in vs[::1 if n < 3 else 3]:
                y.set(b)
                ctx.case("low logic", n, hex(a), hex(b))
                ctx.states(1)
                for nm, e in (("and_n", a & b), ("ior_n", a | b),
                              ("xor_n", a ^ b), ("andn_n", a & ~b),
                              ("iorn_n", a | ~b), ("nand_n", ~(a & b)),
                              ("nior_n", ~(a | b)), ("xnor_n", ~(a ^ b))):
                    f = getattr(L, "mpn_" + nm)
                    f(z.set(stale), x, y, n)
                    ctx.eq((z.get(), z.intact()), (e & top, True),
                           "mpn_" + nm)
                    f(z.set(a), z, y, n)
                    ctx.eq(z.get(), e & top, "mpn_%s in place" % nm)
                    f(z.set(b), x, z, n)
                    ctx.eq(z.get(), e & top, "mpn_%s in place" % nm)
                ctx.eq(L.mpn_hamdist(x, y, n), bin(a ^ b).count("1"),
                       "mpn_hamdist")
                t = (C.c_ubyte * (2 * B * n))()
                C.memmove(t, x.ptr, B * n)
                C.memmove(C.addressof(t) + B * n, y.ptr, B * n)
                for i in (0, 1):
                    z.set(0)
                    L.mpn_sec_tabselect(z, t, n, 2, i)
                    ctx.eq(z.get(), b if i else a, "mpn_sec_tabselect")


PUTS = C.CFUNCTYPE(C.c_int, C.c_char_p)


def lifecycle(ctx):
    """Creation from a value, copies, read-only views, resizing, clearing,
    printing."""
    L, P = ctx.lib, Pool(ctx)
    vals = signed(upto(3))
    size = L.MPZ_SIZE
    said = []

    def puts(s):
        said.append(s)
        return 0
    cb = PUTS(puts)

    def raw():
        return C.c_void_p(C.addressof(keep(ctxbuf(size, 16))))
    held = []

    def keep(b):
        C.memset(b, 0xa5, size)
        held.append(b)
        return b
    px, py = P.new(), P.new()
    for x in vals:
        ctx.case("lifecycle", hex(x))
        ctx.states(1)
        del held[:]
        P.set(px, x)
        a = abs(x)
        n = (a.bit_length() + W - 1) // W
        z = raw()
        L.mpz_init_set(z, px)
        ctx.eq(P.get(z), x, "mpz_init_set")
        # a copy is independent of its source
        L.mpz_add_ui(z, z, 1)
        ctx.eq((P.get(z), P.get(px)), (x + 1, x), "copy is independent")
        L.mpz_set(z, px)
        ctx.eq(P.get(z), x, "mpz_set")
        # resizing keeps what fits
        for k in (n + 3, n + 1, max(n, 1)):
            L._mpz_realloc(z, k)
            ctx.eq(P.get(z), x, "_mpz_realloc %d" % k)
        L.mpz_realloc2(z, W * n + 1)
        ctx.eq(P.get(z), x, "mpz_realloc2")
        if n > 1:
            L.mpz_realloc2(z, W * (n - 1))
            ctx.eq(P.get(z), 0, "mpz_realloc2 below the size")
            L.mpz_set(z, px)
        p = L.mpz_limbs_modify(z, n + 2)
        ctx.eq(C.string_at(p, B * n), a.to_bytes(B * n, "little"),
               "mpz_limbs_modify keeps the words")
        ctx.eq(P.get(z), x, "mpz_limbs_modify")
        for base in (2, 10, 16, 36, 62):
            del said[:]
            L.mpz_print(z, base, cb)
            ctx.eq(b"".join(said).rstrip(b"\n"), text(x, base).encode(),
                   "mpz_print")
            if x >= 0:
                del said[:]
                L.mpn_print(Limbs(n, a), n, base, cb)
                ctx.eq(b"".join(said).rstrip(b"\n"), text(x, base).encode(),
                       "mpn_print")
            y = raw()
            ctx.eq((L.mpz_init_set_str(y, text(x, base).encode(), base),
                    P.get(y)), (1, x), "mpz_init_set_str")
            L.mpz_clear(y)
        L.mpz_cleanse(z)
        # read-only views
        v = raw()
        L.mpz_roset(v, px)
        ctx.eq(P.get(v), x, "mpz_roset")
        for pad in range(3):
            w = Limbs(n + pad, a)
            v = raw()
            r = L.mpz_roinit_n(v, w, -(n + pad) if x < 0 else n + pad)
            ctx.eq((P.get(v), r), (x, v.value), "mpz_roinit_n")
            L.mpz_add(py, v, px)
            ctx.eq(P.get(py), 2 * x, "use of a view")
        y, z = raw(), raw()
        L.mpz_init2(z, W * n)
        L.mpz_inits(y, None)
        ctx.eq((P.get(z), P.get(y)), (0, 0), "mpz_init2, mpz_inits")
        L.mpz_set(z, px)
        L.mpz_neg(y, z)
        ctx.eq((P.get(z), P.get(y)), (x, -x), "fresh variables")
        L.mpz_swap(y, z)
        ctx.eq((P.get(z), P.get(y)), (-x, x), "mpz_swap")
        L.mpz_clears(y, z, None)
        y, z = raw(), raw()
        L.mpz_inits(y, z, None)
        L.mpz_set(y, px)
        L.mpz_set(z, px)
        L.mpz_cleanses(y, z, None)
    for w in UI:
        z = raw()
        L.mpz_init_set_ui(z, w)
        ctx.eq(P.get(z), w, "mpz_init_set_ui")
        L.mpz_clear(z)
    for w in SI:
        z = raw()
        L.mpz_init_set_si(z, w)
        ctx.eq(P.get(z), w, "mpz_init_set_si")
        L.mpz_clear(z)
    for w, v in ((0x1d00ffff, 0xffff << 208), (0x01003456, 0),
                 (0x04923456, -0x12345600)):
        z = raw()
        L.mpz_init_set_compact(z, w)
        ctx.eq(P.get(z), v, "mpz_init_set_compact")
        L.mpz_clear(z)
    z = raw()
    ctx.eq((L.mpz_init_set_str(z, b"12x", 10), P.get(z)), (0, 0),
           "mpz_init_set_str of no numeral")
    L.mpz_clear(z)


RNG = C.CFUNCTYPE(None, C.c_void_p, C.c_size_t, C.c_void_p)


def random(ctx):
    """Bounded random numbers: every scripted word; in range, sign kept."""
    L, P = ctx.lib, Pool(ctx)
    z, px = P.new(), P.new()
    for x in [1, 2, 3, 5, 7, 8, 9, M64, 1 << W, (1 << W) + 1,
              (1 << 128) - 1, -5, -(1 << 70), 0]:
        for w in (0, M64, 0xaaaaaaaaaaaaaaaa & M64, H, H - 1):
            cnt = [0]

            def gen(out, n, arg):
                # the scripted word first, then ever smaller ones
                v = w >> min(63, 3 * cnt[0]) if cnt[0] else w
                cnt[0] += 1
                if cnt[0] > 50:
                    v = 0
                b = v.to_bytes(B, "little") * (n // B + 1)
                C.memmove(out, b, n)
            ctx.case("urandomm", hex(x), hex(w))
            ctx.states(1)
            P.set(px, x)
            f = RNG(gen)
            L.mpz_urandomm(z, px, f, None)
            v = P.get(z)
            ctx.check(0 <= v < x or x <= v <= 0 and abs(v) < max(1, -x),
                      "mpz_urandomm out of range", None, v)
            if x >= 0:
                nl = (x.bit_length() + W - 1) // W
                for pad in range(2 if nl else 1):
                    cnt[0] = 0
                    o = Limbs(nl + pad, number([7] * (nl + pad)))
                    L.mpn_randomm(o, Limbs(nl + pad, x), nl + pad, f, None)
                    ctx.check(o.get() < max(x, 1) and o.intact(),
                              "mpn_randomm out of range", None, o.get())
                    o = Limbs(nl + pad)
                    cnt[0] = 0
                    L.mpn_random(o, nl + pad, f, None)
                    ctx.eq((o.get(), o.intact()),
                           (number([w] * (nl + pad)), True), "mpn_random")
            for bits in (1, 5, 63, 64, 65, 127, 128, 130):
                L.mpz_urandomb(z, bits, f, None)
                v = P.get(z)
                ctx.check(0 <= v < 1 << bits, "mpz_urandomb out of range",
                          None, v)


def tasks(tier):
    out = []
    for v in ("n64", "i128", "p32", "l32"):
        for c in range(3):
            out.append(Task("strings-%s-%d" % (v, c), strings, (c, 3), v))
            out.append(Task("bits-%s-%d" % (v, c), bits, (c, 3), v))
            out.append(Task("logic-%s-%d" % (v, c), logic, (c, 3), v))
        for nm, fn in (("octets", octets), ("words", words),
                       ("low_bits", low_bits), ("random", random),
                       ("lifecycle", lifecycle)):
            out.append(Task("%s-%s" % (nm, v), fn, (), v))
    for base in (0, 2, 8, 10, 16, 36, 37, 62):
        out.append(Task("parsing-%d" % base, parsing, (base,), "n64"))
    return out
