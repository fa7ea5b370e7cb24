"""E02: Bech32 and CashAddr addresses.

All encodings over version/type x hash length x prefix length; for decoding,
every one-character change (all byte values), every two-character change
within the alphabet, truncations, insertions, case changes, and forged data
parts (all padding patterns, versions, lengths) carrying a valid checksum.
Oracle: BIP 173/350 and the CashAddr specification transcribed."""

import ctypes as C
import itertools

from mc import texts
from mc.core import Task
from mc.lib import Out

BOUNDS = ("bech32: 32 versions x hash 0..42 x prefixes 0..85 characters x 2 "
          "constants; all 1- and 2-character substitutions, all data lengths "
          "0..83 x last groups; cash32: types 0..17 x hash 0..66, prefixes "
          "0..85, all version bytes x data lengths, the same near-misses")
ASSUMPTIONS = ["specifications transcribed in mc/texts.py"]

DATA = bytes((i * 167 + i // 256 + 43) & 255 for i in range(4096))
B32, B32M = 1, 0x2bc830a3
LETTERS = b"abcdefghijklmnopqrstuvwxyz"


class Bech:
    def __init__(self, ctx):
        self.L, self.ctx = ctx.lib, ctx
        self.hrp, self.out, self.addr = Out(84), Out(40), Out(91)
        self.raw, self.ver, self.n = Out(83), C.c_uint(), C.c_size_t()

    def serialize(self, hrp, data, const):
        want = texts.bech_ser(hrp, data, const)
        ctx = self.ctx
        r = self.L.bech32_serialize(self.addr.reset(), hrp, bytes(data),
                                    len(data), const)
        ctx.eq(r, int(want is not None), "serialize accepts")
        ctx.check(self.addr.intact(), "serialized past its size")
        if r == 1 and want is not None:
            ctx.eq(self.addr.get(len(want) + 1), want + b"\0", "string")

    def encode(self, hrp, ver, h, const):
        want = texts.bech_enc(hrp, ver, h, const)
        ctx = self.ctx
        r = self.L.bech32_encode(self.addr.reset(), hrp, ver, h, len(h), const)
        ctx.eq(r, int(want is not None), "encode accepts")
        ctx.check(self.addr.intact(), "address past its size")
        if r == 1 and want is not None:
            ctx.eq(self.addr.get(len(want) + 1), want + b"\0", "address")
        return want

    def decode(self, s, const, want=False):
        if want is False:
            want = texts.bech_dec(s, const)
        ctx = self.ctx
        # a too long hash is converted before it is refused
        out = self.out.reset()
        r = self.L.bech32_decode(self.hrp.reset(), C.byref(self.ver), out,
                                 C.byref(self.n), s, const)
        ctx.eq(r, int(want is not None), "decode accepts")
        ctx.check(self.hrp.intact() and out.intact(), "decoded past its size")
        ctx.eq(self.L.bech32_test(s, const), int(want is not None),
               "test accepts")
        if r == 1 and want is not None:
            ctx.eq((C.string_at(self.hrp.ptr), self.ver.value,
                    out.get(min(self.n.value, 40))), want, "decoded values")
            ctx.eq(self.n.value, len(want[2]), "decoded hash length")

    def deserialize(self, s, const):
        want = texts.bech_des(s, const)
        ctx = self.ctx
        r = self.L.bech32_deserialize(self.hrp.reset(), self.raw.reset(),
                                      C.byref(self.n), s, const)
        ctx.eq(r, int(want is not None), "deserialize accepts")
        ctx.check(self.hrp.intact() and self.raw.intact(), "past its size")
        ctx.eq(self.L.bech32_is(s, const), int(want is not None), "is accepts")
        if r == 1 and want is not None:
            ctx.eq((C.string_at(self.hrp.ptr),
                    self.raw.get(min(self.n.value, 83))), want, "values")

    def both(self, s, const):
        self.decode(s, const)
        self.deserialize(s, const)


class Cash:
    def __init__(self, ctx):
        self.L, self.ctx = ctx.lib, ctx
        self.pre, self.out, self.addr = Out(84), Out(64), Out(197)
        self.raw, self.typ, self.n = Out(188), C.c_uint(), C.c_size_t()

    def serialize(self, prefix, data):
        want = texts.cash_ser(prefix, data)
        ctx = self.ctx
        r = self.L.cash32_serialize(self.addr.reset(), prefix, bytes(data),
                                    len(data))
        ctx.eq(r, int(want is not None), "serialize accepts")
        ctx.check(self.addr.intact(), "serialized past its size")
        if r == 1 and want is not None:
            ctx.eq(self.addr.get(len(want) + 1), want + b"\0", "string")

    def encode(self, prefix, typ, h):
        want = texts.cash_enc(prefix, typ, h)
        ctx = self.ctx
        r = self.L.cash32_encode(self.addr.reset(), prefix, typ, h, len(h))
        ctx.eq(r, int(want is not None), "encode accepts")
        ctx.check(self.addr.intact(), "address past its size")
        if r == 1 and want is not None:
            ctx.eq(self.addr.get(len(want) + 1), want + b"\0", "address")
        return want

    def decode(self, s, expect, want=False):
        if want is False:
            want = texts.cash_dec(s, expect)
        ctx = self.ctx
        out = self.out.reset()
        r = self.L.cash32_decode(C.byref(self.typ), out, C.byref(self.n), s,
                                 expect)
        ctx.eq(r, int(want is not None), "decode accepts")
        ctx.check(out.intact(), "decoded past its size")
        ctx.eq(self.L.cash32_test(s, expect), int(want is not None),
               "test accepts")
        if r == 1 and want is not None:
            ctx.eq((self.typ.value, out.get(min(self.n.value, 64))), want,
                   "decoded values")
            ctx.eq(self.n.value, len(want[1]), "decoded hash length")

    def deserialize(self, s, fallback):
        want = texts.cash_des(s, fallback)
        ctx = self.ctx
        r = self.L.cash32_deserialize(self.pre.reset(), self.raw.reset(),
                                      C.byref(self.n), s, fallback)
        ctx.eq(r, int(want is not None), "deserialize accepts")
        ctx.check(self.pre.intact() and self.raw.intact(), "past its size")
        ctx.eq(self.L.cash32_is(s, fallback), int(want is not None),
               "is accepts")
        if r == 1 and want is not None:
            ctx.eq((C.string_at(self.pre.ptr),
                    self.raw.get(min(self.n.value, 188))), want, "values")

    def both(self, s, expect):
        self.decode(s, expect)
        self.deserialize(s, expect)


def bech_grid(ctx):
    b = Bech(ctx)
    for const in (B32, B32M):
        for ver in list(range(0, 34)) + [63, 255, 256, 1 << 31]:
            for n in range(0, 43):
                for hrp in (b"bc", b"tb", b"a", b"x1y"):
                    h = DATA[ver % 64:ver % 64 + n]
                    ctx.case("bech grid", const, ver, n, hrp)
                    ctx.state(const, ver, n, hrp)
                    s = b.encode(hrp, ver, h, const)
                    if s:
                        b.decode(s, const, (hrp, ver, h))
                        b.decode(s.upper(), const, (hrp, ver, h))
                        b.decode(s, const ^ B32 ^ B32M, None)
    for pl in range(0, 86):
        for n in (0, 2, 3, 10, 20, 32, 40):
            for hrp in (LETTERS * 4, b"1" * 90, b"~!" * 50, b"x" * 90):
                hrp = hrp[:pl]
                ctx.case("bech prefix", pl, n, hrp[:2])
                ctx.state(pl, n, hrp)
                s = b.encode(hrp, 1, DATA[:n], B32M)
                if s:
                    b.both(s, B32M)
                    b.both(s.upper(), B32M)
                for dl in range(75 - pl, 90 - pl):
                    if dl >= 0:
                        d = [x & 31 for x in DATA[:dl]]
                        ctx.case("bech raw", pl, dl, hrp[:2])
                        b.serialize(hrp, d, B32)
    for c in range(1, 256):
        for p in range(3):
            hrp = b"abc"[:p] + bytes([c]) + b"abc"[p + 1:]
            ctx.case("bech prefix char", c, p)
            ctx.state("char", c, p)
            s = b.encode(hrp, 1, DATA[:20], B32)
            if s:
                b.both(s, B32)
            b.serialize(hrp, [0, 1, 2], B32)
        ctx.case("bech group", c)
        for p in range(4):
            d = [1, 2, 3, 4]
            d[p] = c
            b.serialize(b"bc", d, B32)


def bech_forged(ctx):
    """Every data length and last group with a valid checksum."""
    b = Bech(ctx)
    for const in (B32, B32M):
        for hrp in (b"a", b"bc"):
            for dl in range(0, 84 - len(hrp)):
                for last in range(32):
                    d = [x & 31 for x in DATA[:dl]]
                    if dl:
                        d[-1] = last
                    elif last:
                        continue
                    s = texts.bech_ser(hrp, d, const)
                    ctx.case("bech forged", const, hrp, dl, last)
                    ctx.state(const, hrp, dl, last)
                    b.both(s, const)
                # last two groups all ones and zeros
                if dl > 1:
                    for x, y in itertools.product((0, 1, 16, 31), repeat=2):
                        d[-2:] = [x, y]
                        ctx.case("bech forged2", const, hrp, dl, x, y)
                        b.both(texts.bech_ser(hrp, d, const), const)
    # wrong checksum constants by every bit
    d = [x & 31 for x in DATA[:33]]
    for i in range(30):
        s = texts.bech_ser(b"bc", d, B32 ^ (1 << i))
        ctx.case("bech constant", i)
        ctx.state("const", i)
        b.both(s, B32)
        b.both(s, B32M)
        b.both(s, B32 ^ (1 << i))


def near(ctx, dec, s, what, sepset):
    """Every one-character change, cut, insertion and case change."""
    for p in range(len(s)):
        for c in range(1, 256):
            t = s[:p] + bytes([c]) + s[p + 1:]
            ctx.case(what, "change", s, p, c)
            ctx.states(1)
            dec(t)
    for p in range(len(s) + 1):
        ctx.case(what, "cut", s, p)
        dec(s[:p])
        dec(s[p:])
        for ins in b"qp1:lQ2 \x7f":
            ctx.case(what, "insert", s, p, ins)
            ctx.states(1)
            dec(s[:p] + bytes([ins]) + s[p:])
        if p < len(s):
            dec(s[:p] + s[p + 1:])
        if p + 1 < len(s):
            dec(s[:p] + s[p + 1:p + 2] + s[p:p + 1] + s[p + 2:])
        dec(s[:p].upper() + s[p:])
        dec(s[:p].lower() + s[p:].upper())
        dec(s.upper()[:p] + s[p:p + 1].lower() + s.upper()[p + 1:])
    for n in range(1, 120):
        ctx.case(what, "tail", s, n)
        dec(s + b"q" * n)
        dec(b"q" * n + s)


def bech_near(ctx, i):
    b = Bech(ctx)
    args = [(b"bc", 0, DATA[:20], B32), (b"a", 1, DATA[:2], B32M),
            (b"x1y", 16, DATA[:32], B32M), (b"~" * 18, 31, DATA[:40], B32),
            (LETTERS * 3 + b"abc", 7, b"", B32)]
    a = args[i]
    if i < 4:
        s = texts.bech_enc(*a)
    else:
        s = texts.bech_ser(a[0], [3, 4], a[3])
    near(ctx, lambda t: b.both(t, a[3]), s, "bech", b"1")


def bech_pairs(ctx, n, lo, hi):
    b = Bech(ctx)
    s = texts.bech_enc(b"bc", 1, DATA[:n], B32M)
    start = s.rindex(b"1") + 1
    idx = [(i, j) for i in range(start, len(s)) for j in range(i + 1, len(s))]
    for i, j in idx[lo * len(idx) // 16:hi * len(idx) // 16]:
        ctx.case("bech pair", n, i, j)
        for x in texts.BECH.encode():
            if x == s[i]:
                continue
            for y in texts.BECH.encode():
                if y == s[j]:
                    continue
                t = bytearray(s)
                t[i], t[j] = x, y
                t = bytes(t)
                r = ctx.lib.bech32_test(t, B32M)
                ctx.step()
                ctx.states(1)
                if r:
                    ctx.case("bech pair", n, i, j, x, y)
                    ctx.fail("two changed characters accepted", 0, r)


def conv(ctx, fn):
    L = ctx.lib
    f = getattr(L, fn)
    n = C.c_size_t()
    for frm, to in ((8, 5), (5, 8), (5, 5), (8, 8), (8, 4), (4, 8), (5, 4),
                    (6, 8), (8, 6), (1, 8), (8, 1)):
        al = sorted({0, 1, (1 << frm) - 1, 1 << (frm - 1), (1 << frm) - 2})
        for ln in range(0, 9):
            for t in (itertools.product(al, repeat=ln) if ln < 5 else
                      [tuple(DATA[i] & ((1 << frm) - 1)
                             for i in range(k, k + ln)) for k in range(100)]):
                for pad in (0, 1):
                    want = texts.group(t, frm, to, pad)
                    ctx.case(fn, frm, to, t, pad)
                    ctx.states(1)
                    o = Out(ln * frm // to + 1)
                    r = f(o, C.byref(n), to, bytes(t), ln, frm, pad)
                    ctx.eq(r, int(want is not None), "regrouping accepts")
                    ctx.check(o.intact(), "regrouped past its size")
                    if r == 1 and want is not None:
                        ctx.eq(n.value, len(want), "regrouped length")
                        ctx.eq(o.get(len(want)), bytes(want), "groups")


def cash_grid(ctx):
    c = Cash(ctx)
    for typ in list(range(0, 18)) + [31, 32, 255, 256]:
        for n in range(0, 67):
            for p in (b"bitcoincash", b"bchtest", b"q"):
                h = DATA[typ % 64:typ % 64 + n]
                ctx.case("cash grid", typ, n, p)
                ctx.state(typ, n, p)
                s = c.encode(p, typ, h)
                if s:
                    body = s.split(b":")[1]
                    c.decode(s, p, (typ, h))
                    c.decode(s.upper(), p, (typ, h))
                    c.decode(body, p, (typ, h))
                    c.decode(body.upper(), p, (typ, h))
                    c.decode(s, p + b"x", None)
                    c.decode(s, p[:-1], None)
                    c.decode(s, b"other", None)
                    c.decode(body, p + b"x", None)
                    c.decode(b":" + body, p, None)
                    c.decode(s, p.upper(), None)
    for pl in range(0, 86):
        for n in (20, 32, 64):
            p = (LETTERS * 4)[:pl]
            ctx.case("cash prefix", pl, n)
            ctx.state(pl, n)
            s = c.encode(p, 1, DATA[:n])
            if s:
                c.both(s, p)
                c.both(s.split(b":")[1], p)
            else:
                good = texts.cash_enc(b"abc", 1, DATA[:n])
                c.both(good.split(b":")[1], p)
                c.both(p + b":" + good.split(b":")[1], p)
                # right checksum for an inadmissible prefix
                d = texts.group(bytes([8]) + DATA[:20], 8, 5, True)
                pm = texts.cash_polymod([x & 31 for x in p] + [0] + d + [0] * 8)
                t = bytes(texts.BECH.encode()[v] for v in d + [
                    (pm >> 5 * (7 - i)) & 31 for i in range(8)])
                c.both(p + b":" + t, p)
                c.both(t, p)
    for ch in range(1, 256):
        for pos in range(3):
            p = b"abc"[:pos] + bytes([ch]) + b"abc"[pos + 1:]
            ctx.case("cash prefix char", ch, pos)
            ctx.state("char", ch, pos)
            c.encode(p, 0, DATA[:20])
            d = texts.group(bytes([0]) + DATA[:20], 8, 5, True)
            pm = texts.cash_polymod([x & 31 for x in p] + [0] + d + [0] * 8)
            t = bytes(texts.BECH.encode()[v] for v in d + [
                (pm >> 5 * (7 - i)) & 31 for i in range(8)])
            c.both(p + b":" + t, p)
            c.both(t, p)
        for pos in range(4):
            d = [1, 2, 3, 4]
            d[pos] = ch
            ctx.case("cash group", ch, pos)
            c.serialize(b"bitcoincash", d)


def cash_forged(ctx):
    c = Cash(ctx)
    p = b"bchtest"
    for v in range(256):
        for n in list(range(0, 5)) + [18, 19, 20, 21, 24, 28, 32, 40, 48, 56,
                                      63, 64, 65, 66, 69]:
            d = texts.group(bytes([v]) + DATA[:n], 8, 5, True)
            if len(d) > 104:
                d = d[:104]
            s = texts.cash_ser(p, d)
            ctx.case("cash version", v, n)
            ctx.state(v, n)
            c.both(s, p)
    for dl in range(0, 105):
        for last in range(32):
            d = [x & 31 for x in DATA[:dl]]
            if dl > 1:
                d[0], d[1] = 0, (d[1] & 3) | 0
                d[-1] = last
            s = texts.cash_ser(p, d)
            ctx.case("cash forged", dl, last)
            ctx.state(dl, last)
            c.both(s, p)
            c.serialize(p, d)
    # right sizes: every padding pattern
    for i, n in enumerate(texts.CASH_SIZES):
        d = texts.group(bytes([i]) + DATA[:n], 8, 5, True)
        for last in range(32):
            d[-1] = last
            ctx.case("cash padding", n, last)
            ctx.state("pad", n, last)
            c.both(texts.cash_ser(p, d), p)
        for g in range(32):
            e = texts.group(bytes([i]) + DATA[:n], 8, 5, True) + [g]
            if len(e) <= 104:
                ctx.case("cash extra group", n, g)
                c.both(texts.cash_ser(p, e), p)
    for dl in range(100, 120):
        ctx.case("cash long", dl)
        c.serialize(p, [0] * dl)


def cash_near(ctx, i):
    c = Cash(ctx)
    p, typ, n = [(b"bitcoincash", 0, 20), (b"q", 15, 64), (b"bchreg", 1, 32)][i]
    s = texts.cash_enc(p, typ, DATA[:n])
    near(ctx, lambda t: c.both(t, p), s, "cash", b":")
    near(ctx, lambda t: c.both(t, p), s.split(b":")[1], "cash bare", b":")


def cash_pairs(ctx, lo, hi):
    p = b"bitcoincash"
    s = texts.cash_enc(p, 0, DATA[:20])
    start = s.index(b":") + 1
    idx = [(i, j) for i in range(start, len(s)) for j in range(i + 1, len(s))]
    for i, j in idx[lo * len(idx) // 16:hi * len(idx) // 16]:
        ctx.case("cash pair", i, j)
        for x in texts.BECH.encode():
            if x == s[i]:
                continue
            for y in texts.BECH.encode():
                if y == s[j]:
                    continue
                t = bytearray(s)
                t[i], t[j] = x, y
                r = ctx.lib.cash32_test(bytes(t), p)
                ctx.step()
                ctx.states(1)
                if r:
                    ctx.case("cash pair", i, j, x, y)
                    ctx.fail("two changed characters accepted", 0, r)


def tasks(tier):
    texts.selftest()
    ts = [Task("bech grid", bech_grid), Task("bech forged", bech_forged),
          Task("cash grid", cash_grid), Task("cash forged", cash_forged),
          Task("bech regroup", conv, ("bech32_convert_bits",)),
          Task("cash regroup", conv, ("cash32_convert_bits",))]
    for i in range(5):
        ts.append(Task("bech near/%d" % i, bech_near, (i,)))
    for i in range(3):
        ts.append(Task("cash near/%d" % i, cash_near, (i,)))
    for i in range(0, 16, 4):
        ts.append(Task("bech pairs/2/%d" % i, bech_pairs, (2, i, i + 4)))
        ts.append(Task("bech pairs/20/%d" % i, bech_pairs, (20, i, i + 4)))
        ts.append(Task("cash pairs/%d" % i, cash_pairs, (i, i + 4)))
    if tier != "quick":
        for i in range(16):
            ts.append(Task("bech pairs/40/%d" % i, bech_pairs, (40, i, i + 1)))
    return ts
