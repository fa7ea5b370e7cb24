"""U01: memory helpers over all lengths, alignments and difference patterns."""

import ctypes as C

from mc import modes
from mc.core import Task
from mc.lib import Out

BOUNDS = ("lengths 0..130 (and 255..257, 4095..4097, 65536), alignments 0..8 "
          "of each operand, one difference at every position and bit, all "
          "pairs of equal differences up to length 40, all byte pairs")
ASSUMPTIONS = []

DATA = bytes((i * 167 + i // 256 + 43) & 255 for i in range(70000))


def sign(x):
    return (x > 0) - (x < 0)


class At:
    """A buffer whose data starts at a chosen misalignment."""

    def __init__(self, n, off):
        self.raw = C.create_string_buffer(n + 160)
        base = C.addressof(self.raw)
        self.addr = base + (-base % 64) + 32 + off
        self.n = n
        C.memset(base, 0xA5, n + 160)

    def set(self, b):
        C.memmove(self.addr, b, len(b))
        return self

    def get(self):
        return C.string_at(self.addr, self.n)

    def intact(self):
        g = b"\xa5" * 16
        return (C.string_at(self.addr - 16, 16) == g and
                C.string_at(self.addr + self.n, 16) == g)


LENS = list(range(0, 131)) + [255, 256, 257, 4095, 4096, 4097, 65536]


def compare(ctx, lo, hi):
    L = ctx.lib
    fs = ((L.torsion_memcmp, "memcmp"), (L.torsion_memcmp_var, "memcmp_var"))
    for n in [x for x in LENS if lo <= x < hi]:
        for xo, yo in ((0, 0), (0, 1), (1, 0), (3, 5), (4, 4), (8, 2), (7, 7)):
            x = At(n, xo).set(DATA[:n])
            y = At(n, yo).set(DATA[:n])
            # make the bytes after the end differ: they must not count
            C.memset(y.addr + n, 0x5A, 8)
            ctx.case("equal", n, xo, yo)
            ctx.state(n, xo, yo)
            ctx.eq(L.torsion_memequal(x.addr, y.addr, n), 1, "equal buffers")
            for f, w in fs:
                ctx.eq(f(x.addr, y.addr, n), 0, w + " of equal buffers")
            pos = range(n) if n <= 130 else \
                [0, 1, 7, 8, n // 2, n - 9, n - 8, n - 2, n - 1]
            for p in pos:
                for bit in range(8) if n <= 70 or p < 3 or p > n - 4 else (7,):
                    b = DATA[p] ^ (1 << bit)
                    C.memset(y.addr + p, b, 1)
                    # a later, opposite difference must not win
                    if p + 1 < n:
                        C.memset(y.addr + n - 1, 255 - b, 1)
                    w = y.get()
                    ctx.case("differ", n, xo, yo, p, bit)
                    ctx.states(1)
                    ctx.eq(L.torsion_memequal(x.addr, y.addr, n), 0,
                           "different buffers")
                    want = (DATA[:n] > w) - (DATA[:n] < w)
                    for f, nm in fs:
                        ctx.eq(sign(f(x.addr, y.addr, n)), want, nm + " order")
                        ctx.eq(sign(f(y.addr, x.addr, n)), -want, nm + " order")
                    C.memset(y.addr + n - 1, DATA[n - 1], 1)
                    C.memset(y.addr + p, DATA[p], 1)


def pairs(ctx):
    L = ctx.lib
    for a in range(256):
        for b in range(256):
            for pre in (0, 3):
                x = b"abc"[:pre] + bytes([a])
                y = b"abc"[:pre] + bytes([b])
                ctx.case("bytes", a, b, pre)
                ctx.states(1)
                ctx.eq(sign(L.torsion_memcmp(x, y, pre + 1)), sign(a - b),
                       "memcmp of two bytes")
                ctx.eq(sign(L.torsion_memcmp_var(x, y, pre + 1)), sign(a - b),
                       "memcmp_var of two bytes")
                ctx.eq(L.torsion_memequal(x, y, pre + 1), int(a == b),
                       "memequal of two bytes")


def two(ctx):
    L = ctx.lib
    for n in list(range(2, 41)) + [64, 65]:
        for i in range(n):
            for j in range(i + 1, n):
                for d in (1, 0x80, 0xff):
                    y = bytearray(DATA[:n])
                    y[i] ^= d
                    y[j] ^= d
                    y = bytes(y)
                    ctx.case("two differences", n, i, j, d)
                    ctx.states(1)
                    ctx.eq(L.torsion_memequal(DATA, y, n), 0,
                           "two equal differences")
                    want = (DATA[:n] > y) - (DATA[:n] < y)
                    ctx.eq(sign(L.torsion_memcmp(DATA, y, n)), want, "memcmp")
                    ctx.eq(sign(L.torsion_memcmp_var(DATA, y, n)), want,
                           "memcmp_var")
        # all bytes different, sum and xor of the differences zero
        y = bytes(b ^ 0x55 for b in DATA[:n])
        ctx.case("all differ", n)
        ctx.eq(L.torsion_memequal(DATA, y, n), 0, "all bytes different")


def writes(ctx, lo, hi):
    L = ctx.lib
    for n in [x for x in LENS if lo <= x < hi]:
        offs = [(a, b, c) for a in (0, 1, 4, 7, 8) for b in (0, 3, 4)
                for c in (0, 5, 8)]
        for zo, xo, yo in offs:
            ctx.case("xor", n, zo, xo, yo)
            ctx.state(n, zo, xo, yo)
            X, Y, Z = DATA[:n], DATA[77:77 + n], DATA[999:999 + n]
            x, y, z = At(n, xo).set(X), At(n, yo).set(Y), At(n, zo).set(Z)
            L.torsion_memxor(z.addr, x.addr, n)
            ctx.eq(z.get(), modes.xor(Z, X), "memxor")
            ctx.check(z.intact(), "memxor wrote elsewhere")
            L.torsion_memxor3(z.addr, x.addr, y.addr, n)
            ctx.eq(z.get(), modes.xor(X, Y), "memxor3")
            ctx.check(z.intact(), "memxor3 wrote elsewhere")
            ctx.eq((x.get(), y.get()), (X, Y), "inputs changed")
            # destination is one of the sources
            L.torsion_memxor3(x.addr, x.addr, y.addr, n)
            ctx.eq(x.get(), modes.xor(X, Y), "memxor3 onto its first source")
            x.set(X)
            L.torsion_memxor3(y.addr, x.addr, y.addr, n)
            ctx.eq(y.get(), modes.xor(X, Y), "memxor3 onto its second source")
            L.torsion_memxor(x.addr, x.addr, n)
            ctx.eq(x.get(), bytes(n), "memxor with itself")
            z.set(Z)
            L.torsion_memzero(z.addr, n)
            ctx.eq(z.get(), bytes(n), "memzero")
            ctx.check(z.intact(), "memzero wrote elsewhere")
    for f, a in ((L.torsion_memzero, (None, 0)), (L.torsion_memxor, (None, None, 0)),
                 (L.torsion_memxor3, (None, None, None, 0))):
        ctx.case("empty", len(a))
        f(*a)
    ctx.eq(L.torsion_memequal(None, None, 0), 1, "empty buffers equal")
    ctx.eq(L.torsion_memcmp(None, None, 0), 0, "empty buffers compare")
    ctx.eq(L.torsion_memcmp_var(None, None, 0), 0, "empty buffers compare")


def tasks(tier):
    ts = []
    for v in ("n64", "p32"):
        for lo, hi in ((0, 50), (50, 90), (90, 115), (115, 1 << 20)):
            ts.append(Task("compare/%s/%d" % (v, lo), compare, (lo, hi),
                           variant=v))
        ts.append(Task("writes/" + v, writes, (0, 1 << 20), variant=v))
        ts.append(Task("pairs/" + v, pairs, variant=v))
        ts.append(Task("two/" + v, two, variant=v))
    return ts
