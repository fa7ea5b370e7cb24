"""N01: exact integer arithmetic for every sign, size and aliasing.

Operands are all numbers over small alphabets of boundary words; every
operation is run on every pair, with every aliasing of result and operands on
a smaller set.  Dividends are also built from chosen quotients, divisors and
remainders so that every quotient-digit correction is taken.  The low-level
word-array functions are enumerated for all lengths up to several unroll
widths.  Python integers are the oracle."""

import ctypes as C
import itertools
import math

from mc.core import Task
from mc.mpz import (B, H, M64, Q, SI, UI, W, Limbs, Pool, divround, ediv,
                    number, patterns, sgn, signed, tdiv, upto, values)

BOUNDS = ("all pairs of boundary-word numbers of 0..3 limbs (all signs) for "
          "19 two-operand operations; all words for 40 word-operand "
          "operations; aliasing patterns over 0..2 limbs; constructed "
          "dividends q*d+r over boundary q,d up to 3 limbs; size sweep "
          "1..24 x 1..24 limbs; low-level functions for lengths 0..9 "
          "and all pairs of lengths 0..4; "
          "builds: assembly, 128-bit, portable, 32-bit words")
ASSUMPTIONS = ["Python integer arithmetic"]

VARIANTS = ("n64", "i128", "p32", "l32")

# name, expected(x, y); call is (z, x, y)
BIN = [
    ("mpz_add", lambda x, y: x + y),
    ("mpz_sub", lambda x, y: x - y),
    ("mpz_mul", lambda x, y: x * y),
]
DIV = [
    ("mpz_quo", lambda x, y: tdiv(x, y)[0]),
    ("mpz_rem", lambda x, y: tdiv(x, y)[1]),
    ("mpz_div", lambda x, y: ediv(x, y)[0]),
    ("mpz_mod", lambda x, y: ediv(x, y)[1]),
    ("mpz_divround", divround),
]


def pairs(ctx, chunk, nchunks):
    """Two-operand operations on all pairs."""
    L, P = ctx.lib, Pool(ctx)
    vals = signed(upto(3) + ([] if ctx.quick else values(4)))
    zs = {v: P.new(v) for v in vals}
    z, r = P.new(), P.new()
    ctx.states(len(vals[chunk::nchunks]) * len(vals))
    ops = [(getattr(L, nm), nm, f) for nm, f in BIN]
    dops = [(getattr(L, nm), nm, f) for nm, f in DIV]
    for x in vals[chunk::nchunks]:
        px = zs[x]
        for y in vals:
            py = zs[y]
            ctx.case("pair", hex(x), hex(y))
            for f, nm, ex in ops:
                f(z, px, py)
                ctx.eq(P.get(z), ex(x, y), nm)
            ctx.eq(sgn(L.mpz_cmp(px, py)), sgn(x - y), "mpz_cmp")
            ctx.eq(sgn(L.mpz_cmpabs(px, py)), sgn(abs(x) - abs(y)),
                   "mpz_cmpabs")
            ctx.eq(L.mpz_divisible_p(px, py) != 0,
                   x == 0 if y == 0 else x % y == 0, "mpz_divisible_p")
            if y:
                for f, nm, ex in dops:
                    f(z, px, py)
                    ctx.eq(P.get(z), ex(x, y), nm)
                L.mpz_quorem(z, r, px, py)
                ctx.eq((P.get(z), P.get(r)), tdiv(x, y), "mpz_quorem")
                L.mpz_divmod(z, r, px, py)
                ctx.eq((P.get(z), P.get(r)), ediv(x, y), "mpz_divmod")
            ctx.eq((P.get(px), P.get(py)), (x, y), "operands unchanged")


def accumulate(ctx):
    """Multiply-accumulate, mulshift, congruence: three operands."""
    L, P = ctx.lib, Pool(ctx)
    vals = signed([0, 1, 2, H, M64, 1 << W, M64 << W, (1 << 128) - 1,
                   (1 << 127) + 1] + ([] if ctx.quick else values(3)))
    zs = {v: P.new(v) for v in vals}
    z = P.new()
    ctx.states(len(vals) ** 3)
    for a, x, y in itertools.product(vals, repeat=3):
        ctx.case("accumulate", hex(a), hex(x), hex(y))
        P.set(z, a)
        L.mpz_addmul(z, zs[x], zs[y])
        ctx.eq(P.get(z), a + x * y, "mpz_addmul")
        P.set(z, a)
        L.mpz_submul(z, zs[x], zs[y])
        ctx.eq(P.get(z), a - x * y, "mpz_submul")
        d = zs[a]
        ctx.eq(L.mpz_congruent_p(zs[x], zs[y], d) != 0,
               x == y if a == 0 else (x - y) % a == 0, "mpz_congruent_p")
        if 0 <= a <= M64:
            ctx.eq(L.mpz_congruent_ui_p(zs[x], zs[y], a) != 0,
                   x == y if a == 0 else (x - y) % a == 0,
                   "mpz_congruent_ui_p")
    for x, y in itertools.product(vals, repeat=2):
        for b in (0, 1, 2, 63, 64, 65, 127, 128, 129, 200, 257):
            ctx.case("mulshift", hex(x), hex(y), b)
            L.mpz_mulshift(z, zs[x], zs[y], b)
            p = abs(x * y)
            e = (p >> b) + (p >> (b - 1) & 1) if b else p
            ctx.eq(P.get(z), e if x * y >= 0 else -e, "mpz_mulshift")
            ctx.eq(L.mpz_congruent_2exp_p(zs[x], zs[y], b) != 0,
                   (x - y) % (1 << b) == 0, "mpz_congruent_2exp_p")


def words(ctx):
    """Operations with a machine word."""
    L, P = ctx.lib, Pool(ctx)
    vals = signed(upto(4) if ctx.quick else upto(5))
    z = P.new()
    zs = [(v, P.new(v)) for v in vals]
    ui = [("mpz_add_ui", lambda x, w: x + w), ("mpz_sub_ui", lambda x, w: x - w),
          ("mpz_mul_ui", lambda x, w: x * w)]
    si = [("mpz_add_si", lambda x, w: x + w), ("mpz_sub_si", lambda x, w: x - w),
          ("mpz_mul_si", lambda x, w: x * w)]
    acc = [("mpz_addmul", 1), ("mpz_submul", -1)]
    accs = signed([0, 1, M64, 1 << W, (1 << 128) - 1, 1 << 192])
    for x, px in zs:
        for k, lst in (("ui", UI), ("si", SI)):
            for w in lst:
                ctx.case("word", k, hex(x), hex(w))
                ctx.state(k, x, w)
                for nm, ex in (ui if k == "ui" else si):
                    getattr(L, nm)(z, px, w)
                    ctx.eq(P.get(z), ex(x, w), nm)
                    P.set(z, x)
                    getattr(L, nm)(z, z, w)
                    ctx.eq(P.get(z), ex(x, w), nm + " in place")
                g = getattr(L, "mpz_%s_sub" % k)
                g(z, w, px)
                ctx.eq(P.get(z), w - x, "mpz_%s_sub" % k)
                P.set(z, x)
                g(z, w, z)
                ctx.eq(P.get(z), w - x, "mpz_%s_sub in place" % k)
                ctx.eq(sgn(getattr(L, "mpz_cmp_" + k)(px, w)), sgn(x - w),
                       "mpz_cmp_" + k)
                ctx.eq(sgn(getattr(L, "mpz_cmpabs_" + k)(px, w)),
                       sgn(abs(x) - abs(w)), "mpz_cmpabs_" + k)
                for a in accs:
                    for nm, s in acc:
                        P.set(z, a)
                        getattr(L, "%s_%s" % (nm, k))(z, px, w)
                        ctx.eq(P.get(z), a + s * x * w,
                               "%s_%s %x" % (nm, k, a))
                if k == "ui":
                    ctx.eq(L.mpz_divisible_ui_p(px, w) != 0,
                           x == 0 if w == 0 else x % w == 0,
                           "mpz_divisible_ui_p")
                if w == 0:
                    continue
                for alias in (0, 1):
                    def src():
                        return P.set(z, x) if alias else px
                    q, r = tdiv(x, w)
                    got = getattr(L, "mpz_quo_" + k)(z, src(), w)
                    ctx.eq((P.get(z), got),
                           (q, abs(r) if k == "ui" else r), "mpz_quo_" + k)
                    eq, er = ediv(x, w)
                    got = getattr(L, "mpz_div_" + k)(z, src(), w)
                    ctx.eq((P.get(z), got), (eq, er), "mpz_div_" + k)
                    getattr(L, "mpz_divround_" + k)(z, src(), w)
                    ctx.eq(P.get(z), divround(x, w), "mpz_divround_" + k)
                    if r == 0:
                        getattr(L, "mpz_divexact_" + k)(z, src(), w)
                        ctx.eq(P.get(z), q, "mpz_divexact_" + k)
                ctx.eq(getattr(L, "mpz_rem_" + k)(px, w),
                       abs(r) if k == "ui" else r, "mpz_rem_" + k)
                ctx.eq(getattr(L, "mpz_mod_" + k)(px, w), er, "mpz_mod_" + k)


def constructed(ctx, chunk, nchunks):
    """Dividends built from quotient, divisor and remainder."""
    L, P = ctx.lib, Pool(ctx)
    ds = values(1) + values(2) + values(3)
    qs = [0] + values(1, [1, H, M64 - 1, M64]) + values(2, [0, 1, H, M64]) + \
        values(3, [0, 1, M64])
    if not ctx.quick:
        ds += values(4) + values(5)
        qs = [0] + values(1) + values(2) + values(3) + values(4)
    z, r, pn, pd = P.new(), P.new(), P.new(), P.new()
    for i, d in enumerate(ds):
        if i % nchunks != chunk:
            continue
        P.set(pd, d)
        for q in qs:
            for rem in {0, 1 % d, d - 1, d // 2, max(0, d - 2)}:
                n = q * d + rem
                ctx.case("constructed", hex(n), hex(d))
                ctx.states(1)
                P.set(pn, n)
                L.mpz_quorem(z, r, pn, pd)
                ctx.eq((P.get(z), P.get(r)), (q, rem), "mpz_quorem")
                L.mpz_quo(z, pn, pd)
                L.mpz_rem(r, pn, pd)
                ctx.eq((P.get(z), P.get(r)), (q, rem), "mpz_quo, mpz_rem")
                L.mpz_divround(z, pn, pd)
                ctx.eq(P.get(z), divround(n, d), "mpz_divround")
                ctx.eq(L.mpz_divisible_p(pn, pd) != 0, rem == 0,
                       "mpz_divisible_p")
                if rem == 0:
                    L.mpz_divexact(z, pn, pd)
                    ctx.eq(P.get(z), q, "mpz_divexact")
                    P.set(pn, -n)
                    L.mpz_divexact(pn, pn, pd)
                    ctx.eq(P.get(pn), -q, "mpz_divexact in place")


def alias(ctx):
    """Every aliasing of results and operands."""
    L, P = ctx.lib, Pool(ctx)
    vals = signed(upto(1) + [1 << W, (1 << W) + 1, M64 << W,
                             (1 << 128) - 1, (1 << 127) + 3]
                  + ([] if ctx.quick else values(2) + values(3)))
    a, b, c = P.new(), P.new(), P.new()
    two = BIN + DIV + [
        ("mpz_gcd", lambda x, y: math.gcd(x, y)),
        ("mpz_and", lambda x, y: x & y), ("mpz_ior", lambda x, y: x | y),
        ("mpz_xor", lambda x, y: x ^ y),
        ("mpz_lcm", lambda x, y: abs(x * y) // math.gcd(x, y)
         if x and y else 0)]
    acc = [("mpz_addmul", 1), ("mpz_submul", -1)]
    nodiv = {n for n, _ in DIV}
    for x in vals:
        for y in vals:
            ctx.case("alias", hex(x), hex(y))
            ctx.state(x, y)
            for nm, ex in two:
                if nm in nodiv and y == 0:
                    continue
                f = getattr(L, nm)
                e = ex(x, y)
                P.set(a, x)
                P.set(b, y)
                f(a, a, b)
                ctx.eq((P.get(a), P.get(b)), (e, y), nm + " z=x")
                P.set(a, x)
                f(b, a, b)
                ctx.eq((P.get(b), P.get(a)), (e, x), nm + " z=y")
                if x == y:
                    P.set(a, x)
                    f(b, a, a)
                    ctx.eq(P.get(b), e, nm + " x=y")
                    f(a, a, a)
                    ctx.eq(P.get(a), e, nm + " z=x=y")
            for nm, s in acc:
                f = getattr(L, nm)
                P.set(a, x)
                P.set(b, y)
                f(a, a, b)
                ctx.eq(P.get(a), x + s * x * y, nm + " z=x")
                P.set(a, x)
                f(a, b, a)
                ctx.eq(P.get(a), x + s * x * y, nm + " z=y")
                P.set(a, x)
                f(a, a, a)
                ctx.eq(P.get(a), x + s * x * x, nm + " z=x=y")
                P.set(a, x)
                f(a, b, b)
                ctx.eq(P.get(a), x + s * y * y, nm + " x=y")
            for b2 in (0, 1, 64, 70):
                p = abs(x * y)
                e = (p >> b2) + (p >> (b2 - 1) & 1) if b2 else p
                e = -e if x * y < 0 else e
                for k in (0, 1):
                    P.set(a, x)
                    P.set(b, y)
                    L.mpz_mulshift(b if k else a, a, b, b2)
                    ctx.eq(P.get(b if k else a), e, "mpz_mulshift alias")
            if y == 0:
                continue
            for nm, fn in (("mpz_quorem", tdiv), ("mpz_divmod", ediv)):
                f = getattr(L, nm)
                q, r = fn(x, y)
                # (quotient, remainder) located at n, d or a third object
                for iq, ir in itertools.permutations((0, 1, 2), 2):
                    o = (a, b, c)
                    P.set(a, x)
                    P.set(b, y)
                    f(o[iq], o[ir], a, b)
                    ctx.eq((P.get(o[iq]), P.get(o[ir])), (q, r),
                           "%s q=%d r=%d" % (nm, iq, ir))
                if x == y:
                    for iq, ir in ((0, 1), (1, 0), (1, 2)):
                        o = (a, b, c)
                        P.set(a, x)
                        f(o[iq], o[ir], a, a)
                        ctx.eq((P.get(o[iq]), P.get(o[ir])), (q, r),
                               "%s n=d q=%d r=%d" % (nm, iq, ir))


def one(ctx):
    """One-operand functions: squares, roots, shifts, powers, sizes."""
    L, P = ctx.lib, Pool(ctx)
    vals = set(upto(4))
    for k in (1, 2, 3, 31, 32, 33, 63, 64, 65, 95, 96, 127, 128, 160, 192):
        for s in ((1 << k) - 1, 1 << k, (1 << k) + 1):
            vals |= {s * s - 1, s * s, s * s + 1, s ** 3 - 1, s ** 3,
                     s ** 3 + 1, s * s + 2 * s, s * s + 2 * s + 1}
    for s in range(0, 300 if ctx.quick else 3000):
        vals |= {s * s, s * s + 1, s, s ** 3}
    vals = sorted(vals)
    z, r = P.new(), P.new()
    for v in vals:
        ctx.state(v)
        s = math.isqrt(v)
        for x in ((v, -v) if v else (0,)):
            ctx.case("one", hex(x))
            px = P.new(x)
            L.mpz_sqr(z, px)
            ctx.eq(P.get(z), x * x, "mpz_sqr")
            P.set(z, x)
            L.mpz_sqr(z, z)
            ctx.eq(P.get(z), x * x, "mpz_sqr in place")
            L.mpz_abs(z, px)
            ctx.eq(P.get(z), v, "mpz_abs")
            L.mpz_neg(z, px)
            ctx.eq(P.get(z), -x, "mpz_neg")
            L.mpz_set(r, px)
            L.mpz_swap(r, z)
            ctx.eq((P.get(r), P.get(z)), (-x, x), "mpz_swap")
            ctx.eq(L.mpz_perfect_square_p(px) != 0, x >= 0 and s * s == x,
                   "mpz_perfect_square_p")
            ctx.eq(L.mpz_bitlen(px), v.bit_length(), "mpz_bitlen")
            ctx.eq(L.mpz_bytelen(px), (v.bit_length() + 7) // 8,
                   "mpz_bytelen")
            ctx.eq(L.mpz_ctz(px), (v & -v).bit_length() - 1 if v else 0,
                   "mpz_ctz")
            ctx.eq((L.mpz_odd_p(px) != 0, L.mpz_even_p(px) != 0),
                   (v & 1 == 1, v & 1 == 0), "parity")
            L.mpz_clear(px)
        px = P.new(v)
        L.mpz_sqrtrem(z, r, px)
        ctx.eq((P.get(z), P.get(r)), (s, v - s * s), "mpz_sqrtrem")
        L.mpz_sqrt(z, px)
        ctx.eq(P.get(z), s, "mpz_sqrt")
        L.mpz_sqrt(px, px)
        ctx.eq(P.get(px), s, "mpz_sqrt in place")
        P.set(px, v)
        L.mpz_sqrtrem(z, px, px)
        ctx.eq((P.get(z), P.get(px)), (s, v - s * s), "mpz_sqrtrem r=x")
        P.set(px, v)
        L.mpz_sqrtrem(px, r, px)
        ctx.eq((P.get(px), P.get(r)), (s, v - s * s), "mpz_sqrtrem z=x")
        L.mpz_clear(px)
        P.keep = P.keep[:2]


SHIFTS = [0, 1, 2, 31, 32, 33, 63, 64, 65, 127, 128, 129, 191, 192, 193, 256,
          300]


def shifts(ctx):
    L, P = ctx.lib, Pool(ctx)
    vals = signed(upto(4) if ctx.quick else upto(5))
    z, px = P.new(), P.new()
    fns = [("mpz_mul_2exp", lambda x, b: x << b),
           ("mpz_quo_2exp", lambda x, b: tdiv(x, 1 << b)[0]),
           ("mpz_rem_2exp", lambda x, b: tdiv(x, 1 << b)[1]),
           ("mpz_div_2exp", lambda x, b: x >> b),
           ("mpz_mod_2exp", lambda x, b: x % (1 << b))]
    for x in vals:
        for b in SHIFTS:
            ctx.case("shift", hex(x), b)
            ctx.state(x, b)
            P.set(px, x)
            for nm, ex in fns:
                getattr(L, nm)(z, px, b)
                e = ex(x, b)
                ctx.eq(P.get(z), e, nm)
                P.set(z, x)
                getattr(L, nm)(z, z, b)
                ctx.eq(P.get(z), e, nm + " in place")
            ctx.eq(L.mpz_divisible_2exp_p(px, b) != 0, x % (1 << b) == 0,
                   "mpz_divisible_2exp_p")
            ctx.eq(P.get(px), x, "operand unchanged")


def powers(ctx):
    L, P = ctx.lib, Pool(ctx)
    z, px = P.new(), P.new()
    for x in signed([0, 1, 2, 3, 10, M64, 1 << W, (1 << W) + 1, H]):
        for e in list(range(0, 40)) + [63, 64, 65, 100, 127, 128, 129]:
            ctx.case("pow", hex(x), e)
            ctx.state(x, e)
            P.set(px, x)
            L.mpz_pow_ui(z, px, e)
            ctx.eq(P.get(z), x ** e, "mpz_pow_ui")
            L.mpz_pow_ui(px, px, e)
            ctx.eq(P.get(px), x ** e, "mpz_pow_ui in place")
            if 0 <= x <= M64:
                L.mpz_ui_pow_ui(z, x, e)
                ctx.eq(P.get(z), x ** e, "mpz_ui_pow_ui")


def sizes(ctx, chunk, nchunks):
    """Product, square, quotient and root over all operand sizes."""
    L, P = ctx.lib, Pool(ctx)
    top = 24 if ctx.quick else 48
    z, r, px, py = P.new(), P.new(), P.new(), P.new()
    for n in range(1, top + 1):
        if n % nchunks != chunk:
            continue
        for x in patterns(n):
            P.set(px, x)
            ctx.case("size", n, hex(x)[:40])
            L.mpz_sqr(z, px)
            ctx.eq(P.get(z), x * x, "mpz_sqr")
            L.mpz_sqrtrem(z, r, px)
            s = math.isqrt(x)
            ctx.eq((P.get(z), P.get(r)), (s, x - s * s), "mpz_sqrtrem")
            for m in range(1, top + 1):
                for y in patterns(m):
                    ctx.case("size", n, m, hex(x), hex(y))
                    ctx.states(1)
                    P.set(py, y)
                    L.mpz_mul(z, px, py)
                    ctx.eq(P.get(z), x * y, "mpz_mul")
                    L.mpz_quorem(z, r, px, py)
                    ctx.eq((P.get(z), P.get(r)), divmod(x, y), "mpz_quorem")
                    L.mpz_add(z, px, py)
                    L.mpz_sub(r, px, py)
                    ctx.eq((P.get(z), P.get(r)), (x + y, x - y), "add, sub")


def low(ctx, n):
    """Word-array functions of length n."""
    L = ctx.lib
    top = 1 << (W * n)
    alpha = [0, 1, M64] if n <= 3 else [0, M64]
    if n <= 2:
        alpha = [0, 1, 2, H, M64 - 1, M64]
    nums = [number(w) for w in itertools.product(alpha, repeat=min(n, 5))]
    if n > 5:           # extend the patterns over the unrolled part
        k = W * (n - 5)
        nums = [v << k | f for v in nums for f in
                ((1 << k) - 1, 0, 1)] + [v | ((1 << k) - 1) << 5 * W
                                         for v in nums]
    ws = [0, 1, 2, Q - 1, Q, H, M64 - 1, M64]
    z, x, y = Limbs(n), Limbs(n), Limbs(n)
    stale = number([0x5c5c5c5c5c5c5c5c & M64] * n)

    def run(nm, fn, *exp, keep=False):
        if not (keep or "in place" in nm):
            z.set(stale)
        rv = fn()
        ctx.check(z.intact(), nm + " wrote outside the result")
        got = (z.get(),) + ((rv,) if len(exp) > 1 else ())
        ctx.eq(got, exp, nm)

    for a in nums:
        x.set(a)
        ctx.states(1)
        ctx.case("low", n, hex(a))
        for w in ws:
            s = a + w
            run("mpn_add_1", lambda: L.mpn_add_1(z, x, n, w), s % top,
                s // top)
            run("mpn_sec_add_1", lambda: L.mpn_sec_add_1(z, x, n, w), s % top,
                s // top)
            d = a - w
            run("mpn_sub_1", lambda: L.mpn_sub_1(z, x, n, w), d % top,
                -(d // top))
            run("mpn_sec_sub_1", lambda: L.mpn_sec_sub_1(z, x, n, w), d % top,
                -(d // top))
            p = a * w
            run("mpn_mul_1", lambda: L.mpn_mul_1(z, x, n, w), p % top,
                p // top)
            for acc in (0, top - 1, top // 3):
                z.set(acc)
                s = acc + p
                run("mpn_addmul_1", lambda: L.mpn_addmul_1(z, x, n, w),
                    s % top, s // top, keep=True)
                z.set(acc)
                d = acc - p
                run("mpn_submul_1", lambda: L.mpn_submul_1(z, x, n, w),
                    d % top, -(d // top), keep=True)
            # in place
            z.set(a)
            run("mpn_mul_1 in place", lambda: L.mpn_mul_1(z, z, n, w),
                p % top, p // top)
            z.set(a)
            run("mpn_add_1 in place", lambda: L.mpn_add_1(z, z, n, w),
                (a + w) % top, (a + w) // top)
            if w:
                run("mpn_divmod_1", lambda: L.mpn_divmod_1(z, x, n, w),
                    a // w, a % w)
                ctx.eq(L.mpn_mod_1(x, n, w), a % w, "mpn_mod_1")
                run("mpn_div_1", lambda: L.mpn_div_1(z, x, n, w), a // w)
                z.set(a)
                run("mpn_divmod_1 in place",
                    lambda: L.mpn_divmod_1(z, z, n, w), a // w, a % w)
                if a % w == 0:
                    run("mpn_divexact_1",
                        lambda: L.mpn_divexact_1(z, x, n, w), a // w)
            z.set(a)
            run("mpn_sub_1 in place", lambda: L.mpn_sub_1(z, z, n, w),
                (a - w) % top, -((a - w) // top))
        if n:
            for b in (1, 2, W // 2 - 1, W // 2, W // 2 + 1, W - 1):
                v = a << b
                run("mpn_lshift", lambda: L.mpn_lshift(z, x, n, b), v % top,
                    v // top)
                z.set(a)
                run("mpn_lshift in place", lambda: L.mpn_lshift(z, z, n, b),
                    v % top, v // top)
                lo = a & ((1 << b) - 1)
                run("mpn_rshift", lambda: L.mpn_rshift(z, x, n, b), a >> b,
                    lo)
                z.set(a)
                run("mpn_rshift in place", lambda: L.mpn_rshift(z, z, n, b),
                    a >> b, lo)
        run("mpn_com", lambda: L.mpn_com(z, x, n), top - 1 - a)
        run("mpn_neg", lambda: L.mpn_neg(z, x, n), -a % top, int(a != 0))
        for cnd in (0, 1):
            run("mpn_cnd_neg", lambda: L.mpn_cnd_neg(z, x, n, cnd),
                -a % top if cnd else a, int(cnd and a != 0))
            run("mpn_cnd_zero", lambda: L.mpn_cnd_zero(z, x, n, cnd),
                0 if cnd else a)
        ctx.eq((L.mpn_zero_p(x, n) != 0, L.mpn_sec_zero_p(x, n) != 0),
               (a == 0, a == 0), "zero tests")
        ctx.eq(x.get(), a, "operand unchanged")
        # the single-bit spike: two operands
    others = nums if len(nums) < 100 else nums[::7] + nums[-1:]
    for a in nums:
        x.set(a)
        for b in others:
            y.set(b)
            ctx.case("low2", n, hex(a), hex(b))
            ctx.states(1)
            s, d = a + b, a - b
            run("mpn_add_n", lambda: L.mpn_add_n(z, x, y, n), s % top,
                s // top)
            run("mpn_sub_n", lambda: L.mpn_sub_n(z, x, y, n), d % top,
                -(d // top))
            for cnd in (0, 1):
                s, d = a + b * cnd, a - b * cnd
                run("mpn_cnd_add_n",
                    lambda: L.mpn_cnd_add_n(z, x, y, n, cnd), s % top,
                    s // top)
                run("mpn_cnd_sub_n",
                    lambda: L.mpn_cnd_sub_n(z, x, y, n, cnd), d % top,
                    -(d // top))
                run("mpn_cnd_select",
                    lambda: L.mpn_cnd_select(z, x, y, n, cnd),
                    b if cnd else a)
            z.set(b)
            L.mpn_cnd_swap(x, z, n, 0)
            ctx.eq((x.get(), z.get()), (a, b), "mpn_cnd_swap 0")
            L.mpn_cnd_swap(x, z, n, 1)
            ctx.eq((x.get(), z.get()), (b, a), "mpn_cnd_swap 1")
            x.set(a)
            ctx.eq((sgn(L.mpn_cmp(x, y, n)), L.mpn_sec_cmp(x, y, n),
                    L.mpn_sec_lt_p(x, y, n), L.mpn_sec_lte_p(x, y, n),
                    L.mpn_sec_gt_p(x, y, n), L.mpn_sec_gte_p(x, y, n),
                    L.mpn_sec_equal_p(x, y, n)),
                   (sgn(a - b), sgn(a - b), int(a < b), int(a <= b),
                    int(a > b), int(a >= b), int(a == b)), "comparisons")


def low_pairs(ctx, chunk, nchunks):
    """Word arrays of different lengths; leading zero words where allowed."""
    L = ctx.lib
    tops = 4 if ctx.quick else 5
    alpha = {1: [0, 1, 2, 3, Q - 1, Q, H - 1, H, M64 - 1, M64],
             2: [0, 1, H, M64 - 1, M64], 3: [0, 1, H, M64], 4: [0, 1, M64],
             5: [0, M64]}
    nums = {0: [0]}
    for n in range(1, tops + 1):
        nums[n] = [number(w) for w in itertools.product(alpha[n], repeat=n)]
    bad = 0x5c5c5c5c5c5c5c5c & M64

    def out(n):
        return Limbs(n, number([bad] * n))

    def same(o, exp, nm):
        ctx.check(o.intact(), nm + " wrote outside the result")
        ctx.eq(o.get(), exp, nm)

    for nx, ny in itertools.product(range(tops + 1), repeat=2):
        if ny > nx:
            continue
        one = 1 << W * nx
        scr = Limbs(2 * nx + 2)
        x, y = Limbs(nx), Limbs(ny)
        for a in nums[nx][chunk::nchunks]:
            x.set(a)
            top_set = nx > 0 and a >> W * (nx - 1) != 0
            ctx.case("low pairs", nx, ny, hex(a))
            if ny == 0:
                L.mpn_sqr(o := out(2 * nx), x, nx, scr)
                same(o, a * a, "mpn_sqr")
                L.mpn_copyi(o := out(nx), x, nx)
                same(o, a, "mpn_copyi")
                L.mpn_copyd(o := out(nx), x, nx)
                same(o, a, "mpn_copyd")
                L.mpn_zero(o, nx)
                same(o, 0, "mpn_zero")
                for w in (0, 1, M64) if nx else ():
                    L.mpn_set_1(o := out(nx), nx, w)
                    same(o, w, "mpn_set_1")
                # overlapping copies, both directions
                for sh in range(1, nx):
                    o = Limbs(nx, a)
                    L.mpn_copyi(o.ptr, o.ptr + B * sh, nx - sh)
                    same(o, a >> W * sh | a >> W * (nx - sh)
                         << W * (nx - sh), "mpn_copyi overlapping")
                    o = Limbs(nx, a)
                    L.mpn_copyd(o.ptr + B * sh, o.ptr, nx - sh)
                    same(o, (a << W * sh | a % (1 << W * sh)) % one,
                         "mpn_copyd overlapping")
                if top_set:
                    s = math.isqrt(a)
                    nz = (nx + 1) // 2
                    r = L.mpn_sqrtrem(o := out(nz), q := out(nx), x, nx)
                    same(o, s, "mpn_sqrtrem root")
                    same(q, a - s * s, "mpn_sqrtrem remainder")
                    ctx.eq(r, ((a - s * s).bit_length() + W - 1) // W,
                           "mpn_sqrtrem size")
                    ctx.eq(L.mpn_sqrtrem(o := out(nz), None, x, nx), r,
                           "mpn_sqrtrem without remainder")
                    same(o, s, "mpn_sqrtrem root only")
                    ctx.eq(L.mpn_perfect_square_p(x, nx) != 0, s * s == a,
                           "mpn_perfect_square_p")
            for b in nums[ny]:
                y.set(b)
                ctx.case("low pairs", nx, ny, hex(a), hex(b))
                ctx.states(1)
                for nm, v in (("mpn_add", a + b), ("mpn_sec_add", a + b),
                              ("mpn_sub", a - b), ("mpn_sec_sub", a - b)):
                    f = getattr(L, nm)
                    c = f(o := out(nx), x, nx, y, ny)
                    same(o, v % one, nm)
                    ctx.eq(c, abs(v // one), nm + " carry")
                    c = f(o := Limbs(nx, a), o, nx, y, ny)
                    same(o, v % one, nm + " in place")
                    ctx.eq(c, abs(v // one), nm + " in place carry")
                L.mpn_mul(o := out(nx + ny), x, nx, y, ny)
                same(o, a * b, "mpn_mul")
                if nx == ny and nx:
                    for hi in (0, 1, 2):
                        v = hi << W * nx | a
                        k = L.mpn_reduce_weak(o := out(nx), x, y, nx, hi, scr)
                        same(o, (v - b) % one if v >= b else a,
                             "mpn_reduce_weak")
                        ctx.eq(k, int(v >= b), "mpn_reduce_weak decides")
                if ny == 0 or b >> W * (ny - 1) == 0:
                    continue
                q, r = divmod(a, b)
                qn = nx - ny + 1
                L.mpn_divmod(o := out(qn), p := out(ny), x, nx, y, ny)
                same(o, q, "mpn_divmod quotient")
                same(p, r, "mpn_divmod remainder")
                L.mpn_div(o := out(qn), x, nx, y, ny)
                same(o, q, "mpn_div")
                L.mpn_mod(p := out(ny), x, nx, y, ny)
                same(p, r, "mpn_mod")
                if r == 0:
                    L.mpn_divexact(o := out(qn), x, nx, y, ny)
                    same(o, q, "mpn_divexact")
                ctx.eq((x.get(), y.get()), (a, b), "operands unchanged")


def low_mul(ctx):
    """Products, Barrett and Montgomery reduction on word arrays."""
    L = ctx.lib
    scratch = Limbs(4096)
    tops = 3 if ctx.quick else 4
    for n in range(1, tops + 1):
        vs = values(n, [0, 1, H, M64] if n < 3 else [0, 1, M64])
        vs += [v >> W for v in vs] if n > 1 else [0]
        vs = sorted(set(vs))
        mods = [m for m in values(n, [1, 3, H, H + 1, M64] if n < 3 else
                                  [0, 1, H, M64]) if m > 2]
        z, z2 = Limbs(n), Limbs(2 * n)
        x, y, m, k, r = Limbs(n), Limbs(n), Limbs(n), Limbs(1), Limbs(n)
        for a in vs:
            x.set(a)
            ctx.case("low_mul", n, hex(a))
            L.mpn_sqr(z2, x, n, scratch)
            ctx.eq(z2.get(), a * a, "mpn_sqr")
            for b in vs:
                y.set(b)
                ctx.case("low_mul", n, hex(a), hex(b))
                L.mpn_mul_n(z2, x, y, n)
                ctx.eq(z2.get(), a * b, "mpn_mul_n")
                for bits in (W * n, W * n + 1, W * n + W - 1, 2 * W * n - 1):
                    p = a * b
                    e = (p >> bits) + (p >> (bits - 1) & 1)
                    c = L.mpn_mulshift(z, x, y, n, bits, scratch)
                    ctx.eq((z.get(), c), (e % (1 << W * n), e >> W * n),
                           "mpn_mulshift %d" % bits)
        for mod in mods:
            m.set(mod)
            mp = Limbs(n + 1)
            barrett = mod != 1 << (W * (n - 1))
            if barrett:
                L.mpn_barrett(mp, m, n, 2 * n, scratch)
                ctx.eq(mp.get(), (1 << 2 * W * n) // mod, "mpn_barrett")
            if mod & 1:
                L.mpn_mont(k, r, m, n, scratch)
                ctx.eq((k.get() * mod + 1) & M64, 0, "mpn_mont constant")
                ctx.eq(r.get(), (1 << 2 * W * n) % mod, "mpn_mont square")
                rinv = pow(1 << W * n, -1, mod)
            red = sorted({v % mod for v in vs} | {mod - 1, mod - 2, mod // 2})
            for a in red:
                x.set(a)
                for b in red:
                    y.set(b)
                    ctx.case("reduce", n, hex(mod), hex(a), hex(b))
                    ctx.states(1)
                    if mod & 1:
                        e = a * b * rinv % mod
                        L.mpn_montmul(z, x, y, m, n, k.get(), scratch)
                        ctx.eq(z.get() % mod, e, "mpn_montmul")
                        L.mpn_sec_montmul(z, x, y, m, n, k.get(), scratch)
                        ctx.eq(z.get() % mod, e, "mpn_sec_montmul")
                    if barrett:
                        z2.set(a * b)
                        L.mpn_reduce(z, z2, mp, m, n, 2 * n, scratch)
                        ctx.eq(z.get(), a * b % mod, "mpn_reduce product")
            if barrett:
                for hi in vs:
                    for lo in vs:
                        v = hi << W * n | lo
                        z2.set(v)
                        ctx.case("reduce wide", n, hex(mod), hex(v))
                        L.mpn_reduce(z, z2, mp, m, n, 2 * n, scratch)
                        ctx.eq(z.get(), v % mod, "mpn_reduce")


def tasks(tier):
    out = []
    for v in VARIANTS:
        nc = 6 if tier == "quick" else 8
        for c in range(nc):
            out.append(Task("pairs-%s-%d" % (v, c), pairs, (c, nc), v))
        for c in range(2):
            out.append(Task("constructed-%s-%d" % (v, c), constructed, (c, 2),
                            v))
            out.append(Task("sizes-%s-%d" % (v, c), sizes, (c, 2), v))
        for nm, fn in (("accumulate", accumulate), ("words", words),
                       ("alias", alias), ("one", one), ("shifts", shifts),
                       ("powers", powers), ("low_mul", low_mul)):
            out.append(Task("%s-%s" % (nm, v), fn, (), v))
        for c in range(2):
            out.append(Task("low_pairs-%s-%d" % (v, c), low_pairs, (c, 2), v))
        for n in range(0, 10):
            out.append(Task("low-%s-%d" % (v, n), low, (n,), v))
    return out
