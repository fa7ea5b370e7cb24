"""N02: number theory.

Every argument tuple of a box around zero, and every tuple of boundary-word
multi-limb numbers, is run through the library and compared with definitions
evaluated on Python integers.  Primality is compared for every number of an
interval, for every strong base-2 pseudoprime and Lucas pseudoprime below a
limit, and for constructed large primes and semiprimes."""

import ctypes as C
import itertools
import math

from mc.core import Task
from mc.mpz import H, M64, Q, W, Limbs, Pool, UI, signed, upto, values

BOUNDS = ("gcd/gcdext/lcm/invert/Jacobi/Kronecker/remove over [-48,48]^2 and "
          "all pairs of boundary numbers up to 3 limbs; powm over "
          "[-9,9]x[-4,17]x[-24,24] and boundary multi-limb triples; sqrtm "
          "for all residues of all primes < 600 and multi-limb primes; roots "
          "1..70; primality of all n < 40000 (thorough 400000); next prime "
          "of all n < 3000; factorials, binomials, Fibonacci up to 200; the "
          "word-array forms of gcd, inverse, Jacobi and powm on boundary words")
ASSUMPTIONS = ["Python integer arithmetic",
               "deterministic Miller-Rabin (first 13 prime bases) decides "
               "primality below 3.3e24"]

RNG = C.CFUNCTYPE(None, C.c_void_p, C.c_size_t, C.c_void_p)


def make_rng(seed=1):
    st = [seed]

    def gen(out, n, arg):
        b = bytearray()
        while len(b) < n:
            st[0] = (st[0] * 6364136223846793005 + 1442695040888963407) % (1 << 64)
            b += (st[0] >> 11).to_bytes(8, "little")
        C.memmove(out, bytes(b[:n]), n)
    return RNG(gen)


def jacobi(a, n):
    """Kronecker symbol (a/n) by the definition's recursion."""
    if n == 0:
        return int(abs(a) == 1)
    res = 1
    if n < 0:
        n = -n
        if a < 0:
            res = -res
    t = 0
    while n % 2 == 0:
        n //= 2
        t += 1
    if t:
        if a % 2 == 0:
            return 0
        if t & 1 and a % 8 in (3, 5):
            res = -res
    a %= n
    while a:
        while a % 2 == 0:
            a //= 2
            if n % 8 in (3, 5):
                res = -res
        a, n = n, a
        if a % 4 == 3 and n % 4 == 3:
            res = -res
        a %= n
    return res if n == 1 else 0


BASES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41]


def sprp(n, a):
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    x = pow(a, d, n)
    if x in (1, n - 1):
        return True
    for _ in range(s - 1):
        x = x * x % n
        if x == n - 1:
            return True
    return False


def isprime(n):
    if n < 2:
        return False
    for p in BASES:
        if n % p == 0:
            return n == p
    return all(sprp(n, a) for a in BASES)


def sieve(n):
    s = bytearray([1]) * (n + 1)
    s[0] = s[1] = 0
    for i in range(2, math.isqrt(n) + 1):
        if s[i]:
            s[i * i::i] = bytes(len(range(i * i, n + 1, i)))
    return s


def lucas(n):
    """'Almost extra strong' Lucas test, from the definition."""
    p = 3
    while True:
        j = jacobi(p * p - 4, n)
        if j == -1:
            break
        if j == 0:
            return n == p + 2
        if p == 40 and math.isqrt(n) ** 2 == n:
            return False
        p += 1
    s, r = n + 1, 0
    while s % 2 == 0:
        s //= 2
        r += 1
    v, w = 2, p                      # V_0, V_1
    for b in bin(s)[2:]:
        if b == "1":
            v, w = (v * w - p) % n, (w * w - 2) % n
        else:
            v, w = (v * v - 2) % n, (v * w - p) % n
    if v in (2, n - 2) and (v * p - 2 * w) % n == 0:
        return True
    for _ in range(r - 1):
        if v == 0:
            return True
        if v == 2:
            return False
        v = (v * v - 2) % n
    return False


def two(ctx, P, x, y, px, py, z, g, s, t):
    """All two-argument functions."""
    L = ctx.lib
    gcd = math.gcd(x, y)
    L.mpz_gcd(z, px, py)
    ctx.eq(P.get(z), gcd, "mpz_gcd")
    L.mpz_gcdext(g, s, t, px, py)
    S, T = P.get(s), P.get(t)
    ctx.eq((P.get(g), x * S + y * T), (gcd, gcd), "mpz_gcdext")
    L.mpz_gcdext(None, s, None, px, py)
    ctx.check(y == 0 or (x * P.get(s) - gcd) % y == 0, "mpz_gcdext s only")
    L.mpz_gcdext(None, None, t, px, py)
    ctx.check(x == 0 or (y * P.get(t) - gcd) % x == 0, "mpz_gcdext t only")
    L.mpz_lcm(z, px, py)
    ctx.eq(P.get(z), abs(x * y) // gcd if x and y else 0, "mpz_lcm")
    r = L.mpz_invert(z, px, py)
    ok = gcd == 1 and abs(y) > 1
    ctx.eq((r, P.get(z)), (1, pow(x, -1, abs(y))) if ok else (0, 0),
           "mpz_invert")
    k = jacobi(x, y)
    ctx.eq(L.mpz_kronecker(px, py), k, "mpz_kronecker")
    if y & 1:
        ctx.eq(L.mpz_jacobi(px, py), k, "mpz_jacobi")
        if y > 2:
            ctx.eq(L.mpz_legendre(px, py), k, "mpz_legendre")
    if abs(y) <= H - 1:
        ctx.eq(L.mpz_kronecker_si(px, y), k, "mpz_kronecker_si")
    if abs(x) <= H - 1:
        ctx.eq(L.mpz_si_kronecker(x, py), k, "mpz_si_kronecker")
    if 0 <= y <= M64:
        ctx.eq(L.mpz_kronecker_ui(px, y), k, "mpz_kronecker_ui")
        L.mpz_lcm_ui(z, px, y)
        ctx.eq(P.get(z), abs(x * y) // gcd if x and y else 0, "mpz_lcm_ui")
        r = L.mpz_gcd_ui(z, px, y)
        ctx.eq(P.get(z), gcd, "mpz_gcd_ui value")
        ctx.eq(r, gcd if gcd <= M64 else 0, "mpz_gcd_ui")
    if 0 <= x <= M64:
        ctx.eq(L.mpz_ui_kronecker(x, py), k, "mpz_ui_kronecker")
    if y:
        e, v = 0, x
        if x and abs(y) > 1:
            while v % y == 0:
                v //= y
                e += 1
        ctx.eq((L.mpz_remove(z, px, py), P.get(z)), (e, v), "mpz_remove")
        ctx.eq(L.mpz_remove(None, px, py), e, "mpz_remove count only")
    ctx.eq((P.get(px), P.get(py)), (x, y), "operands unchanged")


def box(ctx, chunk, n):
    P = Pool(ctx)
    B = 48 if ctx.quick else 160
    vals = list(range(-B, B + 1))
    run_pairs(ctx, P, vals, chunk, n)


def limbs(ctx, chunk, n):
    P = Pool(ctx)
    vals = signed(upto(2) + values(3, [0, 1, M64] if ctx.quick else None)
                  + [3 ** 40, 3 ** 81, 2 ** 65 * 3 ** 30, 6 ** 50,
                     (2 ** 61 - 1) * (2 ** 89 - 1), 2 ** 127 - 1])
    run_pairs(ctx, P, vals, chunk, n)


def run_pairs(ctx, P, vals, chunk, n):
    zs = [(v, P.new(v)) for v in vals]
    z, g, s, t = (P.new() for _ in range(4))
    ctx.states(len(zs[chunk::n]) * len(zs))
    for x, px in zs[chunk::n]:
        for y, py in zs:
            ctx.case("two", hex(x), hex(y))
            two(ctx, P, x, y, px, py, z, g, s, t)


def alias(ctx):
    """Results placed over operands."""
    L, P = ctx.lib, Pool(ctx)
    a, b, c, d = (P.new() for _ in range(4))
    vals = [0, 1, -1, 2, 6, -15, 35, M64, -(M64 << W) - 1, 1 << W,
            3 ** 60, (1 << 128) + 1]
    for x, y in itertools.product(vals, repeat=2):
        ctx.case("alias", hex(x), hex(y))
        ctx.state(x, y)
        o = (a, b, c, d)
        g = math.gcd(x, y)
        for ig, i1, i2 in itertools.permutations(range(4), 3):
            P.set(a, x)
            P.set(b, y)
            L.mpz_gcdext(o[ig], o[i1], o[i2], a, b)
            S, T = P.get(o[i1]), P.get(o[i2])
            ctx.eq((P.get(o[ig]), x * S + y * T), (g, g),
                   "mpz_gcdext placed %d %d %d" % (ig, i1, i2))
        ok = g == 1 and abs(y) > 1
        e = (1, pow(x, -1, abs(y))) if ok else (0, 0)
        for i in (0, 1):
            P.set(a, x)
            P.set(b, y)
            r = L.mpz_invert(o[i], a, b)
            ctx.eq((r, P.get(o[i])), e, "mpz_invert placed %d" % i)
        for ex in (0, 1, 5, 1 << 70, (1 << 200) + 1):
            if y == 0:
                continue
            for i in (0, 1, 2):
                P.set(a, x)
                P.set(b, ex)
                P.set(c, y)
                L.mpz_powm(o[i], a, b, c)
                ctx.eq(P.get(o[i]), pow(x, ex, abs(y)),
                       "mpz_powm placed %d" % i)
                if y & 1:
                    P.set(a, x)
                    P.set(b, ex)
                    P.set(c, y)
                    L.mpz_powm_sec(o[i], a, b, c)
                    ctx.eq(P.get(o[i]), pow(x, ex, abs(y)),
                           "mpz_powm_sec placed %d" % i)
        if y and abs(y) > 1:
            P.set(a, x)
            P.set(b, y)
            L.mpz_remove(b, a, b)
            v = x
            while v and v % y == 0:
                v //= y
            ctx.eq(P.get(b), v, "mpz_remove z=y")


def powm_one(ctx, P, x, y, m, z, px, py, pm):
    L = ctx.lib
    if y < 0:
        if abs(m) == 1 or math.gcd(x, m) != 1:
            return
    ctx.case("powm", hex(x), hex(y), hex(m))
    ctx.states(1)
    e = pow(x, y, abs(m))
    L.mpz_powm(z, px, py, pm)
    ctx.eq(P.get(z), e, "mpz_powm")
    if 0 <= y <= M64:
        L.mpz_powm_ui(z, px, y, pm)
        ctx.eq(P.get(z), e, "mpz_powm_ui")
    if y >= 0 and m & 1:
        L.mpz_powm_sec(z, px, py, pm)
        ctx.eq(P.get(z), e, "mpz_powm_sec")


def powm_box(ctx):
    P = Pool(ctx)
    z, px, py, pm = (P.new() for _ in range(4))
    for m in range(-24, 25):
        if m == 0:
            continue
        P.set(pm, m)
        for x in range(-9, 10):
            P.set(px, x)
            for y in range(-4, 18):
                P.set(py, y)
                powm_one(ctx, P, x, y, m, z, px, py, pm)


def powm_limbs(ctx, chunk, n):
    P = Pool(ctx)
    z = P.new()
    ms = [3, M64, H, H + 1, M64 - 1, 1 << W, (1 << W) + 1,
          (1 << 128) - 1, (1 << 128) - (1 << W) + 1, (1 << 127) - 1,
          (1 << 128) + 1, (1 << 192) - 1, (1 << 191) + 1,
          (1 << 192) - (1 << 128) - 1, (M64 << 128) + 1, (1 << 256) - 2,
          (1 << 320) - 1, -((1 << 127) - 1)]
    ys = [0, 1, 2, 3, 15, 16, 17, M64, 1 << (W - 1), 1 << W, (1 << 128) - 1,
          1 << 127, 1 << 128, (1 << 192) - 1, 1 << 191, (1 << 129) + 1,
          (0xf0 << 120) | 0x8001, int("10" * 70, 2) << 9, (1 << 200) - 2,
          0x123456789abcdef0fedcba98765432100f0f0f0f0f0f0f0f]
    pms = [(m, P.new(m)) for m in ms]
    pys = [(y, P.new(y)) for y in ys]
    for m, pm in pms[chunk::n]:
        a = abs(m)
        xs = {0, 1, 2, a - 1, a - 2, a // 2, a, a + 1, -1, -2, M64,
              (1 << 128) - 1, 1 << W, a * a + 3, M64 << W, 3 ** 37}
        for x in xs:
            px = P.new(x)
            for y, py in pys:
                powm_one(ctx, P, x, y, m, z, px, py, pm)
            L = ctx.lib
            L.mpz_clear(px)
            P.keep.pop()
    # secret-safe inverse modulo primes, on word arrays
    L = ctx.lib
    scr = Limbs(4096)
    for p in (1, 3, 13, M64 - (58 if W == 64 else 4), (1 << 127) - 1,
              2 ** 255 - 19, 2 ** 521 - 1):
        k = (p.bit_length() + W - 1) // W
        zl, xl, ml = Limbs(k), Limbs(k), Limbs(k, p)
        for x in {v % p for v in (0, 1, 2, p - 1, p - 2, p // 2, 7, M64)}:
            ctx.case("mpn_sec_invert", hex(p), hex(x))
            xl.set(x)
            nx = (x.bit_length() + W - 1) // W
            e = (int(x != 0), pow(x, -1, p) if x else 0)
            for nm in ("mpn_sec_invert", "mpn_invert"):
                xn = k if nm == "mpn_sec_invert" else nx
                r = getattr(L, nm)(zl, xl, xn, ml, k, scr)
                ctx.eq((r, zl.get()), e, nm)
            for nm in ("mpn_sec_invert_n", "mpn_invert_n"):
                r = getattr(L, nm)(zl, xl, ml, k, scr)
                ctx.eq((r, zl.get()), e, nm)
            ctx.eq(L.mpn_jacobi(xl, nx, ml, k, scr), jacobi(x, p),
                   "mpn_jacobi")
            ctx.check(zl.intact(), "wrote outside the result")


def words(ctx):
    """The functions on word arrays, against the same definitions."""
    L = ctx.lib
    nums = [v for v in upto(2) if v] + values(3, [0, 1, M64])
    nums += [2 ** 65 * 3 ** 30, 6 ** 50, 3 ** 81, (1 << 128) + (1 << W),
             2 ** 127 - 1, 2 ** W * M64]
    nums = sorted({v for v in nums if v})

    def length(v):
        return (v.bit_length() + W - 1) // W

    def out(n):
        return Limbs(n, (0x5c << W * n - 8) if n else 0)

    for y in nums:
        ny = length(y)
        py = Limbs(ny, y)
        for x in [0] + nums:
            nx = length(x)
            px = Limbs(nx, x)
            g = math.gcd(x, y)
            ctx.case("words", hex(x), hex(y))
            ctx.states(1)
            scr = Limbs(nx + 5 * ny + 8)
            if x and nx >= ny:
                n = L.mpn_gcd(o := out(ny), px, nx, py, ny, scr)
                ctx.eq((n, o.get(), o.intact()), (length(g), g, True),
                       "mpn_gcd")
                for i, p in ((0, px), (1, py)) if nx == ny else ((1, py),):
                    o = Limbs(ny, (x, y)[i])
                    n = L.mpn_gcd(o, o if i == 0 else px, nx,
                                  o if i == 1 else py, ny, scr)
                    ctx.eq((n, o.get()), (length(g), g), "mpn_gcd placed")
            if x and ny == 1:
                ctx.eq(L.mpn_gcd_1(px, nx, y, scr), g, "mpn_gcd_1")
            for nx2 in ({nx, nx + 1} if nx else {1}):
                if nx2 < ny:
                    continue
                sz = C.c_long(0)
                n = L.mpn_gcdext(o := out(ny), s := out(ny + 1), C.byref(sz),
                                 Limbs(nx2, x), nx2, py, ny)
                ctx.eq((n, o.get(), o.intact(), s.intact()),
                       (length(g), g, True, True), "mpn_gcdext divisor")
                v = s.get()
                ctx.eq(abs(sz.value), length(v), "mpn_gcdext cofactor size")
                v = -v if sz.value < 0 else v
                ctx.check((x * v - g) % y == 0 and abs(v) < max(y, 1),
                          "mpn_gcdext cofactor", (x, y), v)
            if y & 1:
                if nx <= ny:
                    e = pow(x, -1, y) if g == 1 and y > 1 else 0
                    r = L.mpn_invert(o := out(ny), px, nx, py, ny, scr)
                    ctx.eq((r, o.get(), o.intact()),
                           (int(g == 1 and y > 1), e, True), "mpn_invert")
                    k = jacobi(x, y)
                    ctx.eq(L.mpn_jacobi(px, nx, py, ny, scr), k,
                           "mpn_jacobi")
                    wide = Limbs(ny, x)
                    ctx.eq(L.mpn_jacobi_n(wide, py, ny, scr), k,
                           "mpn_jacobi_n")
                    r = L.mpn_invert_n(o := out(ny), wide, py, ny, scr)
                    ctx.eq((r, o.get(), o.intact()),
                           (int(g == 1 and y > 1), e, True), "mpn_invert_n")
            ctx.eq((px.get(), py.get()), (x, y), "operands unchanged")
    scr = Limbs(4096)
    mods = [v for v in nums if length(v) < 3][::2] + [2 ** 192 - 237,
                                                      2 ** 192 - 2]
    for m in mods:
        nm = length(m)
        pm = Limbs(nm, m)
        for e in (0, 1, 2, 3, M64, 1 << W, (1 << 128) - 1, 1 << 128,
                  int("10" * 70, 2)):
            pe = Limbs(length(e) + 1, e)
            for x in {0, 1, 2, m - 1, m // 2, m // 3, (1 << W * nm) - 1}:
                ctx.case("words powm", hex(x), hex(e), hex(m))
                ctx.states(1)
                v = pow(x, e, m)
                nx = length(x)
                for ne in (length(e), length(e) + 1):
                    L.mpn_powm(o := out(nm), Limbs(nx, x), nx, pe, ne, pm,
                               nm, scr)
                    ctx.eq((o.get(), o.intact()), (v, True), "mpn_powm")
                    if m & 1:
                        L.mpn_sec_powm(o := out(nm), Limbs(nm, x), nm, pe, ne,
                                       pm, nm, scr)
                        ctx.eq((o.get(), o.intact()), (v, True),
                               "mpn_sec_powm")


BIGP = [(1 << 61) - 1, (1 << 64) - 59, (1 << 64) + 13, (1 << 89) - 1,
        (1 << 127) - 1, 2 ** 255 - 19, 2 ** 224 - 2 ** 96 + 1,
        2 ** 256 - 2 ** 32 - 977, 2 ** 521 - 1, 2 ** 448 - 2 ** 224 - 1,
        2 ** 256 - 2 ** 224 + 2 ** 192 + 2 ** 96 - 1,
        115792089237316195423570985008687907852837564279074904382605163141518161494337]


def sqrtm(ctx):
    L, P = ctx.lib, Pool(ctx)
    z, px, pp, pq = (P.new() for _ in range(4))
    s = sieve(4000)
    lim = 600 if ctx.quick else 2000
    small = [p for p in range(3, lim) if s[p]]
    # primes with a high power of two in p - 1
    high = [12289, 40961, 65537, 786433, 7340033, 167772161, 469762049,
            998244353, 3221225473]
    for p in small + high:
        P.set(pp, p)
        sq = {i * i % p for i in range(p)} if p < 5000 else None
        for x in (range(-p, 2 * p) if p < 100 else
                  range(p) if p < 5000 else
                  list(range(400)) + [p - 1, p - 2, p - 3, pow(3, 5, p)]):
            ctx.case("sqrtm", p, x)
            ctx.states(1)
            P.set(px, x)
            r = L.mpz_sqrtm(z, px, pp)
            root = (x % p in sq) if sq is not None else jacobi(x, p) >= 0
            ctx.eq(r, int(root), "mpz_sqrtm decides")
            v = P.get(z)
            if root:
                ctx.check(0 <= v < p and (v * v - x) % p == 0,
                          "mpz_sqrtm root", x % p, v)
    for p in list(range(-9, 1)) + list(range(2, 40, 2)) + [M64 - 1, M64 + 1]:
        for x in range(-5, 20):
            ctx.case("no modulus", p, x)
            ctx.states(1)
            P.set(px, x)
            P.set(pp, p)
            P.set(z, 77)
            ctx.eq((L.mpz_sqrtm(z, px, pp), P.get(z)), (0, 0),
                   "mpz_sqrtm for no odd positive modulus")
    for p in BIGP:
        P.set(pp, p)
        for i in range(1, 40):
            for x in (i, i * i, p - i, -i, p * 3 + i * i,
                      (p // i) ** 2):
                ctx.case("sqrtm", hex(p), hex(x))
                ctx.states(1)
                P.set(px, x)
                r = L.mpz_sqrtm(z, px, pp)
                ctx.eq(r, int(jacobi(x, p) >= 0), "mpz_sqrtm decides")
                v = P.get(z)
                if r:
                    ctx.check(0 <= v < p and (v * v - x) % p == 0,
                              "mpz_sqrtm root", None, v)
                ctx.eq((L.mpz_sqrtm(px, px, pp), r and P.get(px)),
                       (r, r and v), "mpz_sqrtm in place")
                P.set(px, x)
                ctx.eq((L.mpz_sqrtm(pp, px, pp), r and P.get(pp)),
                       (r, r and v), "mpz_sqrtm onto the modulus")
                P.set(pp, p)
    for p, q in [(3, 5), (7, 11), (13, 17), (41, 73), (97, 5), (3, 193),
                 (BIGP[0], BIGP[3]), (BIGP[2], BIGP[4])]:
        P.set(pp, p)
        P.set(pq, q)
        n = p * q
        for x in (range(n) if n < 4000 else [i * i for i in range(60)] +
                  list(range(60)) + [n - i for i in range(1, 30)]):
            ctx.case("sqrtpq", p, q, x)
            ctx.states(1)
            P.set(px, x)
            r = L.mpz_sqrtpq(z, px, pp, pq)
            ctx.eq(r, int(jacobi(x, p) >= 0 and jacobi(x, q) >= 0),
                   "mpz_sqrtpq decides")
            if r:
                v = P.get(z)
                ctx.check(0 <= v < n and (v * v - x) % n == 0,
                          "mpz_sqrtpq root", None, v)


def iroot(x, k):
    """Truncated k-th root of x >= 0."""
    lo, hi = 0, 1 << (x.bit_length() // k + 1)
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** k <= x:
            lo = m
        else:
            hi = m - 1
    return lo


def roots(ctx):
    L, P = ctx.lib, Pool(ctx)
    z, r, px = P.new(), P.new(), P.new()
    vals = set(range(0, 130)) | set(upto(2))
    for b in (2, 3, 5, 6, 7, 10, 255, 256, 257, (1 << 32) - 1, 1 << 32,
              M64, 1 << W):
        for e in (2, 3, 4, 5, 7, 11):
            vals |= {b ** e - 1, b ** e, b ** e + 1}
    powers = set()
    for v in sorted(vals):
        pp = v <= 1
        for k in range(2, max(3, v.bit_length() + 1)):
            if iroot(v, k) ** k == v:
                pp = True
                break
        odd = v <= 1 or any(iroot(v, k) ** k == v
                            for k in range(3, v.bit_length() + 1, 2))
        for x in ((v, -v) if v else (0,)):
            P.set(px, x)
            ctx.case("perfect power", hex(x))
            ctx.eq(L.mpz_perfect_power_p(px) != 0, pp if x >= 0 else odd,
                   "mpz_perfect_power_p")
            for k in (1, 2, 3, 4, 5, 6, 7, 8, 13, 31, 32, 33, 63, 64, 65,
                      70):
                if x < 0 and k % 2 == 0:
                    ctx.eq(L.mpz_root(None, px, k), 0, "mpz_root even")
                    continue
                ctx.case("root", hex(x), k)
                ctx.states(1)
                e = iroot(v, k)
                e = -e if x < 0 else e
                L.mpz_rootrem(z, r, px, k)
                ctx.eq((P.get(z), P.get(r)), (e, x - e ** k), "mpz_rootrem")
                f = L.mpz_root(z, px, k)
                ctx.eq((P.get(z), f != 0), (e, e ** k == x), "mpz_root")
                ctx.eq(L.mpz_root(None, px, k) != 0, e ** k == x,
                       "mpz_root test only")
        P.set(px, v)
        L.mpz_rootrem(px, r, px, 3)
        ctx.eq(P.get(px), iroot(v, 3), "mpz_rootrem in place")


def primes(ctx, chunk, n):
    """Every number of an interval."""
    L, P = ctx.lib, Pool(ctx)
    lim = 40000 if ctx.quick else 400000
    s = sieve(lim)
    rng = make_rng()
    px = P.new()
    for v in range(chunk, lim, n):
        ctx.case("prime", v)
        P.set(px, v)
        e = s[v]
        ctx.eq(L.mpz_probab_prime_p(px, 20 if e else 1, rng, None), e,
               "mpz_probab_prime_p")
        if v > 7 and v & 1:
            ctx.eq(L.mpz_mr_prime_p(px, 1, 1, rng, None), int(sprp(v, 2)),
                   "mpz_mr_prime_p base 2")
            ctx.eq(L.mpz_lucas_prime_p(px, 0), int(lucas(v)),
                   "mpz_lucas_prime_p")
            if e:
                ctx.eq(L.mpz_mr_prime_p(px, 5, 0, rng, None), 1,
                       "mpz_mr_prime_p on a prime")
        else:
            ctx.eq((L.mpz_mr_prime_p(px, 3, 1, rng, None),
                    L.mpz_lucas_prime_p(px, 0)), (e, e), "small or even")
    ctx.states(len(range(chunk, lim, n)))


def pseudo(ctx):
    """Pseudoprimes, squares, semiprimes, Carmichael numbers, large primes."""
    L, P = ctx.lib, Pool(ctx)
    rng = make_rng()
    px = P.new()
    lim = 1200000 if ctx.quick else 6000000
    s = sieve(lim)
    comp = set()
    for v in range(3, lim, 2):
        if not s[v] and pow(2, v - 1, v) == 1:
            comp.add(v)              # Fermat base 2 (contains all spsp)
    ps = [p for p in range(41, 1500) if s[p]]
    comp |= {p * p for p in ps} | {p ** 3 for p in ps[:50]}
    comp |= {1093 ** 2, 3511 ** 2, 1093 ** 2 * 3511 ** 2}
    comp |= {a * b for a, b in zip(ps, ps[1:])}
    comp |= {p * (2 * p - 1) for p in ps if isprime(2 * p - 1)}
    comp |= {(6 * k + 1) * (12 * k + 1) * (18 * k + 1) for k in range(1, 3000)
             if isprime(6 * k + 1) and isprime(12 * k + 1)
             and isprime(18 * k + 1)}
    # strong pseudoprimes to many bases (published minima psi_n)
    comp |= {2047, 1373653, 25326001, 3215031751, 2152302898747,
             3474749660383, 341550071728321, 3825123056546413051,
             318665857834031151167461, 3317044064679887385961981}
    comp |= {a * b for a in BIGP for b in BIGP}
    comp |= {2 ** 67 - 1, 2 ** 128 + 1, 2 ** 64 + 1, 2 ** 11 * 3 - 1 or 0}
    good = set(BIGP) | {2 ** k - 1 for k in (13, 17, 19, 31, 61, 89, 107, 127,
                                             521, 607)}
    comp = {c for c in comp if c not in good and not
            (c < 10 ** 24 and isprime(c))}
    for v in sorted(comp):
        P.set(px, v)
        ctx.case("composite", v)
        ctx.states(1)
        for rounds in (0, 1, 20):
            ctx.eq(L.mpz_probab_prime_p(px, rounds, rng, None), 0,
                   "composite accepted, rounds %d" % rounds)
        P.set(px, -v)
        ctx.eq(L.mpz_probab_prime_p(px, 1, rng, None), 0, "negative")
    for v in sorted(good):
        P.set(px, v)
        ctx.case("prime", v)
        ctx.states(1)
        for rounds in (0, 1, 20):
            ctx.eq(L.mpz_probab_prime_p(px, rounds, rng, None), 1,
                   "prime refused")
        ctx.eq(L.mpz_lucas_prime_p(px, 0), 1, "Lucas refuses a prime")
    # primes around word boundaries
    for k in (32, 63, 64, 65, 70):
        for d in range(-150, 151):
            v = (1 << k) + d
            ctx.case("boundary", k, d)
            ctx.states(1)
            P.set(px, v)
            ctx.eq(L.mpz_probab_prime_p(px, 3, rng, None), int(isprime(v)),
                   "mpz_probab_prime_p")


def search(ctx):
    """Next prime, bounded search, random prime."""
    L, P = ctx.lib, Pool(ctx)
    rng = make_rng(7)
    z, px = P.new(), P.new()
    lim = 3000 if ctx.quick else 30000

    def nxt(v):
        v = max(v + 1, 2)
        while not isprime(v):
            v += 1
        return v
    starts = list(range(-3, lim)) + [(1 << k) + d for k in (32, 64, 72)
                                     for d in (-60, -2, -1, 0, 1)] + \
        [31397, 370261, 492113, 1357201, 2010733]     # maximal gaps
    for v in starts:
        ctx.case("nextprime", v)
        ctx.states(1)
        P.set(px, v)
        L.mpz_nextprime(z, px, rng, None)
        e = nxt(v)
        ctx.eq(P.get(z), e, "mpz_nextprime")
        if v % 7 == 0:
            L.mpz_nextprime(px, px, rng, None)
            ctx.eq(P.get(px), e, "mpz_nextprime in place")
    for v in range(3, 260):
        for m in range(0, 24):
            ctx.case("findprime", v, m)
            ctx.states(1)
            P.set(px, v)
            e = v if isprime(v) else nxt(v)
            r = L.mpz_findprime(z, px, m, rng, None)
            ctx.eq(r, int(e <= v + m), "mpz_findprime result")
            if r:
                ctx.eq(P.get(z), e, "mpz_findprime value")
    for bits in list(range(2, 80)) + [127, 128, 129]:
        for seed in range(3):
            ctx.case("randprime", bits, seed)
            ctx.states(1)
            L.mpz_randprime(z, bits, make_rng(seed * 1000 + bits), None)
            v = P.get(z)
            ctx.eq(v.bit_length(), bits, "mpz_randprime size")
            ctx.check(isprime(v), "mpz_randprime composite", None, v)


def combin(ctx):
    L, P = ctx.lib, Pool(ctx)
    z, r, px = P.new(), P.new(), P.new()
    N = 200 if ctx.quick else 600
    s = sieve(N)
    fib, prim = [0, 1], 1
    while len(fib) <= N + 1:
        fib.append(fib[-1] + fib[-2])
    for n in range(N + 1):
        ctx.case("combinatorial", n)
        ctx.states(1)
        prim *= n if s[n] else 1
        L.mpz_fac_ui(z, n)
        ctx.eq(P.get(z), math.factorial(n), "mpz_fac_ui")
        L.mpz_2fac_ui(z, n)
        ctx.eq(P.get(z), math.prod(range(n, 0, -2)), "mpz_2fac_ui")
        for m in (1, 2, 3, 4, 5, 9, n, n + 1):
            if m:
                L.mpz_mfac_uiui(z, n, m)
                ctx.eq(P.get(z), math.prod(range(n, 0, -m)), "mpz_mfac_uiui")
        L.mpz_primorial_ui(z, n)
        ctx.eq(P.get(z), prim, "mpz_primorial_ui")
        L.mpz_fib_ui(z, n)
        ctx.eq(P.get(z), fib[n], "mpz_fib_ui")
        L.mpz_fib2_ui(z, r, n)
        ctx.eq((P.get(z), P.get(r)), (fib[n], fib[n - 1] if n else 1),
               "mpz_fib2_ui")
        prev = fib[n - 1] if n else 1
        luc = fib[n] + 2 * prev
        L.mpz_lucnum_ui(z, n)
        ctx.eq(P.get(z), luc, "mpz_lucnum_ui")
        L.mpz_lucnum2_ui(z, r, n)
        ctx.eq((P.get(z), P.get(r)), (luc, 2 * fib[n] - prev),
               "mpz_lucnum2_ui")
        for k in range(0, n + 3 if n < 70 else 12):
            e = math.comb(n, k)
            L.mpz_bin_uiui(z, n, k)
            ctx.eq(P.get(z), e, "mpz_bin_uiui %d" % k)
            P.set(px, n)
            L.mpz_bin_ui(px, px, k)
            ctx.eq(P.get(px), e, "mpz_bin_ui %d" % k)
            if n:
                e = (-1) ** k * math.comb(n + k - 1, k)
                P.set(px, -n)
                L.mpz_bin_ui(z, px, k)
                ctx.eq(P.get(z), e, "mpz_bin_ui -n %d" % k)
                L.mpz_bin_siui(z, -n, k)
                ctx.eq(P.get(z), e, "mpz_bin_siui -n %d" % k)
            L.mpz_bin_siui(z, n, k)
            ctx.eq(P.get(z), math.comb(n, k), "mpz_bin_siui %d" % k)
    for n in (M64, M64 - 1, H, H - 1, Q):
        for k in range(6):
            for kk in (k, n - k):
                ctx.case("binomial", hex(n), kk)
                ctx.states(1)
                L.mpz_bin_uiui(z, n, kk)
                ctx.eq(P.get(z), math.comb(n, k), "mpz_bin_uiui")
    for n in (-1, -2, -H):
        for k in (0, 1, 2, 3) + ((M64, M64 - 1, M64 - 2) if n == -1 else ()):
            ctx.case("binomial", n, k)
            ctx.states(1)
            L.mpz_bin_siui(z, n, k)
            e = 1 if k > 9 else math.comb(-n + k - 1, k)
            ctx.eq(P.get(z), -e if k & 1 else e, "mpz_bin_siui")


def tasks(tier):
    out = []
    for v in ("n64", "i128", "p32", "l32"):
        for c in range(2):
            out.append(Task("box-%s-%d" % (v, c), box, (c, 2), v))
            out.append(Task("powm-%s-%d" % (v, c), powm_limbs, (c, 2), v))
        for c in range(3):
            out.append(Task("limbs-%s-%d" % (v, c), limbs, (c, 3), v))
        for c in range(3):
            out.append(Task("primes-%s-%d" % (v, c), primes, (c, 3), v))
        for nm, fn in (("alias", alias), ("powm_box", powm_box),
                       ("words", words),
                       ("sqrtm", sqrtm), ("roots", roots),
                       ("pseudo", pseudo), ("search", search),
                       ("combin", combin)):
            out.append(Task("%s-%s" % (nm, v), fn, (), v))
    return out
