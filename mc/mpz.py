"""Multi-precision integers of the library seen as Python integers, plus the
operand sets shared by the integer checks."""

import ctypes as C

from .lib import WORD, ctxbuf

W = WORD                    # bits of a word
B = W // 8                  # bytes
M64 = (1 << W) - 1          # the largest word


class Pool:
    """Creates library integers; get() also checks that the representation
    is normalised (no leading zero word, sign only on non-zero)."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.L = L = ctx.lib
        self.size_of = L.MPZ_SIZE
        self._w, self._f = L.mpz_limbs_write, L.mpz_limbs_finish
        self._n, self._r, self._s = L.mpz_size, L.mpz_limbs_read, L.mpz_sgn
        self.keep = []

    def new(self, v=None):
        z = ctxbuf(self.size_of, 16)
        self.L.mpz_init(z)
        p = C.c_void_p(C.addressof(z))
        self.keep.append(z)
        if v is not None:
            self.set(p, v)
        return p

    def set(self, z, v):
        a = -v if v < 0 else v
        n = (a.bit_length() + W - 1) // W
        if n == 0:
            self._f(z, 0)
            return z
        p = self._w(z, n)
        C.memmove(p, a.to_bytes(B * n, "little"), B * n)
        self._f(z, -n if v < 0 else n)
        return z

    def get(self, z):
        n = self._n(z)
        s = self._s(z)
        if n == 0:
            if s:
                self.ctx.fail("zero with a sign", 0, s)
            return 0
        v = int.from_bytes(C.string_at(self._r(z), B * n), "little")
        if v >> (W * n - W) == 0:
            self.ctx.fail("result not normalised", None, (n, hex(v)))
        if s not in (1, -1):
            self.ctx.fail("sign of a non-zero number", None, s)
        return -v if s < 0 else v


GUARD = b"\xa5" * 16


class Limbs:
    """A guarded word array for the low-level functions."""

    def __init__(self, n, v=0):
        self.n = n
        self.buf = (C.c_ubyte * (B * n + 32))()
        self.ptr = C.addressof(self.buf) + 16
        self._as_parameter_ = C.c_void_p(self.ptr)
        C.memset(self.buf, 0xa5, B * n + 32)
        self.set(v)

    def set(self, v):
        C.memmove(self.ptr, v.to_bytes(B * self.n, "little"), B * self.n)
        return self

    def get(self, n=None):
        return int.from_bytes(
            C.string_at(self.ptr, B * (self.n if n is None else n)), "little")

    def intact(self):
        return C.string_at(self.buf, 16) == GUARD and \
            C.string_at(self.ptr + B * self.n, 16) == GUARD


H = 1 << (W - 1)
Q = 1 << W // 2
W1 = [0, 1, 2, 3, 7, Q - 1, Q, Q + 1, H - 1, H, H + 1,
      M64 - 1, M64]
W2 = [0, 1, Q - 1, Q, H - 1, H, M64]
W3 = [0, 1, H, M64]
W4 = [0, 1, M64]


def number(limbs):
    v = 0
    for x in reversed(limbs):
        v = v << W | x
    return v


def _words(alpha, n):
    if n == 0:
        return [[]]
    return [[a] + r for r in _words(alpha, n - 1) for a in alpha]


def values(n, alpha=None):
    """All n-limb numbers over the alphabet with a non-zero top limb."""
    alpha = alpha or {1: W1, 2: W2, 3: W3}.get(n, W4)
    return sorted(number(w) for w in _words(alpha, n) if n == 0 or w[-1])


def upto(n):
    out = [0]
    for k in range(1, n + 1):
        out += values(k)
    return out


UI = W1
SI = [0, 1, -1, 2, -2, 7, -7, Q - 1, -Q, H - 1, 1 - H, -H]


def signed(vals):
    return [v for a in vals for v in ((a, -a) if a else (0,))]


def patterns(n):
    """A few n-limb numbers for size sweeps."""
    k = W * n
    alt = number([M64 if i & 1 else 0 for i in range(n)])
    mix = number([(0x9e3779b97f4a7c15 * (i + 1) * (n + 3)) & M64
                  for i in range(n)])
    return [(1 << k) - 1, 1 << (k - 1), (1 << k) - (1 << (k // 2)),
            alt | 1 << (k - W), mix | 1 << (k - 1)]


def tdiv(n, d):
    q = abs(n) // abs(d)
    if (n < 0) != (d < 0):
        q = -q
    return q, n - q * d


def ediv(n, d):
    r = n % abs(d)
    return (n - r) // d, r


def divround(n, d):
    """Nearest, halves away from zero."""
    a, b = abs(n), abs(d)
    q = (2 * a + b) // (2 * b)
    return -q if (n < 0) != (d < 0) else q


def sgn(v):
    return (v > 0) - (v < 0)
