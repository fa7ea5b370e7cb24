"""Maps from field elements to curve points, from their definitions, and all
their preimages by solving the defining equations."""

from mc.curves import sqrt

_Z = {"P192": -5, "P224": 31, "P256": -10, "P384": -12, "P521": -4,
      "SECP256K1": 1, "X25519": 2, "ED25519": 2, "X448": -1, "ED448": -1,
      "ED1174": -1}


def signed(v, odd, p):
    """The root of given parity; zero is even only"""
    return v if v & 1 == odd else -v % p


def roots(b, c, p):
    """w^2 + b w + c = 0"""
    d = sqrt(b * b - 4 * c, p)
    if d is None:
        return []
    i = pow(2, -1, p)
    return [(-b + d) * i % p, (-b - d) * i % p]


class Sswu:
    def __init__(self, c):
        self.c, self.p, self.z = c, c.p, _Z[c.name] % c.p
        p = c.p
        self.ba = -c.b * pow(c.a, -1, p) % p
        self.ex = c.b * pow(self.z * c.a, -1, p) % p

    def special_u(self):
        r = sqrt(-pow(self.z, -1, self.p), self.p)
        return [0] + ([r, -r % self.p] if r else [])

    def special_x(self):
        return [self.ba, self.ex, 0]

    def f(self, u):
        p, c = self.p, self.c
        w = self.z * u * u % p
        t = (w * w + w) % p
        x = self.ba * (1 + pow(t, -1, p)) % p if t else self.ex
        y = sqrt(c.rhs(x), p)
        if y is None:
            x = w * x % p
            y = sqrt(c.rhs(x), p)
        return x, signed(y, u & 1, p)

    def candidates(self, x):
        p = self.p
        k = -self.c.a * x * pow(self.c.b, -1, p) % p
        ws = []
        if k != 1:
            ws += roots(1, -pow(k - 1, -1, p), p)
        ws += roots(1 - k, 1 - k, p)
        i = pow(self.z, -1, p)
        return [w * i % p for w in ws if w not in (0, p - 1)]

    def pre(self, P):
        """Regular preimages"""
        if P is None:
            return frozenset()
        out = set()
        for s in self.candidates(P[0]):
            u = sqrt(s, self.p)
            if u is not None:
                u = signed(u, P[1] & 1, self.p)
                if self.f(u) == P:
                    out.add(u)
        return frozenset(out)


class Svdw(Sswu):
    def __init__(self, c):
        p = c.p
        self.c, self.p, self.z = c, p, _Z[c.name]
        self.s = sqrt(-3 * self.z * self.z, p)
        self.s = signed(self.s, 0, p)
        self.gz = c.rhs(self.z)

    def special_u(self):
        r = sqrt(-self.gz, self.p)
        return [0] + ([r, -r % self.p] if r else [])

    def special_x(self):
        i = pow(2, -1, self.p)
        return [(self.s - self.z) * i % self.p, -(self.s + self.z) * i % self.p,
                self.z, 0]

    def f(self, u):
        p, z, c = self.p, self.z, self.s
        i = pow(2, -1, p)
        t1 = (u * u + self.gz) % p
        t2 = u * u * t1 % p
        t2 = pow(t2, -1, p) if t2 else 0
        t3 = pow(u, 4, p) * t2 * c % p
        for x in (((c - z) * i - t3) % p, (t3 - (c + z) * i) % p,
                  (z - t1 ** 3 * t2 * pow(3 * z * z, -1, p)) % p):
            y = sqrt(self.c.rhs(x), p)
            if y is not None:
                return x, signed(y, u & 1, p)

    def candidates(self, x):
        p, z, c = self.p, self.z, self.s
        i = pow(2, -1, p)
        s = []
        for k in (((c - z) * i - x) % p, (x + (c + z) * i) % p):
            if (c - k) % p:
                s.append(k * self.gz * pow(c - k, -1, p) % p)
        m = 3 * z * z * (z - x)
        return s + roots(2 * self.gz - m, self.gz * self.gz, p)


class Ell2(Sswu):
    """v^2 = u^3 + A u^2 + u"""

    def __init__(self, name, p, A):
        self.p, self.A, self.z = p, A % p, _Z[name] % p

    def rhs(self, x):
        return x * (x * x + self.A * x + 1) % self.p

    def special_u(self):
        r = sqrt(-pow(self.z, -1, self.p), self.p)
        return [0] + ([r, -r % self.p] if r else [])

    def special_x(self):
        return [0, 1, self.p - 1, -self.A % self.p]

    def f(self, u):
        p = self.p
        d = (1 + self.z * u * u) % p
        x = -self.A * pow(d or 1, -1, p) % p
        y = sqrt(self.rhs(x), p)
        if y is None:
            x = (-x - self.A) % p
            y = sqrt(self.rhs(x), p)
        return x, signed(y, u & 1, p)

    def candidates(self, x):
        p = self.p
        i = pow(self.z, -1, p)
        s = []
        if x:
            s.append(-(x + self.A) * pow(x, -1, p) * i % p)
        if (x + self.A) % p:
            s.append(-x * pow(x + self.A, -1, p) * i % p)
        return s


class EdMap:
    """Elligator 2 on the Montgomery form with B = 1, then to Edwards."""

    def __init__(self, c):
        p = c.p
        self.c, self.p = c, p
        self.inv = c.name != "ED25519"
        s = -1 if self.inv else 1
        A = s * 2 * (c.a + c.d) * pow(c.a - c.d, -1, p) % p
        self.k = signed(sqrt((A + 2 * s) * pow(c.a, -1, p), p), 0, p)
        self.m = Ell2(c.name, p, A)
        self.special_u = self.m.special_u

    def to_ed(self, P):
        p = self.p
        if P is None:
            return 0, 1
        u, v = P
        if u == 0:
            return 0, p - 1
        y = (u - 1) * pow(u + 1, -1, p) % p
        if self.inv:
            y = pow(y, -1, p)
        return self.k * u * pow(v, -1, p) % p, y

    def to_mont(self, P):
        p = self.p
        x, y = P
        if x == 0:
            return None if y == 1 else (0, 0)
        u = (1 + y) * pow(1 - y, -1, p) % p
        if self.inv:
            u = -u % p
        return u, self.k * u * pow(x, -1, p) % p

    def f(self, u):
        return self.to_ed(self.m.f(u))

    def pre(self, P):
        return self.m.pre(self.to_mont(P))

    def special(self):
        out = []
        for x in self.m.special_x():
            y = sqrt(self.m.rhs(x), self.p)
            if y is not None and (x not in (1, self.p - 1)):
                out += [self.to_ed((x, y)), self.to_ed((x, -y % self.p))]
        return out


def mapping(c):
    if c.name.startswith("ED"):
        return EdMap(c)
    if c.name.startswith("X"):
        return Ell2(c.name, c.p, c.A)
    return Svdw(c) if c.a == 0 else Sswu(c)
