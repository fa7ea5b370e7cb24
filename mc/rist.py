"""Ristretto in plain integers, from the affine definitions."""

from mc.curves import ED, sqrt
from mc.h2c import roots, signed


class Rist:
    def __init__(self, name):
        c = self.c = ED[name]
        p = self.p = c.p
        # conventions: a non-residue and the root used by the map
        self.qnr = signed(sqrt(p - 1, p), 0, p) if c.h == 8 else p - 1
        odd = 0 if name == "ED448" else 1
        self.m = signed(sqrt(c.a * c.d - 1, p), odd, p)
        # the coset identified with a group element
        self.coset = [T for T in c.torsion if c.h == 4 and T[0] == 0 or
                      c.h == 8 and (T[0] == 0 or T[1] == 0)]
        self.size = c.size

    def enc(self, P):
        c, p = self.c, self.p
        x, y = P
        if x * y % p == 0:
            return bytes(c.size)
        if c.h == 8 and x * y % p & 1:
            x, y = y * self.qnr % p, x * self.qnr % p
        if x & 1:
            x, y = -x % p, -y % p
        s = sqrt(-c.a * (1 - y) * pow(1 + y, -1, p), p)
        return c.fb(signed(s, 0, p))

    def dec(self, b):
        c, p = self.c, self.p
        s = int.from_bytes(b, "little")
        if s >= p or s & 1:
            return None
        w = c.a * s * s % p
        if w == 1:
            return None
        y = (1 + w) * pow(1 - w, -1, p) % p
        v = (c.a * c.d * (1 + w) ** 2 - (1 - w) ** 2) % p
        if v == 0:
            return None
        x = sqrt(4 * s * s * pow(v, -1, p), p)
        if x is None:
            return None
        x = signed(x, 0, p)
        if c.h == 8 and (x * y % p & 1 or y == 0):
            return None
        return x, y

    def f(self, u):
        """The Edwards point a field element maps to"""
        c, p = self.c, self.p
        a, d = c.a, c.d
        r = self.qnr * u * u % p
        D = (d * r - a) * (a * r - d) % p
        if D == 0:
            return 0, 1
        i = pow(D, -1, p)
        ns = a * (r + 1) * (d + a) * (d - a)
        # the second branch if r is zero
        s = sqrt(ns * i, p) if r else None
        if s is not None:
            s, k = signed(s, 0, p), -1
        else:
            s, k = signed(sqrt(r * ns * i, p), 1, p), r
        t = (k * (r - 1) * (d + a) ** 2 * i - 1) % p
        w = a * s * s % p
        return (2 * s * pow(t * self.m, -1, p) % p,
                (1 + w) * pow(1 - w, -1, p) % p)

    def pre(self, P):
        """All regular field elements that map to P's group element"""
        c, p = self.c, self.p
        a, d = c.a, c.d
        want = self.enc(P)
        out = set()
        k = a * (d + a) * (d - a) % p
        for T in self.coset:
            y = c.add(P, T)[1]
            if y == p - 1:
                continue
            s2 = c.a * (y - 1) * pow(y + 1, -1, p) % p
            # s2 (ad r^2 - (a^2 + d^2) r + ad) = k (r + 1), or k r (r + 1)
            A, B, C = s2 * a * d, -s2 * (a * a + d * d), s2 * a * d
            rs = []
            for A, B, C in ((A, B - k, C - k), (A - k, B - k, C)):
                if A % p:
                    i = pow(A, -1, p)
                    rs += roots(B * i, C * i, p)
                elif B % p:
                    rs.append(-C * pow(B, -1, p) % p)
            for r in rs:
                u = sqrt(r * pow(self.qnr, -1, p), p)
                if u is not None and self.enc(self.f(u)) == want:
                    out |= {u, -u % p}
        return out

    def special_u(self):
        """Elements at which the map degenerates"""
        c, p = self.c, self.p
        out = [0]
        for r in (-1, 1, c.d * pow(c.a, -1, p), c.a * pow(c.d, -1, p)):
            u = sqrt(r * pow(self.qnr, -1, p), p)
            if u:
                out += [u, p - u]
        return out


RIST = {n: Rist(n) for n in ED}
