"""Elliptic curve groups in plain integers, from their defining equations."""

from functools import lru_cache


def sqrt(v, p):
    """A square root of v modulo p, or None."""
    v %= p
    if v == 0:
        return 0
    if pow(v, (p - 1) // 2, p) != 1:
        return None
    if p % 4 == 3:
        return pow(v, (p + 1) // 4, p)
    # Tonelli-Shanks
    q, s = p - 1, 0
    while q % 2 == 0:
        q //= 2
        s += 1
    z = 2
    while pow(z, (p - 1) // 2, p) != p - 1:
        z += 1
    c, r, t, m = pow(z, q, p), pow(v, (q + 1) // 2, p), pow(v, q, p), s
    while t != 1:
        i, u = 0, t
        while u != 1:
            u = u * u % p
            i += 1
        b = pow(c, 1 << (m - i - 1), p)
        r, c = r * b % p, b * b % p
        t, m = t * c % p, i
    return r


def is_square(v, p):
    return v % p == 0 or pow(v, (p - 1) // 2, p) == 1


class Wei:
    """y^2 = x^3 + a x + b; points are (x, y) or None"""

    def __init__(self, name, p, a, b, n, g, hash_):
        self.name, self.p, self.a, self.b, self.n, self.g = name, p, a, b, n, g
        self.hash = hash_
        self.size = (p.bit_length() + 7) // 8
        self.nsize = (n.bit_length() + 7) // 8
        self.bits = n.bit_length()
        self._tab = None
        self.mulg = lru_cache(1 << 17)(self._mulg)

    def rhs(self, x):
        return (x * x * x + self.a * x + self.b) % self.p

    def on(self, P):
        return P is None or P[1] * P[1] % self.p == self.rhs(P[0])

    def neg(self, P):
        return None if P is None else (P[0], -P[1] % self.p)

    def add(self, P, Q):
        if P is None:
            return Q
        if Q is None:
            return P
        p = self.p
        if P[0] == Q[0]:
            if (P[1] + Q[1]) % p == 0:
                return None
            l = (3 * P[0] * P[0] + self.a) * pow(2 * P[1], -1, p) % p
        else:
            l = (Q[1] - P[1]) * pow(Q[0] - P[0], -1, p) % p
        x = (l * l - P[0] - Q[0]) % p
        return x, (l * (P[0] - x) - P[1]) % p

    # Jacobian coordinates for speed
    def _dbl(self, P):
        X, Y, Z = P
        p = self.p
        if Z == 0 or Y == 0:
            return 1, 1, 0
        yy = Y * Y % p
        s = 4 * X * yy % p
        zz = Z * Z % p
        m = (3 * X * X + self.a * zz * zz) % p
        x = (m * m - 2 * s) % p
        return x, (m * (s - x) - 8 * yy * yy) % p, 2 * Y * Z % p

    def _addm(self, P, Q):
        """Jacobian plus affine"""
        X, Y, Z = P
        p = self.p
        if Z == 0:
            return Q[0], Q[1], 1
        zz = Z * Z % p
        h = (Q[0] * zz - X) % p
        r = (Q[1] * zz * Z - Y) % p
        if h == 0:
            return self._dbl(P) if r == 0 else (1, 1, 0)
        hh = h * h % p
        hhh = hh * h % p
        v = X * hh % p
        x = (r * r - hhh - 2 * v) % p
        return x, (r * (v - x) - Y * hhh) % p, Z * h % p

    def _aff(self, P):
        if P[2] == 0:
            return None
        p = self.p
        i = pow(P[2], -1, p)
        ii = i * i % p
        return P[0] * ii % p, P[1] * ii * i % p

    def mul(self, k, P):
        if P is None or k % self.n == 0:
            return None
        k %= self.n
        T = [P]
        D = self.add(P, P)
        for _ in range(7):
            T.append(self.add(T[-1], D))
        # width-5 signed digits
        ds = []
        while k:
            d = 0
            if k & 1:
                d = k & 31
                if d > 15:
                    d -= 32
                k -= d
            ds.append(d)
            k >>= 1
        R = (1, 1, 0)
        for d in reversed(ds):
            R = self._dbl(R)
            if d > 0:
                R = self._addm(R, T[d >> 1])
            elif d < 0:
                R = self._addm(R, self.neg(T[-d >> 1]))
        return self._aff(R)

    def _mulg(self, k):
        k %= self.n
        if self._tab is None:
            B = self.g
            t = []
            for _ in range((self.bits + 3) // 4):
                row = [None, B]
                for _ in range(14):
                    row.append(self.add(row[-1], B))
                t.append(row)
                B = self.add(row[-1], B)
            self._tab = t
        R = (1, 1, 0)
        i = 0
        while k:
            if k & 15:
                R = self._addm(R, self._tab[i][k & 15])
            k >>= 4
            i += 1
        return self._aff(R)

    def lift(self, x, odd=None):
        if not 0 <= x < self.p:
            return None
        y = sqrt(self.rhs(x), self.p)
        if y is None:
            return None
        if odd is not None and y & 1 != odd:
            y = -y % self.p
            if y & 1 != odd:
                return None
        return x, y

    def enc(self, P, form=2):
        """2 compressed, 4 uncompressed, 6 hybrid"""
        x = P[0].to_bytes(self.size, "big")
        if form == 2:
            return bytes([2 | P[1] & 1]) + x
        f = 4 if form == 4 else 6 | P[1] & 1
        return bytes([f]) + x + P[1].to_bytes(self.size, "big")

    def fb(self, v):
        return v.to_bytes(self.size, "big")

    def sb(self, v):
        return v.to_bytes(self.nsize, "big")

    def decode(self, b):
        """The point, or None if the encoding is not acceptable."""
        s = self.size
        if len(b) == 1 + s and b[0] in (2, 3):
            return self.lift(int.from_bytes(b[1:], "big"), b[0] & 1)
        if len(b) == 1 + 2 * s and b[0] in (4, 6, 7):
            x = int.from_bytes(b[1:1 + s], "big")
            y = int.from_bytes(b[1 + s:], "big")
            if x >= self.p or y >= self.p or not self.on((x, y)):
                return None
            if b[0] != 4 and y & 1 != b[0] & 1:
                return None
            return x, y
        return None


def _h(s):
    return int(s, 16)


_P192 = 2**192 - 2**64 - 1
_P224 = 2**224 - 2**96 + 1
_P256 = 2**256 - 2**224 + 2**192 + 2**96 - 1
_P384 = 2**384 - 2**128 - 2**96 + 2**32 - 1
_P521 = 2**521 - 1
_K256 = 2**256 - 2**32 - 977

WEI = {c.name: c for c in (
    Wei("P192", _P192, -3,
        _h("64210519e59c80e70fa7e9ab72243049feb8deecc146b9b1"),
        _h("ffffffffffffffffffffffff99def836146bc9b1b4d22831"),
        (_h("188da80eb03090f67cbf20eb43a18800f4ff0afd82ff1012"),
         _h("07192b95ffc8da78631011ed6b24cdd573f977a11e794811")), "sha256"),
    Wei("P224", _P224, -3,
        _h("b4050a850c04b3abf54132565044b0b7d7bfd8ba270b39432355ffb4"),
        _h("ffffffffffffffffffffffffffff16a2e0b8f03e13dd29455c5c2a3d"),
        (_h("b70e0cbd6bb4bf7f321390b94a03c1d356c21122343280d6115c1d21"),
         _h("bd376388b5f723fb4c22dfe6cd4375a05a07476444d5819985007e34")),
        "sha256"),
    Wei("P256", _P256, -3,
        _h("5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b"),
        _h("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551"),
        (_h("6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296"),
         _h("4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5")),
        "sha256"),
    Wei("P384", _P384, -3,
        _h("b3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875a"
           "c656398d8a2ed19d2a85c8edd3ec2aef"),
        _h("ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf"
           "581a0db248b0a77aecec196accc52973"),
        (_h("aa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a38"
            "5502f25dbf55296c3a545e3872760ab7"),
         _h("3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c0"
            "0a60b1ce1d7e819d7a431d7c90ea0e5f")), "sha384"),
    Wei("P521", _P521, -3,
        _h("0051953eb9618e1c9a1f929a21a0b68540eea2da725b99b315f3b8b489918ef1"
           "09e156193951ec7e937b1652c0bd3bb1bf073573df883d2c34f1ef451fd46b50"
           "3f00"),
        _h("01ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"
           "fffa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e9138"
           "6409"),
        (_h("00c6858e06b70404e9cd9e3ecb662395b4429c648139053fb521f828af606b4d"
            "3dbaa14b5e77efe75928fe1dc127a2ffa8de3348b3c1856a429bf97e7e31c2e5"
            "bd66"),
         _h("011839296a789a3bc0045c8a5fb42c7d1bd998f54449579b446817afbd17273e"
            "662c97ee72995ef42640c550b9013fad0761353c7086a272c24088be94769fd1"
            "6650")), "sha512"),
    Wei("SECP256K1", _K256, 0, 7,
        _h("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141"),
        (_h("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"),
         _h("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8")),
        "sha256"),
)}


class Edwards:
    """a x^2 + y^2 = 1 + d x^2 y^2; points are (x, y)"""

    def __init__(self, name, p, a, d, n, h, g, hash_, prefix, always):
        self.name, self.p, self.a, self.d = name, p, a % p, d % p
        self.n, self.h, self.g = n, h, g
        self.hash, self.prefix, self.always = hash_, prefix, always
        self.size = (p.bit_length() + 7) // 8          # field element
        self.adj = p.bit_length() // 8 + 1             # encoded point
        self.nsize = (n.bit_length() + 7) // 8
        self.bits = p.bit_length()
        self.zero = (0, 1)
        self._tab = None
        self.mulg = lru_cache(1 << 17)(self._mulg)
        self.torsion = self._torsion()

    def on(self, P):
        x, y = P
        xx, yy = x * x, y * y
        return (self.a * xx + yy - 1 - self.d * xx * yy) % self.p == 0

    def neg(self, P):
        return -P[0] % self.p, P[1]

    def add(self, P, Q):
        p = self.p
        (x1, y1), (x2, y2) = P, Q
        t = self.d * x1 * x2 * y1 * y2 % p
        return ((x1 * y2 + y1 * x2) * pow(1 + t, -1, p) % p,
                (y1 * y2 - self.a * x1 * x2) * pow(1 - t, -1, p) % p)

    # projective (X : Y : Z), complete since d is not a square
    def _padd(self, P, Q):
        p = self.p
        X1, Y1, Z1 = P
        X2, Y2, Z2 = Q
        A = Z1 * Z2 % p
        B = A * A % p
        C, D = X1 * X2 % p, Y1 * Y2 % p
        E = self.d * C * D % p
        F, G = B - E, B + E
        return (A * F * ((X1 + Y1) * (X2 + Y2) - C - D) % p,
                A * G * (D - self.a * C) % p, F * G % p)

    def _aff(self, P):
        i = pow(P[2], -1, self.p)
        return P[0] * i % self.p, P[1] * i % self.p

    def mul(self, k, P):
        """k any integer, not reduced: P may have a torsion component"""
        if k < 0:
            k, P = -k, self.neg(P)
        T = [(0, 1, 1), (P[0], P[1], 1)]
        for _ in range(14):
            T.append(self._padd(T[-1], T[1]))
        R = T[0]
        for c in "%x" % k:
            for _ in range(4):
                R = self._padd(R, R)
            if c != "0":
                R = self._padd(R, T[int(c, 16)])
        return self._aff(R)

    def _mulg(self, k):
        k %= self.n
        if self._tab is None:
            B = (self.g[0], self.g[1], 1)
            t = []
            for _ in range((self.bits + 3) // 4):
                row = [None, B]
                for _ in range(14):
                    row.append(self._padd(row[-1], B))
                t.append(row)
                B = self._padd(row[-1], B)
            self._tab = t
        R = (0, 1, 1)
        i = 0
        while k:
            if k & 15:
                R = self._padd(R, self._tab[i][k & 15])
            k >>= 4
            i += 1
        return self._aff(R)

    def lift_y(self, y, odd=None):
        p = self.p
        u, v = y * y - 1, self.d * y * y - self.a
        if v % p == 0:
            return None
        x = sqrt(u * pow(v, -1, p), p)
        if x is None:
            return None
        if odd is not None and x & 1 != odd:
            x = -x % p
        return x, y

    def lift_x(self, x, odd=None):
        p = self.p
        u, v = 1 - self.a * x * x, 1 - self.d * x * x
        y = sqrt(u * pow(v, -1, p), p) if v % p else None
        if y is None:
            return None
        if odd is not None and y & 1 != odd:
            y = -y % p
        return x, y

    def _torsion(self):
        """All points of order dividing h, in multiples of a generator."""
        y = 2
        while True:
            P = self.lift_y(y)
            if P is not None:
                T = self.mul(self.n, P)
                pts = [self.zero]
                Q = T
                while Q != self.zero:
                    pts.append(Q)
                    Q = self.add(Q, T)
                if len(pts) == self.h:
                    return pts
            y += 1

    def enc(self, P):
        b = bytearray(P[1].to_bytes(self.adj, "little"))
        b[-1] |= (P[0] & 1) << 7
        return bytes(b)

    def decode(self, b):
        if len(b) != self.adj:
            return None
        odd = b[-1] >> 7
        y = int.from_bytes(b, "little") & ~(1 << 8 * self.adj - 1)
        if y >= self.p:
            return None
        P = self.lift_y(y, odd)
        if P is None or P[0] & 1 != odd:
            return None
        return P

    def fb(self, v):
        return v.to_bytes(self.size, "little")

    def sb(self, v):
        return v.to_bytes(self.nsize, "little")

    def clamp(self, b):
        """RFC 7748 / 8032 clamping of a scalar of nsize bytes"""
        v = int.from_bytes(b, "little")
        v &= (1 << self.bits) - self.h
        v |= 1 << self.bits - 1
        return v & ((1 << self.bits) - 1)


def _gx(p, a, d, y, odd):
    x = sqrt((1 - y * y) * pow(a - d * y * y, -1, p), p)
    return (x if x & 1 == odd else p - x, y)


_P25519 = 2**255 - 19
_P448 = 2**448 - 2**224 - 1
_P251 = 2**251 - 9
_D25519 = -121665 * pow(121666, -1, _P25519) % _P25519
_N25519 = 2**252 + 27742317777372353535851937790883648493
_N448 = 2**446 - _h("8335dc163bb124b65129c96fde933d8d723a70aadc873d6d54a7bb0d")
_N251 = 2**249 - 11332719920821432534773113288178349711

ED = {c.name: c for c in (
    Edwards("ED25519", _P25519, -1, _D25519, _N25519, 8,
            _gx(_P25519, -1, _D25519, 4 * pow(5, -1, _P25519) % _P25519, 0),
            "sha512", b"SigEd25519 no Ed25519 collisions", False),
    Edwards("ED448", _P448, 1, -39081, _N448, 4,
            (_h("4f1970c66bed0ded221d15a622bf36da9e146570470f1767ea6de324a3d3"
                "a46412ae1af72ab66511433b80e18b00938e2626a82bc70cc05e"),
             _h("693f46716eb6bc248876203756c9c7624bea73736ca3984087789c1e05a0"
                "c2d73ad3ff1ce67c39c4fdbd132c4ed7c8ad9808795bf230fa14")),
            "shake256", b"SigEd448", True),
    Edwards("ED1174", _P251, 1, -1174, _N251, 4,
            (_h("037fbb0cea308c479343aee7c029a190c021d96a492ecd6516123f27bce29e"
                "da"),
             _h("06b72f82d47fb7cc6656841169840e0c4fe2dee2af3f976ba4ccb1bf9b4636"
                "0e")),
            "sha512", b"SigEd1174", True),
)}


class Mont:
    """v^2 = u^3 + A u^2 + u; points are (u, v) or None"""

    def __init__(self, name, p, A, n, h, u, ed):
        self.name, self.p, self.A, self.n, self.h = name, p, A, n, h
        self.u = u
        self.ed = ed
        self.size = (p.bit_length() + 7) // 8
        self.bits = p.bit_length()

    def rhs(self, u):
        return (u * u * u + self.A * u * u + u) % self.p

    def ladder(self, k, u):
        """x-only multiplication on curve or twist; None for infinity"""
        p, a24 = self.p, (self.A - 2) // 4
        x1 = u % p
        x2, z2, x3, z3 = 1, 0, x1, 1
        for i in reversed(range(k.bit_length())):
            b = k >> i & 1
            if b:
                x2, z2, x3, z3 = x3, z3, x2, z2
            A, B = x2 + z2, x2 - z2
            AA, BB = A * A % p, B * B % p
            E = AA - BB
            C, D = x3 + z3, x3 - z3
            DA, CB = D * A % p, C * B % p
            x3, z3 = (DA + CB) ** 2 % p, x1 * (DA - CB) ** 2 % p
            x2, z2 = AA * BB % p, E * (AA + a24 * E) % p
            if b:
                x2, z2, x3, z3 = x3, z3, x2, z2
        if z2 == 0:
            return None
        return x2 * pow(z2, -1, p) % p

    def add(self, P, Q):
        if P is None:
            return Q
        if Q is None:
            return P
        p = self.p
        if P[0] == Q[0]:
            if (P[1] + Q[1]) % p == 0:
                return None
            l = (3 * P[0] * P[0] + 2 * self.A * P[0] + 1) * \
                pow(2 * P[1], -1, p) % p
        else:
            l = (Q[1] - P[1]) * pow(Q[0] - P[0], -1, p) % p
        x = (l * l - self.A - P[0] - Q[0]) % p
        return x, (l * (P[0] - x) - P[1]) % p

    def lift(self, u, odd=None):
        v = sqrt(self.rhs(u), self.p)
        if v is None:
            return None
        if odd is not None and v & 1 != odd:
            v = -v % self.p
        return u, v

    def clamp(self, b):
        v = int.from_bytes(b, "little")
        v &= (1 << self.bits) - self.h
        v |= 1 << self.bits - 1
        return v & ((1 << self.bits) - 1)

    def load(self, b):
        """Field element of a public key: unused top bits are ignored."""
        v = int.from_bytes(b, "little") & ((1 << self.bits) - 1)
        return v % self.p

    def fb(self, v):
        return v.to_bytes(self.size, "little")


MONT = {c.name: c for c in (
    Mont("X25519", _P25519, 486662, _N25519, 8, 9, ED["ED25519"]),
    Mont("X448", _P448, 156326, _N448, 4, 5, ED["ED448"]),
)}

LAMBDA = _h("5363ad4cc05c30e0a5261c028812645a122e22ea20816678df02967c1b23bd72")


def edge_scalars(n, level=1):
    """Values at and around the ends, word and window boundaries of [0, n)."""
    b = n.bit_length()
    s = {0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, n - 1, n - 2, n - 3,
         n - 16, n - 17, n // 2, n // 2 + 1, n // 2 - 1, n // 3, 2 * n // 3}
    for k in (31, 32, 63, 64, 65, 127, 128, 129, 191, 192, 255, 256, 383, 384,
              447, 448, 511, 512, b - 1, b // 2):
        if k < b:
            s |= {1 << k, (1 << k) - 1, n - (1 << k)}
            if level > 1:
                s |= {(1 << k) + 1, n - (1 << k) + 1, n - (1 << k) - 1}
    full = (1 << b - 1) - 1
    for pat in (0x5, 0xa, 0x33, 0x0f, 0xf0, 0x11, 0x88, 0x10, 0x1f):
        w = 8 if pat > 15 else 4
        v = 0
        for i in range(0, b, w):
            v |= pat << i
        s.add(v & full)
        if level > 1:
            s.add(n - (v & full))
    if n == WEI["SECP256K1"].n:
        l, l2 = LAMBDA, LAMBDA * LAMBDA % n
        for v in (l, l2):
            s |= {v, n - v, v + 1, v - 1}
            if level > 1:
                s |= {2 * v % n, 3 * v % n, v * ((1 << 127) - 1) % n,
                      v * (1 << 127) % n, (v * (1 << 128) + 5) % n}
    return sorted(v for v in s if 0 <= v < n)


def few_scalars(n):
    b = n.bit_length()
    return [1, 2, 3, n - 1, n - 2, n // 2, n // 2 + 1, 1 << (b - 1), 1 << 64,
            (1 << 128) - 1, n // 3, n // 7 * 5]
