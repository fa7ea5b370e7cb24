"""Cipher modes written from their definitions over a block reference."""


def xor(a, b):
    n = min(len(a), len(b))
    return (int.from_bytes(a[:n], "big") ^
            int.from_bytes(b[:n], "big")).to_bytes(n, "big")


def pad(m, bs):
    n = bs - len(m) % bs
    return m + bytes([n]) * n


def unpad(m, bs):
    """None if the padding is not valid."""
    if not m or len(m) % bs:
        return None
    n = m[-1]
    if n < 1 or n > bs or m[-n:] != bytes([n]) * n:
        return None
    return m[:-n]


def ecb(ref, enc, m):
    return ref.run(enc, m) if m else b""


def cbc(ref, enc, iv, m, bs):
    out = []
    if enc:
        for i in range(0, len(m), bs):
            iv = ref.run(1, xor(iv, m[i:i + bs]))
            out.append(iv)
        return b"".join(out)
    return xor(ref.run(0, m), iv + m[:-bs]) if m else b""


def cts(ref, enc, iv, m, bs):
    """CBC-CS3: the last two blocks always swapped; one block and up."""
    part = len(m) % bs
    if len(m) < bs:
        return None
    if enc:
        # pad the tail with zeros, encrypt, swap, truncate
        full = cbc(ref, 1, iv, m + bytes(bs - part), bs)
        a, b = full[-2 * bs:-bs], full[-bs:]
        return full[:-2 * bs] + b + a[:part]
    head, last = m[:len(m) - part], m[len(m) - part:]
    b = head[-bs:]
    d = ref.run(0, b)
    tail = xor(d, last + bytes(bs - part))[:part]
    a = last + d[part:]
    pre = head[:-bs]
    return cbc(ref, 0, iv, pre + a, bs) + tail


def double_le(t):
    n = len(t)
    v = int.from_bytes(t, "little") << 1
    if v >> (8 * n):
        v ^= 1 << (8 * n)
        v ^= 0x87 if n == 16 else 0x1b
    return v.to_bytes(n, "little")


def xts(ref, ref2, enc, iv, m, bs):
    if len(m) < bs:
        return None
    t = ref2.run(1, iv)
    part = len(m) % bs
    n = len(m) // bs
    tw = []
    for _ in range(n + 1):
        tw.append(t)
        t = double_le(t)

    def one(b, t):
        return xor(ref.run(enc, xor(b, t)), t)
    if part == 0:
        return b"".join(one(m[i * bs:i * bs + bs], tw[i]) for i in range(n))
    out = [one(m[i * bs:i * bs + bs], tw[i]) for i in range(n - 1)]
    p, q = m[(n - 1) * bs:n * bs], m[n * bs:]
    if enc:
        cc = one(p, tw[n - 1])
        return b"".join(out) + one(q + cc[part:], tw[n]) + cc[:part]
    pp = one(p, tw[n])
    return b"".join(out) + one(q + pp[part:], tw[n - 1]) + pp[:part]


def ctr(ref, iv, m, bs, width=None):
    n = (len(m) + bs - 1) // bs
    if n == 0:
        return b""
    w = bs if width is None else width
    c = int.from_bytes(iv[bs - w:], "big")
    ks = b"".join(iv[:bs - w] + ((c + i) % (1 << (8 * w))).to_bytes(w, "big")
                  for i in range(n))
    return xor(ref.run(1, ks), m)


def cfb(ref, enc, iv, m, bs):
    out = b""
    for i in range(0, len(m), bs):
        o = xor(ref.run(1, iv), m[i:i + bs])
        iv = o if enc else m[i:i + bs]
        out += o
    return out


def ofb(ref, iv, m, bs):
    ks = b""
    while len(ks) < len(m):
        iv = ref.run(1, iv)
        ks += iv
    return xor(ks, m)


# -- authenticated modes ---------------------------------------------------

R = 0xe1 << 120


def gmul(x, y):
    z = 0
    for i in range(127, -1, -1):
        if (x >> i) & 1:
            z ^= y
        y = (y >> 1) ^ (R if y & 1 else 0)
    return z


class Ghash:
    def __init__(self, h):
        # table[i][byte] = byte at position i times H
        y, pw = h, []
        for _ in range(128):
            pw.append(y)
            y = (y >> 1) ^ (R if y & 1 else 0)
        self.t = []
        for i in range(16):
            row = [0] * 256
            for b in range(256):
                v = 0
                for k in range(8):
                    if b & (0x80 >> k):
                        v ^= pw[8 * i + k]
                row[b] = v
            self.t.append(row)

    def mul(self, x):
        z = 0
        t = self.t
        for i in range(16):
            z ^= t[i][(x >> (120 - 8 * i)) & 255]
        return z

    def run(self, data, y=0):
        for i in range(0, len(data), 16):
            b = data[i:i + 16]
            y = self.mul(y ^ int.from_bytes(b + bytes(16 - len(b)), "big"))
        return y


def pad16(b):
    return b + bytes(-len(b) % 16)


class Gcm:
    def __init__(self, ref):
        self.ref = ref
        self.h = int.from_bytes(ref.run(1, bytes(16)), "big")
        self.g = Ghash(self.h)

    def j0(self, iv):
        if len(iv) == 12:
            return iv + b"\0\0\0\1"
        return self.g.run(pad16(iv) + (8 * len(iv)).to_bytes(16, "big")
                          ).to_bytes(16, "big")

    def crypt(self, enc, iv, aad, m):
        j = self.j0(iv)
        c = (int.from_bytes(j[12:], "big") + 1) & 0xffffffff
        o = ctr(self.ref, j[:12] + c.to_bytes(4, "big"), m, 16, 4)
        ct = o if enc else m
        s = self.g.run(pad16(aad) + pad16(ct) + (8 * len(aad)).to_bytes(8, "big")
                       + (8 * len(ct)).to_bytes(8, "big"))
        return o, xor(s.to_bytes(16, "big"), self.ref.run(1, j))


def ccm(ref, enc, nonce, aad, m, tl):
    """RFC 3610."""
    q = 15 - len(nonce)
    a0 = bytes([q - 1]) + nonce + bytes(q)
    o = ctr(ref, a0[:15] + b"\1", m, 16, q)
    pt = m if enc else o
    b0 = (bytes([64 * bool(aad) + 8 * ((tl - 2) // 2) + q - 1]) + nonce +
          len(m).to_bytes(q, "big"))
    a = b""
    if aad:
        if len(aad) < 0xff00:
            a = len(aad).to_bytes(2, "big") + aad
        else:
            a = b"\xff\xfe" + len(aad).to_bytes(4, "big") + aad
        a = pad16(a)
    x = cbc(ref, 1, bytes(16), b0 + a + pad16(pt), 16)[-16:]
    return o, xor(x, ref.run(1, a0))[:tl]


def double_be(t):
    n = len(t)
    v = int.from_bytes(t, "big") << 1
    if v >> (8 * n):
        v ^= 1 << (8 * n)
        v ^= 0x87 if n == 16 else 0x1b
    return v.to_bytes(n, "big")


def omac(ref, bs, t, m):
    k1 = double_be(ref.run(1, bytes(bs)))
    k2 = double_be(k1)
    m = bytes(bs - 1) + bytes([t]) + m
    r = len(m) % bs
    if r:
        m = m + b"\x80" + bytes(bs - r - 1)
        k = k2
    else:
        k = k1
    m = m[:-bs] + xor(m[-bs:], k)
    return cbc(ref, 1, bytes(bs), m, bs)[-bs:]


def eax(ref, bs, enc, nonce, aad, m):
    n = omac(ref, bs, 0, nonce)
    h = omac(ref, bs, 1, aad)
    o = ctr(ref, n, m, bs)
    c = omac(ref, bs, 2, o if enc else m)
    return o, xor(xor(n, h), c)
