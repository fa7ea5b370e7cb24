"""SP 800-90A generators as state machines."""

from mc import ciphers, modes, oracle


class Hmac:
    def __init__(self, name, seed):
        self.name = name
        n = oracle.HASHES[name][0]
        self.k, self.v = bytes(n), b"\1" * n
        self.update(seed)

    def mac(self, m):
        return oracle.hmac(self.name, self.k, m)

    def update(self, data):
        self.k = self.mac(self.v + b"\0" + data)
        self.v = self.mac(self.v)
        if data:
            self.k = self.mac(self.v + b"\1" + data)
            self.v = self.mac(self.v)

    reseed = update

    def generate(self, n, add=b""):
        if add:
            self.update(add)
        out = b""
        while len(out) < n:
            self.v = self.mac(self.v)
            out += self.v
        self.update(add)
        return out[:n]


class Hash:
    def __init__(self, name, seed):
        size, _, self.h = oracle.HASHES[name]
        self.size = size
        self.len = 55 if size <= 32 else 111
        self.v = self.df(seed)
        self.c = self.df(b"\0" + self.v)
        self.ctr = 1

    def df(self, m):
        out, i = b"", 1
        bits = (8 * self.len).to_bytes(4, "big")
        while len(out) < self.len:
            out += self.h(bytes([i]) + bits + m)
            i += 1
        return out[:self.len]

    def add(self, v, *xs):
        n = int.from_bytes(v, "big") + sum(xs)
        return (n % (1 << (8 * self.len))).to_bytes(self.len, "big")

    def reseed(self, data):
        self.v = self.df(b"\1" + self.v + data)
        self.c = self.df(b"\0" + self.v)
        self.ctr = 1

    def generate(self, n, add=b""):
        num = lambda b: int.from_bytes(b, "big")
        if add:
            self.v = self.add(self.v, num(self.h(b"\2" + self.v + add)))
        data, out = self.v, b""
        while len(out) < n:
            out += self.h(data)
            data = self.add(data, 1)
        h = self.h(b"\3" + self.v)
        self.v = self.add(self.v, num(h), num(self.c), self.ctr)
        self.ctr += 1
        return out[:n]


class Ctr:
    def __init__(self, bits, df, entropy, pers):
        self.kl = bits // 8
        self.sl = self.kl + 16
        self.usedf = df
        self.set(bytes(self.sl))
        self.update(self.mix(entropy, pers))

    def set(self, kv):
        self.k, self.v = kv[:self.kl], kv[self.kl:]
        self.aes = ciphers.make("AES%d" % (8 * self.kl), self.k)

    def stream(self, n):
        v = int.from_bytes(self.v, "big")
        blocks = b"".join(((v + 1 + i) % (1 << 128)).to_bytes(16, "big")
                          for i in range((n + 15) // 16))
        self.v = ((v + (n + 15) // 16) % (1 << 128)).to_bytes(16, "big")
        return self.aes.run(True, blocks)[:n] if blocks else b""

    def update(self, data):
        t = self.stream(self.sl)
        self.set(modes.xor(t, data + bytes(self.sl - len(data))))

    def mix(self, a, b):
        if self.usedf:
            return self.df(a + b)
        a = a + bytes(self.sl - len(a))
        return modes.xor(a, b + bytes(self.sl - len(b)))

    def df(self, m):
        s = len(m).to_bytes(4, "big") + self.sl.to_bytes(4, "big") + m + b"\x80"
        s += bytes(-len(s) % 16)
        aes = ciphers.make("AES%d" % (8 * self.kl), bytes(range(self.kl)))
        t = b""
        i = 0
        while len(t) < self.sl:
            iv = i.to_bytes(4, "big") + bytes(12)
            t += modes.cbc(aes, True, bytes(16), iv + s, 16)[-16:]
            i += 1
        aes = ciphers.make("AES%d" % (8 * self.kl), t[:self.kl])
        x, out = t[self.kl:self.sl], b""
        while len(out) < self.sl:
            x = aes.run(True, x)
            out += x
        return out[:self.sl]

    def reseed(self, entropy, add):
        self.update(self.mix(entropy, add))

    def generate(self, n, add=b""):
        if add and self.usedf:
            add = self.df(add)
        if add:
            self.update(add)
        out = self.stream(n)
        self.update(add)
        return out
