"""E01: base encodings.

Encoding is enumerated over byte strings, decoding over strings of an
alphabet with valid, padding and foreign characters plus every single-byte
change of valid texts.  Oracle: regrouping of the big integer; a text is
accepted exactly if it is the encoding of something."""

import ctypes as C
import itertools

from mc import texts
from mc.core import Task
from mc.lib import Out

BOUNDS = ("encode: all byte strings of length 0..2, all strings of length 3..6 "
          "over 6 edge bytes, lengths 0..300; decode: all strings up to "
          "length 4 over 13 characters and up to 8-9 over 5, every byte at "
          "every position of valid texts of length up to 24, every tail value")
ASSUMPTIONS = ["definitions transcribed in mc/texts.py"]

DATA = bytes((i * 167 + i // 256 + 43) & 255 for i in range(4096))


class Codec:
    def __init__(self, ctx, name):
        self.ctx, self.L, self.name = ctx, ctx.lib, name
        self.n = C.c_size_t()
        self.pn = C.byref(self.n)
        self.o = Out(0)
        base = name.split("/")[0]
        self.base = base
        self.pad = None
        if base.startswith("base32"):
            self.pad = int(name.split("/")[1])
        g = lambda f: getattr(self.L, base + "_" + f, None)
        self.encode_, self.decode_, self.test_ = (g("encode"), g("decode"),
                                                  g("test"))
        self.encode_size, self.decode_size = g("encode_size"), g("decode_size")

    # reference
    def enc(self, b):
        t = self.base
        if t == "base16":
            return b.hex().encode()
        if t == "base16le":
            return b[::-1].hex().encode()
        if t == "base32":
            return texts.b_enc(b, texts.B32, 5, self.pad)
        if t == "base32hex":
            return texts.b_enc(b, texts.B32HEX, 5, self.pad)
        if t == "base58":
            return texts.b58_enc(b)
        if t == "base64":
            return texts.b_enc(b, texts.B64, 6, True)
        return texts.b_enc(b, texts.B64URL, 6, False)

    def dec(self, s):
        t = self.base
        if t.startswith("base16"):
            if len(s) % 2 or any(chr(c) not in "0123456789abcdefABCDEF"
                                 for c in s):
                return None
            b = bytes.fromhex(s.decode())
            return b if t == "base16" else b[::-1]
        if t == "base32":
            return texts.b_dec(s, texts.B32, 5, self.pad, True)
        if t == "base32hex":
            return texts.b_dec(s, texts.B32HEX, 5, self.pad, True)
        if t == "base58":
            return texts.b58_dec(s)
        if t == "base64":
            return texts.b_dec(s, texts.B64, 6, True, False)
        return texts.b_dec(s, texts.B64URL, 6, False, False)

    # library
    def buf(self, n):
        o = self.o
        if o.n != n:
            self.o = o = Out(n)
        return o.reset()

    def extra(self):
        return () if self.pad is None else (self.pad,)

    def check_encode(self, b):
        ctx = self.ctx
        want = self.enc(b)
        if self.base == "base58":
            size = len(want)
        else:
            size = self.encode_size(len(b), *self.extra())
            ctx.eq(size, len(want), "announced encoded size")
            if size != len(want):
                return
        o = self.buf(size + 1)
        r = self.encode_(o, self.pn, b, len(b), *self.extra())
        if self.base == "base58":
            ctx.eq(r, 1, "encoding refused")
        ctx.eq(o.get(), want + b"\0", "encoded text")
        ctx.eq(self.n.value, len(want), "encoded length")
        ctx.check(o.intact(), "encoded text exceeds its size")
        self.check_decode(want, b)

    def check_decode(self, s, want=False):
        ctx = self.ctx
        if want is False:
            want = self.dec(s)
        if self.base == "base58":
            size = len(s)
        elif self.base.startswith("base16"):
            size = self.decode_size(len(s))
            ctx.eq(size, len(s) // 2, "announced decoded size")
        else:
            size = self.decode_size(s, len(s))
        if size > len(s) + 8:
            ctx.fail("announced decoded size", len(s), size)
            return
        o = self.buf(size)
        self.n.value = 1 << 40
        r = self.decode_(o, self.pn, s, len(s), *self.extra())
        ctx.eq(r, int(want is not None), "decoding accepts")
        ctx.check(o.intact(), "decoded data exceeds the announced size")
        ctx.eq(self.test_(s, len(s), *self.extra()), int(want is not None),
               "validity test accepts")
        if r == 1 and want is not None:
            ctx.eq(self.n.value, len(want), "decoded length")
            if self.base != "base58":
                ctx.eq(size, len(want), "announced decoded size")
            ctx.eq(o.get(len(want)), want, "decoded data")


def encode_small(ctx, name):
    k = Codec(ctx, name)
    for n in (0, 1, 2):
        for v in range(256 ** n):
            b = v.to_bytes(n, "big")
            ctx.case(name, b.hex())
            ctx.states(1)
            k.check_encode(b)


def encode_more(ctx, name):
    k = Codec(ctx, name)
    al = (0, 1, 0x7f, 0x80, 0xfe, 0xff)
    for n in (3, 4, 5, 6) if ctx.quick else (3, 4, 5, 6, 7):
        for t in itertools.product(al, repeat=n):
            b = bytes(t)
            ctx.case(name, b.hex())
            ctx.state(b)
            k.check_encode(b)
    for n in range(0, 301):
        for f in (lambda: DATA[:n], lambda: b"\xff" * n, lambda: bytes(n),
                  lambda: bytes(n // 2) + b"\xff" * (n - n // 2),
                  lambda: b"\x01" + bytes(n - 1) if n else b""):
            b = f()
            ctx.case(name, "length", n, b[:2].hex(), b[-2:].hex())
            ctx.state(b)
            k.check_encode(b)
    # every byte at every position of a quantum
    for n in (3, 5, 8):
        for p in range(n):
            for v in range(256):
                b = DATA[:p] + bytes([v]) + DATA[p + 1:n]
                ctx.case(name, "byte", n, p, v)
                ctx.state(b)
                k.check_encode(b)
    # length argument may be absent
    o = Out(32)
    ctx.case(name, "no length")
    k.encode_(o, None, b"abc", 3, *k.extra())
    w = k.enc(b"abc")
    ctx.eq(o.get(len(w) + 1), w + b"\0", "text without length")
    o = Out(3)
    ctx.eq(k.decode_(o, None, w, len(w), *k.extra()), 1, "decode")
    ctx.eq(o.get(), b"abc", "data without length")


def alphabets(base):
    if base.startswith("base16"):
        return b"0f9aAFgG/:@`\0", b"0fA=\xff"
    if base == "base32":
        return b"abqyZ72=1!\x80\xff\0", b"abq=!"
    if base == "base32hex":
        return b"01gvV9f=wW\x80\xff\0", b"01g=!"
    if base == "base58":
        return b"12zAZ9a0OIl\xff\0", b"12z0="
    if base == "base64":
        return b"ABQgw/+=-_\x80\xff\0", b"AQE=-"
    return b"ABQgw-_=+/\x80\xff\0", b"AQE=+"


def decode_strings(ctx, name, first):
    k = Codec(ctx, name)
    big, small = alphabets(k.base)
    if first is None:
        for n in range(0, 5):
            for t in itertools.product(big, repeat=n):
                s = bytes(t)
                ctx.case(name, s)
                ctx.states(1)
                k.check_decode(s)
        return
    top = 8 if k.base.startswith("base32") else 7
    if not ctx.quick:
        top += 1
    for n in range(5, top + 1):
        for t in itertools.product(small, repeat=n - 1):
            s = bytes((small[first],) + t)
            ctx.case(name, s)
            ctx.states(1)
            k.check_decode(s)


def decode_changes(ctx, name):
    k = Codec(ctx, name)
    for n in list(range(0, 17)):
        for base in (DATA[n:2 * n], bytes(n), b"\xff" * n):
            s = k.enc(base)
            for p in range(len(s)):
                for v in range(256):
                    t = s[:p] + bytes([v]) + s[p + 1:]
                    ctx.case(name, "change", n, p, v, base[:1])
                    ctx.states(1)
                    k.check_decode(t)
            for p in range(len(s) + 1):
                ctx.case(name, "cut", n, p)
                k.check_decode(s[:p])
                k.check_decode(s[p:])
                for ins in (b"=", b"A", b"a", b" ", b"\n", b"1", b"0"):
                    k.check_decode(s[:p] + ins + s[p:])
            for m in range(1, 10):
                ctx.case(name, "padding", n, m)
                ctx.state("p", n, m, base)
                k.check_decode(s + b"=" * m)
                k.check_decode(s.rstrip(b"=") + b"=" * m)
                k.check_decode(s.rstrip(b"="))
    # letter case
    for n in range(0, 17):
        s = k.enc(DATA[:n])
        for t in (s.upper(), s.lower(), s.swapcase()):
            ctx.case(name, "case", n, t)
            k.check_decode(t)


NAMES = ("base16", "base16le", "base32/0", "base32/1", "base32hex/0",
         "base32hex/1", "base58", "base64", "base64url")


def tasks(tier):
    texts.selftest()
    ts = []
    for n in NAMES:
        ts.append(Task("encode small/" + n, encode_small, (n,)))
        ts.append(Task("encode more/" + n, encode_more, (n,)))
        ts.append(Task("strings/" + n, decode_strings, (n, None)))
        for i in range(5):
            ts.append(Task("strings/%s/%d" % (n, i), decode_strings, (n, i)))
        ts.append(Task("changes/" + n, decode_changes, (n,)))
    return ts
