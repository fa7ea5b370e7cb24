"""Inputs whose length needs more than 32 bits, and OpenSSL's results for
them.  All bytes are zero, so that the pages are never really allocated."""

import ctypes as C
import mmap

from . import oracle

STEP = 1 << 26


class Zeros:
    def __init__(self, n):
        self.m = mmap.mmap(-1, n, mmap.MAP_PRIVATE | mmap.MAP_ANONYMOUS)
        self.ptr = C.addressof(C.c_char.from_buffer(self.m))


def _open(name, key, iv):
    c = oracle.crypto()
    x = c.EVP_CIPHER_CTX_new()
    k = c.EVP_CIPHER_fetch(None, name, None)
    assert k and c.EVP_CipherInit_ex(x, k, None, key, iv, 1) == 1
    c.EVP_CIPHER_CTX_set_padding(x, 0)
    return c, x


def _feed(c, x, out, src, n):
    l = C.c_int()
    while n > 0:
        k = min(n, STEP)
        assert c.EVP_CipherUpdate(x, out, C.byref(l), src, k) == 1
        n -= k


def aead(name, key, iv, an, mn):
    """Tag over `an` and `mn` zero bytes, for a 12-byte nonce."""
    c, x = _open(name, key, iv)
    z = Zeros(STEP)
    out = C.create_string_buffer(STEP + 64)
    _feed(c, x, None, z.ptr, an)
    _feed(c, x, out, z.ptr, mn)
    l = C.c_int()
    assert c.EVP_CipherFinal_ex(x, out, C.byref(l)) == 1
    tag = C.create_string_buffer(16)
    assert c.EVP_CIPHER_CTX_ctrl(x, 0x10, 16, tag) == 1
    c.EVP_CIPHER_CTX_free(x)
    return tag.raw


def cbcmac(name, key, head, n):
    """CBC-MAC of head and n zero bytes, padded with zeros to a block."""
    c, x = _open(name, key, bytes(16))
    z = Zeros(STEP)
    out = C.create_string_buffer(STEP + 64)
    l = C.c_int()
    total = len(head) + n
    n += -total % 16
    k = -len(head) % 16
    head += bytes(k)
    n -= k
    assert c.EVP_CipherUpdate(x, out, C.byref(l), head, len(head)) == 1
    last = out.raw[len(head) - 16:len(head)]
    while n > 0:
        k = min(n, STEP)
        assert c.EVP_CipherUpdate(x, out, C.byref(l), z.ptr, k) == 1
        last = C.string_at(C.addressof(out) + k - 16, 16)
        n -= k
    c.EVP_CIPHER_CTX_free(x)
    return last
