"""Calls into a sanitized build with every buffer exactly sized."""

import ctypes as C
import os
import subprocess

from . import build
from .lib import HEADERS, Lib

WRAP = ["malloc", "calloc", "realloc", "free"]
VERDICT = {1: "the result depends on uninitialised memory",
           2: "an output depends on uninitialised memory",
           3: "an input was modified", 4: "memory is leaked"}


FILL = 0xa5

# What failing calls leave in their outputs: zeros (True), or zeros or nothing.
CLEAN = {}
for _n in ("bip340_privkey_export bip340_privkey_import bip340_pubkey_create "
           "bip340_pubkey_import ecdh_derive ecdh_privkey_import "
           "ecdh_pubkey_export ecdsa_privkey_export ecdsa_privkey_import "
           "ecdsa_privkey_invert ecdsa_privkey_negate ecdsa_privkey_tweak_mul "
           "ecdsa_sig_import ecdsa_sig_import_lax eddsa_privkey_import "
           "ristretto_derive ristretto_privkey_export "
           "ristretto_privkey_import ristretto_privkey_invert "
           "ristretto_privkey_negate rsa_decrypt_key").split():
    CLEAN[_n] = True
for _n in ("dsa_derive dsa_params_create dsa_params_export dsa_params_import "
           "dsa_privkey_create dsa_privkey_export dsa_privkey_import "
           "dsa_pubkey_create dsa_pubkey_export dsa_pubkey_import dsa_sign "
           "dsa_sig_export dsa_sig_import rsa_decrypt rsa_decrypt_oaep "
           "rsa_encrypt rsa_encrypt_oaep rsa_privkey_export "
           "rsa_privkey_import rsa_pubkey_create rsa_pubkey_export "
           "rsa_pubkey_import rsa_sign rsa_sign_pss rsa_veil rsa_unveil "
           "bcrypt_generate bcrypt_hash bcrypt_pbkdf scrypt_derive").split():
    CLEAN[_n] = False


def library(variant):
    cc, _, _, link = build.VARIANTS[variant]
    objs = build.objects(variant)
    o = build.compile_obj(build.GCC, ["-O1", "-g", "-fPIC", "-w"],
                          os.path.join(build.VERIF, "mc", "env", "guard.c"))
    return build.link_any(cc, ["-shared", "-Wl,-Bsymbolic"] + link +
                          ["-Wl,--wrap=" + w for w in WRAP], objs + [o],
                          ["-lpthread"], "guard-" + variant, ".so")


def values(exprs):
    """Values of C expressions over the public headers."""
    src = "#include <stdio.h>\n"
    for h in HEADERS:
        src += "#include <torsion/%s.h>\n" % h
    src += "int main(void) {\n"
    for e in exprs:
        src += '  printf("%%lu\\n", (unsigned long)(%s));\n' % e
    src += "  return 0;\n}\n"
    d = os.path.join(build.BUILD, "probe")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "guard-%d.c" % os.getpid())
    with open(path, "w") as f:
        f.write(src)
    try:
        o = build.compile_obj(build.GCC, ["-w", "-O0", "-I%s/include" %
                                          build.REPO], path, src.encode())
    finally:
        os.unlink(path)
    exe = build.link_any(build.GCC, [], [o], [], "probe")
    out = subprocess.run([exe], stdout=subprocess.PIPE, check=True).stdout
    return dict(zip(exprs, map(int, out.split())))


class _Arg(C.Structure):
    _fields_ = [("kind", C.c_uint64), ("val", C.c_uint64),
                ("len", C.c_uint64), ("copy", C.c_void_p)]


class _Part(C.Structure):
    _fields_ = [("ptr", C.c_void_p), ("len", C.c_uint64)]


class O:
    """An output of n bytes."""

    def __init__(self, n):
        self.n = n


class Z:
    """A size_t (or, with w, smaller) the function writes or updates."""

    def __init__(self, init=-1, w=8):
        self.init, self.w = init & 0xffffffffffffffff, w


class Guard:
    def __init__(self, ctx, path):
        self.ctx = ctx
        self.L = Lib(path, ctx.cfg["consts"])
        self._dll = self.L._dll
        self._run = self._dll.guard_run
        self._run.argtypes = [C.c_void_p, C.c_void_p, C.c_int, C.c_int,
                              C.c_void_p]
        self._dll.guard_alloc.restype = C.c_void_p
        self._args = (_Arg * 12)()
        self._res = (C.c_uint64 * 4)()
        self._copy = [C.create_string_buffer(1 << 16) for _ in range(12)]
        self._pa = C.addressof(self._args)
        self._pr = C.addressof(self._res)
        self._addr = [C.addressof(b) for b in self._copy]
        self._fn = {}

    def alloc(self, n):
        """A persistent context of exactly n bytes."""
        return self._dll.guard_alloc(C.c_size_t(n))

    def fn(self, name):
        f = self._fn.get(name)
        if f is None:
            f = self._fn[name] = C.cast(getattr(self.L, name),
                                        C.c_void_p).value
        return f

    def call(self, name, *args, void=False, once=False, alloc=False,
             limit=True):
        """-> (value, list of outputs); wrong memory use is reported."""
        a = self._args
        outs, keep = [], []
        for i, v in enumerate(args):
            d = a[i]
            if v is None:
                d.kind, d.val = 0, 0
            elif isinstance(v, int):
                d.kind, d.val = 0, v & 0xffffffffffffffff
            elif isinstance(v, bytes):
                p = C.c_char_p(v)
                keep.append(p)
                d.kind, d.val, d.len = 1, C.cast(p, C.c_void_p).value, len(v)
            elif isinstance(v, O):
                d.kind, d.len, d.copy = 2, v.n, self._addr[i]
                outs.append((i, v.n, O))
            elif isinstance(v, Z):
                d.kind, d.val, d.len, d.copy = 3, v.init, v.w, self._addr[i]
                outs.append((i, v.w, Z))
            else:
                parts = (_Part * max(len(v), 1))()
                for j, b in enumerate(v):
                    p = C.c_char_p(b)
                    keep.append(p)
                    parts[j].ptr, parts[j].len = C.cast(p, C.c_void_p), len(b)
                keep.append(parts)
                d.kind, d.val, d.len = 4, C.addressof(parts), len(v)
        self._run(self.fn(name), self._pa, len(args),
                  int(void) | 2 * int(once) | 4 * int(alloc), self._pr)
        r = self._res
        self.ctx.transitions += 1 if once else 2
        if r[1]:
            self.ctx.fail("%s: %s" % (name, VERDICT[r[1]]), None,
                          "argument %d, at %d" % (r[2], C.c_int64(r[3]).value))
        res = []
        for i, n, k in outs:
            b = C.string_at(self._addr[i], n)
            res.append(b if k is O else int.from_bytes(b, "little"))
        v = C.c_int(r[0]).value
        if v == 0 and not void and name in CLEAN:
            for (i, n, k), b in zip(outs, res):
                if k is O and b.count(0) != n and (
                        CLEAN[name] or b.count(FILL) != n):
                    self.ctx.fail("%s: output after a failure" % name,
                                  "all zero" + " or untouched" *
                                  (not CLEAN[name]), b)
        if limit and not void and v == 1:
            # a reported length is within the buffer before it
            for (i, n, k), (j, m, l) in zip(outs, outs[1:]):
                if k is O and l is Z and m == 8:
                    ln = res[outs.index((j, m, l))]
                    if ln > n:
                        self.ctx.fail("%s: length beyond the output" % name,
                                      "at most %d" % n, ln)
        return v, res
