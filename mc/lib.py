"""ctypes access to a build of libtorsion.  Prototypes, symbol aliases,
enumerators and sizes are taken from the headers of the tree under test."""

import ctypes
import os
import re
import subprocess

from . import build

C = ctypes
WORD = int(os.environ.get("MC_WORD", "64"))      # bits of a big-integer word
_PTR = C.c_void_p

_BASE = {
    "void": None, "int": C.c_int, "unsigned int": C.c_uint,
    "unsigned": C.c_uint, "size_t": C.c_size_t, "char": C.c_char,
    "unsigned char": C.c_ubyte, "long": C.c_long,
    "uint8_t": C.c_uint8, "uint16_t": C.c_uint16,
    "uint32_t": C.c_uint32, "uint64_t": C.c_uint64, "int32_t": C.c_int32,
    "int64_t": C.c_int64,
    "mp_limb_t": C.c_uint64 if WORD == 64 else C.c_uint32,
    "mp_long_t": C.c_int64 if WORD == 64 else C.c_int32,
    "mp_size_t": C.c_long,
    "mp_bits_t": C.c_long, "mp_bitcnt_t": C.c_long,
    "mpz_ptr": _PTR, "mpz_srcptr": _PTR, "mp_ptr": _PTR, "mp_srcptr": _PTR,
    "mpz_t": _PTR,
}

HEADERS = ["aead", "cipher", "drbg", "dsa", "ecc", "encoding", "hash", "ies",
           "kdf", "mac", "mpi", "rand", "rsa", "stream", "util"]


def _strip(text):
    text = re.sub(r"/\*.*?\*/", " ", text, flags=re.S)
    return re.sub(r"//[^\n]*", " ", text)


def _ctype(decl, enums):
    decl = decl.strip()
    if "*" in decl or "(" in decl or "[" in decl or decl.endswith("_f"):
        return _PTR
    words = [w for w in decl.split() if w not in ("const", "enum", "struct")]
    for n in range(len(words), 0, -1):
        t = " ".join(words[:n])
        if t in _BASE:
            return _BASE[t]
        if t in enums:
            return C.c_int
    raise KeyError(decl)


def _split_args(s):
    out, depth, cur = [], 0, ""
    for ch in s:
        if ch == "(":
            depth += 1
        elif ch == ")":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return out


_parsed = None


def parse_headers():
    """(aliases, prototypes, enumerator names, struct typedef names)"""
    global _parsed
    if _parsed:
        return _parsed
    alias, protos, enums, enumers, structs = {}, {}, set(), [], []
    texts = []
    for h in HEADERS:
        with open("%s/include/torsion/%s.h" % (build.REPO, h)) as f:
            t = _strip(f.read())
        texts.append(t)
        for m in re.finditer(r"^#\s*define\s+(\w+)\s+(torsion_\w+)\s*$", t,
                             re.M):
            alias[m.group(1)] = m.group(2)
        for m in re.finditer(r"typedef\s+enum\s*\w*\s*\{(.*?)\}\s*(\w+)\s*;",
                             t, re.S):
            enums.add(m.group(2))
            for e in m.group(1).split(","):
                e = e.split("=")[0].strip()
                if e:
                    enumers.append(e)
    for t in texts:
        body = re.sub(r"^#.*?(?<!\\)$", "", t, flags=re.M)
        for m in re.finditer(r"(?:TORSION_EXTERN|MP_EXTERN)\s+([^;{}]*?);",
                             body, re.S):
            d = " ".join(m.group(1).split())
            k = d.find("(")
            mm = re.match(r"(.*?)(\w+)$", d[:k].strip())
            ret, name = mm.group(1), mm.group(2)
            args = d[k + 1:d.rfind(")")]
            if "..." in args:
                continue
            av = []
            try:
                if args.strip() not in ("void", ""):
                    for a in _split_args(args):
                        av.append(_ctype(a, enums))
                if "*" in ret:
                    rt = _PTR
                else:
                    rt = _ctype(ret, enums) if ret.strip() != "void" else None
            except KeyError:
                continue
            protos[name] = (rt, av)
    _parsed = (alias, protos, enumers, structs)
    return _parsed


def constants():
    """Values of all enumerators, and mpz/limb sizes."""
    _, _, enumers, _ = parse_headers()
    src = "#include <stdio.h>\n"
    for h in HEADERS:
        src += "#include <torsion/%s.h>\n" % h
    src += "int main(void) {\n"
    for e in enumers:
        src += '  printf("%s %%ld\\n", (long)%s);\n' % (e, e)
    src += '  printf("MPZ_SIZE %ld\\n", (long)sizeof(mpz_t));\n'
    src += "  return 0;\n}\n"
    d = os.path.join(build.BUILD, "probe")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "probe-%d.c" % os.getpid())
    with open(path, "w") as f:
        f.write(src)
    try:
        o = build.compile_obj(build.GCC, ["-w", "-O0", "-I%s/include" %
                                          build.REPO], path, src.encode())
    finally:
        os.unlink(path)
    exe = build.link_any(build.GCC, [], [o], [], "probe")
    out = subprocess.run([exe], stdout=subprocess.PIPE, check=True).stdout
    return {k: int(v) for k, v in
            (l.split() for l in out.decode().splitlines())}


class Lib:
    """Attribute access resolves library functions and enumerators."""

    def __init__(self, path, consts):
        self._dll = C.CDLL(path)
        self._alias, self._protos, _, _ = parse_headers()
        self._consts = consts

    def __getattr__(self, name):
        if name in self._consts:
            v = self._consts[name]
        else:
            f = None
            for cand in (self._alias.get(name), "torsion_" + name, name):
                if cand is None:
                    continue
                try:
                    f = getattr(self._dll, cand)
                    break
                except AttributeError:
                    pass
            if f is None:
                raise AttributeError(name)
            if name in self._protos:
                f.restype, f.argtypes = self._protos[name]
            v = f
        self.__dict__[name] = v
        return v


def ctxbuf(n=65536, align=64):
    """Zeroed, aligned storage for an opaque context."""
    raw = C.create_string_buffer(n + align)
    off = -C.addressof(raw) % align
    buf = (C.c_char * n).from_buffer(raw, off)
    return buf


class Out:
    """Output buffer with guard bytes on both sides."""
    G = 32

    def __init__(self, n, fill=0xA5):
        self.n = n
        self.raw_ = C.create_string_buffer(n + 2 * self.G)
        self.fill = fill
        C.memset(self.raw_, fill, n + 2 * self.G)
        self.ptr = C.addressof(self.raw_) + self.G
        self._as_parameter_ = C.c_void_p(self.ptr)

    def reset(self):
        C.memset(self.raw_, self.fill, self.n + 2 * self.G)
        return self

    def set(self, data):
        C.memmove(self.ptr, data, len(data))
        return self

    def get(self, n=None):
        n = self.n if n is None else n
        return C.string_at(self.ptr, n)

    def intact(self):
        """True if the guards are untouched."""
        r = self.raw_.raw
        g = bytes([self.fill]) * self.G
        return r[:self.G] == g and r[self.G + self.n:] == g
