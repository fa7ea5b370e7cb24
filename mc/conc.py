"""Programs of library calls, run alone and in two threads under a scheduler."""

import ctypes as C
import os
import re
from concurrent.futures import ThreadPoolExecutor

from . import build
from .lib import HEADERS, Lib, _split_args, _strip

INSTR = ["-O1", "-g", "-DNDEBUG", "-fPIC", "-w", "-U_FORTIFY_SOURCE",
         "-fno-stack-protector", "-fno-builtin", "-fsanitize=thread"]
WRAP = ["memcpy", "memmove", "memset", "memcmp", "malloc", "calloc",
        "realloc", "free", "pthread_mutex_lock", "pthread_mutex_unlock",
        "pthread_mutex_trylock", "pthread_once"]
MAXT, MAXC, MAXA, MAXO, MAXP = 2, 64, 14, 64, 20000


def library(variant):
    """(scheduler, library compiled for it)"""
    cc, flags = build.variant_flags(variant)
    defs = [f for f in flags if f.startswith(("-D", "-I"))]
    env = os.path.join(build.VERIF, "mc", "env")
    srcs = sorted(build.sources(), key=lambda s: -os.path.getsize(s))
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda s: build.compile_obj(cc, INSTR + defs, s),
                           srcs + [os.path.join(env, "fault.c")]))
    o = build.compile_obj(build.GCC, ["-O2", "-fPIC", "-w", "-fno-builtin"],
                          os.path.join(env, "conc.c"))
    sched = build.link_any(build.GCC, ["-shared"], [o], ["-lpthread"],
                           "conc-sched", ".so")
    # no -fsanitize: the calls are resolved by the scheduler
    lib = build.link_any(cc, ["-shared", "-Wl,-Bsymbolic", "-Wl,-z,now"] +
                         ["-Wl,--wrap=" + w for w in WRAP], objs,
                         ["-lpthread"], "conc-" + variant, ".so")
    return [sched, lib]


def prototypes():
    """name -> (result type, [(type, parameter name)])"""
    out = {}
    for h in HEADERS:
        with open("%s/include/torsion/%s.h" % (build.REPO, h)) as f:
            t = _strip(f.read())
        t = re.sub(r"^#.*?(?<!\\)$", "", t, flags=re.M)
        for m in re.finditer(r"(?:TORSION_EXTERN|MP_EXTERN)\s+([^;{}]*?);", t,
                             re.S):
            d = " ".join(m.group(1).split())
            if "##" in d or "..." in d:
                continue
            k = d.find("(")
            mm = re.match(r"(.*?)(\w+)$", d[:k].strip())
            args = []
            for a in _split_args(d[k + 1:d.rfind(")")]):
                a = a.strip()
                if a == "void":
                    continue
                fp = re.match(r"(.*)\(\*(\w+)\)\(", a)
                if fp:
                    args.append(("function", fp.group(2)))
                    continue
                am = re.match(r"(.*?)(\w+)$", a)
                args.append((am.group(1).replace(" ", ""), am.group(2)))
            out[mm.group(2)] = (mm.group(1).replace(" ", ""), args)
    return out


class Call(C.Structure):
    _fields_ = [("fn", C.c_uint64), ("nargs", C.c_uint64),
                ("mask", C.c_uint64), ("kind", C.c_uint64 * MAXA),
                ("arg", C.c_uint64 * MAXA)]


class Prog(C.Structure):
    _fields_ = [("ncalls", C.c_uint64), ("nouts", C.c_uint64),
                ("call", Call * MAXC), ("out", C.c_uint64 * MAXO),
                ("len", C.c_uint64 * MAXO), ("init", C.c_uint64 * MAXO)]


class Result(C.Structure):
    _fields_ = [("state", C.c_int), ("bad", C.c_char * 200),
                ("accesses", C.c_uint64), ("hash", C.c_uint64 * MAXT),
                ("ret", (C.c_uint64 * MAXC) * MAXT),
                ("top", C.c_size_t * MAXT), ("points", C.c_int),
                ("preempted", C.c_int), ("thread", C.c_ubyte * MAXP)]


class Ret:
    """The result of an earlier call of the program."""

    def __init__(self, i):
        self.i = i


class At:
    """The word a pointer leads to, when the call is made."""

    def __init__(self, p):
        self.p = p


class Program:
    """Calls, with inputs shared by all programs and objects of its own."""

    def __init__(self, rig, name):
        self.rig, self.name = rig, name
        self.p = Prog()
        self.addr = C.addressof(self.p)

    def out(self, n, init=None):
        """A result of n bytes, compared afterwards."""
        p, k = self.p, self.p.nouts
        p.out[k] = self.rig.alloc(0, n)
        p.len[k] = n
        if init is not None:
            p.init[k] = self.rig.bytes(init)
        p.nouts = k + 1
        return p.out[k]

    def word(self, v=0):
        return self.out(8, (v & (1 << 64) - 1).to_bytes(8, "little"))

    def obj(self, n):
        """An object of n bytes the program alone uses."""
        return self.rig.alloc(0, n)

    def call(self, name, *args, fn=None):
        k = self.p.ncalls
        c = self.p.call[k]
        c.fn = fn or self.rig.fn(name)
        c.mask = self.rig.mask(name)
        c.nargs = len(args)
        for i, a in enumerate(args):
            if a is None:
                a = 0
            elif isinstance(a, (bytes, bytearray)):
                a = self.rig.bytes(bytes(a))
            elif isinstance(a, Ret):
                c.kind[i], a = 1, a.i
            elif isinstance(a, At):
                c.kind[i], a = 2, a.p
            c.arg[i] = a & (1 << 64) - 1
        self.p.ncalls = k + 1
        return Ret(k)


class Rig:
    def __init__(self, ctx, paths):
        self.s = s = C.CDLL(paths[0], mode=C.RTLD_GLOBAL)
        self.L = Lib(paths[1], ctx.cfg["consts"])
        self.protos = prototypes()
        s.conc_alloc.restype = C.c_void_p
        s.conc_alloc.argtypes = [C.c_int, C.c_size_t]
        s.conc_result.restype = C.POINTER(Result)
        s.conc_size.restype = C.c_uint64
        for f, a in ((s.conc_alone, [C.c_void_p, C.c_void_p, C.c_int]),
                     (s.conc_record, [C.c_void_p, C.c_void_p]),
                     (s.conc_pair, [C.c_void_p, C.c_void_p, C.c_int, C.c_int,
                                    C.c_void_p, C.c_int]),
                     (s.conc_words, [C.c_int, C.c_void_p, C.c_int]),
                     (s.conc_start, [C.c_void_p])):
            f.argtypes = a
        if s.conc_size(0) != C.sizeof(Prog) or s.conc_size(1) != C.sizeof(Call):
            raise RuntimeError("layout of programs")
        if not s.conc_start(C.cast(self.L._dll.fault_none, C.c_void_p).value):
            raise RuntimeError("no memory to share")
        self.res = s.conc_result().contents
        self._bytes, self._fn = {}, {}
        self.words = (C.c_uint64 * 100000)()

    def alloc(self, shared, n):
        return self.s.conc_alloc(shared, max(n, 1))

    def bytes(self, b):
        """Shared input; the same bytes are at the same place."""
        if b not in self._bytes:
            p = self.alloc(1, len(b) + 1)
            C.memmove(p, b + b"\0", len(b) + 1)
            self._bytes[b] = p
        return self._bytes[b]

    def pointers(self, items):
        p = self.alloc(1, 8 * len(items) + 8)
        a = (C.c_uint64 * len(items)).from_address(p)
        for i, b in enumerate(items):
            a[i] = self.bytes(b)
        q = self.alloc(1, 8 * len(items) + 8)
        a = (C.c_uint64 * len(items)).from_address(q)
        for i, b in enumerate(items):
            a[i] = len(b)
        return p, q

    def shared(self, name, *args):
        """Make a shared object with a function of the library."""
        self.s.conc_setup(1)
        try:
            return getattr(self.L, name)(*args)
        finally:
            self.s.conc_setup(0)

    def fn(self, name):
        if name not in self._fn:
            self._fn[name] = C.cast(getattr(self.L, name), C.c_void_p).value
        return self._fn[name]

    def helper(self, name):
        return C.cast(getattr(self.s, name), C.c_void_p).value

    def mask(self, name):
        t = self.protos.get(name, ("void", []))[0]
        if t == "void" or "*" in t or t == "mpz_srcptr":
            return 0
        if t in ("int", "unsignedint", "uint32_t"):
            return 0xffffffff
        return (1 << 64) - 1

    # -- runs --------------------------------------------------------------

    def alone(self, p, before=None):
        """-> (fault or None, hash)"""
        self.s.conc_alone(p.addr, before.addr if before else 0,
                          int(before is not None))
        r = self.res
        return r.bad.decode() or None, r.hash[0]

    def written(self, flag=12):
        n = self.s.conc_words(flag, self.words, len(self.words))
        return set(self.words[:n])

    def pair(self, p, q, first=0, points=(), every=False):
        """-> (fault or None, (hash, hash), [running thread per point])"""
        a = (C.c_int * max(len(points), 1))(*points)
        self.s.conc_pair(p.addr, q.addr, first, int(every), a, len(points))
        r = self.res
        return (r.bad.decode() or None, (r.hash[0], r.hash[1]),
                bytes(r.thread[:r.points]))
