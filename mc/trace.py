"""Builds of the library that record the blocks they execute and the addresses
they touch, and the comparison of two such records."""

import ctypes as C
import os
import subprocess

from . import build
from .lib import Lib, ctxbuf

INSTR = ["-O1", "-g", "-DNDEBUG", "-fPIC", "-w", "-U_FORTIFY_SOURCE",
         "-fno-stack-protector", "-fcf-protection=none",
         "-fno-builtin-memcmp", "-fno-builtin-bcmp", "-fno-builtin-strcmp",
         "-fsanitize=kernel-address", "-fsanitize-coverage=trace-pc"]
for _p in ("asan-instrumentation-with-call-threshold=0", "asan-stack=0",
           "asan-globals=0"):
    INSTR += ["--param", _p]

WRAP = ["memcpy", "memmove", "memset", "memcmp", "bcmp", "strcmp", "malloc",
        "calloc", "realloc", "free"]
CHUNK = 4096


def library(variant, only=None):
    """Traced build; only: base names to instrument (default: all)."""
    cc, flags = build.variant_flags(variant)
    defs = [f for f in flags if f.startswith(("-D", "-I"))]
    plain = dict(zip(sorted(build.sources(),
                            key=lambda s: -os.path.getsize(s)),
                     build.objects(variant))) if only else {}

    def one(s):
        if only and os.path.basename(s) not in only:
            return plain[s]
        return build.compile_obj(cc, INSTR + defs, s)
    from concurrent.futures import ThreadPoolExecutor
    srcs = sorted(build.sources(), key=lambda s: -os.path.getsize(s))
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, srcs))
    objs.append(build.compile_obj(
        cc, ["-O2", "-fPIC", "-w", "-fno-builtin"],
        os.path.join(build.VERIF, "mc", "env", "trace.c")))
    return build.link_any(
        cc, ["-shared", "-Wl,-Bsymbolic"] +
        ["-Wl,--wrap=" + w for w in WRAP], objs, ["-lpthread", "-ldl"],
        "trace-%s%s" % (variant, "-part" if only else ""), ".so")


class Tracer:
    def __init__(self, path, consts, heap=True):
        self.path = path
        self.lib = Lib(path, consts)
        d = self.lib._dll
        d.trace_marks.restype = C.POINTER(C.c_uint64)
        d.trace_log.argtypes = [C.c_uint64, C.c_uint64, C.c_void_p]
        d.trace_offset.argtypes = [C.c_uint64]
        d.trace_offset.restype = C.c_long
        d.trace_heap(int(heap))
        self._run = d.trace_run
        self._run.argtypes = [C.c_void_p, C.c_void_p, C.c_void_p]
        self._fn = {}
        self._args = (C.c_uint64 * 12)()
        self._out = (C.c_uint64 * 3)()
        self.calls = []
        self.events = 0
        self._want = None
        self._marks = None
        self._keep = []

    def buf(self, n=256):
        """Storage at a fixed address."""
        b = ctxbuf(max(n, 1))
        self._keep.append(b)
        return b

    def fn(self, name):
        f = self._fn.get(name)
        if f is None:
            f = self._fn[name] = C.cast(getattr(self.lib, name),
                                        C.c_void_p).value
        return f

    def run(self, name, *args):
        """One traced call; pointers are buffers, the rest integers."""
        a = self._args
        for i, v in enumerate(args):
            if v is None:
                v = 0
            elif not isinstance(v, int):
                v = C.addressof(v)
            a[i] = v & 0xffffffffffffffff
        for i in range(len(args), 12):
            a[i] = 0
        if self._want and self._want[0] == len(self.calls):
            self.lib._dll.trace_log(*self._want[1:])
        self._run(self.fn(name), a, self._out)
        self.lib._dll.trace_log(0, 0, None)
        r, n, h = self._out
        self.calls.append((name, n, h))
        self.events += n
        if self._marks is not None:
            self._marks.append(
                self.lib._dll.trace_marks()[:min(n // CHUNK, 65535)])
        return C.c_int(r & 0xffffffff).value

    def session(self, go, *a):
        self.calls = []
        key = go(*a)
        return key, tuple(self.calls)

    def _where(self, pc):
        off = self.lib._dll.trace_offset(pc)
        if off < 0:
            return "?"
        r = subprocess.run(["addr2line", "-f", "-s", "-e", self.path,
                            hex(off - 1)], stdout=subprocess.PIPE)
        f = r.stdout.decode().split("\n")
        return "%s (%s)" % (f[0], f[1] if len(f) > 1 else "?")

    def differ(self, go, a, b):
        """Where two executions part."""
        try:
            self._marks = []
            _, ca = self.session(go, *a)
            ma, self._marks = self._marks, []
            _, cb = self.session(go, *b)
            mb, self._marks = self._marks, None
            if ca == cb:
                return "not repeatable"
            k = 0
            while k < min(len(ca), len(cb)) and ca[k] == cb[k]:
                k += 1
            if k >= min(len(ca), len(cb)):
                return "number of calls"
            i = 0
            while i < min(len(ma[k]), len(mb[k])) and ma[k][i] == mb[k][i]:
                i += 1
            logs = []
            for v in (a, b):
                log = (C.c_uint64 * (2 * CHUNK))()
                self._want = (k, i * CHUNK, (i + 1) * CHUNK, log)
                self.session(go, *v)
                logs.append(log[:])
            self._want = None
            la, lb = logs
            j = 0
            while j < 2 * CHUNK and la[j:j + 2] == lb[j:j + 2]:
                j += 2
            before = self._where(la[j - 2]) if j else "start of chunk"
            return "%s: event %d, after %s: %s at %#x, other %s at %#x" % (
                ca[k][0], i * CHUNK + j // 2, before,
                self._where(la[j]), la[j + 1], self._where(lb[j]), lb[j + 1])
        finally:
            self._want = self._marks = None


def put(buf, data):
    C.memmove(buf, bytes(data), len(data))


def compare(ctx, t, name, go, secrets, label=repr):
    """All executions with one public outcome must leave the same record.

    go(*secret) performs the traced calls and returns the public outcome."""
    first = {}
    for s in secrets:
        if not isinstance(s, tuple):
            s = (s,)
        lab = [v.hex() if isinstance(v, bytes) else
               hex(v) if isinstance(v, int) else v for v in s]
        ctx.case(name, *lab)
        n = t.events
        key, calls = t.session(go, *s)
        ctx.step(t.events - n)
        if key not in first:
            first[key] = (s, lab, calls)
            # The record must be a function of the inputs.
            if t.session(go, *s)[1] != calls:
                ctx.fail("%s: two runs with equal inputs differ" % name)
                return
        elif first[key][2] != calls:
            ctx.fail("%s: trace depends on the secret" % name,
                     "as with %r" % (first[key][1],),
                     t.differ(go, first[key][0], s))
            return
        ctx.state(name, key, *s)
    ctx.extra.setdefault("operations", 0)
    ctx.extra["operations"] += 1
    ctx.extra.setdefault("outcomes", 0)
    ctx.extra["outcomes"] += len(first)
