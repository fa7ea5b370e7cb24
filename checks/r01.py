"""R01: random output never repeats across threads, forks or calls.

Four explorations: all fork/thread/request histories on the real system; all
schedules of two and three threads up to a preemption bound over a scripted
system; all request histories across refills of the word pool; and bounded
integers against the raw words of the same generator state, with bounds chosen
around the rejection threshold."""

import ctypes
import itertools
import mmap
import os
import struct
import threading

from mc import rng
from mc.core import Task

BOUNDS = ("real forks and threads: all histories of 5 (quick) or 6 operations "
          "from {16 bytes, 4 words, fork, new thread}; schedules: 2 threads "
          "with up to 2 requests each, preemption bound 2 (quick) or 3, 3 "
          "threads with bound 1 or 2; request histories: all of length 4 "
          "over {0, 16, 600 bytes, 1, 119, 121 words, fork}; bounded "
          "integers: 64 seeds x 360 words x 70 bounds each")
ASSUMPTIONS = [
    "a process id is not reused by a descendant of the process it belonged to",
    "bounded integers are the raw word modulo the bound, over the words below "
    "the largest multiple of the bound",
    "two different generator states never give the same 64 bits (or, within "
    "one schedule, the same 32-bit word)",
]
LEVEL = "model_checking"
TECHNIQUE = ("explicit-state exploration: stateless search over all thread "
             "schedules up to a preemption bound and all fork/request "
             "histories up to a depth, on the real generator")
LIBS = ("n64",)
STALL = 120


# -- real processes and threads --------------------------------------------

ROW = 256


def walk(L, mm, ops, who):
    """Run the history; children and threads continue it."""
    def put(b):
        with lock:
            (n,) = struct.unpack_from("<I", mm, 0)
            mm[8 + n * ROW:8 + n * ROW + 8] = struct.pack("<II", len(b), 0)
            mm[16 + n * ROW:16 + n * ROW + len(b)] = b
            struct.pack_into("<I", mm, 0, n + 1)
    lock = threading.Lock()
    i = 0
    while i < len(ops):
        op = ops[i]
        i += 1
        if op == "g":
            b = ctypes.create_string_buffer(16)
            if L.torsion_getrandom(b, ctypes.c_size_t(16)) != 1:
                raise RuntimeError("no random bytes")
            put(b.raw)
        elif op == "r":
            out = b""
            for _ in range(4):
                w = ctypes.c_uint32()
                if L.torsion_random(ctypes.byref(w)) != 1:
                    raise RuntimeError("no random word")
                out += struct.pack("<I", w.value)
            put(out)
        elif op == "f":
            pid = os.fork()
            if pid == 0:
                try:
                    walk(L, mm, ops[i:], who + "c")
                    os._exit(0)
                except BaseException:
                    os._exit(1)
            # The child finishes first, so that the record has one writer.
            if os.waitpid(pid, 0)[1] != 0:
                raise RuntimeError("child failed")
        else:
            bad = []

            def rest():
                try:
                    walk(L, mm, ops[i:], who + "t")
                except BaseException as e:
                    bad.append(e)
            t = threading.Thread(target=rest)
            t.start()
            t.join()
            if bad:
                raise bad[0]


def pairs(words):
    for a, b in zip(words, words[1:]):
        yield (a, b) if a < b else (b, a)


def histories(ctx, which, part, parts):
    if which == "locked":
        L = ctypes.CDLL(ctx.cfg["extra"]["locked"])
    else:
        L = ctypes.CDLL(ctx.cfg["paths"]["n64"])
    depth = 5 if ctx.quick else 6
    mm = mmap.mmap(-1, 8 + ROW * 5000)
    for k, ops in enumerate(itertools.product("grft", repeat=depth)):
        ops = "".join(ops)
        if k % parts != part or not ("g" in ops or "r" in ops):
            continue
        ctx.case(which, ops)
        struct.pack_into("<I", mm, 0, 0)
        # A child of its own: every history starts without a seed.
        pid = os.fork()
        if pid == 0:
            try:
                walk(L, mm, ops, "m")
                os._exit(0)
            except BaseException:
                os._exit(1)
        st = os.waitpid(pid, 0)[1]
        ctx.check(st == 0, "a request failed", 0, st)
        (n,) = struct.unpack_from("<I", mm, 0)
        seen = {}
        for j in range(n):
            b = mm[16 + j * ROW:32 + j * ROW]
            ctx.step()
            for p in pairs(struct.unpack("<4I", b)):
                ctx.check(p not in seen, "output %d repeats output %s" %
                          (j, seen.get(p)), "new bytes", b)
                seen[p] = j
            ctx.state(which, ops, j)


# -- schedules -------------------------------------------------------------

# before the threads start, and what each thread does
PROGRAMS = (
    ("", ("g", "g")), ("", ("r", "r")), ("", ("g", "r")), ("", ("u", "u")),
    ("g", ("g", "g")), ("r", ("r", "r")), ("gp", ("g", "g")),
    ("rp", ("r", "r")), ("gr", ("gr", "rg")), ("", ("gg", "gg")),
    ("r", ("b", "r")), ("gp", ("ur", "ru")),
)
TRIPLES = (("", ("g", "g", "g")), ("r", ("r", "g", "r")),
           ("rp", ("r", "r", "g")))


def schedules(ctx, conf, idx, part, parts):
    L = ctypes.CDLL(ctx.cfg["extra"]["sched-" + conf])
    L.sched_init.restype = ctypes.c_void_p
    if not L.sched_init():
        raise RuntimeError("no shared memory")
    before, ps = (PROGRAMS + TRIPLES)[idx]
    bound = 2 if len(ps) == 2 else 1
    if not ctx.quick:
        bound += 1
    arr = (ctypes.c_char_p * len(ps))(*[p.encode() for p in ps])
    for first in range(len(ps)):
        ctx.case(conf, before, ps, "first", first, "bound", bound)
        plan = (ctypes.c_int * 16)()
        runs, steps = ctypes.c_long(), ctypes.c_long()
        msg = ctypes.create_string_buffer(256)
        ok = L.sched_all(before.encode(), arr, len(ps), first, bound, part,
                         parts, plan, ctypes.byref(runs), ctypes.byref(steps),
                         msg, len(msg))
        ctx.states(runs.value)
        ctx.step(steps.value)
        ctx.extra["schedules_" + conf] = \
            ctx.extra.get("schedules_" + conf, 0) + runs.value
        if not ok:
            if msg.value == b"schedule diverges":
                raise RuntimeError("a schedule could not be repeated")
            cut = [(plan[i], plan[i + 1]) for i in range(0, 16, 2)
                   if plan[i] >= 0]
            ctx.fail(msg.value.decode(), "distinct outputs",
                     "preempted at (point, to): %r" % (cut,))


# -- one process: requests across pool refills -----------------------------

OPS = (("b", 0), ("b", 16), ("b", 600), ("w", 1), ("w", 119), ("w", 121),
       ("f", 0))


def sequences(ctx, plat, part, parts):
    L = ctypes.CDLL(ctx.cfg["extra"][plat])
    buf = (ctypes.c_uint32 * 256)()
    guard = ctypes.create_string_buffer(1024)
    for k, ops in enumerate(itertools.product(OPS, repeat=4)):
        if k % parts != part:
            continue
        if ops[-1][0] == "f" or ops[-1] == ("b", 0):
            continue
        ctx.case(plat, ops)
        L.env_begin(ctypes.c_long(-1))
        seen = {}
        for j, (op, n) in enumerate(ops):
            if op == "f":
                L.env_fork()
                continue
            if op == "b":
                ctypes.memset(guard, 0x5c, 1024)
                ctx.eq(L.env_bytes(guard, ctypes.c_size_t(n)), 1, "success")
                ctx.check(guard.raw[n:] == b"\x5c" * (1024 - n), "length")
                words = struct.unpack("<%dI" % (n // 4), guard.raw[:n])
            else:
                ctx.eq(L.env_words(buf, n), n, "words drawn")
                words = tuple(buf[:n])
            for p in pairs(words):
                if p in seen:
                    ctx.fail("request %d repeats bytes of request %d" %
                             (j, seen[p]), "new bytes", p)
                seen[p] = j
            ctx.step(len(words))
        ctx.states(1)


# -- bounded integers ------------------------------------------------------

def bounds(w):
    out = set()
    for k in (1, 2, 3, 4, 5, 7, 8, 16):
        for d in (-1, 0, 1, 2):
            out.add(w // k + d)
    out |= {0, 1, 2, 3, 5, 6, 7, 255, 256, 257, 65535, 65536, 65537,
            1 << 30, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, 0xc0000000,
            0xaaaaaaab, 0x55555556, 0xfffffffe, 0xffffffff}
    # multiples which end exactly at the word, or just after it
    for k in range(1, 9):
        m = -(-w // k)
        out |= {m, m + 1, m - 1}
    return sorted(m for m in out if 0 <= m < 1 << 32)


def bounded(ctx, part, parts):
    L = ctypes.CDLL(ctx.cfg["extra"]["linux"])
    N = 400
    raw = (ctypes.c_uint32 * N)()
    num = ctypes.c_uint32()
    hits = 0
    for seed in range(64):
        if seed % parts != part:
            continue
        L.env_begin(ctypes.c_long(seed))
        ctx.eq(L.env_words(raw, N), N, "words drawn")
        W = list(raw)
        # The word at each position meets every bound once per seed group.
        for rot in range(4 if ctx.quick else 16):
            L.env_begin(ctypes.c_long(seed))
            pos = 0
            n = 0
            while pos < 360:
                bs = bounds(W[pos])
                m = bs[(n * 7 + rot * 13 + seed) % len(bs)]
                n += 1
                ctx.case(seed, rot, pos, m)
                # what the raw words say
                want, nxt = 0, pos
                if m > 1:
                    top = m * ((1 << 32) // m)
                    while W[nxt] >= top:
                        nxt += 1
                        hits += 1
                    want = W[nxt] % m
                    nxt += 1
                ctx.eq(L.torsion_uniform(ctypes.byref(num),
                                         ctypes.c_uint32(m)), 1, "success")
                ctx.eq(num.value, want, "integer below %d from words %r" %
                       (m, W[pos:nxt]))
                if nxt == pos and n % 3 == 0:
                    nxt += 1
                    L.env_words(raw, 1)
                    ctx.eq(raw[0], W[pos], "the next raw word")
                pos = nxt
                ctx.states(1)
    ctx.extra["rejected_words"] = hits


def prepare(tier):
    out = {"locked": rng.locked()}
    for p in ("linux", "linux-hw"):
        out[p] = rng.library(p)
    for c in rng.THREADED:
        out["sched-" + c] = rng.threaded(c)
    return out


def tasks(tier):
    out = []
    for i, (b, ps) in enumerate(PROGRAMS + TRIPLES):
        for c in ("lock", "tls"):
            parts = 1 if tier == "quick" else 6
            if tier == "quick" and len(ps) == 2 and len(ps[0]) > 1:
                parts = 3
            for p in range(parts):
                out.append(Task("schedules-%s-%s-%s-%d" %
                                (c, b or "0", "-".join(ps), p), schedules,
                                (c, i, p, parts), "n64"))
    for w in ("n64", "locked"):
        for p in range(6):
            out.append(Task("forks-%s-%d" % (w, p), histories, (w, p, 6),
                            "n64"))
    for plat in ("linux", "linux-hw"):
        for p in range(3):
            out.append(Task("requests-%s-%d" % (plat, p), sequences,
                            (plat, p, 3), "n64"))
    for p in range(4):
        out.append(Task("bounded-%d" % p, bounded, (p, 4), "n64"))
    return out
