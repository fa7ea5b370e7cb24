"""R02: entropy and random requests against every sequence of answers.

The entropy code of each platform is built over a scripted operating system
(mc/env/env.c); a depth-first search replays the request for every sequence of
answers with at most a given number of deviations from health.  What the
sources delivered is recovered from the output by replaying with other
streams, so that the oracle needs no knowledge of the code."""

import ctypes

from mc import build, rng
from mc.core import Task

BOUNDS = ("12 platforms; every sequence of answers of the system calls with "
          "at most 3 to 4 (quick) or 4 to 5 (thorough) deviations from full success; "
          "request sizes 0..600; histories of up to 3 requests with forks; "
          "hardware: deviations at the first 12 and around the 1024th word")
ASSUMPTIONS = [
    "getrandom(2) returns at least one byte or an error",
    "an rdseed instruction which passed its self-test keeps working",
    "an answer repeats at most the stated number of times: endless "
    "interruption is not modelled",
    "platforms other than Linux are represented by their preprocessor "
    "symbols and stub headers; one which does not compile that way is skipped",
]
LEVEL = "fault_enumeration"
TECHNIQUE = ("stateless model checking: depth-first enumeration of all "
             "environment answer sequences up to a fault bound, on the real "
             "entropy code over a scripted system")
RULE = ("one evaluation per answered system call or hardware step; distinct "
        "cases are the answer sequences, different by construction")
LIBS = ()
STALL = 200


class Step(ctypes.Structure):
    _fields_ = [("op", ctypes.c_int), ("size", ctypes.c_int)]


SIZES = (0, 1, 2, 13, 14, 15, 28, 29, 64, 255, 256, 257, 511, 512, 513, 600)
DEEP = (1, 3, 15, 257)

# requests: entropy, random bytes, a word, a bounded word; P: forked
HISTORIES = ("G16", "G600", "R", "U", "R G16", "G16 P G16", "G16 P R",
             "E16 G16", "R P R", "G16 P U P G32", "P G0 G8")


def scenarios(name, tier):
    _, _, words, pids = rng.PLATFORMS[name]
    more = 0 if tier == "quick" else 1
    for n in SIZES:
        k = 3 if n not in DEEP else 4
        if words and n > 16:
            k = 1
        yield "E%d" % n, k + more
    for n in ((1, 16), (256, 1), (257, 20)):
        yield "E%d E%d" % n, 1 + more
    if name.startswith("linux"):
        # getrandom, open, read and sysctl fail for good
        for d in (1, 3, 5, 9, 11, 13):
            for h in ("E15", "E28", "G16", "R"):
                yield "D%d %s" % (d, h), 2 + more
        yield "G16 D11 P G16", 2 + more
    for h in HISTORIES:
        if words and h not in ("G16", "R"):
            continue
        if "P" in h and not pids:
            continue
        k = 3 if h.count("P") == 0 else 2
        if words:
            k = 1
        if h.count("P") > 1:
            k = 1
        yield h, k + more


def parse(h):
    out = []
    for w in h.split():
        out.append(Step(ord(w[0]), int(w[1:] or "0")))
    return (Step * len(out))(*out)


def explore(ctx, name, part, parts):
    path = ctx.cfg["extra"].get(name)
    if path is None:
        ctx.extra["skipped_" + name] = 1
        return
    L = ctypes.CDLL(path)
    _, srcs, words, pids = rng.PLATFORMS[name]
    todo = list(scenarios(name, ctx.tier))
    for i, (h, bound) in enumerate(todo):
        if i % parts != part:
            continue
        ctx.case(name, h, bound)
        paths, total = ctypes.c_long(), ctypes.c_long()
        msg = ctypes.create_string_buffer(1024)
        steps = parse(h)
        ok = L.env_explore(steps, len(steps), srcs, int(words), int(not pids),
                           bound, ctypes.byref(paths), ctypes.byref(total),
                           msg, len(msg))
        ctx.states(paths.value)
        ctx.step(total.value)
        ctx.extra["sequences_" + name] = \
            ctx.extra.get("sequences_" + name, 0) + paths.value
        if not ok:
            ctx.fail(msg.value.decode(), "property holds", h)


def prepare(tier):
    out, errors = {}, []
    for name in rng.PLATFORMS:
        try:
            out[name] = rng.library(name)
        except build.BuildError:
            if name == "linux":
                raise
    return out


def tasks(tier):
    out = []
    for name in rng.PLATFORMS:
        parts = 9 if name in ("linux", "linux-hw", "egd") else 2
        for i in range(parts):
            out.append(Task("%s-%d" % (name, i), explore, (name, i, parts),
                            "p32"))
    return out
