"""A build of the library over a heap that refuses chosen requests."""

import os

from . import build

WRAP = ["malloc", "calloc", "realloc", "free", "abort"]


def library(variant):
    cc, _, _, link = build.VARIANTS[variant]
    objs = build.objects(variant)
    o = build.compile_obj(build.GCC, ["-O2", "-fPIC", "-w", "-fno-builtin"],
                          os.path.join(build.VERIF, "mc", "env", "oom.c"))
    return build.link_any(cc, ["-shared", "-Wl,-Bsymbolic"] + link +
                          ["-Wl,--wrap=" + w for w in WRAP], objs + [o],
                          ["-lpthread"], "oom-" + variant, ".so")
