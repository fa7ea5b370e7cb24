"""A build of the library over a heap that looks into released blocks."""

import os

from . import build

WRAP = ["malloc", "calloc", "realloc", "free"]


def library(variant):
    cc, _, _, link = build.VARIANTS[variant]
    objs = build.objects(variant)
    o = build.compile_obj(build.GCC, ["-O2", "-fPIC", "-w", "-fno-builtin"],
                          os.path.join(build.VERIF, "mc", "env", "wipe.c"))
    return build.link_any(cc, ["-shared", "-Wl,-Bsymbolic"] + link +
                          ["-Wl,--wrap=" + w for w in WRAP], objs + [o],
                          ["-lpthread"], "wipe-" + variant, ".so")
