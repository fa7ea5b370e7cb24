"""Builds libtorsion from /repo's working tree in the configurations the
checks need.  Objects are cached by content, so nothing stale is ever used."""

import glob
import hashlib
import os
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))

GCC = "/usr/bin/gcc"
CLANG = "clang"

COMMON = ["TORSION_HAVE_CONFIG", "TORSION_HAVE_CLOCK_GETTIME",
          "TORSION_HAVE_FORK", "TORSION_HAVE_GETTIMEOFDAY",
          "TORSION_HAVE_RNG", "TORSION_HAVE_TIME", "TORSION_HAVE_ZLIB"]
THREAD = ["TORSION_HAVE_PTHREAD", "TORSION_TLS=_Thread_local"]
ASM = ["TORSION_HAVE_ASM"]
I128 = ["TORSION_HAVE_INT128"]

REL = ["-O2", "-g", "-DNDEBUG", "-fPIC", "-w"]
SAN = ["-O1", "-g", "-fPIC", "-w", "-fno-omit-frame-pointer",
       "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]

# The 32-bit field code takes minutes to compile with both -O1 and ASan.
SAN0 = ["-O0"] + SAN[1:]

# name -> (compiler, flags, defines, link flags)
VARIANTS = {
    # inline assembly and __int128: what a 64-bit user gets
    "n64": (GCC, REL, COMMON + THREAD + ASM + I128, []),
    # __int128 without assembly
    "i128": (GCC, REL, COMMON + THREAD + I128, []),
    # neither: the 32-bit field back ends and portable limb arithmetic
    "p32": (GCC, REL, COMMON + THREAD, []),
    # with the big-integer words of a 32-bit system too
    "l32": (GCC, REL + ["-include", VERIF + "/mc/env/limb32.h"],
            COMMON + THREAD, []),
    # sanitizers
    "asan64": (GCC, SAN, COMMON + THREAD + ASM + I128,
               ["-fsanitize=address,undefined"]),
    "asan32": (GCC, SAN0, COMMON + THREAD, ["-fsanitize=address,undefined"]),
}


class BuildError(Exception):
    pass


def sources():
    out = sorted(glob.glob(REPO + "/src/*.c") +
                 glob.glob(REPO + "/src/entropy/*.c"))
    if not out:
        raise BuildError("no sources under %s/src" % REPO)
    return out


def headers():
    out = []
    for top in ("/src", "/include"):
        for d, _, fs in os.walk(REPO + top):
            out += [os.path.join(d, f) for f in fs if f.endswith(".h")]
    return sorted(out)


_hdr = None


def header_digest():
    global _hdr
    if _hdr is None:
        h = hashlib.sha256()
        for p in headers():
            h.update(p.encode() + b"\0")
            with open(p, "rb") as f:
                h.update(hashlib.sha256(f.read()).digest())
        _hdr = h.digest()
    return _hdr


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       **kw)
    if r.returncode != 0:
        raise BuildError("command failed: %s\n%s" %
                         (" ".join(cmd), r.stdout.decode("utf8", "replace")))
    return r.stdout


def _commit(tmp, dst):
    os.chmod(tmp, 0o755)
    os.rename(tmp, dst)


def compile_obj(cc, flags, src, extra=b""):
    """Compile one file, cached by the content of it and of all headers."""
    h = hashlib.sha256()
    h.update(repr((cc, flags, os.path.basename(src))).encode())
    with open(src, "rb") as f:
        h.update(f.read())
    h.update(header_digest())
    h.update(extra)
    d = os.path.join(BUILD, "obj")
    os.makedirs(d, exist_ok=True)
    dst = os.path.join(d, h.hexdigest()[:32] + ".o")
    if not os.path.exists(dst):
        fd, tmp = tempfile.mkstemp(dir=d, suffix=".tmp.o")
        os.close(fd)
        try:
            run([cc] + flags + ["-c", src, "-o", tmp])
        except BaseException:
            os.unlink(tmp)
            raise
        _commit(tmp, dst)
    return dst


def variant_flags(name):
    cc, flags, defs, _ = VARIANTS[name]
    return cc, flags + ["-D" + d for d in defs] + ["-I%s/include" % REPO]


def objects(name, override=None):
    """All object files of the library in the given variant."""
    cc, flags = variant_flags(name)
    with ThreadPoolExecutor(8) as ex:
        srcs = sorted(sources(), key=lambda s: -os.path.getsize(s))
        objs = list(ex.map(lambda s: compile_obj(cc, flags, s), srcs))
    return objs


def shared(name):
    """Path of the shared library for a variant."""
    cc, _, _, link = VARIANTS[name]
    objs = objects(name)
    return link_any(cc, ["-shared"] + link, objs, ["-lpthread"],
                    "lib-%s" % name, ".so")


def link_any(cc, pre, objs, post, stem, suffix=""):
    h = hashlib.sha256(repr((cc, pre, sorted(objs), post)).encode())
    d = os.path.join(BUILD, "out")
    os.makedirs(d, exist_ok=True)
    dst = os.path.join(d, "%s-%s%s" % (stem, h.hexdigest()[:24], suffix))
    if not os.path.exists(dst):
        fd, tmp = tempfile.mkstemp(dir=d, suffix=".tmp")
        os.close(fd)
        try:
            run([cc] + pre + ["-o", tmp] + objs + post)
        except BaseException:
            os.unlink(tmp)
            raise
        _commit(tmp, dst)
    return dst


def harness(src, variant, cflags=(), link=(), lib_variant=None):
    """Build a C harness of /verif against the objects of a variant."""
    cc, flags = variant_flags(variant)
    with open(src, "rb") as f:
        pass
    o = compile_obj(cc, flags + list(cflags) + ["-I" + VERIF + "/mc"], src)
    objs = objects(lib_variant or variant)
    extra = VARIANTS[lib_variant or variant][3]
    return link_any(cc, list(extra), [o] + objs,
                    list(link) + ["-lpthread"],
                    os.path.basename(src).replace(".c", "") + "-" + variant)


def ref_so(name):
    """Shared object of a reference implementation in mc/ref."""
    src = os.path.join(VERIF, "mc", "ref", name + ".c")
    o = compile_obj(GCC, ["-O2", "-fPIC", "-w"], src)
    return link_any(GCC, ["-shared"], [o], [], "ref-" + name, ".so")


if __name__ == "__main__":
    for v in sys.argv[1:] or list(VARIANTS):
        print(v, shared(v))
    for r in sorted(glob.glob(VERIF + "/mc/ref/*.c")):
        print(ref_so(os.path.basename(r)[:-2]))
