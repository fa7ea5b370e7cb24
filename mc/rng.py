"""Builds of the random number generator for a scripted operating system: the
entropy sources are compiled as for the named platform, every system call is
redirected to mc/env/env.c."""

import os

from . import build

CALL, DEV, UUID, EGD, HW = 1, 2, 4, 8, 16

NOLINUX = ["-U__linux__", "-U__linux", "-Ulinux", "-U__gnu_linux__"]
MSVC = ["-D_MSC_VER=1900", "-D_M_AMD64=100"]
STUB = ["-I" + os.path.join(build.VERIF, "mc", "env", "stub")]

# name -> (flags, sources which can deliver, hardware words, process ids)
PLATFORMS = {
    "linux": ([], CALL | DEV | UUID, False, True),
    "linux-hw": (MSVC, CALL | DEV | UUID, False, True),
    "hwonly": (NOLINUX + MSVC, HW, True, False),
    "none": (NOLINUX, 0, False, False),
    "egd": (NOLINUX + ["-D_UNICOS"], EGD, False, True),
    "bsdi": (NOLINUX + ["-D__bsdi__"], DEV, False, True),
    "hpux": (NOLINUX + ["-D__hpux"], DEV, False, True),
    "watcom": (NOLINUX + ["-D__WATCOMC__=1300", "-D__LINUX__"], DEV, False,
               True),
    "openbsd": (NOLINUX + ["-D__OpenBSD__", "-DOpenBSD=201805"], CALL | DEV,
                False, True),
    "netbsd": (NOLINUX + ["-D__NetBSD_kernel__", "-D__NetBSD_Version__=900000000"],
               CALL | DEV, False, True),
    "freebsd": (NOLINUX + ["-D__FreeBSD_kernel__", "-D__FreeBSD_version=1300000"],
                CALL | DEV, False, True),
    "win32": (NOLINUX + ["-D_WIN32"], CALL, False, False),
}

WRAP = ["syscall", "open", "open64", "openat", "read", "poll", "select",
        "fstat", "fstat64", "close", "fcntl", "fcntl64", "getpid",
        "getrandom", "getentropy", "socket", "connect", "write", "shutdown",
        "abort"]


def special(src):
    return src.endswith("/src/rand.c") or "/src/entropy/" in src


def plain_objects():
    """Everything but the generator and its sources."""
    cc, flags = build.variant_flags("p32")
    return [build.compile_obj(cc, flags, s) for s in build.sources()
            if not special(s)]


def stub_digest():
    out = b""
    for d, _, fs in sorted(os.walk(os.path.join(build.VERIF, "mc", "env"))):
        for f in sorted(fs):
            with open(os.path.join(d, f), "rb") as h:
                out += f.encode() + h.read()
    return out


def library(name):
    """The shared object for a platform."""
    build.objects("p32")
    cc, flags = build.variant_flags("p32")
    extra = stub_digest()
    objs = [build.compile_obj(cc, flags + STUB + PLATFORMS[name][0], s, extra)
            for s in build.sources() if special(s)]
    shim = build.compile_obj(cc, ["-O2", "-fPIC", "-w"], os.path.join(
        build.VERIF, "mc", "env", "env.c"), extra)
    wrap = ["-Wl,--wrap=" + w for w in WRAP]
    return build.link_any(cc, ["-shared", "-Wl,-Bsymbolic"] + wrap,
                          objs + [shim] + plain_objects(), ["-lpthread"],
                          "env-" + name, ".so")


# Thread configurations: thread-local state, or one state with a lock.
THREADED = {
    "tls": ["TORSION_HAVE_PTHREAD", "TORSION_TLS=_Thread_local"],
    "lock": ["TORSION_HAVE_PTHREAD"],
}
LOCKS = ["pthread_mutex_lock", "pthread_mutex_unlock",
         "pthread_mutex_trylock", "pthread_once"]


def threaded(name):
    """The generator over the scripted system and the scheduler."""
    build.objects("p32")
    cc = build.GCC
    extra = stub_digest()
    flags = (["-O1", "-g", "-fPIC", "-w", "-fsanitize=thread", "-DNDEBUG"] +
             ["-D" + d for d in build.COMMON + THREADED[name]] +
             ["-I%s/include" % build.REPO])
    objs = [build.compile_obj(cc, flags, s, extra)
            for s in build.sources() if special(s)]
    for f in ("env.c", "sched.c"):
        objs.append(build.compile_obj(
            cc, ["-O2", "-fPIC", "-w"],
            os.path.join(build.VERIF, "mc", "env", f), extra))
    wrap = ["-Wl,--wrap=" + w for w in WRAP + LOCKS]
    return build.link_any(cc, ["-shared", "-Wl,-Bsymbolic"] + wrap,
                          objs + plain_objects(), ["-lpthread"],
                          "sched-" + name, ".so")


def locked():
    """An ordinary build whose generator is one state behind a lock."""
    build.objects("p32")
    cc = build.GCC
    flags = (build.REL + ["-D" + d for d in build.COMMON + THREADED["lock"] +
                          build.ASM] + ["-I%s/include" % build.REPO])
    objs = [build.compile_obj(cc, flags, s)
            for s in build.sources() if special(s)]
    return build.link_any(cc, ["-shared"], objs + plain_objects(),
                          ["-lpthread"], "lib-locked", ".so")
