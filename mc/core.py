"""Task runner: enumerates the tasks of a check, runs each in a process of its
own, collects counts and failures, replays failures, writes the evidence."""

import importlib
import json
import mmap
import os
import re
import resource
import signal
import subprocess
import sys
import tempfile
import time

from . import build, lib

MAXFAIL = 3          # failures recorded per task
SLOT = 4096          # bytes of the "current case" area


class Fail(Exception):
    """Raised by Ctx.fail once a task has recorded enough failures."""


class Task:
    def __init__(self, name, fn, args=(), variant="n64", env=None):
        self.name = name
        self.fn = fn
        self.args = args
        self.variant = variant
        self.env = env or {}


class Ctx:
    """Handed to the task function."""

    def __init__(self, task, tier, libs, slot, known):
        self.task = task
        self.tier = tier
        self.quick = tier == "quick"
        self._libs = libs
        self._slot = slot
        self.variant = task.variant
        self.transitions = 0
        self.traces = 0
        self._states = set()
        self._bulk = 0
        self.samples = []
        self.failures = []
        self.known = known
        self.known_seen = []
        self.extra = {}
        self.cur = None
        self._n = 0

    @property
    def lib(self):
        return self._libs(self.variant)

    @property
    def each(self):
        """(variant, library) of every build the check asks for in LIBS: one
        oracle value then serves all back ends."""
        return [(v, self._libs(v)) for v in self.cfg["paths"]]

    def case(self, *desc):
        """Begin a case; desc identifies it completely."""
        self.cur = desc
        n = self._n = self._n + 1
        s = self._slot
        if s is not None:
            b = repr(desc).encode()[:SLOT - 32]
            s[16:16 + len(b)] = b
            s[0:16] = b"%08x%08x" % (n & 0xffffffff, len(b))
        if n & (n - 1) == 0 and len(self.samples) < 12:
            self.samples.append(repr(desc)[:300])
        self.traces += 1

    def beat(self):
        """Sign of life inside one long case."""
        self._n += 1
        if self._slot is not None:
            self._slot[0:8] = b"%08x" % (self._n & 0xffffffff)

    def state(self, *key):
        self._states.add(hash(key))

    def states(self, n):
        """n states known to be distinct from each other and from the rest."""
        self._bulk += n

    def step(self, n=1):
        self.transitions += n

    def fail(self, what, expected=None, actual=None):
        def show(v):
            if isinstance(v, (bytes, bytearray)):
                v = v.hex()
            return repr(v)[:600]
        rec = {"case": repr(self.cur)[:1500], "what": what,
               "expected": show(expected), "actual": show(actual)}
        for k in self.known:
            if re.search(k["match"], rec["case"] + " | " + rec["what"]):
                if k["id"] not in self.known_seen:
                    self.known_seen.append(k["id"])
                return
        self.failures.append(rec)
        if len(self.failures) >= MAXFAIL:
            raise Fail()

    def check(self, cond, what, expected=None, actual=None):
        self.transitions += 1
        if not cond:
            self.fail(what, expected, actual)

    def eq(self, actual, expected, what):
        self.transitions += 1
        if actual != expected:
            self.fail(what, expected, actual)

    def result(self):
        return {"transitions": self.transitions, "traces": self.traces,
                "states": len(self._states) + self._bulk, "samples": self.samples,
                "failures": self.failures, "known": self.known_seen,
                "extra": self.extra}


def load_known(prop):
    path = os.path.join(build.VERIF, "known-findings.json")
    try:
        with open(path) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in data.get("known", []) if k["property"] == prop]


# -- worker side -----------------------------------------------------------

def worker(argv):
    """run.py --worker PROP TIER TASK SLOTFILE OUTFILE LIBSJSON"""
    prop, tier, tname, slotfile, outfile, libsjson = argv
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    with open(libsjson) as f:
        cfg = json.load(f)
    mod = importlib.import_module("checks." + prop.lower())
    task = [t for t in mod.tasks(tier) if t.name == tname][0]
    fd = os.open(slotfile, os.O_RDWR)
    slot = mmap.mmap(fd, SLOT)
    cache = {}

    def libs(v):
        if v not in cache:
            cache[v] = lib.Lib(cfg["paths"][v], cfg["consts"])
        return cache[v]
    ctx = Ctx(task, tier, libs, slot, load_known(prop))
    ctx.cfg = cfg
    try:
        task.fn(ctx, *task.args)
    except Fail:
        pass
    except Exception:
        # A wrong result already recorded may well have upset the rest.
        if not ctx.failures:
            raise
    with open(outfile + ".tmp", "w") as f:
        json.dump(ctx.result(), f)
    os.rename(outfile + ".tmp", outfile)
    sys.stdout.flush()
    os._exit(0)


# -- controller side -------------------------------------------------------

class Running:
    def __init__(self, prop, tier, task, work, libsjson, stall):
        self.task = task
        self.stall = stall
        base = os.path.join(work, re.sub(r"\W", "_", task.name) +
                            ".%d" % time.monotonic_ns())
        self.slot = base + ".slot"
        self.out = base + ".json"
        self.log = base + ".log"
        with open(self.slot, "wb") as f:
            f.write(b"\0" * SLOT)
        env = dict(os.environ)
        env["PYTHONHASHSEED"] = "0"
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        if task.variant.startswith("asan"):
            pre = subprocess.run([build.GCC, "-print-file-name=libasan.so"],
                                 stdout=subprocess.PIPE).stdout.decode()
            ub = subprocess.run([build.GCC, "-print-file-name=libubsan.so"],
                                stdout=subprocess.PIPE).stdout.decode()
            env["LD_PRELOAD"] = pre.strip() + " " + ub.strip()
            env["PYTHONMALLOC"] = "malloc"
            env["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=1:"
                                   "allocator_may_return_null=1:"
                                   "handle_segv=1:detect_stack_use_after_return=0")
            env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
        env["MC_WORD"] = "32" if task.variant == "l32" else "64"
        env.update(task.env)
        self.logf = open(self.log, "wb")
        self.p = subprocess.Popen(
            [sys.executable, os.path.join(build.VERIF, "mc", "run.py"),
             "--worker", prop, tier, task.name, self.slot, self.out,
             libsjson],
            stdin=subprocess.DEVNULL, stdout=self.logf,
            stderr=subprocess.STDOUT, env=env, start_new_session=True,
            cwd=work)
        self.seen = None
        self.last = self.t0 = time.monotonic()

    def current(self):
        with open(self.slot, "rb") as f:
            b = f.read()
        try:
            n = int(b[8:16], 16)
        except ValueError:
            return "(before the first case)"
        return b[16:16 + n].decode("utf8", "replace")

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()

    def poll(self):
        """None while running, else a result dict."""
        rc = self.p.poll()
        now = time.monotonic()
        if rc is None:
            with open(self.slot, "rb") as f:
                b = f.read(16)
            if b != self.seen:
                self.seen, self.last = b, now
            elif now - self.last > self.stall:
                self.kill()
                return self.bad("hang", "no progress for %d s" % self.stall)
            return None
        self.logf.close()
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        if rc == 0 and os.path.exists(self.out):
            with open(self.out) as f:
                return json.load(f)
        with open(self.log, "rb") as f:
            log = f.read().decode("utf8", "replace")
        if rc < 0 or "AddressSanitizer" in log or "runtime error:" in log:
            return self.bad("crash", "process ended by %s\n%s" %
                            (rc, log[-3000:]))
        return {"error": "worker of task %s failed (exit %s):\n%s" %
                (self.task.name, rc, log[-4000:])}

    def bad(self, kind, msg):
        return {"transitions": 0, "traces": 0, "states": 0, "samples": [],
                "known": [], "extra": {}, "abnormal": kind,
                "failures": [{"case": self.current(), "what": kind,
                              "expected": "normal return", "actual": msg}]}


def run_tasks(prop, tier, tasks, work, libsjson, stall, jobs=8, stop=None):
    todo = list(tasks)
    live, results = [], {}
    while todo or live:
        while todo and len(live) < jobs:
            live.append(Running(prop, tier, todo.pop(0), work, libsjson,
                                stall))
        for r in list(live):
            res = r.poll()
            if res is not None:
                live.remove(r)
                results[r.task.name] = res
                if stop and stop(res):
                    for x in live:
                        x.kill()
                    return results
        time.sleep(0.01)
    return results


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--task", help="run only tasks matching this regexp")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.monotonic()
    sys.path.insert(0, build.VERIF)
    mod = importlib.import_module("checks." + prop.lower())
    evdir = os.path.join(build.VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    try:
        tasks = mod.tasks(tier)
        names = [t.name for t in tasks]
        assert len(set(names)) == len(names), "task names must be unique"
        if a.task:
            tasks = [t for t in tasks if re.search(a.task, t.name)]
        cfg = {"paths": {}, "consts": lib.constants(), "extra": {}}
        need = set(t.variant for t in tasks) | set(getattr(mod, "LIBS", ()))
        for v in sorted(need):
            if v in build.VARIANTS:
                cfg["paths"][v] = build.shared(v)
        if hasattr(mod, "prepare"):
            cfg["extra"] = mod.prepare(tier)
    except build.BuildError as e:
        print("BUILD-ERROR property=%s\n%s" % (prop, e))
        return 3
    tb = time.monotonic() - t0
    stall = getattr(mod, "STALL", 60)
    with tempfile.TemporaryDirectory(prefix="mc-%s-" % prop) as work:
        libsjson = os.path.join(work, "cfg.json")
        with open(libsjson, "w") as f:
            json.dump(cfg, f)
        results = run_tasks(prop, tier, tasks, work, libsjson, stall, a.jobs,
                            lambda r: r.get("failures"))
        errors = [r["error"] for r in results.values() if "error" in r]
        bad = {n: r for n, r in results.items() if r.get("failures")}
        confirmed = []
        # Replay every failing task from scratch before believing it.
        for n, r in bad.items():
            t = [x for x in tasks if x.name == n]
            for attempt in range(2):
                again = run_tasks(prop, tier, t, work, libsjson,
                                  stall * 3 if r.get("abnormal") == "hang"
                                  else stall, 1)[n]
                if "error" in again:
                    continue
                if again.get("failures"):
                    confirmed.append((t[0], r, again))
                    break
    wall = time.monotonic() - t0
    tot = {k: sum(r.get(k, 0) for r in results.values())
           for k in ("states", "transitions", "traces")}
    samples = []
    for n, r in results.items():
        for s in r.get("samples", [])[-2:]:
            samples.append("%s: %s" % (n, s))
    known = sorted(set(k for r in results.values()
                       for k in r.get("known", [])))
    extra = {}
    for r in results.values():
        for k, v in r.get("extra", {}).items():
            if isinstance(v, (int, float)):
                extra[k] = extra.get(k, 0) + v
            else:
                extra[k] = v
    if a.v:
        for n, r in results.items():
            print(n, {k: r.get(k) for k in ("states", "transitions",
                                            "traces", "extra")})
    level = getattr(mod, "LEVEL", "model_checking")
    cov = {"states": tot["states"], "transitions": tot["transitions"],
           "traces_validated_against_impl": tot["traces"],
           "samples": samples[:24], "tasks": len(results),
           "exhaustive": not bad and not errors,
           "bounds": getattr(mod, "BOUNDS", "")}
    if level in ("exploration", "fault_enumeration"):
        cov["evaluations"] = cov.pop("transitions")
        cov["distinct_nontrivial"] = cov.pop("states")
        cov["rule"] = getattr(mod, "RULE", "")
    cov.update(extra)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level,
          "coverage": cov, "wall_s": round(wall, 3),
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
          "violations": len(confirmed)}
    if not a.no_evidence and not a.task:
        tmp = os.path.join(evdir, prop + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        os.rename(tmp, os.path.join(evdir, prop + ".json"))
    for k in known:
        kk = [x for x in load_known(prop) if x["id"] == k][0]
        print("KNOWN-FINDING: property=%s %s" % (prop, kk["what"]))
    print("%s %s: %d states, %d transitions, %d traces, %d tasks, "
          "%.1f s (build %.1f s)" % (prop, tier, tot["states"],
                                     tot["transitions"], tot["traces"],
                                     len(results), wall, tb))
    if confirmed:
        t, r, again = confirmed[0]
        path = os.path.join(evdir, "%s.replay.json" % prop)
        with open(path, "w") as f:
            json.dump({"property": prop, "task": t.name,
                       "variant": t.variant, "first_run": r["failures"],
                       "replay_run": again["failures"],
                       "command": "cd /verif && python3 mc/run.py %s --tier "
                       "%s --task '^%s$'" % (prop, tier, re.escape(t.name))},
                      f, indent=1)
            f.write("\n")
        f0 = r["failures"][0]
        print("task %s [%s]" % (t.name, t.variant))
        for k in ("case", "what", "expected", "actual"):
            print("  %s: %s" % (k, f0[k]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        print("CHECK-ERROR property=%s\n%s" % (prop, errors[0]))
        return 3
    if bad:
        n, r = list(bad.items())[0]
        print("UNREPRODUCED property=%s task=%s %s" % (prop, n,
                                                       r["failures"][0]))
        return 4
    return 0
