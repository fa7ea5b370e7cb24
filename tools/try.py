"""Run checks against an edited copy of the tree.

    tools/try.py [-n NTH] FILE OLD NEW ID [ID...]
    tools/try.py --patch FILE ID [ID...]

The copy lives under /tmp and is removed afterwards; /repo is not touched."""

import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    a = sys.argv[1:]
    nth = 1
    if a[0] == "-n":
        nth, a = int(a[1]), a[2:]
    tmp = "/tmp/try-tree%s" % os.environ.get("SLOT", "")
    os.mkdir(tmp)
    tree = os.path.join(tmp, "repo")
    try:
        subprocess.run(["git", "clone", "-q", "-s", "/repo", tree], check=True)
        if a[0] == "--patch":
            patch, ids = os.path.abspath(a[1]), a[2:]
            subprocess.run(["git", "-C", tree, "apply", patch], check=True)
        else:
            (f, old, new), ids = a[:3], a[3:]
            old = old.encode().decode("unicode_escape")
            new = new.encode().decode("unicode_escape")
            p = os.path.join(tree, f)
            parts = open(p).read().split(old)
            if len(parts) <= nth:
                sys.exit("text occurs %d times" % (len(parts) - 1))
            s = old.join(parts[:nth]) + new + old.join(parts[nth:])
            open(p, "w").write(s)
        env = dict(os.environ, VERIF_REPO=tree)
        for i in ids:
            r = subprocess.run([sys.executable, os.path.join(VERIF, "mc/run.py"),
                                i, "--no-evidence"], env=env,
                               capture_output=True, text=True)
            out = (r.stdout + r.stderr).strip().splitlines()
            print("%s exit %d: %s" % (i, r.returncode, "\n   ".join(out[-6:])))
    finally:
        shutil.rmtree(tmp)


main()
