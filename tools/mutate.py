#!/usr/bin/env python3
"""Runs the checks on small edits of the sources (tools/edits.py), each in a scratch copy.

usage: mutate.py [-j N] [-c CHECK,...] [id prefix ...]
An edit is (id, file, old text, new text, checks expected to alarm); an empty list means every check must stay quiet.
Checks that are run: the expected ones, or all built ones for a harmless edit (or those named in its 6th element)."""
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import edits


def main():
    argv = sys.argv[1:]
    jobs = 3
    if argv[:1] == ["-j"]:
        jobs = int(argv[1])
        argv = argv[2:]
    only = None
    if argv[:1] == ["-c"]:
        only = argv[1].split(",")
        argv = argv[2:]
    todo = [e for e in edits.EDITS if not argv or any(e[0].startswith(a) for a in argv)]
    base = tempfile.mkdtemp(prefix="mut")
    slots = Queue()
    for i in range(jobs):
        d = os.path.join(base, "r%d" % i)
        os.makedirs(d)
        shutil.copytree("/repo/src", os.path.join(d, "src"), ignore=shutil.ignore_patterns("*.so", "__pycache__"))
        if os.path.isdir("/repo/include"):
            shutil.copytree("/repo/include", os.path.join(d, "include"))
        slots.put(d)
    have = sorted(f[:-3].upper() for f in os.listdir(os.path.join(ROOT, "rules")) if f[0] == "c" and f[1:3].isdigit())

    def one(e):
        d = slots.get()
        saved = {}
        out = []
        try:
            changes = e[1] if isinstance(e[1], list) else [(e[1], e[2], e[3])]
            expect = e[2] if isinstance(e[1], list) else e[4]
            rest = e[3:] if isinstance(e[1], list) else e[5:]
            for f, old, new in changes:
                p = os.path.join(d, "src/cliquematch", f)
                s = open(p).read()
                saved.setdefault(p, s)
                if old not in s:
                    return (e[0], "NO MATCH", [])
                open(p, "w").write(s.replace(old, new, 1))
            run = expect or (rest[0] if rest else have)
            for c in run:
                if only and c not in only:
                    continue
                env = dict(os.environ, VERIF_REPO=d, VERIF_EVID=os.path.join(d, "ev"))
                r = subprocess.run([sys.executable, os.path.join(ROOT, "check.py"), c], capture_output=True, text=True,
                                   env=env, cwd=ROOT)
                alarm = "VIOLATION property=%s" % c in r.stdout and r.returncode == 1
                good = alarm if expect else r.returncode == 0
                if not good:
                    out.append("%s exit %d\n%s%s" % (c, r.returncode, r.stdout[-1500:], r.stderr[-1500:]))
            return (e[0], "ok" if not out else "WRONG", out)
        finally:
            for p, s in saved.items():
                open(p, "w").write(s)
            slots.put(d)
    bad = 0
    with ThreadPoolExecutor(jobs) as ex:
        for name, st, out in ex.map(one, todo):
            print(name, st, flush=True)
            if st != "ok":
                bad += 1
                for o in out:
                    print("   " + o.replace("\n", "\n   "), flush=True)
    shutil.rmtree(base)
    print("%d edits, %d wrong" % (len(todo), bad))
    return bad != 0


sys.exit(main())
