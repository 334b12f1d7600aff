#!/usr/bin/env python3
"""Confirms planted bugs in a scratch copy: builds, passes the stable tests, demo passes without and fails with it.

usage: seed.py [ID ...]"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       errors="replace", timeout=timeout)
    return p.returncode, p.stdout


def main():
    ids = sys.argv[1:] or sorted(os.listdir(os.path.join(ROOT, "seeded")))
    base = tempfile.mkdtemp(prefix="seed")
    try:
        repo = os.path.join(base, "repo")
        vp = os.path.join(base, "vp")
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        subprocess.run(["git", "-C", repo, "checkout", "-q", "--", "."], check=True)
        os.makedirs(vp)
        for f in ("build.sh", "test.sh", "env.sh", "run_tests.py", "results.py", "build_ext.py"):
            s = open("/opt/vp/" + f).read()
            s = s.replace("/repo", repo)
            for g in ("env.sh", "run_tests.py", "results.py", "build_ext.py"):
                s = s.replace("/opt/vp/" + g, vp + "/" + g)
            open(os.path.join(vp, f), "w").write(s)
        stable = json.load(open("/opt/vp/BASELINE.json"))
        stable = set(stable.get("stable") or stable.get("passed") or stable.get("stable_tests"))
        rc, out = sh("bash %s/build.sh" % vp, repo)
        assert rc == 0, out
        bad = 0
        clean = {}
        for i in ids:
            rc, out = sh("bash %s/seeded/%s/demo.sh" % (ROOT, i), repo, 300)
            clean[i] = (rc, out)
        for i in ids:
            d = os.path.join(ROOT, "seeded", i)
            rc0, out0 = clean[i]
            rc, out = sh("git apply %s/patch.diff" % d, repo)
            if rc:
                print(i, "patch does not apply", out)
                bad += 1
                continue
            rcb, outb = sh("bash %s/build.sh" % vp, repo)
            rct, outt = sh("bash %s/test.sh %s/out.json" % (vp, base), repo)
            passed = set(json.load(open(base + "/out.json"))["passed"])
            rc1, out1 = sh("bash %s/demo.sh" % d, repo, 300)
            sh("git checkout -q -- .", repo)
            miss = sorted(stable - passed)
            good = rc0 == 0 and rcb == 0 and not miss and rc1 != 0
            bad += not good
            print(i, "ok" if good else "NOT OK", "demo clean %s, build %s, %d stable tests missing, demo patched %s" % (
                rc0, rcb, len(miss), rc1))
            if not good:
                print(out0[-800:], outb[-800:] if rcb else "", miss[:5], out1[-800:])
        return 1 if bad else 0
    finally:
        shutil.rmtree(base, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
