#!/usr/bin/env python3
"""mkseed.py SPEC.py: plants a bug in a scratch worktree, confirms it and
writes seeded/<ID>/.

A spec defines ID, PROP, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (the
body of run() and helpers) and optionally FLAGS (compiler flags of the demo).
"""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = os.environ.get("SEED_WT", "/tmp/seedwt")
BASE = "af963e8"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, capture_output=True,
                          **kw)


def worktree():
    if not os.path.exists(WT):
        r = sh("git -C /repo worktree add --detach %s HEAD" % WT)
        assert r.returncode == 0, r.stderr
        shutil.copytree("/opt/vp/cmake", WT + "-cmake")
        p = WT + "-cmake/CMakeLists.txt"
        s = open(p).read().replace('set(REPO "/repo")',
                                   'set(REPO "%s")' % WT)
        open(p, "w").write(s)
    sh("git -C %s checkout -q --detach $(git -C /repo rev-parse HEAD); "
       "git -C %s checkout -q -- ." % (WT, WT))


def tests():
    B = WT + "/_build"
    if not os.path.exists(B + "/build.ninja"):
        r = sh("CC=gcc CXX=g++ cmake -S %s-cmake -B %s -G Ninja "
               "-DCMAKE_BUILD_TYPE=RelWithDebInfo "
               "-DCMAKE_CXX_FLAGS=-Wno-error" % (WT, B))
        assert r.returncode == 0, r.stderr
    r = sh("ninja -C %s -k 0" % B)
    if r.returncode != 0:
        return "does not build: " + r.stdout[-3000:]
    r = sh("ctest --test-dir %s -j8 --timeout 300" % B)
    stable = [x.split("::")[0] for x in json.load(
        open("/opt/vp/BASELINE.json"))["stable"]]
    bad = [t for t in stable
           if not any(" " + t + " " in l and "Passed" in l
                      for l in r.stdout.splitlines())]
    return "tests fail: %s" % bad if bad else None


def main():
    check = "--check" in sys.argv
    for spec in [a for a in sys.argv[1:] if not a.startswith("--")]:
        g = {}
        exec(open(spec).read(), g)
        d = os.path.join(V, "seeded", g["ID"])
        worktree()
        for f, a, b in g["EDITS"]:
            p = os.path.join(WT, f)
            s = open(p).read()
            if s.count(a) != 1:
                print(g["ID"], "edit matches %d times: %s" % (s.count(a), a))
                break
            open(p, "w").write(s.replace(a, b))
        else:
            diff = sh("git -C %s diff" % WT).stdout
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            open(d + "/patch.diff", "w").write(diff)
            t = V + "/tools/demo"
            shutil.copytree(t + "/stubs", d + "/stubs")
            for f in ("stubs.cpp", "demo.h", "demo.sh"):
                shutil.copy(t + "/" + f, d)
            if g.get("FLAGS"):
                s = open(d + "/demo.sh").read()
                s = s.replace("$DEMO_FLAGS", g["FLAGS"])
                open(d + "/demo.sh", "w").write(s)
            os.chmod(d + "/demo.sh", 0o755)
            open(d + "/demo.cpp", "w").write('#include "demo.h"\n\n'
                                             + g["DEMO"].lstrip())
            json.dump({"property": g["PROP"], "needs": g["NEEDS"],
                       "what_it_breaks": g["BREAKS"]},
                      open(d + "/meta.json", "w"), indent=1)
            err = tests()
            r1 = sh("bash %s/demo.sh" % d, cwd=WT)
            sh("git -C %s checkout -q -- ." % WT)
            r0 = sh("bash %s/demo.sh" % d, cwd=WT)
            ok = not err and r0.returncode == 0 and r1.returncode != 0
            print(g["ID"], "GOOD" if ok else "BAD", err or "",
                  "clean=%d patched=%d" % (r0.returncode, r1.returncode))
            if not ok:
                print(r0.stdout[-600:], r0.stderr[-600:], "---",
                      r1.stdout[-600:], r1.stderr[-600:])
            else:
                print("   patched says:", r1.stdout[-300:].replace("\n", " | "),
                      r1.stderr[-200:].replace("\n", " | "))


main()
