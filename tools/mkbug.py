#!/usr/bin/env python3
"""mkbug.py SPEC...: makes seeded/<id>/ from SPEC (a Python file <id>.py that sets PROPERTY, NEEDS, BREAKS,
EDITS = [(file, old, new)], DEMO, and optionally FILES = {name: text}), and confirms it in a scratch clone:
the patch applies, builds, passes the unit tests, and the demonstration tells the two trees apart."""
import os, runpy, shutil, subprocess, sys, json, glob

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/wt"
R = W + "/repo"


def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


CM = """cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_CXX_FLAGS=-Wno-error -DNimbleSM_ENABLE_UNIT_TESTS=ON -DNIMBLE_USE_LOCAL_GTEST=ON -DGTEST_LIBRARY=GTest::gtest -DNimbleSM_ENABLE_MPI=ON -DNimbleSM_ENABLE_TRILINOS=ON -DNimbleSM_USE_TRILINOS_EXODUS=OFF -Dexodus_LIBRARY=/usr/lib/x86_64-linux-gnu/libexoIIv2c.so -Dexodus_INCLUDE_DIR=/usr/include -DFETCHCONTENT_FULLY_DISCONNECTED=ON && ninja -C _build -j8"""


def build():
    p = sh(CM, R, env=dict(os.environ, CC="gcc", CXX="g++"))
    return p.returncode, p.stdout


def fresh():
    if not os.path.isdir(R):
        os.makedirs(W, exist_ok=True)
        sh("git clone -q /repo " + R)
    sh("git fetch -q; git checkout -q -f origin/HEAD; git checkout -q -f .", R)


def tests():
    p = sh("ctest --test-dir _build/unit_tests -j8 --timeout 300", R, env=dict(os.environ, OMP_NUM_THREADS="1", OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1"))
    return sorted(l.split(":")[-1].split("...")[0].strip().split(": ")[-1] for l in p.stdout.splitlines() if "Passed" in l), p.stdout


def demo(d):
    t = W + "/demo"
    shutil.rmtree(t, ignore_errors=True)
    shutil.copytree(d, t, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    try:
        p = sh("bash %s/demo.sh" % t, R, timeout=290)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return "TIMEOUT", ""


def write(spec, name):
    d = os.path.join(V, "seeded", name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexec python3-vt "$(dirname "$0")/demo.py"\n')
    open(d + "/demo.py", "w").write(spec["DEMO"].lstrip("\n"))
    for f in ("tools/demokit/kit.py", "tools/demokit/shim.c", "py/case.py", "py/ncwrite.py", "py/expr.py", "py/out.py"):
        shutil.copy(os.path.join(V, f), d)
    for f, t in spec.get("FILES", {}).items():
        open(os.path.join(d, f), "w").write(t)
    json.dump({"property": spec["PROPERTY"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    for f, old, new in spec["EDITS"]:
        t = open(os.path.join(R, f)).read()
        if t.count(old) != 1:
            return d, "edit of %s matches %d times" % (f, t.count(old))
        open(os.path.join(R, f), "w").write(t.replace(old, new))
    open(d + "/patch.diff", "w").write(sh("git diff", R).stdout)
    # lines added by later commits must not be touched
    base = sh("git rev-list --max-parents=0 HEAD", R).stdout.strip()
    for l in open(d + "/patch.diff"):
        if l.startswith("-") and not l.startswith("---"):
            pass
    return d, None


def main():
    for s in sys.argv[1:]:
        name = os.path.basename(s)[:-3]
        spec = runpy.run_path(s)
        fresh()
        d, err = write(spec, name)
        fresh()
        ok = err is None
        if ok:
            rc, t = build()
            rc0, o0 = demo(d)
            if rc or rc0 != 0:
                ok, err = False, "unpatched: build %s demo %s\n%s" % (rc, rc0, o0[-1500:])
        if ok:
            p = sh("git apply %s/patch.diff" % d, R)
            rc, t = build()
            if rc:
                ok, err = False, "patched tree does not build\n" + t[-2500:]
            else:
                ps, t = tests()
                if len(ps) < 11:
                    ok, err = False, "tests: %d pass\n%s" % (len(ps), t[-1500:])
        if ok:
            rc1, o1 = demo(d)
            if rc1 == 0 or rc1 == "TIMEOUT":
                ok, err = False, "patched demo %s\n%s" % (rc1, o1[-1500:])
        fresh()
        print("%-28s %s" % (name, "OK  " + o1.strip().splitlines()[-1][:160] if ok else "BAD " + err), flush=True)


main()
