#!/usr/bin/env python3
"""Authoring and checking of the planted bugs in /verif/seeded.
  seed.py verify ID...   applies in /repo, builds, runs the stable tests and the demo, undoes
  seed.py check ID...    runs the property's check on a scratch copy with the bug
  seed.py clean ID...    the demo passes on the unchanged tree"""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
S = os.path.join(V, "seeded")
DEMO = """#!/bin/bash
# Builds and runs the demonstration against the library built in /repo.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -g -w -pthread -DVECMEM_DEBUG_MSG_LVL=0 -DVECMEM_HAVE_PMR_MEMORY_RESOURCE \\
    -DVECMEM_SOURCE_DIR_LENGTH=6 -DVECMEM_SUPPORT_POSIX_ATOMIC_REF %s -I core/include -I _build/core/CMakeFiles \\
    "$d/demo.cpp" -L _build/lib -lvecmem_core -Wl,-rpath,"$PWD/_build/lib" -o "$t/demo" || exit 98
timeout 120 "$t/demo"
"""
def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)
def new(id, prop, needs, breaks, edits, demo, flags="", backend=None):
    """edits: list of (file, old, new). backend: cuda, hip or sycl, built against stand-ins."""
    d = os.path.join(S, id)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seed_")
    try:
        sh("git", "clone", "-q", R, w)
        for f, old, nw in edits:
            p = os.path.join(w, f)
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w").write(s.replace(old, nw))
        open(os.path.join(d, "patch.diff"), "w").write(sh("git", "-C", w, "diff").stdout)
        # the planted bug has to change lines of the original repository
        for f, old, nw in edits:
            r = sh("git", "-C", w, "diff", "-U0", "--", f).stdout
            import re
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", r, re.M):
                n = int(m.group(2) or 1)
                if n:
                    b = sh("git", "-C", w, "blame", "-s", "-L", "%s,+%d" % (m.group(1), n), "HEAD", "--", f).stdout
                    own = [l for l in b.splitlines() if sh("git", "-C", w, "merge-base", "--is-ancestor", l.split()[0].lstrip("^"), "9f952e9").returncode]
                    if own: print(id, "OWN LINES", own[:3])
    finally:
        shutil.rmtree(w)
    open(os.path.join(d, "demo.cpp"), "w").write(demo)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO % flags if not backend else open(os.path.join(V, "tools/demokit/demo.sh")).read().replace("BACKEND", backend))
    if backend:
        shutil.copy(os.path.join(V, "tools/demokit/rt.hpp"), d)
        shutil.copytree(os.path.join(V, "harness/mock"), os.path.join(d, "mock"), dirs_exist_ok=True)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)
def demo(id):
    return sh("bash", os.path.join(S, id, "demo.sh"), cwd=R)
def build():
    r = sh("bash", "/opt/vp/build.sh", "vecmem_test_core")
    return r
def clean(ids):
    build()
    ok = True
    for i in ids:
        r = demo(i)
        print(i, "clean demo rc", r.returncode, (r.stdout + r.stderr)[-600:] if r.returncode else "")
        ok &= r.returncode == 0
    return ok
def verify(ids):
    ok = clean(ids)
    st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for i in ids:
        try:
            r = sh("git", "-C", R, "apply", os.path.join(S, i, "patch.diff"))
            assert r.returncode == 0, r.stderr
            t = time.time()
            o = "/tmp/seed_out.json"
            r = sh("bash", "/opt/vp/test.sh", o)
            failed = st - set(json.load(open(o))["passed"])
            if failed:
                print(i, "TESTS FAIL", sorted(failed)[:10], r.stderr[-1500:] if len(failed) > 100 else "")
            r = demo(i)
            good = not failed and r.returncode not in (0, 98, 99)
            print(i, "OK" if good else "BAD", "patched demo rc", r.returncode, (r.stdout + r.stderr)[-300:].strip(), "%.0fs" % (time.time() - t), flush=True)
            ok &= good
        finally:
            sh("git", "-C", R, "checkout", "--", ".")
    build()
    return ok
def check(ids, tier="quick", seed="1", props=None):
    """Runs the checks on scratch copies of the tree with the bug."""
    res = {}
    for i in ids:
        w = tempfile.mkdtemp(prefix="seed_")
        try:
            subprocess.run("git -C %s archive HEAD core cmake cuda hip sycl | tar -x -C %s" % (R, w), shell=True, check=True)
            sh("git", "init", "-q", cwd=w)
            r = sh("git", "apply", os.path.join(S, i, "patch.diff"), cwd=w)
            assert r.returncode == 0, r.stderr
            for p in props or [json.load(open(os.path.join(S, i, "meta.json")))["property"]]:
                t = time.time()
                r = sh("python3", "check.py", p, cwd=V, env=dict(os.environ, VP_REPO=w, VERIF_SEED=seed, VERIF_TIER=tier))
                v = [l for l in r.stdout.splitlines() if "rejects" in l]
                print(i, p, {0: "MISSED", 1: "caught", 2: "ERROR"}.get(r.returncode), "%.0fs" % (time.time() - t), v[-1][:250] if v else r.stderr[-400:] if r.returncode else "", flush=True)
                res[i, p] = r.returncode
        finally:
            shutil.rmtree(w)
    return res
if __name__ == "__main__":
    ids = sys.argv[2:] or sorted(os.listdir(S))
    if sys.argv[1] == "verify": sys.exit(not verify(ids))
    if sys.argv[1] == "clean": sys.exit(not clean(ids))
    if sys.argv[1] == "check": check(ids)
