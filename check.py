#!/usr/bin/env python3
"""./check.py <property id>   runs the check of a property
   ./check.py --selftest     checks that the specifications parse
   ./check.py --replay FILE  replays a violation that a check has recorded"""
import importlib, json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import core, registry, tlc

def replay(path):
    d = json.load(open(path))
    ctx = core.Ctx(d["property"], "quick", 1)
    try:
        registry.prepare(ctx, d["driver"])
        tf = ctx.drive(d["driver"], [s.split("\n") for s in d["script"]], "replay", d["args"], d["timeout"], d["env"])
        v = tlc.validate_one(ctx.work, d["spec"], d["cfg"], "replay", tf)
        ls = open(tf).read().splitlines()
        print("accepted" if v["ok"] else "rejected at event %d: %s" % (v["matched"] + 1, ls[min(v["matched"], len(ls) - 1)]))
        return 0 if v["ok"] else 1
    finally:
        ctx.close()

def selftest():
    """All specifications are well-formed; the tools are there."""
    import glob, subprocess
    fs = sorted(glob.glob(os.path.join(tlc.SPEC, "*.tla")))
    r = subprocess.run(["java", "-cp", tlc.JARS, "tla2sany.SANY"] + fs, cwd=tlc.SPEC, capture_output=True, text=True)
    bad = r.returncode != 0 or "*** Errors" in r.stdout or "Fatal" in r.stdout
    if bad:
        print(r.stdout[-3000:], r.stderr[-1000:])
    return 1 if bad else subprocess.run(["g++", "--version"], stdout=subprocess.DEVNULL).returncode

if __name__ == "__main__":
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    if sys.argv[1:] == ["--selftest"]:
        sys.exit(selftest())
    if len(sys.argv) != 2 or sys.argv[1] not in registry.CHECKS:
        print(__doc__, file=sys.stderr)
        sys.exit(2)
    pid = sys.argv[1]
    sys.exit(core.main(pid, registry.CHECKS[pid], sys.argv[2:]))
