"""Running TLC: model checking a specification, generating scripts from it, and
validating recorded traces against it."""
import concurrent.futures as cf, json, os, re, subprocess, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

class TlcError(Exception):
    pass

def _cfg(work, name, text):
    p = os.path.join(work, name + ".cfg")
    with open(p, "w") as f:
        f.write(text)
    return p

def run(work, module, cfg, tag, workers=1, heap="2g", timeout=600, env=None, args=(), stdout=None):
    """One TLC run; returns (returncode, output)."""
    meta = os.path.join(work, "meta_" + tag)
    os.makedirs(meta, exist_ok=True)
    c = _cfg(work, tag, cfg)
    gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
    cmd = ["java", "-Xmx" + heap, "-Xss64m", gc, "-XX:TieredStopAtLevel=%d" % (4 if heap != "1g" else 4), "-cp", JARS,
           "-Dtlc2.TLC.ide=none", "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", c] + list(args) + [module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    t = time.time()
    try:
        if stdout:
            with open(stdout, "w") as f:
                r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
            with open(stdout, errors="replace") as f:
                out = f.read()
        else:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
            out = r.stdout
    except subprocess.TimeoutExpired:
        raise TlcError("TLC timed out after %d s on %s (%s)" % (timeout, module, tag))
    return r.returncode, out, time.time() - t

STAT = re.compile(r"([\d,]+) states generated, ([\d,]+) distinct states found")

def stats(out):
    m = STAT.findall(out)
    if not m:
        return 0, 0
    return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))

def model_check(work, module, cfg, tag, workers=4, timeout=600, heap="6g", args=(), env=None):
    """Exhaustive check; returns dict(states, transitions, scripts, ok, out).
    Scripts are lines of the form "@@ ..." that the model prints."""
    rc, out, wall = run(work, module, cfg, tag, workers=workers, timeout=timeout, heap=heap, args=list(args) + ["-deadlock"], env=env)
    gen, dist = stats(out)
    ok = rc == 0 and "No error has been found" in out
    scripts = []
    for line in out.splitlines():
        if line.startswith('"@@'):
            scripts.append(line[3:-1])
    return dict(states=dist, transitions=gen, scripts=scripts, ok=ok, out=out, wall=wall, rc=rc)

def simulate(work, module, cfg, tag, num, depth, seed, workers=1, timeout=300, env=None):
    rc, out, wall = run(work, module, cfg, tag, workers=workers, timeout=timeout,
                        args=["-deadlock", "-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)], env=env)
    scripts = [l[3:-1] for l in out.splitlines() if l.startswith('"@@')]
    ok = rc == 0
    return dict(scripts=scripts, ok=ok, out=out, wall=wall)

DIAM = re.compile(r'<<"DIAM", (\d+), (\d+)>>')

def validate_one(work, module, cfg, tag, trace, timeout=600, heap="2g"):
    """Returns dict(ok, matched, length): is the trace a behaviour of the spec?"""
    rc, out, wall = run(work, module, cfg, tag, workers=1, heap=heap, timeout=timeout, env={"VP_TRACE": trace})
    m = DIAM.findall(out)
    gen, dist = stats(out)
    if not m:
        inv = re.search(r"Invariant (\w+) is violated|Action property (\w+) is violated", out)
        if inv:
            # the violating state is the last of the printed behaviour
            n = len(re.findall(r"^State \d+:", out, re.M))
            return dict(ok=False, matched=max(0, n - 1), length=-1, wall=wall, states=dist, why="invariant " + str(inv.group(1) or inv.group(2)), out=out)
        raise TlcError("TLC failed on %s (%s), exit %d:\n%s" % (module, tag, rc, ("\n".join(l for l in out.splitlines() if not l.startswith(("Parsing","Semantic","Linting"))))[-1800:]))
    d, n = int(m[-1][0]), int(m[-1][1])
    ok = d - 1 == n
    if ok and rc != 0:
        raise TlcError("TLC failed on %s (%s), exit %d:\n%s" % (module, tag, rc, ("\n".join(l for l in out.splitlines() if not l.startswith(("Parsing","Semantic","Linting"))))[-1800:]))
    return dict(ok=ok, matched=d - 1, length=n, wall=wall, states=dist, why="no action of the specification explains the next event", out=out)

def validate(work, module, cfg, tag, traces, timeout=600, heap="2g", par=8):
    with cf.ThreadPoolExecutor(par) as ex:
        fs = [ex.submit(validate_one, work, module, cfg, "%s_%d" % (tag, i), t, timeout, heap) for i, t in enumerate(traces)]
        return [f.result() for f in fs]
