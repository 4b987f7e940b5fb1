"""The runner that all checks share.

A check (a module in vp/checks) describes
  - models: TLC runs over the specification, which have to succeed, and which
    print behaviours of the specification as scripts for a driver;
  - families: a driver (real code plus harness), cases (scripts), and the trace
    specifications that have to accept what the driver records.
A trace that is not accepted is a violation of the property."""
import concurrent.futures as cf, json, os, random, re, shutil, subprocess, sys, tempfile, time, traceback
from . import build as B, tlc

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(VERIF, "evidence", "replay")
NCPU = min(8, os.cpu_count() or 1)

class CheckError(Exception):
    """The check itself did not work (exit code 2)."""

class Violation(Exception):
    def __init__(self, text, data):
        Exception.__init__(self, text)
        self.data = data

def trace_cfg(consts="", invs=(), props=()):
    return ("SPECIFICATION TraceSpec\n" + (("CONSTANTS " + consts + "\n") if consts else "")
            + "".join("INVARIANT %s\n" % i for i in invs) + "".join("PROPERTY %s\n" % i for i in props)
            + "POSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n")

class Ctx:
    def __init__(self, pid, tier, seed, replay=None):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier != "thorough"
        self.work = tempfile.mkdtemp(prefix="vp_%s_" % pid)
        self.t0 = time.time()
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, events_validated=0,
                        scripts_from_model=0, scripts_random=0, samples=[], models=[], families=[], negative_controls=0)
        self.assumptions = []
        self.exes = {}
        self.nfam = 0

    def rng(self, salt=""):
        return random.Random("%s/%s/%s" % (self.seed, self.pid, salt))

    def scale(self, quick, thorough):
        return quick if self.quick else thorough

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    # ------------------------------------------------------------ building
    def build(self, drivers, lib=True, extra=(), opt="-O1", link=(), plain=(), backends=False):
        try:
            self.exes.update(B.build(self.work, drivers, lib=lib, extra=extra, opt=opt, link=link, plain=plain, backends=backends))
        except B.BuildError as e:
            raise CheckError(str(e))
        self.log("built", ", ".join(drivers))

    # ------------------------------------------------------------- models
    def model(self, module, cfg, tag=None, workers=4, timeout=500, constants=None, heap="4g"):
        """Exhaustive model checking; returns the scripts it printed."""
        tag = tag or module
        r = tlc.model_check(self.work, module, cfg, tag, workers=workers, timeout=timeout, heap=heap)
        if not r["ok"]:
            raise CheckError("the specification %s is wrong or its run failed:\n%s" % (tag, r["out"][-3000:]))
        self.cov["states"] += r["states"]
        self.cov["transitions"] += r["transitions"]
        self.cov["models"].append(dict(model=tag, states=r["states"], transitions=r["transitions"],
                                       scripts=len(r["scripts"]), wall_s=round(r["wall"], 1)))
        self.log("model", tag, r["states"], "states", r["transitions"], "transitions", len(r["scripts"]), "scripts", "%.1fs" % r["wall"])
        return r["scripts"]

    def refuted(self, module, cfg, tag, timeout=300):
        """A wrong model must be found to be wrong."""
        r = tlc.model_check(self.work, module, cfg, tag, workers=1, timeout=timeout)
        if r["ok"] or "is violated" not in r["out"]:
            raise CheckError("the wrong model %s was not refuted:\n%s" % (tag, r["out"][-1500:]))
        self.cov["negative_controls"] += 1
        self.log("model", tag, "refuted, as it should be")

    def models(self, jobs):
        """jobs: list of dict(module, cfg, tag); run in parallel."""
        # One worker each, so that the scripts do not depend on chance.
        with cf.ThreadPoolExecutor(NCPU) as ex:
            fs = [ex.submit(self.model, **dict(j, workers=j.get("workers", 1))) for j in jobs]
            return [f.result() for f in fs]

    # ------------------------------------------------------------ families
    def drive(self, exe, cases, tag, args=(), timeout=300, env=None):
        """Run the driver over some cases; returns the trace file."""
        sf = os.path.join(self.work, tag + ".txt")
        tf = os.path.join(self.work, tag + ".nd")
        with open(sf, "w") as f:
            for c in cases:
                f.write("\n".join(c) + "\n")
        try:
            r = subprocess.run([self.exes[exe], sf, tf, str(timeout)] + list(args), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout + 60, cwd=self.work, env=dict(os.environ, **(env or {})))
        except subprocess.TimeoutExpired:
            with open(tf, "a") as f:
                f.write('{"e":"hang","sig":0}\n')
            return tf
        if r.returncode == 3:
            raise CheckError("driver %s: %s" % (exe, r.stdout.decode(errors="replace")[-2000:]))
        if r.returncode != 0:
            with open(tf, "a") as f:
                f.write('{"e":"crash","sig":%d}\n' % r.returncode)
        return tf

    def family(self, name, exe, cases, specs, from_model=0, args=(), timeout=300, negative=None, heap="2g", chunks=None, env=None, marker='"e":"R"', tlc_timeout=800, once=False):
        """Drive the real code through the cases, and validate what it did
        against every trace specification in specs: [(module, cfg), ...]."""
        self.nfam += 1
        tag = "f%d" % self.nfam
        k = chunks or NCPU
        k = max(1, min(k, len(cases)))
        # Balance by length, keeping the cases whole.
        order = list(range(len(cases)))
        order.sort(key=lambda i: -len(cases[i]))
        parts = [[] for _ in range(k)]
        load = [0] * k
        for i in order:
            j = load.index(min(load))
            parts[j].append(i)
            load[j] += len(cases[i]) + 1
        for p in parts:
            p.sort()
        parts = [p for p in parts if p]
        t = time.time()
        with cf.ThreadPoolExecutor(NCPU) as ex:
            traces = list(ex.map(lambda j: self.drive(exe, [cases[i] for i in parts[j]], "%s_%d" % (tag, j), args, timeout, env), range(len(parts))))
        tdrive = time.time() - t
        jobs = [(m, c, j) for (m, c) in specs for j in range(len(parts))]
        def val(job):
            m, c, j = job
            return tlc.validate_one(self.work, m, c, "%s_%s_%d" % (tag, m, j), traces[j], timeout=tlc_timeout, heap=heap)
        t = time.time()
        with cf.ThreadPoolExecutor(NCPU) as ex:
            try:
                results = list(ex.map(val, jobs))
            except tlc.TlcError as e:
                raise CheckError(str(e))
        nev = 0
        lines = [open(t, errors="replace").read().splitlines() for t in traces]
        for (m, c, j), r in zip(jobs, results):
            if r["ok"]:
                nev += r["length"]
                continue
            self.fail(name, exe, m, c, cases, parts[j], lines[j], r, args, timeout, env, marker, heap, once)
        self.cov["traces_validated_against_impl"] += len(cases)
        self.cov["events_validated"] += nev
        self.cov["scripts_from_model"] += from_model
        self.cov["scripts_random"] += len(cases) - from_model
        self.cov["families"].append(dict(family=name, cases=len(cases), from_model=from_model, events=nev, specs=[m for m, _ in specs],
                                         drive_s=round(tdrive, 1), validate_s=round(time.time() - t, 1)))
        for i in (0, len(cases) // 2, len(cases) - 1)[: 3 if len(self.cov["samples"]) < 12 else 1]:
            self.cov["samples"].append("%s: %s" % (name, " ; ".join(cases[i])[:600]))
        self.log("family", name, len(cases), "cases", nev, "events accepted", "drive %.1fs validate %.1fs" % (tdrive, time.time() - t))
        negs = list(negative if isinstance(negative, (list, tuple)) else [negative] if negative else [])
        with cf.ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(lambda k: self.negative(name, "%s_neg%d" % (tag, k), specs, lines, negs[k]), range(len(negs))))
        return lines

    def negative(self, name, tag, specs, lines, neg):
        """A trace that has been falsified must be rejected."""
        tries = 0
        for ls in lines:
            out = neg([json.loads(x) for x in ls])
            if out is None:
                continue
            tries += 1
            f = os.path.join(self.work, tag + ".nd")
            with open(f, "w") as h:
                for e in out:
                    h.write(json.dumps(e) + "\n")
            for m, c in specs:
                try:
                    if not tlc.validate_one(self.work, m, c, "%s_%d" % (tag, tries), f)["ok"]:
                        self.cov["negative_controls"] += 1
                        return
                except tlc.TlcError:
                    pass
            if tries == 3:
                break
        if tries:
            raise CheckError("negative control %s of %s was accepted" % (getattr(neg, "__name__", "?"), name))
        # Nothing to falsify in these traces: said, but no error.
        self.cov.setdefault("negative_controls_inapplicable", []).append("%s of %s" % (getattr(neg, "__name__", "?"), name))
        self.log("negative control", getattr(neg, "__name__", "?"), "of", name, "does not apply to any trace")

    def fail(self, name, exe, module, cfg, cases, part, lines, r, args, timeout, env, marker, heap, once):
        i = min(r["matched"], len(lines) - 1)
        starts = [k for k in range(len(lines)) if marker in lines[k]]
        scen = max(0, sum(1 for k in starts if k <= i) - 1)           # index of the scenario (R event)
        cs, n = len(part) - 1, 0
        for k, ci in enumerate(part):
            n += sum(1 for l in cases[ci] if l.startswith("R "))
            if n > scen:
                cs = k
                break
        def attempt(idx, t):
            tf = self.drive(exe, [cases[part[k]] for k in idx], t, args, timeout, env)
            v = tlc.validate_one(self.work, module, cfg, t, tf, heap=heap)
            return v, open(tf, errors="replace").read().splitlines()
        script, trace, res, how = [cases[part[cs]]], lines, r, "as observed in the run"
        try:
            if not once:
                v, ls = attempt([cs], "iso")
                if not v["ok"]:
                    script, trace, res, how = [cases[part[cs]]], ls, v, "reproduced with this case alone"
                else:
                    idx = list(range(0, cs + 1))
                    v, ls = attempt(idx, "iso2")
                    if not v["ok"]:
                        script, trace, res, how = [cases[part[k]] for k in idx], ls, v, "reproduced with all cases up to this one"
                    else:
                        script, how = [cases[part[k]] for k in idx], "observed once; re-running did not reproduce it"
        except tlc.TlcError:
            pass
        i = min(res["matched"], len(trace) - 1)
        s = max([k for k in range(i + 1) if marker in trace[k]] or [0])
        raise Violation("%s: %s rejects %s" % (name, module, trace[i][:300]),
                        dict(property=self.pid, family=name, driver=exe, spec=module, cfg=cfg, reason=res["why"], how=how,
                             rejected_event=trace[i], rejected_at=i - s, args=list(args), env=env or {}, timeout=timeout,
                             script=["\n".join(c) for c in script][-200:], trace=trace[s:i + 1][-400:]))

    # ------------------------------------------------------------ evidence
    def evidence(self, level, violations=0):
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1), violations=violations)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)

def maximal(scripts):
    """Scripts that are not a prefix of another one; as lists of operations."""
    ss = sorted(set(scripts))
    out = []
    for i, s in enumerate(ss):
        if i + 1 < len(ss) and ss[i + 1].startswith(s + ";"):
            continue
        out.append(s.strip().split(";"))
    return out

def sample(rng, xs, n):
    return xs if len(xs) <= n else [xs[i] for i in sorted(rng.sample(range(len(xs)), n))]

def main(pid, fn, argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = Ctx(pid, tier, seed)
    try:
        fn(ctx)
        ctx.evidence("model_checking")
        ctx.log("held on everything explored")
        return 0
    except Violation as v:
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, "%s.json" % pid)
        with open(path, "w") as f:
            json.dump(v.data, f, indent=1)
            f.write("\n")
        ctx.evidence("model_checking", violations=1)
        ctx.log(str(v))
        print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
        return 1
    except CheckError as e:
        print("CHECK ERROR (%s): %s" % (pid, e), file=sys.stderr, flush=True)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ctx.close()
