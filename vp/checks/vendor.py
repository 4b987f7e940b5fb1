"""Checks of C33 - C35: the CUDA, HIP and SYCL libraries, on top of stand-ins
for the run-times."""
from .. import core

SRC = ("vendor_driver.cpp", [])
DRIVER = {"vendor": SRC, "vendor_fill": SRC}
# The second with the fills of SYCL itself.
BUILDS = {"vendor": dict(backends=True), "vendor_fill": dict(backends=True, extra=("-DVECMEM_HAVE_SYCL_MEMSET",))}
INVS = ["BlocksKnown", "HeldApart", "StreamsOwned", "SyncDone", "RightKind"]
VENDOR = ("VendorTrace", core.trace_cfg(invs=INVS))

def job(tag, back, ops, calls, faults=1, pend=2, devices=2, wrong="", emit=True):
    return dict(module="MCVendor", tag="MCVendor-" + tag,
                cfg="SPECIFICATION MCSpec\nCONSTANTS Ops = {%s} Back = \"%s\" Devices = %d MaxCalls = %d MaxFaults = %d MaxPend = %d Wrong = \"%s\"\nVIEW MCView\n%sINVARIANT NeverStuck\n%s"
                % (", ".join('"%s"' % o for o in ops), back, devices, calls, faults, pend, wrong, "ACTION_CONSTRAINT Emit\n" if emit else "",
                   "".join("INVARIANT %s\n" % i for i in INVS)))

def cases_of(ctx, back, scripts, limit, devices=2):
    ss = core.sample(ctx.rng("cover" + back), core.maximal(scripts), limit)
    return [["R %s %d %d" % (back, i + 1, devices)] + s[1:] for i, s in enumerate(ss)]

def from_models(ctx, jobs, limit):
    out = []
    for (back, j), scripts in zip(jobs, ctx.models([j for _, j in jobs])):
        out += cases_of(ctx, back, scripts, limit)
    return out

SIZES = [0, 1, 2, 3, 7, 8, 15, 16, 17, 31, 33, 64, 100, 255, 256, 1000, 4096, 5000]

class Maker:
    """Random histories; the driver leaves out what does not apply."""
    def __init__(self, r, back):
        self.r, self.back = r, back
        self.devices = r.choice([1, 2, 2, 3, 4])
        self.c = ["R %s %d %d" % (back, r.randint(1, 10**6), self.devices)]
        self.n = dict(res=0, held=0, wr=0, cp=0, ev=0)
        self.live = dict(res=[], held=[], wr=[], cp=[], ev=[])
        self.size = {}
    def put(self, *x):
        self.c.append(" ".join(map(str, x)))
    def new(self, k):
        self.n[k] += 1
        self.live[k].append(self.n[k])
        return self.n[k]
    def any(self, k):
        return self.r.choice(self.live[k])
    def gone(self, k):
        x = self.any(k)
        self.live[k].remove(x)
        return x
    def fault(self, p=0.05):
        if self.r.random() < p:
            self.put("E", *sorted(self.r.sample(range(1, 9), self.r.choice([1, 1, 1, 2]))))
    def res(self, kind=None):
        r = self.r
        kind = r.randrange(3) if kind is None else kind
        if self.back == "s":
            d = self.any("wr") if self.live["wr"] and r.random() < 0.7 else -1
        else:
            d = r.choice([-1, -1] + list(range(self.devices)) + ([self.devices] if r.random() < 0.1 else []))
        self.put("res", self.new("res"), kind, d)
    def alloc(self, sizes=None):
        n = self.r.choice(sizes or SIZES + [self.r.randint(1, 70000)])
        self.fault()
        h = self.new("held")
        self.size[h] = n
        self.put("alloc", h, self.any("res"), n, self.r.choice([1, 2, 4, 8, 16, 32, 64, 128, 256]))
    def wrapper(self):
        r, live = self.r, self.live["wr"]
        x = r.random()
        if x < 0.35 or not live:
            self.fault(0.1)
            self.put("wnew", self.new("wr"), r.choice([-1, -1] + list(range(self.devices)) + [self.devices, -1]))
        elif x < 0.5:
            self.put("wbor", self.new("wr"), r.randint(1, 3))
        elif x < 0.8:
            v = self.any("wr")
            op = r.choice(["wcopy", "wcopy", "wmove"])
            self.put(op, self.new("wr"), v)
            if op == "wmove": live.remove(v)
        else:
            v, w = self.any("wr"), self.any("wr")
            op = r.choice(["wasg", "wmasg"])
            self.put(op, v, w)
            if op == "wmasg" and v != w: live.remove(w)
    def copy_object(self):
        self.put("cnew", self.new("cp"), self.r.choice([0, 0, 0, 1]), self.any("wr") if self.live["wr"] else -1)
    def place(self, n):
        r = self.r
        fit = [h for h in self.live["held"] if self.size[h] >= n]
        if not fit or r.random() < 0.4:
            return 0, r.randint(0, 65536 - n)
        h = r.choice(fit)
        return h, r.choice([0, self.size[h] - n, r.randint(0, self.size[h] - n)])
    def copy(self):
        r = self.r
        n = r.choice([0, 1, 3, 8, 16, 17, 64, 100, 255, 1000, 4000])
        self.fault()
        self.put("copy", self.any("cp"), self.new("ev"), *self.place(n), *self.place(n), n, r.choice([0, 1, 2, 3, 4, 4]))
    def fill(self):
        r = self.r
        n = r.choice([0, 1, 3, 4, 5, 7, 8, 16, 17, 64, 100, 255, 1000, 4000])
        self.fault()
        self.put("fill", self.any("cp"), self.new("ev"), *self.place(n), n, r.choice([0, 0, 1, 7, 127, 128, 255, -1, 256, 300]))
    def jag(self):
        r = self.r
        self.fault(0.15)
        rows = r.choice([0, 1, 2, 3, 4, 6, 10])
        self.put("jag", self.any("cp"), self.any("res"), r.randrange(2), *[r.choice([0, 0, 1, 2, 3, 5, 9, 40]) for _ in range(rows)])

def resources(r, back, n):
    m = Maker(r, back)
    for _ in range(n):
        x = r.random()
        if x < 0.07: m.put("dev", r.randrange(m.devices))
        elif x < 0.13 and back == "s": m.wrapper()
        elif x < 0.15 and back == "s" and m.live["wr"]: m.put("wdel", m.gone("wr"))
        elif x < 0.28 or not m.live["res"]: m.res()
        elif x < 0.6: m.alloc()
        elif x < 0.8 and m.live["held"]: m.put("free", m.gone("held"))
        elif x < 0.85: m.put("null", m.any("res"))
        elif x < 0.95: m.put("eq", m.any("res"), m.any("res"))
        else: m.put("rdel", m.any("res"))
    return m.c

def transfers(r, back, n):
    m = Maker(r, back)
    if back != "h":
        for _ in range(r.choice([1, 2, 3])): m.wrapper()
    for k in r.sample([0, 1, 2], r.choice([1, 2, 3])): m.res(k)
    for _ in range(r.choice([1, 2, 4])): m.alloc([8, 64, 100, 1000, 5000])
    for _ in range(r.choice([1, 1, 2, 3])): m.copy_object()
    for _ in range(n):
        x = r.random()
        if x < 0.3: m.copy()
        elif x < 0.45: m.fill()
        elif x < 0.75 and m.live["ev"]:
            op = r.choice(["ewait", "ewait", "edrop", "edrop", "eign"])
            m.put(op, m.any("ev") if op != "edrop" else m.gone("ev"))
        elif x < 0.80: m.jag()
        elif x < 0.83 and back == "c" and m.live["wr"]: m.put("wsync", m.any("wr"))
        elif x < 0.85: m.put("dev", r.randrange(m.devices))
        elif x < 0.90: m.alloc([8, 64, 100, 1000, 5000])
        elif x < 0.93: m.put("free", m.any("held"))
        elif x < 0.96: m.copy_object()
        elif back != "h": m.wrapper()
    return m.c

def streams(r, back, n):
    m = Maker(r, back)
    m.res(0)
    m.alloc([100, 1000])
    for _ in range(n):
        x = r.random()
        if x < 0.5: m.wrapper()
        elif x < 0.65 and m.live["wr"]: m.put("wdel", m.gone("wr"))
        elif x < 0.73: m.copy_object()
        elif x < 0.76 and m.live["cp"]: m.put("cdel", m.any("cp"))
        elif x < 0.84 and m.live["cp"]: m.copy()
        elif x < 0.88 and m.live["ev"]: m.put(r.choice(["ewait", "edrop"]), m.any("ev"))
        elif x < 0.91 and back == "c" and m.live["wr"]: m.put("wsync", m.any("wr"))
        elif x < 0.94: m.put("dev", r.randrange(m.devices))
        elif back == "s": m.res()
        elif x < 0.97: m.put("rdel", m.any("res"))
    return m.c

# -------------------------------------------------------- negative controls
def change(f, k, v, op=None):
    """A call of the run-time with another argument."""
    def neg(evs):
        cur = None
        for i, e in enumerate(evs):
            if e["e"] == "call": cur = e["op"]
            if e["e"] == "api" and e["f"] == f and e["r"] == 0 and (op is None or op == cur):
                x = v(e["x"][k])
                if x != e["x"][k]:
                    e["x"][k] = x
                    return evs[:i + 60]
    return neg

def omit(f, op=None):
    def neg(evs):
        cur = None
        for i, e in enumerate(evs):
            if e["e"] == "call": cur = e["op"]
            if e["e"] == "api" and e["f"] == f and e["r"] == 0 and (op is None or op == cur):
                return evs[:i] + evs[i + 1:]
    return neg

def neg_device(evs):
    for i, e in enumerate(evs):
        if e["e"] == "ret" and e["r"] == "ok":
            e["cur"] += 1
            return evs[:i + 1]

def neg_swallowed(evs):
    for i, e in enumerate(evs):
        if e["e"] == "ret" and e["r"] != "ok":
            e["r"], e["a"] = "ok", 4096
            return evs[:i + 1]

def neg_equal(evs):
    cur = None
    for i, e in enumerate(evs):
        if e["e"] == "call": cur = e
        if e["e"] == "ret" and cur["op"] == "eq" and cur["x"][0] == cur["x"][1]:
            e["a"] = 0
            return evs[:i + 1]

def neg_late(evs):
    """A transfer that is carried out after its event was waited for."""
    for i, e in enumerate(evs):
        if e["e"] == "call" and e["op"] in ("ewait", "edrop"):
            j = next(k for k in range(i, len(evs)) if evs[k]["e"] == "ret")
            for k in range(i, j):
                if evs[k]["e"] == "do":
                    return evs[:k] + evs[k + 1:j + 1] + [evs[k]]

def neg_wrapper(evs):
    cur = None
    for i, e in enumerate(evs):
        if e["e"] == "call": cur = e
        if e["e"] == "ret" and cur["op"] in ("wcopy", "wasg"):
            e["a"] += 1
            return evs[:i + 1]

# ------------------------------------------------------------------ checks
def both(ctx):
    ctx.build({"vendor": SRC}, **BUILDS["vendor"])
    ctx.build({"vendor_fill": SRC}, **BUILDS["vendor_fill"])

def refute(ctx):
    for w, ops in (("device", ["res", "alloc"]), ("wait", ["wnew", "cnew", "res", "alloc", "copy", "ewait"]),
                   ("owner", ["wnew", "cnew", "wdel"]), ("order", ["wnew", "cnew", "res", "alloc", "copy", "ewait"])):
        ctx.refuted("MCVendor", job("", "c", ops, 6, 0, wrong=w, emit=False)["cfg"], "MCVendor-wrong-" + w)

def check_resources(ctx):
    ctx.build({"vendor": SRC}, **BUILDS["vendor"])
    d = ctx.scale(5, 6)
    jobs = [("c", job("c", "c", ["dev", "res", "rdel", "alloc", "free", "null", "eq"], d)),
            ("h", job("h", "h", ["dev", "res", "rdel", "alloc", "free", "null", "eq"], d)),
            ("s", job("s", "s", ["wnew", "wdel", "res", "rdel", "alloc", "free", "eq"], ctx.scale(6, 7))),
            ("c", job("c1", "c", ["dev", "res", "alloc", "free"], ctx.scale(6, 8), 2))]
    cases = from_models(ctx, jobs, ctx.scale(300, 3000))
    k = len(cases)
    r = ctx.rng("resources")
    cases += [resources(r, "chs"[i % 3], r.choice([10, 25, 60])) for i in range(ctx.scale(500, 8000))]
    ctx.family("resources", "vendor", cases, [VENDOR], from_model=k,
               negative=[neg_device, neg_swallowed, neg_equal, change("mal", 0, lambda v: (v + 1) % 3), change("mal", 1, lambda v: v + 1),
                         change("fre", 0, lambda v: 2 - v), omit("fre"), omit("set")])

def check_transfers(ctx):
    both(ctx)
    refute(ctx)
    ops = ["cnew", "res", "alloc", "copy", "fill", "ewait", "eign", "edrop"]
    jobs = [("c", job("c", "c", ["wnew"] + ops, ctx.scale(6, 7))), ("s", job("s", "s", ["wnew"] + ops, ctx.scale(6, 7))),
            ("h", job("h", "h", ops, ctx.scale(6, 7))),
            ("c", job("c2", "c", ["wnew", "cnew", "res", "alloc", "copy", "wsync", "edrop"], ctx.scale(7, 8), 0))]
    cases = from_models(ctx, jobs, ctx.scale(250, 2500))
    k = len(cases)
    r = ctx.rng("transfers")
    n = ctx.scale(400, 6000)
    cases += [transfers(r, "ccsh"[i % 4], r.choice([8, 20, 40])) for i in range(n)]
    ctx.family("transfers", "vendor", cases, [VENDOR], from_model=k,
               negative=[neg_late, neg_swallowed, change("tx", 3, lambda v: v + 1, "copy"), change("tx", 4, lambda v: v + 1, "copy"),
                         change("tx", 5, lambda v: v - 1, "copy"), change("tx", 6, lambda v: v if v < 0 else 3 - v if v < 4 else v, "copy"),
                         change("tx", 4, lambda v: v + 1 if 0 <= v < 200 else v, "fill"), change("tx", 1, lambda v: v + 1 if v > 0 else v, "copy")])
    r = ctx.rng("fills")
    cases = [transfers(r, "s", r.choice([8, 20, 40])) for i in range(ctx.scale(100, 2000))]
    ctx.family("transfers with fills of SYCL", "vendor_fill", cases, [VENDOR], negative=[neg_late, omit("tx", "fill")])

def check_streams(ctx):
    ctx.build({"vendor": SRC}, **BUILDS["vendor"])
    ops = ["wnew", "wcopy", "wmove", "wasg", "wmasg", "wdel", "cnew", "cdel"]
    jobs = [("c", job("c", "c", ops, ctx.scale(5, 6))), ("s", job("s", "s", ops + ["res", "rdel"], ctx.scale(5, 6), 0)),
            ("c", job("c3", "c", ["dev", "wnew", "wasg", "wdel", "cnew", "cdel"], ctx.scale(6, 7)))]
    cases = from_models(ctx, jobs, ctx.scale(350, 3500))
    k = len(cases)
    r = ctx.rng("streams")
    cases += [streams(r, "cs"[i % 2], r.choice([10, 25, 60])) for i in range(ctx.scale(500, 8000))]
    ctx.family("streams", "vendor", cases, [VENDOR], from_model=k,
               negative=[neg_wrapper, neg_device, omit("sd"), omit("sd", "wdel"), omit("sc", "wnew"), change("sc", 0, lambda v: v + 1000, "wnew")])

CHECKS = {"C33": check_resources, "C34": check_transfers, "C35": check_streams}
