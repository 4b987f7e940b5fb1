"""Checks of C19 (concurrent appends) and C20 (atomic references)."""
from .. import build as B, core

MOCK = ["-I", B.VERIF + "/harness/mock"]
TSAN = ["-fsanitize=thread"]
DRIVER = {"conc": ("conc_driver.cpp", TSAN), "atomic": ("atomic_driver.cpp", TSAN + MOCK), "conc_edm": ("conc_edm_driver.cpp", TSAN)}
BUILD = dict(lib=False, plain=("sched.cpp",))
AP = ("AppendsTrace", core.trace_cfg(invs=["NoOverlap", "WithinCapacity"]))

def neg_dup(evs):
    """Two appends return the same position."""
    prev, n = None, {}
    for i, e in enumerate(evs):
        if e["e"] == "R":
            prev = None
        if e["e"] == "call":
            n[e["t"]] = e
        if e["e"] == "ret" and n[e["t"]]["op"] == "push" and n[e["t"]]["v"] == 1:
            if prev is not None:
                e["r"] = prev
                return evs[:i + 1]
            prev = e["r"]

def neg_lost(evs):
    for i, e in enumerate(evs):
        if e["e"] == "fin" and e["obs"][0]["sz"] > 1:
            e["obs"][0]["sz"] -= 1
            e["obs"][0]["s"].pop()
            return evs[:i + 1]

def neg_value(evs):
    for i, e in enumerate(evs):
        if e["e"] == "fin" and e["obs"][0]["sz"] > 1:
            e["obs"][0]["s"][-1] = 119
            return evs[:i + 1]

def mc(threads, programs, initial, vecs, tag):
    return dict(module="MCAppends", tag=tag, cfg="SPECIFICATION MCSpec\nCONSTANTS Threads = %d Programs <- %s Initial <- %s Vecs = %d Name = \"P\"\nVIEW MCView\nINVARIANT NoOverlap\nINVARIANT WithinCapacity\nINVARIANT Returns\nINVARIANT Ends\n"
                % (threads, programs, initial, vecs))

def head(r, ex, pre, rnd):
    return "R %s %d %d %d %d %d %d %d" % (r.choice("iccCyl"), r.randint(1, 10**6), r.random() < 0.3, r.random() < 0.5, r.choice([0, 0, 1, 3]), ex, pre, rnd)

def c19(ctx):
    ctx.build({"conc": DRIVER["conc"]}, **BUILD)
    jobs = [mc(2, "PairPrograms", "NoneYet", 1, "MCAppends-2"), mc(3, "TriplePrograms", "SomeYet", 1, "MCAppends-3"), mc(2, "TwoVectors", "NoneYet", 2, "MCAppends-vectors")]
    if not ctx.quick:
        jobs.append(mc(3, "PairPrograms", "NoneYet", 1, "MCAppends-3-long"))
    r = ctx.rng("programs")
    mcs = []
    for scripts in ctx.models(jobs):
        for s in core.sample(r, sorted(set(scripts)), ctx.scale(150, 3000)):
            mcs.append([head(r, ctx.scale(60, 3000), 3, ctx.scale(20, 300))] + s.strip().split(";")[1:])
    rnd = []
    for _ in range(ctx.scale(100, 1500)):
        c = [head(r, ctx.scale(40, 2000), 2, ctx.scale(40, 400))]
        for t in range(r.choice([2, 2, 3, 4])):
            for _ in range(r.randint(1, 4)):
                op = r.choice(["push", "push", "bulk", "bulkv", "impl", "size"])
                c.append("t %d %s %d%s" % (t, op, r.choice([1, 1, 1, 2]), " %d" % r.choice([0, 1, 2, 3]) if op[0] in "bi" else ""))
        rnd.append(c)
    ctx.family("concurrent appends", "conc", mcs + rnd, [AP], from_model=len(mcs), negative=[neg_dup, neg_lost, neg_value])

def structured(ctx):
    """Concurrent appends to structured containers (part of C31)."""
    ctx.build({"conc_edm": DRIVER["conc_edm"]}, **BUILD)
    r = ctx.rng("structured")
    hd = lambda ex, pre, rnd: "R %s %d %d %d %d %d %d" % (r.choice("abc"), r.randint(1, 10**6), r.random() < 0.5, r.choice([0, 0, 1, 3]), ex, pre, rnd)
    mcs = []
    for scripts in ctx.models([mc(2, "SinglePrograms", "SomeYet", 2, "MCAppends-struct2")] + ([] if ctx.quick else [mc(3, "SinglePrograms", "NoneYet", 2, "MCAppends-struct3")])):
        for s in core.sample(r, sorted(set(scripts)), ctx.scale(60, 1000)):
            mcs.append([hd(ctx.scale(60, 2000), 3, ctx.scale(10, 200))] + s.strip().split(";")[1:])
    rnd = []
    for _ in range(ctx.scale(30, 500)):
        c = [hd(ctx.scale(40, 1500), 2, ctx.scale(20, 300))]
        for t in range(r.choice([2, 3, 3, 4])):
            for _ in range(r.randint(1, 3)):
                c.append("t %d %s %d" % (t, "push", r.choice([1, 1, 1, 2])))
        rnd.append(c)
    ctx.family("concurrent appends to structured containers", "conc_edm", mcs + rnd, [AP], from_model=len(mcs), negative=[neg_dup, neg_lost, neg_value])

AT = ("AtomicTrace", core.trace_cfg())

def neg_result(evs):
    for i, e in enumerate(evs):
        if e["e"] == "ret" and e["r"] and evs[i - 1]["e"] == "call" and evs[i - 1]["op"] in ("add", "exch", "load"):
            e["r"][0] ^= 1
            return evs[:i + 1]

def neg_final(evs):
    for i, e in enumerate(evs):
        if e["e"] == "fin":
            e["vals"][1][0] ^= 4
            return evs[:i + 1]

def neg_plain(evs):
    for i, e in enumerate(evs):
        if e["e"] == "ret" and e["acc"] and e["acc"][0][0] == "a":
            e["acc"][0][0] = "p"
            return evs[:i + 1]

def neg_weak(evs):
    for i, e in enumerate(evs):
        if e["e"] == "ret" and e["acc"] and e["acc"][0] == ["a", 5] and evs[i - 1]["e"] == "call" and evs[i - 1]["o"] == 5:
            e["acc"][0][1] = 0
            return evs[:i + 1]

def neg_order(evs):
    """Two overlapping exchanges that both return the initial value."""
    for i in range(len(evs) - 3):
        a, b, c, d = evs[i:i + 4]
        if a["e"] == "call" and b["e"] == "call" and c["e"] == "ret" and d["e"] == "ret" and a["op"] == b["op"] == "add" and a["i"] == b["i"] and any(a["x"]) and any(b["x"]):
            d["r"] = c["r"]
            return evs[:i + 4]

BITS = dict(b=8, B=8, h=16, H=16, i=32, I=32, l=64, L=64)
def value(r, ty):
    n = BITS[ty]
    signed = ty.islower()
    lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, (1 << min(n, 63)) - 1)
    return max(lo, min(hi, r.choice([0, 1, 1, 2, 3, hi, hi - 1, lo, lo + 1, -1, 0x55, 0x0f, 0x80, 0x100, 0xff, 0xffff, 1 << 31, r.randint(lo, hi)])))

def c20(ctx):
    ctx.build({"atomic": DRIVER["atomic"]}, **BUILD)
    cfg = "SPECIFICATION MCSpec\nCONSTANTS Threads = %d Programs <- %s\nINVARIANT NothingLost\nINVARIANT OneWinner\nINVARIANT Sound\nINVARIANT OneByte\n"
    jobs = [dict(module="MCAtomic", tag="MCAtomic-2", cfg=cfg % (2, ctx.scale("Single", "Pairs"))),
            dict(module="MCAtomic", tag="MCAtomic-count", cfg=cfg % (3, "Counting")),
            dict(module="MCAtomic", tag="MCAtomic-3", cfg=cfg % (3, "Single"))]
    r = ctx.rng("programs")
    mcs = []
    for scripts in ctx.models(jobs):
        for s in core.sample(r, sorted(set(scripts)), ctx.scale(300, 4000)):
            w = s.strip().split(";")
            mcs.append(["R a B %d %d 3 %d %s 100 200" % (r.randint(1, 10**6), ctx.scale(60, 2000), ctx.scale(10, 100), w[0])] + w[1:])
    rnd = []
    ops = ["load", "store", "assign", "exch", "cas", "cas", "cas", "add", "add", "sub", "and", "or", "xor"]
    for _ in range(ctx.scale(500, 6000)):
        ty = r.choice("bBhHiIlL")
        fl = r.choice("aaaadvcCsS")
        vs = [value(r, ty) for _ in range(3)]
        pool = vs + [value(r, ty) for _ in range(3)]
        c = ["R %s %s %d %d 2 %d %d %d %d" % (fl, ty, r.randint(1, 10**6), ctx.scale(30, 1000), ctx.scale(15, 200), *vs)]
        nt = 1 if fl in "dv" else r.choice([1, 2, 2, 3])
        for t in range(nt):
            for _ in range(r.randint(1, 3) if nt > 1 else r.randint(5, 20)):
                op = r.choice(ops)
                i = r.choice([1, 1, 2, 2, 3]) if nt == 1 else r.choice([1, 2, 2, 2])
                o = r.choice(dict(load=[0, 1, 2, 5], store=[0, 3, 5], assign=[5]).get(op, [0, 1, 2, 3, 4, 5]))
                line = "t %d %s %d %d %d" % (t, op, i, r.choice(pool), r.choice(pool))
                if r.random() < 0.8:
                    line += " %d" % o
                    if op == "cas" and r.random() < 0.5:
                        line += " %d" % r.choice([0, 1, 2, 5])
                c.append(line)
        rnd.append(c)
    ctx.family("atomic references", "atomic", mcs + rnd, [AT], from_model=len(mcs), negative=[neg_result, neg_final, neg_plain, neg_weak, neg_order])

CHECKS = dict(C19=c19, C20=c20)
