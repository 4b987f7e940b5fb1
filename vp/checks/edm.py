"""Checks of C30 to C32 (structured containers)."""
import copy as cp
from .. import core
from . import big, conc

DRIVER = {"edm": ("edm_driver.cpp", [], ["-DPART=0"], ["-DPART=1"], ["-DPART=2"], ["-DPART=3"])}
ED = ("EdmTrace", core.trace_cfg(invs=["Shapes"]))
KINDS = dict(a="svv", b="vvsv", c="v", d="jsvj", e="svjv", f="j")
FLAT, JAGGED = "abc", "def"

class Obj:
    def __init__(s, kinds, kind, dev, caps):
        s.kind, s.dev, s.live = kind, dev, True
        n = len(caps) if "j" in kinds else (caps[0] if caps else 0)
        s.n = n                                   # room
        s.jag = "j" in kinds
        # inner capacities and sizes of each jagged variable; size of the others
        s.caps = {i: list(caps) for i, k in enumerate(kinds) if k == "j"}
        s.sizes = {i: ([0] * n if kind == "r" else list(caps)) for i in s.caps}
        s.len = {i: n for i, k in enumerate(kinds) if k != "s"}
        s.size = 0 if kind == "r" and not s.jag else n
    def ok(s):
        return s.kind != "h" or len(set(s.len.values())) <= 1

class Gen:
    def __init__(g, r, schemas, weights, mode, dev=0.6, wrong=0.15):
        g.r, g.w, g.dev, g.wrong = r, weights, dev, wrong
        g.s = r.choice(schemas)
        g.kinds = KINDS[g.s]
        g.os, g.out = [], ["R %s %d %d" % (g.s, r.randint(1, 10**6), mode)]
    def say(g, *a):
        g.out.append(" ".join(map(str, a)))
    def hint(g, f, t):
        if g.r.random() < 0.4: return 4
        if g.r.random() < 0.1: return g.r.randint(0, 4)
        return {(0, 1): 0, (1, 0): 1, (0, 0): 2, (1, 1): 3}[(f, t)]
    def shape(g):
        r = g.r
        if "j" in g.kinds:
            if r.random() < 0.04:               # more than a narrow type can count
                return r.choice([[200, 100], [255, 1], [0, 130, 0, 130], [1, 255, 2]])
            if r.random() < 0.04:
                return [r.choice([0, 1, 1, 2]) for _ in range(r.choice([9, 17, 33]))]
            return [r.choice([0, 0, 1, 1, 2, 3, 5]) for _ in range(r.choice([0, 1, 1, 2, 3, 3, 4]))]
        return [r.choice([0, 1, 2, 2, 3, 4, 9]) if r.random() < 0.95 else r.choice([33, 64, 65, 130, 256])]
    def like(g, o):
        """Capacities that o fits in (mostly)."""
        r = g.r
        if not o.jag:
            return [o.size + r.choice([0, 0, 1, 3])]
        n = len(next(iter(o.sizes.values())))
        need = [max(s[i] for s in o.sizes.values()) for i in range(n)]
        if r.random() < 0.3:
            return list(next(iter(o.caps.values())))
        if r.random() < 0.3:                    # the same altogether
            r.shuffle(need)
            return need
        return [c + r.choice([0, 0, 1]) for c in need]
    def make(g, o=None):
        r = g.r
        if len(g.os) >= 9: return None
        kind = r.choice("hffrrr")
        dev = 0 if kind == "h" else int(r.random() < g.dev)
        caps = g.shape() if o is None else g.like(o)
        k = len(g.os)
        if kind == "h":
            g.say("h")
            n = Obj(g.kinds, "h", 0, caps)
            g.os.append(n)
            g.say("hr", k + 1, n.n)
            for i in n.caps:
                for j in range(n.n): g.say("hrow", k + 1, j, i, caps[j])
            g.values(k)
        else:
            g.say("b", int(kind == "r"), dev, *caps)
            g.os.append(Obj(g.kinds, kind, dev, caps))
            g.say("setup", k + 1)
            if kind == "r": g.resize(k)
            if r.random() < 0.5: g.values(k)
        return k
    def values(g, k):
        for _ in range(g.r.randint(0, min(12, 2 * g.os[k].n))): g.set(k)
    def set(g, k):
        o, r = g.os[k], g.r
        if not o.ok(): return
        i = r.randrange(o.size) if o.size else 0
        w = r.randrange(len(g.kinds))
        j = 0
        if g.kinds[w] == "j" and i < len(o.sizes[w]) and o.sizes[w][i]: j = r.randrange(o.sizes[w][i])
        g.say("set", k + 1, i, w, j, r.randint(0, 255))
    def resize(g, k):
        o, r = g.os[k], g.r
        if o.jag:
            for i in o.caps:
                for j in range(o.n):
                    o.sizes[i][j] = r.choice([0, o.caps[i][j], r.randint(0, o.caps[i][j])])
                    g.say("rz", k + 1, i, j, o.sizes[i][j])
        else:
            o.size = r.choice([0, o.n, o.n, r.randint(0, o.n)])
            g.say("rz", k + 1, r.choice([i for i, q in enumerate(g.kinds) if q == "v"]), 0, o.size)
    def fits(g, f, t):
        if not f.jag: return f.size <= t.n
        return f.n == t.n and all(a <= b for i in f.sizes for a, b in zip(f.sizes[i], t.caps[i]))
    def live(g, f=lambda o: True):
        return [i for i, o in enumerate(g.os) if o.live and f(o)]
    def took(g, f, t):
        if t.kind == "r":
            t.size = f.size if not f.jag else t.size
            t.sizes = {i: list(f.sizes[i]) for i in f.sizes}
    def step(g):
        r = g.r
        op = r.choices(list(g.w), list(g.w.values()))[0]
        ks = g.live()
        if op == "make" or not ks:
            g.make(); return
        k = r.choice(ks)
        o = g.os[k]
        if op == "copy":
            cand = [j for j in ks if j != k and (r.random() < g.wrong or g.fits(o, g.os[j]))]
            if not cand or r.random() < 0.2:
                j = g.make(o)
                if j is None: return
            else:
                j = r.choice(cand)
            t = g.os[j]
            g.say("copy", k + 1, j + 1, g.hint(o.dev, t.dev))
            if g.fits(o, t) and o.ok() and t.ok(): g.took(o, t)
        elif op == "tv":
            cand = g.live(lambda q: q.kind == "h" and q is not o)
            if not o.ok(): return
            if not cand:
                if len(g.os) >= 9: return
                g.say("h"); g.os.append(Obj(g.kinds, "h", 0, [])); cand = [len(g.os) - 1]
            t = g.os[r.choice(cand)]
            g.say("tv", k + 1, g.os.index(t) + 1, g.hint(o.dev, 0))
            t.size = t.n = o.size if not o.jag else o.n
            t.len = {i: t.n for i in t.len}
            t.sizes = {i: list(o.sizes[i]) for i in o.sizes}; t.caps = {i: list(o.sizes[i]) for i in o.sizes}
        elif op == "ms": g.say("ms", k + 1, r.choice([0, 255, 1, r.randint(0, 255)]))
        elif op in ("gs", "di", "sz"): g.say(op, k + 1)
        elif op == "get": g.say("get", k + 1, r.choice([0, max(0, o.size - 1), o.size, r.randint(0, o.size + 1)]))
        elif op == "set": g.set(k)
        elif op == "setup" and o.kind != "h":
            g.say("setup", k + 1)
            if o.kind == "r":
                o.size = o.size if o.jag else 0
                o.sizes = {i: [0] * o.n for i in o.sizes}
        elif op == "rz" and o.kind == "r": g.resize(k)
        elif op == "dpb" and o.kind == "r":
            n = r.randint(1, 3)
            g.say("dpb", k + 1, n)
            if not o.jag: o.size = min(o.n, o.size + n)
        elif op == "hr" and o.kind == "h":
            n = r.choice([0, 1, 2, 3, 5])
            g.say("hr", k + 1, n)
            o.n = o.size = n
            o.len = {i: n for i in o.len}
            for i in o.sizes:
                o.sizes[i] = (o.sizes[i] + [0] * n)[:n]; o.caps[i] = o.sizes[i]
            for i in o.sizes:
                for j in range(n):
                    if r.random() < 0.4: g.row(k, i, j)
        elif op == "hrow" and o.kind == "h" and o.sizes and o.ok():
            i = r.choice(list(o.sizes))
            if o.sizes[i]: g.row(k, i, r.randrange(len(o.sizes[i])))
        elif op == "hx" and o.kind == "h":
            w = r.choice(list(o.len)); n = r.randint(0, 4)
            g.say("hx", k + 1, w, n)
            o.len[w] = n
            if w in o.sizes:
                o.sizes[w] = (o.sizes[w] + [0] * n)[:n]; o.caps[w] = o.sizes[w]
            if r.random() < 0.5: g.say("sz", k + 1)
            if r.random() < 0.3: g.say("get", k + 1, r.randint(0, 3))
            if r.random() < 0.8:
                g.say("hr", k + 1, n); o.n = o.size = n; o.len = {i: n for i in o.len}
                for i in o.sizes:
                    o.sizes[i] = (o.sizes[i] + [0] * n)[:n]; o.caps[i] = o.sizes[i]
            elif o.ok():
                o.n = o.size = n
        elif op == "hv" and o.kind == "h": g.say("hv", k + 1, r.randint(0, 9))
        elif op == "hc" and o.kind == "h" and len(g.os) < 9:
            g.say("hc", k + 1); g.os.append(cp.deepcopy(o))
        elif op == "free":
            g.say("free", k + 1); o.live = False
        elif op == "mv" and o.kind != "h" and len(g.os) < 9:
            g.say("mv", k + 1); g.os.append(cp.deepcopy(o)); o.live = False
        elif op == "ma" and o.kind != "h":
            c = g.live(lambda q: q.kind != "h" and q is not o)
            if c:
                j = r.choice(c)
                g.say("ma", k + 1, j + 1)
                g.os[k] = cp.deepcopy(g.os[j]); g.os[j].live = False
        elif op == "wait": g.say("wait")
    def row(g, k, i, j):
        n = g.r.choice([0, 1, 2, 3])
        g.say("hrow", k + 1, j, i, n)
        g.os[k].sizes[i][j] = n
    def run(g, n):
        for _ in range(n): g.step()
        return g.out

# ------------------------------------------------------------ negatives ---
def ops(evs, *names):
    return [(i, e) for i, e in enumerate(evs) if e["e"] == "op" and e["op"] in names]
def seen(e, k):
    b = e["obs"][k - 1]
    return [b] if b["n"] == 0 else []
def neg_value(evs):
    for i, e in ops(evs, "copy", "tv"):
        for b in seen(e, e["t"]):
            for w, v in enumerate(b["v"]):
                for r, x in enumerate(v):
                    if e["thr"] == 0 and b["s"][w][r] > 0:
                        x[0] += 1
                        return evs[:i + 1]
def neg_late(evs):
    for i, e in ops(evs, "wait"):
        for b in e["obs"]:
            if b["n"] == 0:
                for w, v in enumerate(b["v"]):
                    for r, x in enumerate(v):
                        if len(v) == 1 and x and b["s"][w][r] > 0:
                            x[0] += 1
                            return evs[:i + 1]
def neg_size(evs):
    for i, e in ops(evs, "copy", "tv", "rz", "setup"):
        for b in seen(e, e["t"]):
            for w, v in enumerate(b["s"]):
                if e["thr" if "thr" in e else "t"] != 1 and v and len(v) > 1 or e["op"] == "rz" and v:
                    v[0] += 1
                    return evs[:i + 1]
def neg_source(evs):
    for i, e in ops(evs, "copy", "tv"):
        last = [x["obs"][e["f"] - 1] for _, x in ops(evs[:i], "host", "hr", "buf", "copy", "rz", "set", "tv", "setup", "ms", "hrow", "mv", "ma", "dpb", "hx", "hc") if e["f"] <= len(x["obs"]) and x["obs"][e["f"] - 1]["n"] == 0]
        if last and e["obs"][e["f"] - 1]["n"] == 3:
            b = cp.deepcopy(last[-1])
            for v in b["v"]:
                for x in v:
                    if x:
                        x[0] += 1
                        e["obs"][e["f"] - 1] = b
                        return evs[:i + 1]
def neg_refused(evs):
    for i, e in ops(evs, "copy"):
        if e["thr"] == 1 and e["obs"][e["f"] - 1]["n"] != 1:
            e["thr"] = 0
            return evs[:i + 1]
def neg_throws(evs):
    for i, e in ops(evs, "copy", "tv"):
        if e["thr"] == 0:
            e["thr"] = 1
            return evs[:i + 1]
def neg_get(evs):
    for i, e in ops(evs, "get"):
        for v in e["r"]:
            if v:
                v[-1] += 1
                return evs[:i + 1]
def neg_get_thr(evs):
    for i, e in ops(evs, "get"):
        if e["thr"] == 3:
            e["thr"] = 0
            e["r"] = []
            return evs[:i + 1]
def neg_sz(evs):
    for i, e in ops(evs, "sz"):
        if e["thr"] == 1:
            e["thr"] = 0
            return evs[:i + 1]
def neg_sz2(evs):
    for i, e in ops(evs, "sz"):
        if e["thr"] == 0:
            e["r"][0] += 1
            return evs[:i + 1]
def neg_hr(evs):
    for i, e in ops(evs, "hr"):
        for b in seen(e, e["t"]):
            w = len(b["v"]) - 1
            if b["v"][w] and b["v"][w][-1]:
                b["v"][w][-1].pop()
                return evs[:i + 1]
def neg_set(evs):
    for i, e in ops(evs, "set"):
        for b in seen(e, e["t"]):
            w = (e["x"][1] + 1) % len(b["v"])
            for x in b["v"][w]:
                if x and w != e["x"][1]:
                    x[-1] += 1
                    return evs[:i + 1]
def neg_dpb(evs):
    for i, e in ops(evs, "dpb"):
        if e["r"]:
            e["r"][-1] += 1
            return evs[:i + 1]
def neg_di(evs):
    for i, e in ops(evs, "di"):
        e["r"][-2] += 1
        return evs[:i + 1]
def neg_views(evs):
    for i, e in ops(evs, "di"):
        e["views"] = 0
        return evs[:i + 1]
def neg_lay(evs):
    for i, e in ops(evs, "buf"):
        if len(e["lay"]) > 1:
            e["lay"][1][0] = e["lay"][0][0]
            return evs[:i + 1]
def neg_align(evs):
    for i, e in ops(evs, "buf"):
        if e["lay"]:
            e["lay"][-1][2] = 1
            return evs[:i + 1]
def neg_kept(evs):
    made = [e["op"] for _, e in ops(evs, "host", "hc", "buf", "mv")]
    for i, e in ops(evs, "free"):
        if e["ups"] and made[e["t"] - 1] == "buf":
            e["ups"] = e["ups"][:-1]
            return evs[:i + 1]
def neg_crash(evs):
    for i, e in ops(evs, "copy", "set"):
        return evs[:i] + [dict(e="crash", sig=11)]

# --------------------------------------------------------------- checks ---
def mc(sch, start, ops, calls, objs, name):
    return dict(module="MCEdm", tag="MCEdm-" + name, cfg="SPECIFICATION MCSpec\nCONSTANTS Schema = \"%s\" Start = %d Ops = {%s} MaxCalls = %d MaxObjs = %d Name = \"%s\"\nVIEW MCView\nACTION_CONSTRAINT Emit\nINVARIANT Bounded\nINVARIANT Together\nINVARIANT Shapes\nPROPERTY ShapesKept\n"
                % (sch, start, ", ".join('"%s"' % o for o in ops), calls, objs, name))

def family(ctx, name, jobs, weights, negative, modes=(0,), schemas=FLAT + JAGGED, dev=0.6, wrong=0.15, nmc=400, nrnd=300):
    mcs = []
    for scripts, j in zip(ctx.models(jobs), jobs):
        for i, s in enumerate(core.sample(ctx.rng("cover" + j["tag"]), core.maximal(scripts), ctx.scale(nmc, 12 * nmc))):
            mcs.append(["R %s %d %d" % (s[1][1:], i + 1, modes[i % len(modes)])] + [x for x in s[2:] if x and x != "wait"])
    r = ctx.rng("random" + name)
    rnd = [Gen(r, schemas, weights, modes[i % len(modes)], dev, wrong).run(r.choice([8, 16, 30])) for i in range(ctx.scale(nrnd, 12 * nrnd))]
    ctx.family(name, "edm", mcs + rnd, [ED], from_model=len(mcs), negative=negative)

W = dict(make=3, copy=8, tv=3, ms=1, gs=1, setup=0.5, rz=2, dpb=1, di=1, get=1, set=2, hr=1, hrow=1, free=1, mv=0.5, ma=0.5, wait=0)

def c30(ctx):
    ctx.build(DRIVER)
    hostops = ["hr", "hx", "hrow", "sz", "set", "get", "hc", "hv"]
    family(ctx, "structured host containers", [mc(s, k, hostops, ctx.scale(3, 4), 4, "host-" + s) for s, k in (("a", 1), ("b", 2), ("d", 4), ("e", 6), ("f", 4))],
           dict(make=2, hr=4, hx=3, hrow=4, sz=3, set=6, get=6, hv=1, hc=1, tv=1, free=0.5, di=1), [neg_get, neg_get_thr, neg_sz, neg_sz2, neg_hr, neg_set])
def c31(ctx):
    ctx.build(DRIVER)
    devops = ["di", "dpb", "rz", "set", "get", "setup", "mv", "ma", "free"]
    family(ctx, "structured buffers and devices", [mc(s, k, devops, ctx.scale(3, 4), 5, "device-" + s + str(k)) for s, k in (("a", 1), ("b", 2), ("c", 3), ("d", 4), ("e", 5), ("f", 6))],
           dict(make=6, di=3, dpb=4, rz=3, set=5, get=5, setup=1, mv=2, ma=2, free=2, copy=1), [neg_get, neg_set, neg_dpb, neg_di, neg_views, neg_lay, neg_align, neg_kept, neg_crash], nmc=300)
    conc.structured(ctx)
    big.structured(ctx)
def c32(ctx):
    ctx.build(DRIVER)
    cops = ["copy", "tv", "ms", "rz", "gs"]
    family(ctx, "copies of structured containers", [mc(s, k, cops, ctx.scale(3, 4), 3, "copy-" + s + str(k)) for s, k in (("a", 1), ("b", 2), ("c", 3), ("d", 4), ("d", 5), ("e", 6), ("f", 5))],
           W, [neg_value, neg_size, neg_source, neg_refused, neg_throws, neg_crash], nmc=300, wrong=0.25)
    big.scopied(ctx)

CHECKS = dict(C30=c30, C31=c31, C32=c32)
