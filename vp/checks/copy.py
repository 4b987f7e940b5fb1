"""Checks of C24 to C29 (buffers and copies)."""
from .. import core
from . import big, edm

DRIVER = {"copy": ("copy_driver.cpp", [])}
CP = ("CopyTrace", core.trace_cfg(invs=["Sizes"]))
TYPES = "cipA"

class Obj:
    def __init__(s, kind, jag, dev, caps, sizes=None):
        s.kind, s.jag, s.dev, s.live = kind, jag, dev, True
        s.caps = list(caps)
        s.sizes = list(sizes if sizes is not None else ([0] * len(caps) if kind == "r" else caps))

class Gen:
    """Random histories; keeps track of the sizes, so that most operations apply."""
    def __init__(g, r, weights, mode, dims=(0, 1), dev=0.6, wrong=0.25, big=False):
        g.r, g.w, g.dims, g.dev, g.wrong, g.big = r, weights, dims, dev, wrong, big
        g.os, g.out = [], ["R %s %d %d" % (r.choice(TYPES), r.randint(1, 10**6), mode)]

    def say(g, *a):
        g.out.append(" ".join(map(str, a)))
    def n(g):
        return g.r.choice([0, 1, 1, 2, 3, 3, 4, 7] + ([40, 257] if g.big else []))
    def make(g, like=None, tight=None):
        """A new object; like: shape that it should be able to take."""
        r = g.r
        if len(g.os) >= 13: return None
        jag = r.choice(g.dims) if like is None else like.jag
        kind = r.choice("hffrrr")
        dev = 0 if kind == "h" else int(r.random() < g.dev)
        if like is None and jag and r.random() < 0.03:      # more than a narrow type can count
            caps = r.choice([[200, 100], [255, 1], [0, 130, 0, 130]])
        elif like is None and jag and r.random() < 0.04:    # many rows
            caps = [r.choice([0, 1, 1, 2]) for _ in range(r.choice([9, 12, 17, 33]))]
        elif like is None and not jag and r.random() < 0.04:
            caps = [r.choice([33, 64, 130, 256])]
        elif like is None:
            caps = [g.n() for _ in range(r.choice([0, 1, 2, 3, 3, 4, 6]))] if jag else [g.n()]
        else:
            caps = [s + r.choice([0, 0, 1, 2]) * (not tight) for s in like.sizes]
            if r.random() < 0.3:
                caps = list(like.caps)
        if not jag and not caps: caps = [0]
        o = Obj(kind, jag, dev, caps)
        if kind == "h": g.say("hj" if jag else "h1", *caps)
        elif jag: g.say("bj", int(kind == "r"), dev, *caps)
        else: g.say("b1", caps[0], int(kind == "r"), dev)
        g.os.append(o)
        if kind != "h":
            g.say("setup", len(g.os))
            if r.random() < 0.8:
                for i in range(len(caps)):
                    for j in range(min(caps[i], 4)):
                        if r.random() < 0.5: g.say("wr", len(g.os), i, j, r.randint(0, 255))
                if kind == "r": g.resize(len(g.os) - 1)
        return o
    def resize(g, k):
        o = g.os[k]
        for i in range(len(o.caps)):
            o.sizes[i] = g.r.choice([0, o.caps[i], g.r.randint(0, o.caps[i])])
            g.say("rz", k + 1, i, o.sizes[i])
    def live(g, f=lambda o: True):
        return [i for i, o in enumerate(g.os) if o.live and f(o)]
    def operand(g, k):
        """Text, shape (jag, sizes, caps) and a setter of sizes."""
        r, o = g.r, g.os[k]
        m = r.random()
        if o.jag and o.caps and m < 0.15:
            i = r.randrange(len(o.caps))
            return "%d:r:%d" % (k + 1, i), Obj(o.kind, 0, o.dev, [o.caps[i]], [o.sizes[i]]), lambda s: o.sizes.__setitem__(i, s[0])
        if o.jag and m < 0.25:
            i = r.randint(0, len(o.caps))
            return "%d:p:%d" % (k + 1, i), Obj(o.kind, 1, o.dev, o.caps[:i], o.sizes[:i]), lambda s: o.sizes.__setitem__(slice(0, i), s)
        if not o.jag and m < 0.15:
            a = r.randint(0, o.caps[0]); b = r.randint(0, o.caps[0] - a)
            return "%d:s:%d:%d" % (k + 1, a, b), Obj("f", 0, o.dev, [b]), lambda s: None
        return str(k + 1), o, lambda s: o.sizes.__setitem__(slice(None), s)
    def hint(g, f, t):
        if g.r.random() < 0.4: return 4
        if g.r.random() < 0.1: return g.r.randint(0, 4)
        return {(0, 1): 0, (1, 0): 1, (0, 0): 2, (1, 1): 3}[(f, t)]
    def fits(g, f, t):
        if f.jag != t.jag: return False
        return len(f.sizes) == len(t.caps) and all(a <= b for a, b in zip(f.sizes, t.caps))
    def step(g):
        r = g.r
        op = r.choices(list(g.w), list(g.w.values()))[0]
        ks = g.live()
        if op == "make" or not ks:
            g.make(); return
        k = r.choice(ks)
        o = g.os[k]
        if op == "copy":
            x, f, _ = g.operand(k)
            if r.random() < g.wrong:
                cand = [j for j in ks if j != k]
            else:
                cand = [j for j in ks if j != k and g.fits(f, g.os[j])]
            if not cand or r.random() < 0.15:
                if g.make(f, tight=r.random() < 0.3) is None: return
                cand = [len(g.os) - 1]
            j = r.choice(cand)
            y, t, put = g.operand(j) if r.random() < 0.3 else (str(j + 1), g.os[j], lambda s: g.os[j].sizes.__setitem__(slice(None), s))
            g.say("copy", x, y, g.hint(f.dev, t.dev))
            if g.fits(f, t) and t.kind == "r": put(list(f.sizes))
        elif op == "tv":
            x, f, _ = g.operand(k)
            cand = g.live(lambda q: q.kind == "h" and q.jag == f.jag and q is not o)
            if not cand:
                if len(g.os) >= 13: return
                g.os.append(Obj("h", f.jag, 0, [1] if not f.jag else []))
                g.say("hj") if f.jag else g.say("h1", 1)
                cand = [len(g.os) - 1]
            j = r.choice(cand)
            g.say("tv", x, j + 1, g.hint(f.dev, 0))
            g.os[j].caps, g.os[j].sizes = list(f.sizes), list(f.sizes)
        elif op == "to":
            if len(g.os) >= 13: return
            x, f, _ = g.operand(k)
            d = int(r.random() < g.dev)
            g.say("to", x, d, g.hint(f.dev, d))
            g.os.append(Obj("f", f.jag, d, list(f.sizes)))
        elif op == "bv":
            if len(g.os) >= 13: return
            x, f, _ = g.operand(k)
            if not f.jag or f.kind == "r" and f.dev: return
            z, d = r.randint(0, 1), int(r.random() < g.dev)
            g.say("bv", x, z, d)
            g.os.append(Obj("fr"[z], 1, d, list(f.sizes)))
            g.say("setup", len(g.os))
        elif op == "ms":
            g.say("ms", g.operand(k)[0], r.choice([0, 255, 1, r.randint(0, 255)]))
        elif op == "gs":
            g.say("gs", g.operand(k)[0])
        elif op == "ss":
            x, f, put = g.operand(k)
            if not f.jag: return
            s = [r.choice([0, c, r.randint(0, c)]) for c in f.caps]
            q = r.random()
            if q < g.wrong / 2 and s: s[r.randrange(len(s))] += r.choice([1, 9])
            elif q < g.wrong: s = s + [0] if r.random() < 0.5 else s[:-1]
            g.say("ss", x, *s)
            if f.kind == "r" and len(s) == len(f.caps) and all(a <= b for a, b in zip(s, f.caps)): put(s)
        elif op == "setup" and o.kind != "h":
            g.say("setup", k + 1)
            if o.kind == "r": o.sizes = [0] * len(o.sizes)
        elif op == "rz" and o.kind == "r":
            g.resize(k)
        elif op == "wr" and any(o.caps):
            i = r.choice([i for i, c in enumerate(o.caps) if c])
            g.say("wr", k + 1, i, r.randrange(o.caps[i]), r.randint(0, 255))
        elif op == "free":
            g.say("free", k + 1); o.live = False
        elif op == "mv" and o.kind != "h" and len(g.os) < 13:
            g.say("mv", k + 1); o.live = False
            n = Obj(o.kind, o.jag, o.dev, o.caps, o.sizes); g.os.append(n)
        elif op == "ma" and o.kind != "h":
            c = g.live(lambda q: q.kind != "h" and q.jag == o.jag and q is not o)
            if c:
                j = r.choice(c)
                g.say("ma", k + 1, j + 1)
                p = g.os[j]
                o.kind, o.dev, o.caps, o.sizes, p.live = p.kind, p.dev, p.caps, p.sizes, False
        elif op == "b0" and len(g.os) < 13:
            j = r.randint(0, 1)
            g.say("b0", j); g.os.append(Obj("f", j, 0, [] if j else [0]))
        elif op == "wait":
            g.say("wait")
    def run(g, n):
        for _ in range(n): g.step()
        return g.out

# ------------------------------------------------------------ negatives ---
def ops(evs, *names):
    return [(i, e) for i, e in enumerate(evs) if e["e"] == "op" and e["op"] in names]
def seen(e, k=None):
    return [b for i, b in enumerate(e["obs"]) if b["n"] == 0 and (k is None or i == k - 1)]
def neg_late(evs):
    for i, e in ops(evs, "wait"):
        for b in seen(e):
            for v in b["v"]:
                if v and len(b["v"]) == 1 and b["s"][0] > 0:
                    v[0] += 1
                    return evs[:i + 1]
def neg_value(evs):
    for i, e in ops(evs, "copy", "tv"):
        for b in seen(e, e["t"][0]):
            for j, v in enumerate(b["v"]):
                if v and e["thr"] == 0 and b["s"][j] > 0:
                    v[0] += 1
                    return evs[:i + 1]
def neg_size(evs):
    for i, e in ops(evs, "copy", "tv", "ss", "rz"):
        for b in seen(e, e["t"][0]):
            if b["s"]:
                b["s"][-1] += 1
                return evs[:i + 1]
def neg_elsewhere(evs):
    for i, e in ops(evs, "copy", "ms"):
        for k, b in enumerate(e["obs"]):
            if b["n"] == 3 and k + 1 != e["t"][0] and any(any(x["obs"][k]["n"] == 0 and x["obs"][k]["v"] and x["obs"][k]["v"][0] for _, x in ops(evs[:i], "host", "buf", "copy") if k < len(x["obs"])) for _ in [0]):
                last = [x["obs"][k] for _, x in ops(evs[:i], "host", "buf", "copy", "wr", "rz", "ms", "tv", "to", "ss", "setup", "mv", "ma") if k < len(x["obs"]) and x["obs"][k]["n"] == 0][-1]
                if last["v"] and last["v"][0]:
                    import copy
                    e["obs"][k] = copy.deepcopy(last)
                    e["obs"][k]["v"][0][0] += 1
                    return evs[:i + 1]
def neg_refused(evs):
    for i, e in ops(evs, "copy", "ss"):
        if e["thr"] == 1:
            e["thr"] = 0
            return evs[:i + 1]
def neg_throws(evs):
    for i, e in ops(evs, "copy", "ss"):
        if e["thr"] == 0:
            e["thr"] = 1
            return evs[:i + 1]
def neg_hint(evs):
    for i, e in ops(evs, "setup", "copy", "to"):
        for t in e["tr"]:
            if t[0] == 0 and t[2] == 1 and (e["op"] == "setup" or e["hint"] == 4):
                t[0] = 2
                return evs[:i + 1]
def neg_hint_copy(evs):
    for i, e in ops(evs, "copy"):
        for t in e["tr"]:
            if e["hint"] == 1 and t[0] == 1 and t[1] == 1:
                t[0] = 0
                return evs[:i + 1]
def neg_dead(evs):
    for i, e in ops(evs, "copy"):
        e["dead"] = 1
        return evs[:i + 1]
def neg_oob(evs):
    for i, e in ops(evs, "copy"):
        e["oob"] = 1
        return evs[:i + 1]
def neg_crash(evs):
    for i, e in ops(evs, "to", "copy"):
        return evs[:i] + [dict(e="crash", sig=11)]
def neg_align(evs):
    for i, e in ops(evs, "buf"):
        if e["lay"]:
            e["lay"][-1][2] = 1
            return evs[:i + 1]
def neg_overlap(evs):
    for i, e in ops(evs, "buf"):
        if len(e["lay"]) > 1 and e["lay"][1][1] > 0 and e["lay"][0][1] > 0:
            e["lay"][1][0] = e["lay"][0][0]
            return evs[:i + 1]
def neg_outside(evs):
    for i, e in ops(evs, "buf"):
        if any(l[1] > 1 for l in e["lay"]) and e["ups"]:
            for u in e["ups"]:
                u[3] = 1
            return evs[:i + 1]
def neg_kept(evs):
    made = [e["op"] for _, e in ops(evs, "host", "buf", "to", "mv")]
    for i, e in ops(evs, "free", "ma"):
        if e["ups"] and made[e["t"][0] - 1] == "buf":
            e["ups"] = e["ups"][:-1]
            return evs[:i + 1]
def neg_setup(evs):
    for i, e in ops(evs, "setup"):
        for b in seen(e, e["t"][0]):
            if b["s"]:
                b["s"][-1] += 1
                return evs[:i + 1]
def neg_descr(evs):
    for i, e in ops(evs, "setup"):
        for b in seen(e, e["t"][0]):
            b["dd"] = 0
            return evs[:i + 1]
def neg_caps(evs):
    for i, e in ops(evs, "buf"):
        b = e["obs"][-1]
        if b["c"]:
            b["c"][0] += 1
            b["v"][0].append(1)
            return evs[:i + 1]
def neg_out(evs):
    for i, e in enumerate(evs):
        if e["e"] == "drop":
            e["out"] = 1
            return evs[:i + 1]

# --------------------------------------------------------------- checks ---
def mc(start, ops, forms, calls, objs, name):
    return dict(module="MCCopy", tag="MCCopy-" + name, cfg="SPECIFICATION MCSpec\nCONSTANTS Start = %d Ops = {%s} Forms = {%s} MaxCalls = %d MaxObjs = %d Name = \"%s\"\nVIEW MCView\nACTION_CONSTRAINT Emit\nINVARIANT Bounded\nINVARIANT Sizes\nPROPERTY CapacitiesKept\n"
                % (start, ", ".join('"%s"' % o for o in ops), ", ".join('"%s"' % f for f in forms), calls, objs, name))

def check(ctx, name, jobs, weights, negative, modes=(0,), dims=(0, 1), dev=0.6, wrong=0.25, nmc=500, nrnd=400, waits=False, extra=None, also={}):
    ctx.build(dict(DRIVER, **also))
    if extra:
        extra(ctx)
    mcs = []
    for scripts, j in zip(ctx.models(jobs), jobs):
        for i, s in enumerate(core.sample(ctx.rng("cover" + j["tag"]), core.maximal(scripts), ctx.scale(nmc, 12 * nmc))):
            mcs.append(["R %s %d %d" % (TYPES[(i + ctx.seed) % 4], i + 1, modes[i % len(modes)])] + [x for x in s[1:] if x])
    r = ctx.rng("random")
    rnd = []
    for i in range(ctx.scale(nrnd, 12 * nrnd)):
        rnd.append(Gen(r, weights, modes[i % len(modes)], dims, dev, wrong, big=i % 10 == 0).run(r.choice([8, 20, 40])))
    ctx.family(name, "copy", mcs + rnd, [CP], from_model=len(mcs), negative=negative)

W = dict(make=3, copy=8, tv=3, to=2, ms=1, gs=1, ss=1, setup=0.5, rz=2, wr=3, free=1, mv=0.5, ma=0.5, b0=0.2, wait=0)

def c24(ctx):
    check(ctx, "buffers", [mc(s, ["to", "bufv", "free", "mv", "ma", "setup", "rz"], [], ctx.scale(3, 4), 5, "buffers%d" % s) for s in (1, 3, 4)],
          dict(make=8, copy=1, to=3, bv=3, setup=2, rz=1, wr=1, free=3, mv=2, ma=2, b0=1), [neg_align, neg_overlap, neg_outside, neg_kept, neg_setup, neg_descr, neg_caps, neg_out])
    big.made(ctx)
def c25(ctx):
    check(ctx, "copies of vectors", [mc(s, ["copy", "tv", "to", "ms", "rz", "gs"], ["s"], ctx.scale(3, 4), 4, "flat%d" % s) for s in (1, 2)] +
          [mc(6, ["copy", "tv", "ms", "rz"], ["r"], ctx.scale(3, 4), 3, "rows")], dict(W, ss=0), [neg_value, neg_size, neg_elsewhere], dims=(0, 0, 0, 0, 1), wrong=0.1)
    big.copied1(ctx)
def c26(ctx):
    check(ctx, "copies of jagged vectors", [mc(s, ["copy", "tv", "to", "ms", "rz", "gs", "ss"], ["p"] if s == 5 else [], ctx.scale(2 if s == 5 else 3, 4), 4, "jagged%d" % s) for s in (3, 4, 5)],
          W, [neg_value, neg_size, neg_elsewhere], dims=(1, 1, 1, 1, 0), wrong=0.1)
    big.copiedj(ctx)
def c27(ctx):
    check(ctx, "copies that do not fit", [mc(s, ["copy", "ss", "rz"], ["p"] if s > 2 else ["s"], ctx.scale(2 if s > 2 else 3, 3), 3, "misfit%d" % s) for s in (1, 2, 3, 4, 5)],
          dict(W, ms=0.3, ss=3, copy=10), [neg_refused, neg_throws, neg_value], wrong=0.7, nmc=350)
def c28(ctx):
    check(ctx, "device memory", [mc(s, ["copy", "tv", "to", "ms", "ss", "gs", "rz"], [], 3, 4, "device%d" % s) for s in (1, 3, 4)],
          W, [neg_hint, neg_hint_copy, neg_oob, neg_crash], dev=0.9, wrong=0.1, nmc=350, nrnd=300, also=edm.DRIVER)
    edm.family(ctx, "structured device memory", [edm.mc(s, k, ["copy", "tv", "ms", "setup", "gs", "rz"], ctx.scale(2, 3), 3, "edm-device-" + s) for s, k in (("a", 1), ("d", 4), ("e", 5))],
               edm.W, [neg_hint, neg_hint_copy, neg_oob, neg_crash], dev=0.9, wrong=0.1, nmc=150, nrnd=250)
def c29(ctx):
    def deferred(ctx):
        right = '"copy", "jagged", "tovec", "to", "setup", "getsize"'
        cfg = "SPECIFICATION Spec\nCONSTANTS Objects = {%s} MaxOps = %d Kinds = {%s}\nINVARIANT AsIfAtOnce\nINVARIANT NoneDangling\n%s"
        ctx.model("Deferred", cfg % ('"a", "b", "c"', 3, right, ""), tag="Deferred")
        ctx.model("Deferred", cfg % ('"a", "b"', ctx.scale(3, 5), right, "PROPERTY Ends\n"), tag="Deferred-ends")
        for k in ("nowait", "noread", "overtake"):
            ctx.refuted("Deferred", cfg % ('"a", "b"', 2, '"copy", "setup", "%s"' % k, ""), "Deferred-" + k)
    check(ctx, "deferred transfers", [mc(s, ["copy", "tv", "to", "ms", "ss", "gs", "setup"], [], 3, 4, "deferred%d" % s) for s in (1, 3, 4)],
          dict(W, wait=2), [neg_late, neg_dead, neg_size], modes=(1, 2), wrong=0.1, extra=deferred, nmc=350, nrnd=300, also=edm.DRIVER)
    edm.family(ctx, "deferred transfers of structured containers", [edm.mc(s, k, ["copy", "tv", "ms", "setup", "gs"], ctx.scale(2, 3), 3, "edm-deferred-" + s) for s, k in (("b", 1), ("a", 3), ("d", 4))],
               dict(edm.W, wait=2), [edm.neg_late, neg_dead], modes=(1, 2), dev=0.8, wrong=0.1, nmc=150, nrnd=250)

CHECKS = dict(C24=c24, C25=c25, C26=c26, C27=c27, C28=c28, C29=c29)
