"""Checks of C18 (device vector)."""
from .. import core
from . import big

DRIVER = {"dvec": ("dvec_driver.cpp", [])}
BUILD = dict(lib=False)
DV = ("DeviceVectorTrace", core.trace_cfg(invs=["WithinCapacity", "LiveIsSize"]))

OPS = ["push", "pusha", "bulk", "bulkv", "bulka", "pop", "clear", "resize", "resizev", "resizea", "assign", "assignr", "set"]

def shape(r, large=False):
    if large:
        return [(r.choice([33, 64, 65, 130, 257, 300]), "r") for _ in range(r.choice([1, 1, 2]))] if r.random() < 0.6 else [(r.choice([0, 1, 3]), r.choice("rrf")) for _ in range(r.choice([9, 17, 33]))]
    n = r.choice([1, 1, 2, 3, 4])
    return [(r.choice([0, 1, 2, 3, 4, 5, 8, 13]), r.choice("rrrf")) for _ in range(n)]

def random_case(r, n, large=False):
    t = r.choice("iylcCApw")
    vs = shape(r, large)
    c = ["R %s %d %d %s" % (t, r.randint(1, 10**6), r.random() < 0.4, " ".join("%d %s" % v for v in vs))]
    size = [cap if k == "f" else 0 for cap, k in vs]
    for _ in range(n):
        v = r.randrange(len(vs))
        cap, k = vs[v]
        op = "set" if k == "f" else r.choice(OPS + ["impl", "resimp", "push", "push", "pop", "bulk", "bulkv"])
        if op in ("impl", "resimp") and t in "cCA":
            op = "push"
        s, room = size[v], cap - size[v]
        val = lambda: r.randint(-90, 100)
        n1 = r.choice([0, 1, 2, room, r.randint(0, max(room, 0))])
        to = r.choice([0, cap, s, max(0, s - 1), min(cap, s + 1), r.randint(0, cap)])
        x = []
        if op == "push":
            x, s2 = [val()], s + 1
        elif op == "pusha":
            if s == 0: continue
            x, s2 = [r.choice([0, s - 1, r.randrange(s)])], s + 1
        elif op in ("bulk", "impl"):
            x, s2 = [n1], s + n1
        elif op == "bulkv":
            x, s2 = [n1, val()], s + n1
        elif op == "bulka":
            if s == 0: continue
            x, s2 = [n1, r.choice([0, s - 1])], s + n1
        elif op == "pop":
            s2 = s - 1
        elif op == "clear":
            s2 = 0
        elif op in ("resize", "resimp"):
            x, s2 = [to], to
        elif op in ("resizev", "assign"):
            x, s2 = [to, val()], to
        elif op == "resizea":
            if s == 0 or to < s: continue
            x, s2 = [to, r.randrange(s)], to
        elif op == "assignr":
            x, s2 = [val() for _ in range(to)], to
        else:
            if s == 0: continue
            x, s2 = [r.choice([0, s - 1, r.randrange(s)]), val()], s
        if s2 > cap or s2 < 0:
            continue
        size[v] = s2
        c.append("%s %d %s" % (op, v + 1, " ".join(map(str, x))))
    return c

def neg_lost(evs):
    for i, e in enumerate(evs):
        if e["e"] == "op" and e["op"] == "bulkv" and e["x"][0] > 1:
            for o in e["obs"]:
                if len(o["rd"][0]) > 1:
                    o["rd"][0][-1] += 1
                    return evs[:i + 1]

def neg_ret(evs):
    for i, e in enumerate(evs):
        if e["e"] == "op" and e["op"] in ("push", "bulk", "pop"):
            e["r"] += 1
            return evs[:i + 1]

def neg_twice(evs):
    for i, e in enumerate(evs):
        if e["e"] == "op" and e["op"] in ("clear", "pop") and e["lt"]:
            e["lt"].append(e["lt"][-1])
            return evs[:i + 1]

def neg_forgot(evs):
    for i, e in enumerate(evs):
        if e["e"] == "op" and e["op"] in ("assign", "resize") and e["lt"]:
            e["lt"].pop()
            return evs[:i + 1]

def neg_guard(evs):
    for i, e in enumerate(evs):
        if e["e"] == "op":
            e["g"] = 0
            return evs[:i + 1]

def neg_views(evs):
    for i, e in enumerate(evs):
        if e["e"] == "op" and e["obs"][0]["rd"][0]:
            e["obs"][0]["rd"].append([x + 1 for x in e["obs"][0]["rd"][0]])
            return evs[:i + 1]

def mc(ops, caps, tag, name, calls):
    # the capacities are a constant operator of the model
    return dict(module="MCDeviceVector", tag=tag, cfg="SPECIFICATION MCSpec\nCONSTANTS Caps <- %s Ops = {%s} MaxCalls = %d Name = \"%s\"\nVIEW MCView\nACTION_CONSTRAINT Emit\nINVARIANT WithinCapacity\nINVARIANT LiveIsSize\nPROPERTY CapacityKept\n"
                % (caps, ", ".join('"%s"' % o for o in ops), calls, name))

def from_models(ctx, jobs, limit):
    out = []
    for scripts, j in zip(ctx.models(jobs), jobs):
        shp = dict(One="3 r", Two="2 r 2 r", Mixed="0 r 2 f 2 r")[j["caps"] if "caps" in j else j["tag"].split("-")[1]]
        for i, s in enumerate(core.sample(ctx.rng("cover" + j["tag"]), core.maximal(scripts), limit)):
            out.append(["R %s %d %d %s" % ("cicCAylpw"[(i + ctx.seed) % 9], i + 1, i // 3 % 2, shp)] + s[1:])
    return out

def c18(ctx):
    ctx.build(DRIVER, lib=False)
    mcs = from_models(ctx, [mc(OPS, "One", "MCDeviceVector-One", "1", ctx.scale(4, 5)),
                            mc(["push", "bulk", "pop", "resizev", "clear", "set"], "Two", "MCDeviceVector-Two", "2", ctx.scale(4, 5)),
                            mc(["push", "bulkv", "assign", "assignr", "set"], "Mixed", "MCDeviceVector-Mixed", "3", ctx.scale(3, 4))], ctx.scale(800, 6000))
    r = ctx.rng("random")
    rnd = [random_case(r, r.choice([10, 30, 60])) for _ in range(ctx.scale(400, 5000))]
    rnd += [random_case(r, 20, True) for _ in range(ctx.scale(40, 500))]
    ctx.family("device vectors", "dvec", mcs + rnd, [DV], from_model=len(mcs), negative=[neg_lost, neg_ret, neg_twice, neg_forgot, neg_guard, neg_views])
    big.appended(ctx)

CHECKS = dict(C18=c18)
