"""Checks of C21 (static vector)."""
from .. import core
from . import dvec

DRIVER = {"static": ("static_driver.cpp", [])}
BUILD = dict(lib=False)
SV = ("StaticVectorTrace", core.trace_cfg(invs=["WithinCapacity", "LiveIsSize"]))
OPS = ["push", "pusha", "pop", "clear", "resize", "resizev", "resizea", "assign", "assignr", "set", "ins", "insa", "insn", "insna", "insr",
       "del", "delr", "asg", "copyc", "new0", "newd", "newn", "newr"]

def random_case(r, n, large=False):
    t = r.choice("ic" if large else "icicCAypww")
    cap = r.choice([40, 40, 150, 300] if large else [0, 1, 3, 4, 9, 9] if t in "ic" else [3, 4])
    nv = r.choice([1, 2, 2, 3])
    c = ["R %s %d %d %d" % (t, cap, r.randint(1, 10**6), nv)]
    size = [0] * nv
    for _ in range(n):
        v = r.randrange(nv)
        s = size[v]
        op = r.choice(OPS + ["ins", "ins", "insn", "push", "del", "insa", "insna", "delr"])
        val = lambda: r.randint(-90, 100)
        room = cap - s
        pos = r.choice([0, s, r.randint(0, s)])
        cnt = r.choice([0, 1, room, r.randint(0, room)])
        to = r.choice([0, cap, s, max(0, s - 1), min(cap, s + 1), r.randint(0, cap)])
        el = r.randrange(s) if s else None
        x, s2 = [], s
        if op in ("pusha", "resizea", "set", "insa", "insna", "del", "pop") and not s:
            continue
        if op == "push": x, s2 = [val()], s + 1
        elif op == "pusha": x, s2 = [el], s + 1
        elif op == "pop": s2 = s - 1
        elif op in ("clear", "new0"): s2 = 0
        elif op in ("resize", "newd"): x, s2 = [to], to
        elif op in ("resizev", "assign", "newn"): x, s2 = [to, val()], to
        elif op == "resizea": x, s2 = [to, el], to
        elif op in ("assignr", "newr"): x, s2 = [val() for _ in range(to)], to
        elif op == "set": x = [el, val()]
        elif op == "ins": x, s2 = [pos, val()], s + 1
        elif op == "insa": x, s2 = [pos, el], s + 1
        elif op == "insn": x, s2 = [pos, cnt, val()], s + cnt
        elif op == "insna": x, s2 = [pos, cnt, el], s + cnt
        elif op == "insr": x, s2 = [pos] + [val() for _ in range(cnt)], s + cnt
        elif op == "del": x, s2 = [el], s - 1
        elif op == "delr":
            q = r.choice([pos, s, r.randint(pos, s)])
            x, s2 = [pos, q], s - (q - pos)
        else:
            w = r.randrange(nv)
            if op == "copyc" and w == v: continue
            x, s2 = [w + 1], size[w]
        if s2 > cap:
            continue
        size[v] = s2
        c.append("%s %d %s" % (op, v + 1, " ".join(map(str, x))))
    return c

def neg_elsewhere(evs):
    for i, e in enumerate(evs):
        if e["e"] == "op" and e["op"] == "ins" and e["x"][0] > 0 and e["lt"]:
            e["lt"] = [["a", e["v"], 0, 5]] + e["lt"]
            return evs[:i + 1]

def neg_bytes(evs):
    """Moved without a constructor."""
    for i, e in enumerate(evs):
        if e["e"] == "op" and e["op"] == "del" and len(e["lt"]) > 1:
            e["lt"] = e["lt"][:1]
            return evs[:i + 1]

def neg_order(evs):
    for i, e in enumerate(evs):
        if e["e"] == "op" and e["op"] == "ins" and len(set(e["obs"][e["v"] - 1]["rd"][0])) > 1:
            e["obs"][e["v"] - 1]["rd"][0].reverse()
            if e["obs"][e["v"] - 1]["rd"][0] != e["obs"][e["v"] - 1]["rd"][0][::-1]:
                return evs[:i + 1]
            e["obs"][e["v"] - 1]["rd"][0].reverse()

def neg_copy(evs):
    for i, e in enumerate(evs):
        if e["e"] == "op" and e["op"] == "asg" and e["x"][0] != e["v"] and e["obs"][e["x"][0] - 1]["rd"][0]:
            e["obs"][e["x"][0] - 1]["rd"][0][0] += 1
            return evs[:i + 1]

def mc(ops, cap, n, name, calls):
    return dict(module="MCStaticVector", tag="MCStaticVector-" + name, cfg="SPECIFICATION MCSpec\nCONSTANTS Cap = %d N = %d Ops = {%s} MaxCalls = %d Name = \"%s\"\nVIEW MCView\nACTION_CONSTRAINT Emit\nINVARIANT WithinCapacity\nINVARIANT LiveIsSize\nPROPERTY OthersKept\n"
                % (cap, n, ", ".join('"%s"' % o for o in ops), calls, name))

def c21(ctx):
    ctx.build(DRIVER, lib=False)
    jobs = [mc(OPS, 3, 1, "one", ctx.scale(3, 4)), mc(["push", "ins", "insa", "insn", "insna", "insr", "del", "delr", "newr"], 4, 1, "middle", ctx.scale(3, 4)),
            mc(["push", "pop", "asg", "copyc", "ins", "del", "newn", "set"], 3, 2, "two", ctx.scale(4, 5)), mc(OPS, 1, 2, "tiny", ctx.scale(3, 4))]
    shp = [(3, 1), (4, 1), (3, 2), (1, 2)]
    mcs = []
    for scripts, j, (cap, n) in zip(ctx.models(jobs), jobs, shp):
        for i, s in enumerate(core.sample(ctx.rng("cover" + j["tag"]), core.maximal(scripts), ctx.scale(900, 8000))):
            t = "cicCAcypw"[(i + ctx.seed) % 9] if cap > 1 else "ic"[i % 2]
            mcs.append(["R %s %d %d %d" % (t, cap, i + 1, n)] + s[1:])
    r = ctx.rng("random")
    rnd = [random_case(r, r.choice([10, 30, 60])) for _ in range(ctx.scale(500, 6000))]
    rnd += [random_case(r, 20, True) for _ in range(ctx.scale(40, 500))]
    ctx.family("static vectors", "static", mcs + rnd, [SV], from_model=len(mcs),
               negative=[dvec.neg_ret, dvec.neg_twice, dvec.neg_guard, dvec.neg_views, neg_elsewhere, neg_bytes, neg_order, neg_copy])

CHECKS = dict(C21=c21)
